"""Model of what the library reads and writes through: binary files, UTF-8, JSON text and CRC-32C.
Contents are symbolic; UTF-8, JSON and CRC-32C are uninterpreted functions with the laws stated here:
decoding UTF-8 inverts encoding, loading JSON inverts dumping, and the checksum is a function of the bytes
that can be computed piece by piece."""
import ast, builtins, io, json, re, os
import z3
from core import *
from heap import *
import core
from interp import *
import lib, libstr
from lib import model, meth, METHODS, MODELS, as_idx, EQUALS
from libstr import STR, fresh_str

UTF8 = "UTF-8 decoding inverts encoding (CPython codec)"
JSON = "json.loads inverts json.dumps for extra headers (CPython json)"
CRC = "crc32c.crc32c(b, crc32c.crc32c(a)) is the CRC-32C of a followed by b (crc32c package)"

# ---------------------------------------------------------------- UTF-8
ULEN = z3.Function("utf8_len", STR, z3.IntSort())
UBYTE = z3.Function("utf8_byte", STR, z3.IntSort(), z3.BitVecSort(8))
UVALID = z3.Function("utf8_encodable", STR, z3.BoolSort())
def codec_name(it, args, kw):
    n = args[0] if args else kw.get("encoding", "utf-8")
    if not isinstance(n, str) or n.lower().replace("-", "").replace("_", "") != "utf8": raise Unsupported(f"codec {n}")
    if len(args) > 1 or "errors" in kw: raise Unsupported("codec error handling")

def utf8(t):
    """bytes of the text t (z3 string)"""
    n = ULEN(t)
    core.X.assume(z3.And(n >= z3.Length(t), n <= 4 * z3.Length(t)))
    return Seq(n, lambda i: UBYTE(t, nterm(i)))

@meth(SS, "encode")
def _encode(it, o, args, kw):
    codec_name(it, args, kw)
    h = builtins.getattr(it, "encode_hook", None)
    if h is not None:
        r = h(it, o)
        if r is not None: return r
    if not builtins.getattr(it, "all_encodable", True) and not it.branch(boolv(UVALID(o.t))): it.exc(UnicodeEncodeError, "surrogates not allowed")
    return BA(utf8(o.t), False)

@meth(BA, "decode")
def _decode(it, o, args, kw):
    h = builtins.getattr(it, "decode_hook", None)
    if h is not None:
        r = h(it, o, args, kw)
        if r is not None: return r
    codec_name(it, args, kw)
    s = o.seq
    if isinstance(s.n, int) and s.n == 0: return ""
    if isinstance(s, CSeq):
        vs = [z3.simplify(b) for b in s.items]
        if all(z3.is_bv_value(v) for v in vs):
            try: return bytes(v.as_long() for v in vs).decode("utf-8")
            except UnicodeDecodeError as e: raise PyRaise(UnicodeDecodeError, e.args)
    ok = core.X.fbool("valid_utf8")
    if not core.X.branch(ok): it.exc(UnicodeDecodeError, "invalid utf-8")
    r = fresh_str("decoded")
    core.X.assume(z3.And(ULEN(r.t) == nterm(s.n), (ULEN(r.t) == 0) == (z3.Length(r.t) == 0)))
    it.decoded = builtins.getattr(it, "decoded", []) + [(r, s)]
    return r

def decodes_to(it, x, r, t, name):
    """the text r came from bytes that are the UTF-8 of t: then it is t"""
    if isinstance(r, str): x.prove(z3.StringVal(r) == t, name); return
    for q, s in builtins.getattr(it, "decoded", []):
        if q is r:
            x.prove(nterm(s.n) == ULEN(t), name + " (length)")
            x.forall(0, nterm(s.n), lambda i: s.get(i) == UBYTE(t, i), name + " (bytes)")
            x.assume(r.t == t)
            return
    x.prove(r.t == t, name)

# ---------------------------------------------------------------- JSON
JS = z3.DeclareSort("Json")
JDUMP = z3.Function("json_dumps", JS, STR)
JLOAD = z3.Function("json_loads", STR, JS)
JVALID = z3.Function("json_valid", STR, z3.BoolSort())
JLEN = z3.Function("json_len", JS, z3.IntSort())
class JV(Heap):
    """extra headers as a dict; content is a term of sort Json. A copy made by json is another object"""
    pyclass = dict
    def __init__(self, content):
        super().__init__(); self.a = {"content": content}
    @property
    def content(self): return self.a["content"]
    def put(self, c): self._set(self.a, "content", c)
    def sym_len(self, it):
        n = JLEN(self.content); core.X.assume(n >= 0)
        return n
    def truth(self):
        core.X.assume(JLEN(self.content) >= 0)
        return JLEN(self.content) > 0
    def __repr__(self): return f"JV({self.content})"

class JA(JV):
    """extra headers that are a JSON array"""
    pyclass = list
class JN(JV):
    """extra headers that are a number or true or false"""
    pyclass = float
    def sym_len(self, it): it.exc(TypeError, "object of type 'float' has no len()")
    def truth(self): return core.X.fbool("nonzero")
JKIND = z3.Function("json_kind", JS, z3.IntSort())      # 0 object, 1 array, 2 number or boolean, 3 string, 4 null
JSTR = z3.Function("json_of_text", STR, JS)
EMPTY = z3.Const("empty_object", JS)
def json_value(it, c):
    """python value of the content c; it.json_kinds: of any kind, else an object (what the format asks for)"""
    if not builtins.getattr(it, "json_kinds", False): return JV(c)
    x = core.X
    x.assume(z3.And(JKIND(c) >= 0, JKIND(c) <= 4))
    for k, cl in enumerate((JV, JA, JN)):
        if x.branch(JKIND(c) == k): return cl(c)
    if x.branch(JKIND(c) == 3):
        r = fresh_str("json_string"); x.assume(JSTR(r.t) == c)
        return r
    return None
def json_term(v):
    """content of a python value made by json_value, None where it is not known"""
    if isinstance(v, JV): return v.content
    if isinstance(v, SS): return JSTR(v.t)
    if isinstance(v, PDict):
        if not v.d: return EMPTY
        if list(v.d) == ["<json>"]: return v.d["<json>"].content
    return None
def same_json(v, c):
    """z3 Bool: the python value v has content c"""
    if v is None: return JKIND(c) == 4
    t = json_term(v)
    return z3.BoolVal(False) if t is None else t == c

def json_text(c):
    t = JDUMP(c)
    core.X.assume(z3.And(JLOAD(t) == c, JVALID(t), z3.Length(t) >= 2, (z3.Length(t) == 2) == (JLEN(c) == 0), JLEN(c) >= 0))
    return SS(t)

@model(json.dumps)
def _dumps(it, args, kw):
    v = args[0]
    if isinstance(v, JV):
        if kw or len(args) > 1:
            if set(kw) <= {"indent"}: return fresh_str("json")      # only for display
            raise Unsupported("json.dumps options")
        if type(v) is JN:
            t = JDUMP(v.content); core.X.assume(z3.And(JLOAD(t) == v.content, JVALID(t), z3.Length(t) >= 1))
            return SS(t)
        return json_text(v.content)
    if isinstance(v, (SS, PDict)) and json_term(v) is not None and builtins.getattr(it, "json_kinds", False):
        t = JDUMP(json_term(v)); core.X.assume(z3.And(JLOAD(t) == json_term(v), JVALID(t)))
        return SS(t)
    h = builtins.getattr(it, "dumps_hook", None)
    if h is not None: return h(it, v, kw)
    if is_native(v):
        try: return json.dumps(v, **kw)
        except Exception as e: raise PyRaise(type(e), e.args)
    raise Unsupported(f"json.dumps of {type(v).__name__}")

@model(json.loads)
def _loads(it, args, kw):
    if kw: raise Unsupported("json.loads options")
    t = args[0]
    if isinstance(t, str):
        try: v = json.loads(t)
        except Exception as e: raise PyRaise(type(e), e.args)
        if isinstance(v, dict) and not v:
            c = core.X.fresh("empty_object", JS); core.X.assume(JLEN(c) == 0)
            return JV(c)
        raise Unsupported("json.loads of concrete text")
    if not isinstance(t, SS): it.exc(TypeError, "the JSON object must be str, bytes or bytearray")
    if not core.X.branch(JVALID(t.t)): it.exc(json.JSONDecodeError, "Expecting value")
    return json_value(it, JLOAD(t.t))

# ---------------------------------------------------------------- CRC-32C
class Crc:
    """checksums taken so far: term -> content it is the checksum of"""
    def __init__(self, it):
        self.tab = []; self.eager = False
        it.crc = self
    def of(self, t):
        for u, s in self.tab:
            if u.eq(t): return s
        return None
    def spec(self, x, seq):
        """the CRC-32C of seq: equal contents have equal checksums"""
        t = x.fint("crc_spec")
        x.assume(z3.And(t >= 0, t < 1 << 32))
        for u, s in self.tab:
            if same_content(x, s, seq): x.assume(t == u)
        return t

def same_content(x, a, b):
    if a is b: return True
    if x.decide(nterm(a.n) == nterm(b.n)) is not True: return False
    if isinstance(a.n, int) and a.n == 0 or isinstance(b.n, int) and b.n == 0: return True
    k = x.fint("k")
    return x.decide(z3.Implies(z3.And(k >= 0, k < nterm(a.n)), a.get(k) == b.get(k))) is True
try:
    import crc32c as _crc
    CRCF = _crc.crc32c
except ImportError:
    CRCF = None
if CRCF is not None:
    def _crc32c(it, args, kw):
        c = builtins.getattr(it, "crc", None)
        if c is None: raise Unsupported("crc32c in a unit without checksum model")
        b = lib.to_ba(args[0])
        init = args[1] if len(args) > 1 else kw.get("value", 0)
        if isinstance(init, int):
            if init != 0: raise Unsupported("crc32c start value")
            s = CSeq([])
        else:
            s = c.of(nterm(as_int(init)))
            if s is None: raise Unsupported("crc32c continued from an unknown value")
        s = seq_concat(s, b.seq)
        t = core.X.fint("crc32c")
        core.X.assume(z3.And(t >= 0, t < 1 << 32))
        if c.eager:
            for u, q in c.tab:
                if same_content(core.X, q, s): core.X.assume(t == u)
        c.tab.append((t, s))
        return SI(t)
    MODELS[id(CRCF)] = (CRCF, _crc32c)

# ---------------------------------------------------------------- files
class SymFile(Heap):
    """binary file open for reading: content from position on; or for writing: the list of what was written"""
    pyclass = io.BufferedReader
    by_identity = True
    def __init__(self, content=None, pos=0, label="file"):
        super().__init__(); self.label = label
        self.a = {"content": content, "pos": pos, "written": (), "open": True}
    def sym_getattr(self, it, name):
        if (SymFile, name) in METHODS: return BMethod(self, name)
        raise Unsupported(f"file.{name}")
    def sym_enter(self, it): return self
    def sym_exit(self, it): self._set(self.a, "open", False)
    def truth(self): return True

@meth(SymFile, "read")
def _fread(it, o, args, kw):
    s, pos = o.a["content"], o.a["pos"]
    if s is None: it.exc(io.UnsupportedOperation, "not readable")
    left = simp(nterm(s.n) - nterm(pos)) if not (isinstance(s.n, int) and isinstance(pos, int)) else s.n - pos
    if known_t(nterm(left) >= 0) is not True: left = simp(z3.If(nterm(left) >= 0, left, 0))
    if not args or args[0] is None: n = left
    else:
        n = as_idx(args[0])
        if not it.branch(boolv(nterm(n) >= 0)): n = left
        elif core.X.decide(nterm(n) <= nterm(left)) is not True:
            n = left if not it.branch(boolv(nterm(n) <= nterm(left))) else n
    r = seq_slice(s, pos, simp(nterm(pos) + nterm(n)))
    o._set(o.a, "pos", simp(nterm(pos) + nterm(n)))
    return BA(r, False)
def known_t(c): return core.X.decide(c)
@meth(SymFile, "seek")
def _fseek(it, o, args, kw):
    off = as_idx(args[0]); wh = args[1] if len(args) > 1 else kw.get("whence", 0)
    if wh == 0: p = off
    elif wh == 1: p = simp(nterm(o.a["pos"]) + nterm(off))
    elif wh == 2: p = simp(nterm(o.a["content"].n) + nterm(off))
    else: raise Unsupported("seek whence")
    if not it.branch(boolv(nterm(p) >= 0)): it.exc(OSError, "negative seek position")
    o._set(o.a, "pos", p)
    return intv(p)
@meth(SymFile, "tell")
def _ftell(it, o, args, kw): return intv(o.a["pos"])
@meth(SymFile, "write")
def _fwrite(it, o, args, kw):
    if o.a["content"] is not None: it.exc(io.UnsupportedOperation, "not writable")
    h = builtins.getattr(it, "write_hook", None)
    if h is not None: h(it, o, args[0])
    o._set(o.a, "written", o.a["written"] + (args[0],))
    return intv(lib.length(it, args[0]))
@meth(SymFile, "close", "flush")
def _fclose(it, o, args, kw):
    o._set(o.a, "open", False)
    return None

@model(io.BytesIO)
def _bytesio(it, args, kw):
    if not args: raise Unsupported("BytesIO for writing")
    return SymFile(lib.to_ba(args[0]).seq)

@model(builtins.open)
def _open(it, args, kw):
    h = builtins.getattr(it, "open_hook", None)
    if h is None: raise Unsupported("open")
    return h(it, args, kw)

def _rename(it, args, kw):
    h = builtins.getattr(it, "rename_hook", None)
    if h is None: raise Unsupported("renaming a file")
    return h(it, args)
for _f in (os.rename, os.replace): MODELS[id(_f)] = (_f, _rename)

# ---------------------------------------------------------------- JSON pointers
try:
    import jsonpointer as _jp
except ImportError:
    _jp = None
SETP = z3.Function("json_set", JS, STR, JS, JS)
RESOLVE = z3.Function("json_resolve", JS, STR, JS)
SETOK = z3.Function("json_can_set", JS, STR, z3.BoolSort())
RESOK = z3.Function("json_has", JS, STR, z3.BoolSort())
POINTER = "jsonpointer.set_pointer puts a value at a pointer of a document, or refuses; JsonPointer.resolve finds it (jsonpointer package)"
class JP(Sym):
    """JSON pointer of some text"""
    def __init__(self, t): self.t = t; self.pyclass = _jp.JsonPointer
    def truth(self): return True
    def sym_getattr(self, it, name):
        if (JP, name) in METHODS: return BMethod(self, name)
        raise Unsupported(f"JsonPointer.{name}")
def ptr_text(it, v):
    if isinstance(v, JP): return v.t
    if not isinstance(v, (str, SS)): it.exc(TypeError, "pointer is not text")
    t = libstr.sterm(v)
    if not core.X.branch(z3.Or(z3.Length(t) == 0, z3.PrefixOf(z3.StringVal("/"), t))): it.exc(_jp.JsonPointerException, "Location must start with /")
    return t
def put_pointer(it, doc, t, value, inplace=True):
    c = json_term(doc)
    if c is None: it.exc(_jp.JsonPointerException, "not a document")
    v = json_term(value)
    if v is None:
        if value is not None: raise Unsupported("set_pointer of an unknown value")
        v = core.X.fresh("null", JS); core.X.assume(JKIND(v) == 4)
        v = builtins.getattr(it, "json_null", v)
    if inplace and core.X.branch(z3.Length(t) == 0): it.exc(_jp.JsonPointerException, "Cannot set root in place")
    if not core.X.branch(SETOK(c, t)): it.exc(_jp.JsonPointerException, "pointer not found")
    n = SETP(c, t, v)
    core.X.assume(JKIND(n) == JKIND(c))
    if not inplace: return JV(n)
    if isinstance(doc, PDict): doc._set(doc.a, "d", {"<json>": JV(n)})
    elif isinstance(doc, JV): doc.put(n)
    else: it.exc(_jp.JsonPointerException, "not a document")
    return doc
if _jp is not None:
    def _setp(it, args, kw):
        a = dict(zip(("doc", "pointer", "value", "inplace", "create"), args)); a.update(kw)
        if a.get("create", False) is not False: raise Unsupported("set_pointer with create")
        return put_pointer(it, a["doc"], ptr_text(it, a["pointer"]), a["value"], a.get("inplace", True))
    MODELS[id(_jp.set_pointer)] = (_jp.set_pointer, _setp)
    MODELS[id(_jp.JsonPointer)] = (_jp.JsonPointer, lambda it, args, kw: JP(ptr_text(it, args[0])))
    def resolve_pointer(it, doc, t):
        c = json_term(doc)
        if c is None:
            # null has no members
            if doc is None and core.X.branch(z3.Length(t) == 0): return None
            it.exc(_jp.JsonPointerException, "pointer not found")
        if not core.X.branch(z3.Or(z3.Length(t) == 0, RESOK(c, t))): it.exc(_jp.JsonPointerException, "pointer not found")
        r = RESOLVE(c, t)
        core.X.assume(z3.Implies(z3.Length(t) == 0, r == c))
        return json_value(it, r)
    meth(JP, "resolve")(lambda it, o, args, kw: resolve_pointer(it, args[0], o.t))
    meth(JP, "get")(lambda it, o, args, kw: resolve_pointer(it, args[0], o.t))
    meth(JP, "set")(lambda it, o, args, kw: put_pointer(it, args[0], o.t, args[1], *args[2:], **kw))

# ---------------------------------------------------------------- patterns of unknown text
class Pat(Sym):
    """compiled pattern of unknown text: search is some function of the text searched"""
    pyclass = re.Pattern
    def __init__(self, label="pattern"):
        self.found = z3.Function(f"{label}_found", STR, z3.BoolSort())
        self.other = z3.Function(f"{label}_match_only", STR, z3.BoolSort())
    def truth(self): return True
    def sym_getattr(self, it, name):
        if (Pat, name) in METHODS: return BMethod(self, name)
        raise Unsupported(f"pattern.{name}")
@meth(Pat, "search")
def _search(it, o, args, kw):
    if not isinstance(args[0], (str, SS)): it.exc(TypeError, "expected string or bytes-like object")
    if core.X.branch(o.found(libstr.sterm(args[0]))): return Opaque(re.Match, "match")
    return None
@meth(Pat, "match", "fullmatch")
def _pmatch(it, o, args, kw):
    if not isinstance(args[0], (str, SS)): it.exc(TypeError, "expected string or bytes-like object")
    # matching at the start only is narrower than searching
    t = libstr.sterm(args[0])
    core.X.assume(z3.Implies(o.other(t), o.found(t)))
    if core.X.branch(o.other(t)): return Opaque(re.Match, "match")
    return None
