"""Model of the Python builtins and of the standard library calls the code makes.
Each entry is an assumption about CPython; selftest.py cross-checks them on concrete inputs."""
import ast, types, builtins, operator, struct, math, sys, io
import z3
import numpy as np
from core import *
from heap import *
import core
from interp import *

MODELS = {}
def model(*fs):
    def deco(h):
        for f in fs: MODELS[id(f)] = (f, h)
        return h
    return deco

CLASSMETHODS = {}     # (class, name) -> handler, for builtin class methods (a new object on every access)
def model_of(f):
    if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, type):
        h = CLASSMETHODS.get((f.__self__, f.__name__))
        if h: return h
    try: e = MODELS.get(id(f))
    except TypeError: return None
    return e[1] if e else None

NATIVE_OK_MODULES = {"builtins", "math", "struct", "operator", "_operator", "_struct"}
def native_ok(f):
    if f in (print, open, exec, eval, input, __import__): return False
    m = getattr(f, "__module__", None)
    return m in NATIVE_OK_MODULES or getattr(f, "__objclass__", None) in (str, bytes, int, float, tuple)

def install(it):
    import libnp, libstr, libdt, libio      # register their models

METHODS = {}      # (kind class, name) -> handler(it, obj, args, kw)
def meth(cls, *names):
    def deco(h):
        for n in names: METHODS[(cls, n)] = h
        return h
    return deco

GETATTR = {}      # kind class -> handler(it, obj, name)

def method(it, o, name, args, kw):
    for c in type(o).__mro__:
        if (c, name) in METHODS: return METHODS[(c, name)](it, o, args, kw)
    if is_native(o) and all(is_native(a) for a in args) and all(is_native(a) for a in kw.values()):
        try: return lift(getattr(o, name)(*args, **kw))
        except Exception as e: raise PyRaise(type(e), e.args)
    raise Unsupported(f"method {name} of {type(o).__name__}")

def attr_of(it, o, name):
    for c in type(o).__mro__:
        if c in GETATTR:
            r = GETATTR[c](it, o, name)
            if r is not NOATTR: return r
    for c in type(o).__mro__:
        if (c, name) in METHODS: return BMethod(o, name)
    if is_native(o) or isinstance(o, np.dtype):
        try: v = builtins.getattr(o, name)
        except AttributeError as e: raise PyRaise(AttributeError, e.args)
        if callable(v) and not isinstance(v, type): return BMethod(o, name)
        return lift(v)
    if hasattr(o, "sym_getattr"): return o.sym_getattr(it, name)
    if isinstance(o, (PList, BA, NArr, AArr, SI, SB, NI, SF, SS)):
        if hasattr(py_class(o), name): return BMethod(o, name)
        raise PyRaise(AttributeError, (name,))
    raise Unsupported(f"attribute {name} of {type(o).__name__}")



import array as _array
def py_class(v):
    """the python type of a value"""
    if isinstance(v, Obj): return v.cls
    if isinstance(v, (NT, Exc)): return v.cls
    if isinstance(v, (SI, SB)): return int
    if isinstance(v, SBool): return bool
    if isinstance(v, NI): return {(8, True): np.int8, (16, True): np.int16, (32, True): np.int32, (64, True): np.int64,
                                  (8, False): np.uint8, (16, False): np.uint16, (32, False): np.uint32, (64, False): np.uint64}[(v.w, v.signed)]
    if isinstance(v, SF): return float if v.np is None else {32: np.float32, 64: np.float64}[v.np]
    if isinstance(v, SS): return str
    if isinstance(v, PList): return list
    if isinstance(v, PDict): return dict
    if isinstance(v, BA): return bytearray if v.mutable else bytes
    if isinstance(v, (NArr, NArrND)): return np.ndarray
    if isinstance(v, AArr): return _array.array
    if isinstance(v, Opaque): return v.cls
    if hasattr(v, "pyclass"): return v.pyclass
    if isinstance(v, Sym): raise Unsupported(f"type of {v!r}")
    return type(v)

# ------------------------------------------------------------------ indices
def as_idx(v):
    if isinstance(v, (int, bool)): return int(v)
    t = as_int(v)
    return simp(t)

def seq_of(it, v):
    """-> (Seq of z3 elements or values, wrap)"""
    raise NotImplementedError

def elem_value(o, e):
    """stored element -> value"""
    if isinstance(o, BA): return sbv(z3.ZeroExt(1, e))
    if isinstance(o, NArr): return np_scalar(o.dt, e)
    if isinstance(o, AArr):
        if o.typecode in "fd": return SF(None, e)
        return sbv(z3.ZeroExt(1, e) if o.typecode in "BHILQ" else e)
    return e

def np_scalar(dt, e):
    if dt.kind in "iu": return NI(e, dt.kind == "i")
    if dt.kind == "f": return SF(None, e, dt.itemsize * 8)
    if dt.kind == "b": return boolv(e)
    raise Unsupported(f"array element of {dt}")

def concrete_len(v):
    if isinstance(v, (PList, BA, NArr, AArr)): return isinstance(v.seq.n, int)
    return True

def length(it, v):
    if isinstance(v, (PList, BA, NArr, AArr)): return v.seq.n
    if isinstance(v, PDict): return len(v.d)
    if isinstance(v, NT): return len(v.vals)
    if type(v) is tuple: return len(v)
    if isinstance(v, SS): return simp(z3.Length(v.t))
    if isinstance(v, NArrND):
        if len(v.shape) == 0: raise PyRaise(TypeError, ("len() of unsized object",))
        return as_idx(v.shape[0])
    if hasattr(v, "sym_len"): return v.sym_len(it)
    if is_native(v):
        try: return len(v)
        except TypeError as e: raise PyRaise(TypeError, e.args)
    if isinstance(v, (SI, SB, SBool, NI, SF)) or isinstance(v, Obj) and inspect_static(v.cls, "__len__") is NOATTR: raise PyRaise(TypeError, ("object has no len()",))
    raise Unsupported(f"len of {type(v).__name__}")

class RangeV(Sym):
    pyclass = range
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lo, hi, step
class EnumV(Sym):
    def __init__(self, n, elem): self.n, self.elem = n, elem

def iteration(it, v):
    """-> (n, elem(k))"""
    if isinstance(v, (PList, BA, NArr, AArr)):
        s = v.seq
        return s.n, lambda k: elem_value(v, s.get(k))
    if isinstance(v, RangeV):
        if v.step == 1:
            n = imax(simp(nterm(v.hi) - nterm(v.lo)), 0)
            return n, lambda k: intv(simp(nterm(v.lo) + nterm(k)))
        raise Unsupported("range step")
    if isinstance(v, EnumV): return v.n, v.elem
    if isinstance(v, LazyGen) and not v.e.generators[0].ifs: return v.n, lambda k: v.at(k)[1]
    if isinstance(v, PDict):
        ks = list(v.d); return len(ks), lambda k: ks[k]
    if isinstance(v, SS) and not isinstance(v, Opaque):
        t = sterm(v); return simp(z3.Length(t)), lambda k: SS(z3.simplify(z3.SubString(t, nterm(k), 1)))
    if isinstance(v, NT): return len(v.vals), lambda k: v.vals[k]
    if isinstance(v, (tuple, str, bytes, range)):
        if isinstance(v, str) and not isinstance(v, str): pass
        return len(v), lambda k: _cidx(v, k)
    if isinstance(v, Iter): return len(v.vals), lambda k: v.vals[k]
    if hasattr(v, "sym_iteration"): return v.sym_iteration(it)
    if isinstance(v, np.ndarray): return iteration(it, lift_array(v))
    if isinstance(v, types.MappingProxyType) or isinstance(v, dict):
        ks = list(v); return len(ks), lambda k: ks[k]
    raise Unsupported(f"iteration over {type(v).__name__}")

def _cidx(v, k):
    if isinstance(k, int): return lift(v[k])
    if isinstance(v, range) and v.step == 1: return intv(simp(k + v.start))
    raise Unsupported("symbolic index into a concrete sequence")

def iter_values(it, v, exact=None):
    n, elem = iteration(it, v)
    if not isinstance(n, int):
        if exact is not None:
            if it.branch(boolv(n == exact)): n = exact
            else: it.exc(ValueError, "unpack")
        else: n = core.X.concretize(n)
    return [elem(k) for k in range(n)]

def list_extend(it, l, v):
    if isinstance(v, PList): l.seq = seq_concat(l.seq, v.seq); return
    n, elem = iteration(it, v)
    if isinstance(n, int): l.seq = seq_concat(l.seq, CSeq([elem(k) for k in range(n)]))
    else: l.seq = seq_concat(l.seq, Seq(n, elem))

def to_ba(v):
    if isinstance(v, BA): return v
    if isinstance(v, (bytes, bytearray)): return ba_of(v)
    if isinstance(v, (type(None), int, float, str, SI, SB, SBool, SF, SS, dict, PDict)) and not isinstance(v, NI): raise PyRaise(TypeError, ("a bytes-like object is required",))
    raise Unsupported(f"{type(v).__name__} as bytes")
def ints_to_ba(it, v):
    """what a slice of a bytearray may be set to, or a bytearray be extended by"""
    if not isinstance(v, PList): return to_ba(v)
    n, elem = iteration(it, v)
    if not isinstance(n, int): raise Unsupported("bytes of a list of unknown length")
    return BA(CSeq([byte_of(it, elem(k)) for k in range(n)]), False)

def check_index(it, n, i):
    """python index -> non negative index, IndexError when outside"""
    i = as_idx(i)
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n: it.exc(IndexError, "index out of range")
        return i + n if i < 0 else i
    if not it.branch(boolv(z3.And(nterm(i) < nterm(n), nterm(i) >= -nterm(n)))): it.exc(IndexError, "index out of range")
    if isinstance(i, int): return i if i >= 0 else simp(nterm(n) + i)
    d = core.X.decide(i >= 0)
    if d is True: return i
    if d is False: return simp(i + nterm(n))
    return simp(z3.If(i >= 0, i, i + nterm(n)))

def slice_bounds(it, n, s):
    if s.step is not None and s.step != 1: raise Unsupported("slice step")
    lo = None if s.lo is None else as_idx(s.lo)
    hi = None if s.hi is None else as_idx(s.hi)
    return clamp_slice(n, lo, hi)

def getitem(it, o, i):
    if isinstance(o, (PList, BA, NArr, AArr)):
        s = o.seq
        if isinstance(i, SliceV):
            lo, hi = slice_bounds(it, s.n, i)
            r = seq_slice(s, lo, hi)
            if isinstance(o, PList): return PList(r)
            if isinstance(o, BA): return BA(r, o.mutable)
            if isinstance(o, AArr): return AArr(o.typecode, o.itemsize, r)
            o.share()
            return NArr(o.dt, r).share()
        if isinstance(i, (SS, str, type(None), SF, float)): it.exc(TypeError, "indices must be integers")
        k = check_index(it, s.n, i)
        return elem_value(o, s.get(k))
    if isinstance(o, PDict):
        i = dict_key(it, o.d, i)
        if i not in o.d: it.exc(KeyError, i)
        return o.d[i]
    if isinstance(o, NT): return getitem(it, o.vals, i)
    if isinstance(o, Iter): raise Unsupported("index of iterator")
    if isinstance(o, (tuple, bytes, str, range)):
        if isinstance(i, SliceV):
            lo, hi = i.lo, i.hi
            if all(x is None or isinstance(x, int) for x in (lo, hi, i.step)): return o[lo:hi:i.step]
            if isinstance(o, bytes): return getitem(it, ba_of(o), i)
            if isinstance(o, str): return METHODS_getitem(it, o, i)
            raise Unsupported("slice")
        if isinstance(i, (int, bool)):
            try: return o[i]
            except IndexError as e: raise PyRaise(IndexError, e.args)
        if isinstance(i, (SI, SB, NI)):
            if isinstance(o, bytes): return getitem(it, ba_of(o), i)
            if isinstance(o, str): return METHODS_getitem(it, o, i)
            return o[core.X.concretize(nterm(check_index(it, len(o), i)))]
        raise Unsupported("tuple index")
    if isinstance(o, SS): return METHODS_getitem(it, o, i)
    if hasattr(o, "sym_getitem"): return o.sym_getitem(it, i)
    if isinstance(o, dict):
        i = dict_key(it, o, i)
        if i not in o: it.exc(KeyError, i)
        return wrap_native(o[i])
    if isinstance(o, type(None)): it.exc(TypeError, "'NoneType' object is not subscriptable")
    raise Unsupported(f"subscript of {type(o).__name__}")

def dict_key(it, d, i):
    """the key of a concrete dict that equals i"""
    k = dict_find(it, d, i)
    if k is NOATTR: it.exc(KeyError, "symbolic" if has_sym(i) else i)
    return k

def has_sym(i): return isinstance(i, (Sym, Heap)) or isinstance(i, (tuple, frozenset)) and any(has_sym(x) for x in i)
def dict_find(it, d, i):
    """the key of a concrete dict that equals i, or NOATTR"""
    if any(has_sym(k) for k in d): raise Unsupported("symbolic dict key")
    if not has_sym(i):
        try: return i if i in d else NOATTR
        except TypeError as e: it.exc(TypeError, *e.args)
    if not (isinstance(i, (SI, SB, NI, SS)) or isinstance(i, tuple)): raise Unsupported("symbolic dict key")
    for k in d:
        if it.branch(equal(it, i, k)): return k
    return NOATTR

def METHODS_getitem(it, o, i):
    import libstr
    return libstr.str_getitem(it, o, i)

def wrap_native(v):
    if isinstance(v, dict): return PDict({k: wrap_native(x) for k, x in v.items()})
    if isinstance(v, list): return PList(CSeq([wrap_native(x) for x in v]))
    return lift(v)

def byte_of(it, v):
    """int value -> BV8, ValueError outside 0..255"""
    if isinstance(v, (int, bool)):
        if not 0 <= v <= 255: it.exc(ValueError, "byte must be in range(0, 256)")
        return z3.BitVecVal(int(v), 8)
    if not is_intlike(v): it.exc(TypeError, "an integer is required")
    ok = compare(it, ast.And, v, None) if False else _between(v, 0, 255)
    if not it.branch(ok): it.exc(ValueError, "byte must be in range(0, 256)")
    return to_bits(v, 8)

def _between(v, lo, hi):
    if isinstance(v, (int, bool)): return lo <= v <= hi
    if isinstance(v, SI): return boolv(z3.And(v.t >= lo, v.t <= hi))
    if isinstance(v, SBool): return lo <= 0 and hi >= 1
    t = as_sb(v); w = max(t.size(), bvwidth(lo), bvwidth(hi))
    t = sext(t, w)
    return boolv(z3.And(t >= z3.BitVecVal(lo, w), t <= z3.BitVecVal(hi, w)))

def to_bits(v, w):
    """integer value -> BV of width w (low bits)"""
    if isinstance(v, (int, bool)): return z3.BitVecVal(int(v), w)
    if isinstance(v, SI): return z3.simplify(z3.Int2BV(v.t, w))
    t = as_sb(v)
    return z3.simplify(z3.Extract(w - 1, 0, t) if t.size() >= w else sext(t, w))

def setitem(it, o, i, v):
    X = core.X
    if isinstance(o, BA):
        if not o.mutable: it.exc(TypeError, "bytes does not support item assignment")
        s = o.seq
        if isinstance(i, SliceV):
            lo, hi = slice_bounds(it, s.n, i)
            o.seq = seq_assign(s, lo, hi, ints_to_ba(it, v).seq)
            return
        b = byte_of(it, v)
        k = check_index(it, s.n, i)
        o.seq = seq_store(s, k, b); return
    if isinstance(o, PList):
        s = o.seq
        if isinstance(i, SliceV):
            if not isinstance(v, (PList, tuple)): raise Unsupported("list slice assignment")
            lo, hi = slice_bounds(it, s.n, i)
            o.seq = seq_assign(s, lo, hi, v.seq if isinstance(v, PList) else CSeq(list(v))); return
        k = check_index(it, s.n, i)
        o.seq = seq_store(s, k, v); return
    if isinstance(o, NArr):
        s = o.seq
        if isinstance(i, SliceV):
            import libnp
            lo, hi = slice_bounds(it, s.n, i)
            if isinstance(v, PList) and isinstance(v.seq, CSeq): v = tuple(v.seq.items)
            if isinstance(v, NArr) and isinstance(v.seq, CSeq) and v.dt == o.dt: vals = list(v.seq.items)
            elif isinstance(v, tuple): vals = [libnp.to_elem(it, o.dt, e) for e in v]
            else: raise Unsupported("array slice assignment")
            m = z3.simplify(nterm(hi) - nterm(lo)); n = len(vals)
            if not X.branch(m == n):
                if n == 1: raise Unsupported("array slice assignment of one value")
                it.exc(ValueError, "could not broadcast input array")
            for j, e in enumerate(vals): s = seq_store(s, lo + j if isinstance(lo, int) else z3.simplify(nterm(lo) + j), e)
            o.seq = s; return
        k = check_index(it, s.n, i)
        import libnp
        o.seq = seq_store(s, k, libnp.to_elem(it, o.dt, v)); return
    if isinstance(o, PDict):
        if has_sym(i):
            k = dict_find(it, o.d, i)
            if k is NOATTR: raise Unsupported("symbolic dict key")
            i = k
        o.put(i, v); return
    if isinstance(o, (tuple, str, bytes, NT)): it.exc(TypeError, "does not support item assignment")
    raise Unsupported(f"item assignment on {type(o).__name__}")

def delitem(it, o, i):
    if isinstance(o, PDict) and not isinstance(i, Sym):
        if i not in o.d: it.exc(KeyError, i)
        d = dict(o.d); del d[i]; o._set(o.a, "d", d); return
    if isinstance(o, (PList, BA)) and isinstance(i, int) and isinstance(o.seq.n, int):
        if isinstance(o, BA) and not o.mutable: it.exc(TypeError, "does not support item deletion")
        k = check_index(it, o.seq.n, i)
        o.seq = seq_concat(seq_slice(o.seq, 0, k), seq_slice(o.seq, k + 1, o.seq.n)); return
    raise Unsupported("del of an item")

# ------------------------------------------------------------------ arithmetic
NATOP = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
         ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitAnd: operator.and_,
         ast.BitOr: operator.or_, ast.BitXor: operator.xor}

def is_num(v): return isinstance(v, (int, float, SI, SB, NI, SF, SBool))

def binop(it, op, a, b):
    if is_native(a) and is_native(b):
        try: return lift(NATOP[op](a, b))
        except Exception as e: raise PyRaise(type(e), e.args)
    if is_num(a) and is_num(b):
        if isinstance(a, NI) or isinstance(b, NI) or (isinstance(a, SF) and a.np) or (isinstance(b, SF) and b.np):
            import libnp
            return libnp.scalar_binop(it, op, a, b)
        if isinstance(a, (float, SF)) or isinstance(b, (float, SF)) or op is ast.Div:
            return float_binop(it, op, a, b)
        return int_binop(it, op, a, b)
    h = BINOPS.get((op, kind(a), kind(b)))
    if h: return h(it, a, b)
    for k in (("*", kind(a), kind(b)), (op, kind(a), "*"), (op, "*", kind(b))):
        if k in BINOPS:
            r = BINOPS[k](it, a, b) if k[0] != "*" else BINOPS[k](it, op, a, b)
            if r is not NotImplemented: return r
    if operand_error(op, a, b): it.exc(TypeError, f"unsupported operand types {kind(a)} {kind(b)}")
    raise Unsupported(f"{op.__name__} of {kind(a)} and {kind(b)}")

BINOPS = {}
EXEMPLAR = {"str": "", "int": 1, "float": 1.0, "bytes": b"", "list": [], "NoneType": None, "dict": {}, "Obj": object()}
def operand_error(op, a, b):
    """the operation is not defined for such operands (so says CPython for one of each)"""
    ka, kb = kind(a), kind(b)
    if ka not in EXEMPLAR or kb not in EXEMPLAR or op is ast.Mod and ka in ("str", "bytes"): return False
    if any(isinstance(v, Obj) and any(n.startswith("__") and n[2:-2] in OPERATOR_NAMES for n in dir(v.cls)) for v in (a, b)): return False
    try: NATOP[op](EXEMPLAR[ka], EXEMPLAR[kb])
    except TypeError: return True
    except Exception: return False
    return False
def order_error(op, a, b):
    ka, kb = kind(a), kind(b)
    if ka not in EXEMPLAR or kb not in EXEMPLAR or ka == kb and ka != "NoneType": return False
    if any(isinstance(v, Obj) and any(n in ("__lt__", "__le__", "__gt__", "__ge__") and inspect_static(v.cls, n) is not inspect_static(object, n) for n in ("__lt__", "__le__", "__gt__", "__ge__")) for v in (a, b)): return False
    try: CMP[op](EXEMPLAR[ka], EXEMPLAR[kb])
    except TypeError: return True
    return False
OPERATOR_NAMES = {r + n for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "lshift", "rshift", "and", "or", "xor") for r in ("", "r", "i")}
HARDKINDS = {"str", "int", "float", "bytes", "list", "NoneType", "dict", "Obj"}
def kind(v):
    if isinstance(v, (str, SS)): return "str"
    if hasattr(v, "kind_"): return v.kind_
    if isinstance(v, (int, SI, SB, SBool)): return "int"
    if isinstance(v, NI): return "int"
    if isinstance(v, (float, SF)): return "float"
    if isinstance(v, (BA, bytes, bytearray)): return "bytes"
    if isinstance(v, PList): return "list"
    if isinstance(v, Opaque) and v.cls is str: return "str"
    return type(v).__name__

def int_binop(it, op, a, b):
    X = core.X
    if op in (ast.LShift, ast.RShift):
        if op is ast.LShift and isinstance(a, int) and a == 1 and not isinstance(b, (int, bool)):
            h = getattr(it, "pow2_hook", None)
            if h is not None: return h(it, nterm(as_idx(b)))
        if not isinstance(b, (int, bool)):
            n = X.concretize(nterm(as_idx(b)))
        else: n = int(b)
        if n < 0: it.exc(ValueError, "negative shift count")
        if isinstance(a, (int, bool)): return a << n if op is ast.LShift else a >> n
        if isinstance(a, SI):
            return intv(a.t * (1 << n)) if op is ast.LShift else intv(a.t / (1 << n))
        t = as_sb(a)
        if op is ast.LShift: return sbv(z3.Concat(t, z3.BitVecVal(0, n)) if n else t)
        if n >= t.size(): n = t.size() - 1
        return sbv(z3.Extract(t.size() - 1, n, t) if n else t)
    if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
        if isinstance(a, SBool) and isinstance(b, SBool):
            return boolv({ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[op](a.t, b.t))
        if op is ast.BitAnd and isinstance(a, int): a, b = b, a
        if op is ast.BitAnd and isinstance(b, int) and not isinstance(b, bool) and b >= 0 and isinstance(a, (SI, SB)):
            # mask with a constant: exact on the low bits
            w = max(b.bit_length(), 1)
            if isinstance(a, SI): low = z3.Int2BV(a.t, w)
            else: low = z3.Extract(w - 1, 0, a.t) if a.w >= w else sext(a.t, w)
            return sbv(z3.ZeroExt(1, low & z3.BitVecVal(b, w)))
        if isinstance(a, SI) or isinstance(b, SI): raise Unsupported("bit operation on unbounded integers")
        x, y = as_sb(a), as_sb(b); w = max(x.size(), y.size()); x, y = sext(x, w), sext(y, w)
        return sbv({ast.BitAnd: x & y, ast.BitOr: x | y, ast.BitXor: x ^ y}[op])
    useint = isinstance(a, SI) or isinstance(b, SI) or op in (ast.FloorDiv, ast.Mod, ast.Pow)
    if not useint and op in (ast.Add, ast.Sub, ast.Mult):
        x, y = as_sb(a), as_sb(b)
        w = x.size() + y.size() if op is ast.Mult else max(x.size(), y.size()) + 1
        x, y = sext(x, w), sext(y, w)
        return sbv(x + y if op is ast.Add else x - y if op is ast.Sub else x * y)
    x, y = as_int(a), as_int(b)
    if op is ast.Add: return intv(nterm(x) + nterm(y))
    if op is ast.Sub: return intv(nterm(x) - nterm(y))
    if op is ast.Mult: return intv(nterm(x) * nterm(y))
    if op in (ast.FloorDiv, ast.Mod):
        if not it.branch(boolv(nterm(y) != 0)): it.exc(ZeroDivisionError, "division by zero")
        if isinstance(y, int) and y > 0:
            return intv(nterm(x) / y) if op is ast.FloorDiv else intv(nterm(x) % y)
        d = X.decide(nterm(y) > 0)
        if d is True: return intv(nterm(x) / nterm(y)) if op is ast.FloorDiv else intv(nterm(x) % nterm(y))
        raise Unsupported("division by a possibly negative integer")
    if op is ast.Pow:
        if isinstance(a, int) and a == 2:
            h = getattr(it, "pow2_hook", None)
            if h is not None: return h(it, nterm(y))
            n = X.concretize(nterm(y)); return 2 ** n
        raise Unsupported("power")
    raise Unsupported(f"int {op.__name__}")

def unop(it, op, v):
    if is_native(v):
        try: return lift({ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[op](v))
        except Exception as e: raise PyRaise(type(e), e.args)
    if op is ast.USub:
        if isinstance(v, SF): return float_binop(it, ast.Mult, -1, v)
        return binop(it, ast.Sub, 0, v)
    if op is ast.UAdd: return v
    if op is ast.Invert and isinstance(v, NI): return NI(~v.t, v.signed)
    if op is ast.Invert and isinstance(v, (SB, SI)): return binop(it, ast.Sub, -1, v)
    raise Unsupported(f"unary {op.__name__}")

# ------------------------------------------------------------------ comparison
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}

def num_compare(op, a, b):
    f = CMP[op]
    if isinstance(a, (float, SF)) or isinstance(b, (float, SF)):
        if (isinstance(a, SF) and a.t is None) or (isinstance(b, SF) and b.t is None): return boolv(z3.simplify(ieee_compare(op, a, b)))
        x, y = real_of(a), real_of(b)
        return boolv(f(x, y))
    if isinstance(a, SI) or isinstance(b, SI):
        return boolv(f(nterm(as_int(a)), nterm(as_int(b))))
    x, y = as_sb(a), as_sb(b); w = max(x.size(), y.size()); x, y = sext(x, w), sext(y, w)
    return boolv({ast.Eq: x == y, ast.NotEq: x != y, ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[op])

def finite_bits(b):
    e = z3.Extract(62, 52, b) if b.size() == 64 else z3.Extract(30, 23, b)
    return e != (1 << e.size()) - 1
def nan_bits(b):
    w = b.size()
    m = z3.Extract(51 if w == 64 else 22, 0, b)
    return z3.And(z3.Not(finite_bits(b)), m != 0)
def ieee_parts(v):
    """(is NaN, -1 / 0 / 1 for -inf / finite / inf, real value when finite)"""
    if isinstance(v, SF) and v.t is None:
        b = v.bits
        return nan_bits(b), z3.If(finite_bits(b), 0, z3.If(z3.Extract(b.size() - 1, b.size() - 1, b) == 1, -1, 1)), bits_real(v)
    return z3.BoolVal(False), z3.IntVal(0), real_of(v)
def ieee_compare(op, a, b):
    (na, ra, x), (nb, rb, y) = ieee_parts(a), ieee_parts(b)
    num = z3.Not(z3.Or(na, nb))
    both = z3.And(ra == 0, rb == 0)
    if op is ast.Eq: return z3.And(num, ra == rb, z3.Implies(both, x == y))
    if op is ast.NotEq: return z3.Not(z3.And(num, ra == rb, z3.Implies(both, x == y)))
    lt = z3.Or(ra < rb, z3.And(both, x < y)); gt = z3.Or(ra > rb, z3.And(both, x > y))
    eq = z3.And(ra == rb, z3.Implies(both, x == y))
    return z3.And(num, {ast.Lt: lt, ast.Gt: gt, ast.LtE: z3.Or(lt, eq), ast.GtE: z3.Or(gt, eq)}[op])

def compare(it, op, a, b):
    if op is ast.Is or op is ast.IsNot:
        r = identical(a, b)
        return r if op is ast.Is else (not r)
    if op is ast.In or op is ast.NotIn:
        r = contains(it, b, a)
        if op is ast.In: return r
        t = it.truth(r)
        return (not t) if isinstance(t, bool) else boolv(z3.Not(t))
    if is_native(a) and is_native(b):
        try: return CMP[op](a, b)
        except TypeError as e: raise PyRaise(TypeError, e.args)
    if is_num(a) and is_num(b): return num_compare(op, a, b)
    if op in (ast.Eq, ast.NotEq):
        r = equal(it, a, b)
        if op is ast.Eq: return r
        t = it.truth(r)
        return (not t) if isinstance(t, bool) else boolv(z3.Not(t))
    h = COMPARES.get((kind(a), kind(b)))
    if h: return h(it, op, a, b)
    if op in (ast.Lt, ast.LtE, ast.Gt, ast.GtE) and order_error(op, a, b):
        it.exc(TypeError, f"'<' not supported between {kind(a)} and {kind(b)}")
    raise Unsupported(f"comparison of {kind(a)} and {kind(b)}")
COMPARES = {}
EQUALS = {}

def identical(a, b):
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a, (type, np.dtype)) and isinstance(b, (type, np.dtype)): return a is b
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if isinstance(a, (Heap, NT)) or isinstance(b, (Heap, NT)): return False
    if isinstance(a, types.FunctionType): return False
    if isinstance(a, bool) and isinstance(b, SBool): raise Unsupported("identity of a symbolic bool")
    if isinstance(a, (int, str)) and isinstance(b, (int, str)):
        if a == b and a is not b and not (isinstance(a, int) and -5 <= a <= 256): raise Unsupported("identity of equal values")
        return a is b or a == b
    raise Unsupported(f"identity of {a!r} and {b!r}")

def equal(it, a, b):
    if a is b and not isinstance(a, (SF, float)): return True
    if is_native(a) and is_native(b): return a == b
    if is_num(a) and is_num(b): return num_compare(ast.Eq, a, b)
    h = EQUALS.get((kind(a), kind(b)))
    if h: return h(it, a, b)
    if isinstance(a, (BA, bytes, bytearray)) and isinstance(b, (BA, bytes, bytearray)):
        return seq_equal(to_ba(a).seq, to_ba(b).seq)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        return conj([equal(it, x, y) for x, y in zip(a, b)])
    if isinstance(a, NT) and isinstance(b, NT): return conj([equal(it, x, y) for x, y in zip(a.vals, b.vals)]) if len(a.vals) == len(b.vals) else False
    if isinstance(a, Obj):
        m = inspect_static(a.cls, "__eq__")
        if isinstance(m, types.FunctionType) and is_repo_func(m): return it.call(m, [a, b])
        return False
    if isinstance(b, Obj): return False
    if isinstance(a, PList) and isinstance(b, PList):
        if isinstance(a.seq.n, int) and isinstance(b.seq.n, int):
            if a.seq.n != b.seq.n: return False
            return conj([equal(it, a.seq.get(i), b.seq.get(i)) for i in range(a.seq.n)])
        raise Unsupported("equality of symbolic lists")
    if a is None or b is None: return False
    if isinstance(a, np.dtype) or isinstance(b, np.dtype): return a == b
    if getattr(a, "by_identity", False) or getattr(b, "by_identity", False): return False
    ka, kb = kind(a), kind(b)
    if ka != kb and ka in HARDKINDS and kb in HARDKINDS: return False
    if isinstance(a, Heap) and isinstance(b, Heap) and type(a) is not type(b): return False
    raise Unsupported(f"equality of {a!r} and {b!r}")

def conj(vs):
    ts = []
    for v in vs:
        if v is True: continue
        if v is False: return False
        ts.append(bterm(v))
    return boolv(z3.And(*ts)) if ts else True

def seq_equal(a, b):
    na, nb = simp(a.n) if not isinstance(a.n, int) else a.n, b.n
    if isinstance(na, int) and isinstance(nb, int):
        if na != nb: return False
        if na > 4096: raise Unsupported("comparison of long byte strings")
        return conj([boolv(a.get(i) == b.get(i)) for i in range(na)])
    # symbolic length against a concrete one
    if isinstance(nb, int) and nb <= 64:
        return boolv(z3.And(nterm(na) == nb, *[a.get(i) == b.get(i) for i in range(nb)]))
    if isinstance(na, int) and na <= 64: return seq_equal(b, a)
    raise Unsupported("comparison of byte strings of unknown length")

def contains(it, c, x):
    if isinstance(c, (tuple,)):
        rs = [equal(it, x, y) for y in c]
        if any(r is True for r in rs): return True
        ts = [bterm(r) for r in rs if r is not False]
        return boolv(z3.Or(*ts)) if ts else False
    if isinstance(c, PDict) or isinstance(c, dict):
        ks = list(c.d) if isinstance(c, PDict) else list(c)
        return contains(it, tuple(ks), x)
    if isinstance(c, PList) and isinstance(c.seq.n, int): return contains(it, tuple(c.seq.get(i) for i in range(c.seq.n)), x)
    if isinstance(c, (str, SS)) and isinstance(x, (str, SS)):
        return boolv(z3.Contains(sterm(c), sterm(x)))
    if isinstance(c, SymSet): return contains(it, c.vals, x)
    if isinstance(c, (set, frozenset)): return contains(it, tuple(c), x)
    raise Unsupported(f"in {type(c).__name__}")

# ------------------------------------------------------------------ floats (real abstraction)
def real_of(v):
    if isinstance(v, (bool, int)): return z3.RealVal(int(v))
    if isinstance(v, float): return from_float(v).t
    if isinstance(v, SF):
        if v.t is None: return bits_real(v)
        return v.t
    return z3.ToReal(nterm(as_int(v)))

BITSREAL = {}
def bits_real(v):
    """real value of a float known only by its bits: uninterpreted"""
    f = BITSREAL.setdefault(64, z3.Function("fvalue64", z3.BitVecSort(64), z3.RealSort()))
    return f(v.bits if v.bits.size() == 64 else f32to64(v.bits))

FLOATOPS = {}
def float_binop(it, op, a, b):
    X = core.X
    x, y = real_of(a), real_of(b)
    if op is ast.Div:
        if not it.branch(boolv(y != 0)): it.exc(ZeroDivisionError, "float division by zero")
        return it_round(it, "div", x / y if not isinstance(y, z3.RatNumRef) else x / y, a, b)
    if op is ast.Add: return it_round(it, "add", x + y, a, b)
    if op is ast.Sub: return it_round(it, "sub", x - y, a, b)
    if op is ast.Mult:
        for p, q in ((a, b), (b, a)):
            if isinstance(p, (int, float)) and p in (1, -1): return SF(z3.simplify(real_of(q) * z3.RealVal(int(p))))
        return it_round(it, "mul", x * y, a, b)
    if op is ast.FloorDiv or op is ast.Mod: raise Unsupported("float floor division")
    raise Unsupported(f"float {op.__name__}")

def it_round(it, what, exact, a, b):
    """IEEE rounding of an exact real result; the mode is set by the unit (it.float_round)"""
    h = builtins.getattr(it, "float_round", None)
    if h is not None: return h(it, what, exact, a, b)
    raise Unsupported(f"float {what} (no rounding model in this unit)")

# ------------------------------------------------------------------ struct
SIZES = {"x": 1, "c": 1, "b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "s": 1, "?": 1}
_fmtcache = {}
def parse_fmt(fmt):
    if fmt in _fmtcache: return _fmtcache[fmt]
    order, body = (fmt[0], fmt[1:]) if fmt[:1] in "<>!=@" and fmt else ("@", fmt)
    if order == "!": order = ">"
    if order in "=@": raise Unsupported("native struct format")
    items, num = [], ""
    for ch in body:
        if ch.isdigit(): num += ch; continue
        if ch.isspace(): continue
        if ch not in SIZES: raise PyRaise(struct.error, ("bad char in struct format",))
        n = int(num) if num else 1
        num = ""
        if ch == "s": items.append(("s", n))
        elif ch == "x": items.append(("x", n))
        else: items += [(ch, 1)] * n
    _fmtcache[fmt] = (order, items, sum(SIZES[c] * n for c, n in items))
    return _fmtcache[fmt]

RANGES = {"b": (-2**7, 2**7 - 1), "B": (0, 2**8 - 1), "h": (-2**15, 2**15 - 1), "H": (0, 2**16 - 1), "i": (-2**31, 2**31 - 1), "I": (0, 2**32 - 1),
          "l": (-2**31, 2**31 - 1), "L": (0, 2**32 - 1), "q": (-2**63, 2**63 - 1), "Q": (0, 2**64 - 1)}

F32TO64 = z3.Function("f32to64", z3.BitVecSort(32), z3.BitVecSort(64))
F64TO32 = z3.Function("f64to32", z3.BitVecSort(64), z3.BitVecSort(32))
F64OVF = z3.Function("f64ovf32", z3.BitVecSort(64), z3.BoolSort())
def f32to64(b):
    t = F32TO64(b)
    core.X.assume(z3.And(F64TO32(t) == b, z3.Not(F64OVF(t)), finite_bits(t) == finite_bits(b), nan_bits(t) == nan_bits(b)))
    return t

def float_bits(v):
    """bits of the double holding v"""
    if isinstance(v, SF):
        if v.bits is None:
            B = z3.Function("realbits", z3.RealSort(), z3.BitVecSort(64))
            t = B(v.t)
            f = BITSREAL.setdefault(64, z3.Function("fvalue64", z3.BitVecSort(64), z3.RealSort()))
            core.X.assume(f(t) == v.t)
            return t
        return v.bits if v.bits.size() == 64 else f32to64(v.bits)
    if isinstance(v, float): return from_float(v).bits
    if isinstance(v, (int, bool)): return from_float(float(v)).bits
    I2D = z3.Function("int2double", z3.IntSort(), z3.BitVecSort(64))
    n = nterm(as_int(v))
    # whole numbers of this size are far below the largest single
    core.X.assume(z3.Implies(z3.And(n > -(1 << 127), n < 1 << 127), z3.Not(F64OVF(I2D(n)))))
    return I2D(n)

def fits(v, code):
    """can struct.pack store v under an integer code? bool / SBool"""
    lo, hi = RANGES[code]
    return _between(v, lo, hi)

def pack_item(it, code, n, v, check=True):
    """-> big endian BV of the item (None for 's': list of BV8)"""
    if code == "s":
        if isinstance(v, (bytes, bytearray)): v = ba_of(v)
        if not isinstance(v, BA): it.exc(struct.error, "argument for 's' must be a bytes object")
        s = concretize_seq(v.seq)
        out = []
        for k in range(n):
            if isinstance(s.n, int): out.append(s.get(k) if k < s.n else z3.BitVecVal(0, 8))
            else: out.append(z3.If(k < s.n, s.get(k), z3.BitVecVal(0, 8)))
        return out
    if code == "c":
        if isinstance(v, (bytes, bytearray)): v = ba_of(v)
        if not isinstance(v, BA): it.exc(struct.error, "char format requires a bytes object of length 1")
        if not it.branch(boolv(nterm(v.seq.n) == 1)): it.exc(struct.error, "char format requires a bytes object of length 1")
        return [v.seq.get(0)]
    w = SIZES[code] * 8
    if code in "fd":
        if isinstance(v, (str, SS, BA, type(None), PList, Obj, bytes)): it.exc(struct.error, "required argument is not a float")
        b = float_bits(v)
        if code == "d": return b
        if check and isinstance(v, SF) and v.bits is not None and v.bits.size() == 32: return v.bits
        if isinstance(v, float) or isinstance(v, int):
            try: return z3.BitVecVal(int.from_bytes(struct.pack(">f", v), "big"), 32)
            except OverflowError as e: raise PyRaise(OverflowError, e.args)
        if check and it.branch(boolv(F64OVF(b))): it.exc(OverflowError, "float too large to pack with f format")
        return F64TO32(b)
    if not is_intlike(v): it.exc(struct.error, "required argument is not an integer")
    if check and not it.branch(fits(v, code)): it.exc(struct.error, f"'{code}' format requires number in range")
    return to_bits(v, w)

def bytes_of_bits(t, order):
    n = t.size() // 8
    out = [z3.simplify(z3.Extract(8 * (n - 1 - k) + 7, 8 * (n - 1 - k), t)) for k in range(n)]
    return out if order == ">" else out[::-1]

def bits_of_bytes(bs, order):
    if order == "<": bs = bs[::-1]
    return z3.simplify(z3.Concat(*bs)) if len(bs) > 1 else bs[0]

def unpack_item(it, code, n, bs, order):
    if code == "s" or code == "c": return BA(CSeq(bs), False)
    t = bits_of_bytes(bs, order)
    if code == "d": return SF(None, t)
    if code == "f": return SF(None, f32to64(t))
    if code in "BHILQ": return sbv(z3.ZeroExt(1, t))
    return sbv(t)

def fmt_of(it, f):
    import libstr
    if isinstance(f, str): return f
    if isinstance(f, bytes): return f.decode()
    return f

def pack_bytes(it, fmt, args):
    import libstr
    if isinstance(fmt, libstr.FStr): return pack_many(it, fmt, args)
    args2 = []
    for a in args:
        if isinstance(a, StarV): args2 += iter_values(it, a.v)
        else: args2.append(a)
    order, items, size = parse_fmt(fmt)
    nargs = sum(1 for c, n in items if c != "x")
    if nargs != len(args2): it.exc(struct.error, f"pack expected {nargs} items")
    out, k = [], 0
    for c, n in items:
        if c == "x": out += [z3.BitVecVal(0, 8)] * n; continue
        r = pack_item(it, c, n, args2[k]); k += 1
        out += r if isinstance(r, list) else bytes_of_bits(r, order)
    return CSeq(out)

def divmod_const(i, size):
    """quotient and remainder of an index by a positive constant; exact for size*k + c"""
    if isinstance(i, int): return i // size, i % size
    i = z3.simplify(i, som=True)
    terms = list(i.children()) if z3.is_add(i) else [i]
    c, qs = 0, []
    for t in terms:
        if z3.is_int_value(t): c += t.as_long(); continue
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % size == 0:
            qs.append(t.arg(1) * (t.arg(0).as_long() // size)); continue
        if size == 1: qs.append(t); continue
        return simp(i / size), simp(i % size)
    return (simp(z3.Sum(qs) + c // size) if qs else c // size), c % size

def pack_many(it, fmt, args):
    """struct.pack(f'{order}{n}{code}', *data) with symbolic n"""
    X = core.X
    p = fmt.parts
    if len(p) == 3 and p[0] in ("<", ">") and isinstance(p[1], (int, SI)) and isinstance(p[2], str) and len(p[2]) == 1 and len(args) == 1 and isinstance(args[0], StarV):
        order, cnt, code = p[0], as_idx(p[1]), p[2]
        n, elem = iteration(it, args[0].v)
        if not it.branch(boolv(nterm(cnt) == nterm(n))): it.exc(struct.error, "pack expected a different number of items")
        size = SIZES[code]
        isint = code in RANGES
        def ok(v):
            if isint: return it.truth(fits(v, code)) if is_intlike(v) else False
            if code == "f" and not (isinstance(v, SF) and v.bits is not None and v.bits.size() == 32): return z3.Not(F64OVF(float_bits(v)))
            return True
        allok = X.fbool("allfit")
        if not X.branch(allok):
            w = X.fint("badix"); X.assume(z3.And(w >= 0, w < nterm(n)))
            v = elem(w)
            c = ok(v)
            X.assume(z3.Not(c) if not isinstance(c, bool) else z3.BoolVal(not c))
            if not X.feasible(z3.BoolVal(True)): raise PathEnd()
            it.exc(struct.error if isint else OverflowError, "item does not fit")
        def byte(i):
            q, r = divmod_const(i, size)
            v = elem(q)
            c = ok(v)
            # every item fits: known because this is the branch where all do
            if not isinstance(c, bool): X.assume(z3.Implies(z3.And(nterm(q) >= 0, nterm(q) < nterm(n)), c))
            elif c is False: X.assume(z3.Not(z3.And(nterm(q) >= 0, nterm(q) < nterm(n))))
            t = pack_item(it, code, 1, v, check=False) if c is not False else z3.BitVecVal(0, 8 * size)
            bs = bytes_of_bits(t, order)
            if isinstance(r, int): return bs[r]
            e = bs[-1]
            for j in range(size - 2, -1, -1): e = z3.If(r == j, bs[j], e)
            return e
        return Seq(simp(nterm(n) * size), byte)
    raise Unsupported("struct format built from symbolic text")

@model(struct.pack)
def _pack(it, args, kw): return BA(pack_bytes(it, fmt_of(it, args[0]), args[1:]), False)

@model(struct.pack_into)
def _pack_into(it, args, kw):
    fmt, buf, off = fmt_of(it, args[0]), args[1], as_idx(args[2])
    data = pack_bytes(it, fmt, args[3:])
    if not isinstance(buf, BA) or not buf.mutable: it.exc(TypeError, "read-write bytes-like object required")
    n = buf.seq.n
    if isinstance(off, int) and off < 0: raise Unsupported("negative pack_into offset")
    if not isinstance(off, int) and core.X.decide(off >= 0) is not True: raise Unsupported("pack_into offset sign")
    if not it.branch(boolv(nterm(off) + data.n <= nterm(n))): it.exc(struct.error, "pack_into requires a buffer of more bytes")
    buf.seq = seq_assign(buf.seq, off, simp(nterm(off) + data.n), data)

@model(struct.unpack)
def _unpack(it, args, kw):
    fmt = fmt_of(it, args[0])
    if not isinstance(fmt, str): raise Unsupported("symbolic struct format")
    order, items, size = parse_fmt(fmt)
    b = to_ba(args[1])
    h = getattr(it, "unpack_hook", None)
    if h is not None:
        r = h(it, order, items, b)
        if r is not None: return r
    if not it.branch(boolv(nterm(b.seq.n) == size)): it.exc(struct.error, f"unpack requires a buffer of {size} bytes")
    out, o = [], 0
    for c, n in items:
        w = SIZES[c] * n
        if c != "x": out.append(unpack_item(it, c, n, [b.seq.get(o + k) for k in range(w)], order))
        o += w
    return tuple(out)

@model(struct.unpack_from)
def _unpack_from(it, args, kw):
    fmt = args[0]; order, items, size = parse_fmt(fmt)
    off = args[2] if len(args) > 2 else kw.get("offset", 0)
    b = to_ba(args[1])
    o = as_idx(off)
    if not it.branch(boolv(z3.And(nterm(o) >= 0, nterm(o) + size <= nterm(b.seq.n)))): it.exc(struct.error, "unpack_from requires a larger buffer")
    return _unpack(it, [fmt, BA(seq_slice(b.seq, o, simp(nterm(o) + size)), False)], {})

@model(struct.calcsize)
def _calcsize(it, args, kw): return parse_fmt(args[0])[2]

# ------------------------------------------------------------------ builtins
@model(len)
def _len(it, args, kw): return intv(length(it, args[0]))

@model(range)
def _range(it, args, kw):
    if all(isinstance(a, int) for a in args): return range(*args)
    a = [as_idx(x) for x in args]
    if len(a) == 1: return RangeV(0, a[0])
    if len(a) == 2: return RangeV(a[0], a[1])
    raise Unsupported("range with a step")

@model(isinstance)
def _isinstance(it, args, kw):
    if hasattr(args[0], "sym_isinstance"): return args[0].sym_isinstance(args[1] if isinstance(args[1], tuple) else (args[1],))
    c = py_class(args[0]); t = args[1]
    ts = t if isinstance(t, tuple) else (t,)
    return any(isinstance(x, type) and issubclass(c, x) for x in ts)

@model(issubclass)
def _issubclass(it, args, kw): return issubclass(args[0], args[1])

@model(type)
def _type(it, args, kw):
    return py_class(args[0])

@model(hasattr)
def _hasattr(it, args, kw):
    try: it.getattr(args[0], args[1]); return True
    except PyRaise as e:
        if e.cls is AttributeError: return False
        raise

@model(builtins.getattr)
def _getattr(it, args, kw):
    try: return it.getattr(args[0], args[1])
    except PyRaise as e:
        if e.cls is AttributeError and len(args) > 2: return args[2]
        raise

@model(setattr)
def _setattr(it, args, kw): it.setattr(args[0], args[1], args[2])

@model(print)
def _print(it, args, kw):
    h = getattr(it, "print_hook", None)
    if h is not None: h(it, args, kw)
    return None

@model(int)
def _int(it, args, kw):
    if not args: return 0
    v = args[0]
    if is_native(v) and len(args) == 1 or all(is_native(a) for a in args):
        try: return int(*args)
        except Exception as e: raise PyRaise(type(e), e.args)
    if isinstance(v, (SI, SB)): return v
    if isinstance(v, SBool): return intv(as_int(v))
    if isinstance(v, NI): return sbv(as_sb(v))
    if isinstance(v, SF):
        h = builtins.getattr(it, "float_trunc", None)
        if h: return h(it, v)
        r = real_of(v)
        f = z3.ToInt(r)
        return intv(z3.If(r >= 0, f, z3.If(z3.ToReal(f) == r, f, f + 1)))
    if isinstance(v, (SS, Opaque)):
        import libstr
        return libstr.int_of_str(it, v)
    if isinstance(v, (type(None), PList)) or isinstance(v, Obj) and all(inspect_static(v.cls, n) is NOATTR for n in ("__int__", "__index__", "__trunc__")): it.exc(TypeError, "int() argument")
    raise Unsupported(f"int of {v!r}")

@model(float)
def _float(it, args, kw):
    v = args[0] if args else 0.0
    if is_native(v):
        try: return float(v)
        except Exception as e: raise PyRaise(type(e), e.args)
    if isinstance(v, SF): return SF(v.t, v.bits if v.bits is None or v.bits.size() == 64 else f32to64(v.bits))
    if is_intlike(v): return SF(real_of(v))
    raise Unsupported("float()")

@model(bool)
def _bool(it, args, kw):
    t = it.truth(args[0]) if args else False
    return t if isinstance(t, bool) else boolv(t)

@model(abs)
def _abs(it, args, kw):
    v = args[0]
    if is_native(v): return abs(v)
    if isinstance(v, (SI, SB)): return intv(z3.If(nterm(as_int(v)) >= 0, nterm(as_int(v)), -nterm(as_int(v))))
    if isinstance(v, SF) and v.t is not None: return SF(z3.If(v.t >= 0, v.t, -v.t))
    raise Unsupported("abs")

@model(round)
def _round(it, args, kw):
    if all(is_native(a) for a in args): return round(*args)
    if len(args) == 1 and isinstance(args[0], (SI, SB)): return args[0]
    h = builtins.getattr(it, "float_roundint", None)
    if h and isinstance(args[0], SF): return h(it, args[0])
    raise Unsupported("round")

def _ext(it, args, kw, mx):
    X = core.X
    if len(args) == 1:
        n, elem = iteration(it, args[0])
        if isinstance(n, int):
            if n == 0: it.exc(ValueError, "empty")
            vals = [elem(k) for k in range(n)]
        else:
            if not it.branch(boolv(nterm(n) > 0)): it.exc(ValueError, "empty")
            return seq_extreme(it, args[0], n, elem, mx)
    else: vals = list(args)
    r = vals[0]
    for v in vals[1:]:
        c = it.truth(compare(it, ast.Gt if mx else ast.Lt, v, r))
        if isinstance(c, bool): r = v if c else r
        else:
            d = X.decide(c)
            if d is not None: r = v if d else r
            else:
                a, b = v, r
                try: r = merge(c, a, b)
                except MergeFail: r = a if X.branch(c) else b
    return r

def seq_extreme(it, holder, n, elem, mx):
    """max/min of a sequence of unknown length: a member that bounds every member"""
    X = core.X
    w = X.fint("extremeix")
    X.assume(z3.And(w >= 0, w < nterm(n)))
    m = elem(w)
    s = builtins.getattr(holder, "seq", None)
    if s is None or not hasattr(s, "add_fact"): raise Unsupported("max of a sequence")
    def fact(e, i):
        v = elem_value(holder, e)
        c = it.truth(compare(it, ast.LtE if mx else ast.GtE, v, m))
        c = c if not isinstance(c, bool) else z3.BoolVal(c)
        return z3.Implies(z3.And(nterm(i) >= 0, nterm(i) < nterm(n)), c)
    s.add_fact(fact)
    if not hasattr(it, "extremes"): it.extremes = []
    it.extremes.append(m)
    return m

@model(max)
def _max(it, args, kw): return _ext(it, args, kw, True)
@model(min)
def _min(it, args, kw): return _ext(it, args, kw, False)

@model(any)
def _any(it, args, kw): return _quant(it, args[0], True)
@model(all)
def _all(it, args, kw): return _quant(it, args[0], False)

def _quant(it, v, isany):
    X = core.X
    if isinstance(v, LazyGen):
        r = X.fbool("any" if isany else "all")
        n = v.n
        def hit(i):
            conds, val = v.at(i)
            t = it.truth(val)
            ts = [c if not isinstance(c, bool) else z3.BoolVal(c) for c in conds]
            t = t if not isinstance(t, bool) else z3.BoolVal(t)
            return z3.And(*ts, t if isany else z3.Not(t))
        if X.branch(r) == isany:
            w = X.fint("witness"); X.assume(z3.And(w >= 0, w < nterm(n))); X.assume(hit(w))
            if not X.feasible(z3.BoolVal(True)): raise PathEnd()
            return isany
        src = it.ev(v.e.generators[0].iter, v.fr)
        s = builtins.getattr(src, "seq", None)
        if s is not None and hasattr(s, "add_fact"):
            s.add_fact(lambda e, i: z3.Implies(z3.And(nterm(i) >= 0, nterm(i) < nterm(n)), z3.Not(hit_e(it, v, i, e, src, isany))))
            if not X.feasible(z3.BoolVal(True)): raise PathEnd()
        return not isany
    n, elem = iteration(it, v)
    if not isinstance(n, int): raise Unsupported("any/all over unknown length")
    rs = [it.truth(elem(k)) for k in range(n)]
    if isany:
        if any(r is True for r in rs): return True
        ts = [r for r in rs if not isinstance(r, bool)]
        return boolv(z3.Or(*ts)) if ts else False
    if any(r is False for r in rs): return False
    ts = [r for r in rs if not isinstance(r, bool)]
    return boolv(z3.And(*ts)) if ts else True

def hit_e(it, v, i, e, src, isany):
    sub = Frame(v.fr.fn, v.fr.glob, {}, v.fr)
    g = v.e.generators[0]
    it.assign(g.target, elem_value(src, e), sub)
    conds = [it.truth(it.ev(c, sub)) for c in g.ifs]
    t = it.truth(it.ev(v.e.elt, sub))
    ts = [c if not isinstance(c, bool) else z3.BoolVal(c) for c in conds]
    t = t if not isinstance(t, bool) else z3.BoolVal(t)
    return z3.And(*ts, t if isany else z3.Not(t))

@model(operator.index)
def _opindex(it, args, kw):
    v = args[0]
    if isinstance(v, (bool, SBool)): return boolv2int(v)
    if is_pyint(v): return v
    if isinstance(v, NI): return sbv(as_sb(v))
    if isinstance(v, (float, SF, str, SS, type(None), bytes, BA, PList, Obj)): it.exc(TypeError, "object cannot be interpreted as an integer")
    raise Unsupported(f"operator.index of {v!r}")
def boolv2int(v): return int(v) if isinstance(v, bool) else sbv(as_sb(v))

@model(sum)
def _sum(it, args, kw):
    r = args[1] if len(args) > 1 else 0
    h = builtins.getattr(it, "sum_hook", None)
    if h is not None and isinstance(args[0], LazyGen): return binop(it, ast.Add, r, h(it, args[0]))
    for v in iter_values(it, args[0]): r = binop(it, ast.Add, r, v)
    return r

@model(map)
def _map(it, args, kw):
    its = [iteration(it, v) for v in args[1:]]
    ns = [n for n, _ in its]
    if len(its) != 1: raise Unsupported("map over several iterables")
    return EnumV(ns[0], lambda k: it.call(args[0], [its[0][1](k)], {}))

@model(enumerate)
def _enumerate(it, args, kw):
    st = args[1] if len(args) > 1 else kw.get("start", 0)
    n, elem = iteration(it, args[0])
    return EnumV(n, lambda k: (binop(it, ast.Add, st, intv(k)), elem(k)))

@model(zip)
def _zip(it, args, kw):
    its = [iteration(it, a) for a in args]
    n = its[0][0]
    for m, _ in its[1:]: n = imin(n, m)
    return EnumV(n, lambda k: tuple(e(k) for _, e in its))

@model(reversed)
def _reversed(it, args, kw):
    n, elem = iteration(it, args[0])
    return EnumV(n, lambda k: elem(simp(nterm(n) - 1 - nterm(k)) if not (isinstance(n, int) and isinstance(k, int)) else n - 1 - k))

@model(list)
def _list(it, args, kw):
    if not args: return PList(CSeq([]))
    n, elem = iteration(it, args[0])
    if isinstance(n, int): return PList(CSeq([elem(k) for k in range(n)]))
    s = builtins.getattr(args[0], "seq", None)
    if isinstance(args[0], PList): return PList(s)
    return PList(Seq(n, elem))

@model(tuple)
def _tuple(it, args, kw):
    return tuple(iter_values(it, args[0])) if args else ()

@model(dict)
def _dict(it, args, kw):
    d = PDict()
    if args:
        if isinstance(args[0], PDict): d.a["d"].update(args[0].d)
        else: raise Unsupported("dict()")
    d.a["d"].update(kw)
    return d

@model(bytearray, bytes)
def _bytes(it, args, kw): raise Unsupported("bytes")
def _mkbytes(mutable):
    def h(it, args, kw):
        if not args: return BA(CSeq([]), mutable)
        v = args[0]
        if isinstance(v, (bytes, bytearray)): return BA(CSeq(bv8s(v)), mutable)
        if isinstance(v, BA): return BA(v.seq, mutable)
        if isinstance(v, (str, SS)):
            return BA(it.call(BMethod(v, "encode"), args[1:], kw).seq, mutable)
        if isinstance(v, (int, SI, SB, NI)):
            n = as_idx(v)
            if not it.branch(boolv(nterm(n) >= 0)): it.exc(ValueError, "negative count")
            z = z3.BitVecVal(0, 8)
            if isinstance(n, int) and n <= 4096: return BA(CSeq([z] * n), mutable)
            return BA(Seq(n, lambda i: z), mutable)
        if isinstance(v, PList):
            n, elem = iteration(it, v)
            if isinstance(n, int): return BA(CSeq([byte_of(it, elem(k)) for k in range(n)]), mutable)
        if isinstance(v, NArr):
            import libnp
            return BA(libnp.tobytes_seq(v), mutable)
        raise Unsupported(f"bytes of {type(v).__name__}")
    return h
MODELS[id(bytearray)] = (bytearray, _mkbytes(True))
MODELS[id(bytes)] = (bytes, _mkbytes(False))

@model(next)
def _next(it, args, kw):
    g = args[0]
    if isinstance(g, GenVal):
        class First(Exception):
            def __init__(self, v): self.v = v
        def oy(v): raise First(v)
        try: it.run_generator(g, oy)
        except First as e: return e.v
        if len(args) > 1: return args[1]
        it.exc(StopIteration)
    if isinstance(g, Iter):
        k = g.a.get("pos", 0)
        if k < len(g.vals):
            g._set(g.a, "pos", k + 1); return g.vals[k]
        if len(args) > 1: return args[1]
        it.exc(StopIteration)
    raise Unsupported("next")

@model(math.pow)
def _mpow(it, args, kw):
    if all(is_native(a) for a in args): return math.pow(*args)
    raise Unsupported("math.pow")

@model(math.ceil, math.floor)
def _ceil(it, args, kw): raise Unsupported("ceil")
def _mkceil(f, up):
    def h(it, args, kw):
        v = args[0]
        if is_native(v):
            try: return f(v)
            except Exception as e: raise PyRaise(type(e), e.args)
        if isinstance(v, (SI, SB)): return v
        if isinstance(v, SF):
            t = z3.ToInt(real_of(v))
            return intv(z3.If(z3.ToReal(t) == real_of(v), t, t + 1) if up else t)
        raise Unsupported("ceil/floor")
    return h
MODELS[id(math.ceil)] = (math.ceil, _mkceil(math.ceil, True))
MODELS[id(math.floor)] = (math.floor, _mkceil(math.floor, False))

# ------------------------------------------------------------------ methods of containers
@meth(PList, "append")
def _l_append(it, o, args, kw): o.seq = seq_concat(o.seq, CSeq([args[0]]))
@meth(PList, "extend")
def _l_extend(it, o, args, kw): list_extend(it, o, args[0])
@meth(PList, "insert")
def _l_insert(it, o, args, kw):
    i = args[0]
    if not isinstance(i, int): raise Unsupported("insert")
    lo, _ = clamp_slice(o.seq.n, i, None)
    o.seq = seq_assign(o.seq, lo, lo, CSeq([args[1]]))
@meth(PList, "copy")
def _l_copy(it, o, args, kw): return PList(o.seq)
@meth(PList, "pop")
def _l_pop(it, o, args, kw):
    n = o.seq.n
    if not isinstance(n, int) or args and not isinstance(args[0], int): raise Unsupported("pop")
    i = args[0] if args else -1
    if i < 0: i += n
    if i < 0 or i >= n: it.exc(IndexError, "pop index out of range")
    v = o.seq.get(i); o.seq = seq_concat(seq_slice(o.seq, 0, i), seq_slice(o.seq, i + 1, n)); return v

@meth(BA, "extend")
def _b_extend(it, o, args, kw): o.seq = seq_concat(o.seq, ints_to_ba(it, args[0]).seq)
@meth(BA, "append")
def _b_append(it, o, args, kw): o.seq = seq_concat(o.seq, CSeq([byte_of(it, args[0])]))
@meth(BA, "copy")
def _b_copy(it, o, args, kw): return BA(o.seq, o.mutable)
def ba_add(it, a, b):
    a, b = to_ba(a), to_ba(b)
    return BA(seq_concat(a.seq, b.seq), a.mutable)
BINOPS[(ast.Add, "bytes", "bytes")] = ba_add
BINOPS[(ast.Add, "list", "list")] = lambda it, a, b: PList(seq_concat(a.seq, b.seq))
def _rep(it, a, b):
    if isinstance(b, PList): a, b = b, a
    n = as_idx(b)
    if isinstance(n, int) and isinstance(a.seq, CSeq): return PList(CSeq(a.seq.items * max(0, n)))
    if isinstance(a.seq, CSeq) and a.seq.n == 1:
        v = a.seq.items[0]; return PList(Seq(imax(n, 0), lambda i: v))
    raise Unsupported("list repetition")
BINOPS[(ast.Mult, "list", "int")] = _rep
BINOPS[(ast.Mult, "int", "list")] = _rep

@meth(PDict, "items")
def _d_items(it, o, args, kw): return PList(CSeq([(k, v) for k, v in o.d.items()]))
@meth(PDict, "keys")
def _d_keys(it, o, args, kw): return PList(CSeq(list(o.d)))
@meth(PDict, "values")
def _d_values(it, o, args, kw): return PList(CSeq(list(o.d.values())))
@meth(PDict, "copy")
def _d_copy(it, o, args, kw):
    d = PDict(); d.a["d"].update(o.d); return d
@meth(PDict, "get")
def _d_get(it, o, args, kw):
    k = dict_find(it, o.d, args[0])
    return (args[1] if len(args) > 1 else None) if k is NOATTR else o.d[k]
@meth(PDict, "setdefault")
def _d_setdefault(it, o, args, kw):
    k = dict_find(it, o.d, args[0])
    if k is not NOATTR: return o.d[k]
    v = args[1] if len(args) > 1 else None
    setitem(it, o, args[0], v); return v
@meth(PDict, "pop")
def _d_pop(it, o, args, kw):
    k = dict_find(it, o.d, args[0])
    if k is NOATTR:
        if len(args) > 1: return args[1]
        it.exc(KeyError, "pop")
    v = o.d[k]; d = dict(o.d); del d[k]; o._set(o.a, "d", d); return v
@meth(PDict, "update")
def _d_update(it, o, args, kw):
    if len(args) > 1 or args and not isinstance(args[0], PDict): raise Unsupported("dict.update")
    for k, v in list(args[0].d.items() if args else []) + list(kw.items()): setitem(it, o, k, v)
@meth(NT, "_replace")
def _nt_replace(it, o, args, kw):
    for k in kw:
        if k not in o.cls._fields: it.exc(ValueError, "unexpected field")
    return NT(o.cls, [kw.get(f, o.get(f)) for f in o.cls._fields])

# ------------------------------------------------------------------ context managers
def enter(it, m):
    if hasattr(m, "sym_enter"): return m.sym_enter(it)
    raise Unsupported("with")
def exit(it, m):
    if hasattr(m, "sym_exit"): return m.sym_exit(it)

def format_value(it, v, conv, spec):
    import libstr
    return libstr.format_value(it, v, conv, spec)
def str_join(it, parts):
    import libstr
    return libstr.str_join(it, parts)

def lift_array(a):
    import libnp
    return libnp.lift_array(a)
