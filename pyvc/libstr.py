"""Model of str, str formatting and regular expressions over symbolic strings (z3 sequences of characters)."""
import ast, builtins, re, sys, operator
try:
    import re._parser as sre_parse, re._constants as sre_c
except ImportError:
    import sre_parse, sre_constants as sre_c
import z3
from core import *
from heap import *
import core
from interp import *
import lib
from lib import model, meth, GETATTR, METHODS, MODELS, BINOPS, EQUALS, COMPARES, as_idx

STR = z3.StringSort()

class FStr(SS):
    """text assembled from parts: str, SS, or integer values (shown in decimal)"""
    __slots__ = ("parts", "_t")
    def __init__(self, parts): self.parts = parts; self._t = None
    @property
    def t(self):
        if self._t is None:
            ts = [part_term(p) for p in self.parts]
            self._t = z3.Concat(*ts) if len(ts) > 1 else ts[0] if ts else z3.StringVal("")
        return self._t
    def __repr__(self): return f"FStr({self.parts})"

def part_term(p):
    if isinstance(p, str): return z3.StringVal(p)
    if isinstance(p, SS): return p.t
    if isinstance(p, (int, SI, SB, NI)):
        t = nterm(as_int(p))
        return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-t)))
    raise Unsupported(f"text of {p!r}")

def fresh_str(base="text"): return SS(core.X.fresh(base, STR))

def flat_parts(parts):
    out = []
    for p in parts:
        if isinstance(p, FStr): ps = p.parts
        else: ps = [p]
        for q in ps:
            if isinstance(q, str) and out and isinstance(out[-1], str): out[-1] += q
            elif isinstance(q, str) and q == "": pass
            else: out.append(q)
    return out

def mkstr(parts):
    ps = flat_parts(parts)
    if not ps: return ""
    if len(ps) == 1 and isinstance(ps[0], str): return ps[0]
    if len(ps) == 1 and isinstance(ps[0], SS): return ps[0]
    return FStr(ps)

def str_join(it, parts): return mkstr(parts)

def to_text(it, v):
    """str(v)"""
    if isinstance(v, (str, SS)): return v
    if is_native(v) and not isinstance(v, (type, types.ModuleType, types.FunctionType)): return str(v)
    if isinstance(v, (SI, SB)): return FStr([v])
    if isinstance(v, NI): return FStr([sbv(as_sb(v))])
    if isinstance(v, Obj):
        m = inspect_static(v.cls, "__str__")
        if isinstance(m, types.FunctionType): return it.call(m, [v])
    if isinstance(v, Opaque) and v.cls is str: return v
    return fresh_str("repr")

def format_value(it, v, conv, spec):
    if conv == ord("r") or conv == ord("a"): return fresh_str("repr") if not is_native(v) else repr(v)
    if conv == ord("s"): v = to_text(it, v)
    if is_native(v) and isinstance(spec, str):
        try: return format(v, spec)
        except Exception as e: raise PyRaise(type(e), e.args)
    if spec == "": return to_text(it, v)
    if isinstance(v, (str, SS)) and isinstance(spec, str): return fresh_str("fmt")
    if isinstance(v, (Obj,)): raise Unsupported("format spec of object")
    if v is None: raise PyRaise(TypeError, ("unsupported format string",))
    r = fresh_str("fmt")
    if isinstance(v, (SI, SB, NI)) and isinstance(spec, str):
        m = re.fullmatch(r"0(\d)d?", spec)
        h = builtins.getattr(it, "padint_hook", None)
        if m and h is not None: return h(it, v, int(m[1]))
        if m and core.X.decide(nterm(as_int(v)) >= 0) is True: return zero_pad(as_int(v), int(m[1]))
    return r

def zero_pad(t, w):
    t = nterm(t)
    s = z3.IntToStr(t)
    r = s
    for k in range(1, w): r = z3.If(t < 10 ** k, z3.Concat(z3.StringVal("0" * (w - k)), s), r) if k == w - 1 else r
    out = s
    for k in range(w - 1, 0, -1): out = z3.If(t < 10 ** k, z3.Concat(z3.StringVal("0" * (w - k)), s), out)
    return SS(out)

@model(str)
def _str(it, args, kw):
    if not args: return ""
    v = args[0]
    if isinstance(v, (BA, bytes, bytearray)) and len(args) > 1: return it.call(BMethod(v, "decode"), args[1:], kw)
    return to_text(it, v)

@model(repr)
def _repr(it, args, kw): return format_value(it, args[0], ord("r"), "")

@model(ord)
def _ord(it, args, kw):
    if is_native(args[0]): return ord(args[0])
    raise Unsupported("ord")

def str_getitem(it, o, i):
    t = sterm(o)
    n = z3.Length(t)
    if isinstance(i, SliceV):
        if isinstance(o, FStr):           # a concrete prefix is cut off structurally
            r = fstr_slice(o, i)
            if r is not None: return r
        if i.step not in (None, 1): raise Unsupported("string slice step")
        lo = None if i.lo is None else as_idx(i.lo)
        hi = None if i.hi is None else as_idx(i.hi)
        lo, hi = clamp_slice(lib.simp(n), lo, hi)
        return SS(z3.simplify(z3.SubString(t, nterm(lo), nterm(hi) - nterm(lo))))
    k = lib.check_index(it, lib.simp(n), i)
    return SS(z3.simplify(z3.SubString(t, nterm(k), 1)))

def fstr_slice(o, i):
    if i.hi is None and isinstance(i.lo, int) and i.lo >= 0 and i.step in (None, 1) and o.parts and isinstance(o.parts[0], str) and len(o.parts[0]) >= i.lo:
        return mkstr([o.parts[0][i.lo:]] + o.parts[1:])
    return None

INTOK = z3.Function("is_int_text", STR, z3.BoolSort())
INTOF = z3.Function("int_of_text", STR, z3.IntSort())
def int_of_str(it, v):
    if not isinstance(v, SS): raise Unsupported("int of text")
    if not core.X.branch(INTOK(v.t)): it.exc(ValueError, "invalid literal for int()")
    return SI(INTOF(v.t))

# ------------------------------------------------------------------ operators
BINOPS[(ast.Add, "str", "str")] = lambda it, a, b: mkstr([a, b])
def str_eq(it, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported("opaque text compared")
    if isinstance(a, FStr) and isinstance(b, FStr):
        r = joined_eq(it, a, b)
        if r is not None: return r
    return boolv(sterm(a) == sterm(b))
def joined_eq(it, a, b):
    """texts joined from parts that cannot hold the separator are equal exactly when the parts are"""
    def shape(v):
        ps = list(v.parts)
        lead = ""
        if ps and isinstance(ps[0], str): lead = ps.pop(0)
        if len(ps) % 2 == 0 or len(ps) == 1: return None
        seps = ps[1::2]
        if any(isinstance(p, str) for p in ps[::2]) or not all(isinstance(p, str) and len(p) == 1 for p in seps) or len(set(seps)) != 1: return None
        return lead, seps[0], ps[::2]
    x, y = shape(a), shape(b)
    if x is None or y is None or x[:2] != y[:2] or len(x[2]) != len(y[2]): return None
    if not all(sep_free(p, x[1]) for p in x[2] + y[2]): return None
    return boolv(z3.And(*[part_term(p) == part_term(q) for p, q in zip(x[2], y[2])]))
EQUALS[("str", "str")] = str_eq
def str_mod(it, a, b):
    if isinstance(a, str):
        m = re.fullmatch(r"%0(\d)d", a)
        if m and is_pyint(b):
            w = int(m[1])
            if isinstance(b, int): return a % b
            h = builtins.getattr(it, "padint_hook", None)
            if h is not None: return h(it, b, w)
            if core.X.decide(nterm(as_int(b)) >= 0) is True: return zero_pad(as_int(b), w)
    raise Unsupported("% formatting")
BINOPS[(ast.Mod, "str", "int")] = str_mod

def sep_free(p, sep):
    """the part is known not to contain the (one character) separator"""
    if isinstance(p, str): return sep not in p
    if isinstance(p, (int, SI, SB, NI)): return not (sep.isdigit() or sep == "-")
    d = core.X.decide(z3.Not(z3.Contains(p.t, z3.StringVal(sep))))
    return d is True

def split_parts(o, sep):
    """structural split of text whose symbolic parts cannot contain sep"""
    ps = o.parts if isinstance(o, FStr) else [o]
    items, cur = [], []
    for p in ps:
        if isinstance(p, str):
            bits = p.split(sep)
            cur.append(bits[0])
            for b in bits[1:]:
                items.append(mkstr(cur)); cur = [b]
        else:
            if not sep_free(p, sep): return None
            cur.append(p)
    items.append(mkstr(cur))
    return items

SPLIT_MAX = 8
@meth(SS, "split")
def _split(it, o, args, kw):
    X = core.X
    if not args or len(args) > 1 or kw: raise Unsupported("split arguments")
    sep = args[0]
    if isinstance(sep, SS):
        return split_sym(it, o, sep)
    if not isinstance(sep, str): it.exc(TypeError, "must be str or None")
    if sep == "": it.exc(ValueError, "empty separator")
    if len(sep) != 1: raise Unsupported("split on a long separator")
    st = split_parts(o, sep)
    if st is not None: return PList(CSeq(st))
    if isinstance(o, FStr) and builtins.getattr(it, "split_rest", False):
        # the last part may hold separators: at least as many items as the parts before it give
        ps = list(o.parts)
        head = split_parts(FStr(ps[:-1]), sep) if len(ps) > 1 else None
        if head is not None and len(head) > SPLIT_MAX:
            n = X.fint("nitems"); X.assume(n >= len(head))
            def f(i):
                if isinstance(i, int) and i < len(head) - 1: return head[i]
                raise Unsupported("item of a long split")
            return PList(Seq(n, f))
    sv = z3.StringVal(sep)
    k = X.choose(SPLIT_MAX + 1)
    items = [X.fresh("item", STR) for _ in range(min(k + 1, SPLIT_MAX))]
    for t in items: X.assume(z3.Not(z3.Contains(t, sv)))
    if k < SPLIT_MAX:
        ts = [items[0]]
        for t in items[1:]: ts += [sv, t]
        X.assume(o.t == (z3.Concat(*ts) if len(ts) > 1 else ts[0]))
        if not X.feasible(z3.BoolVal(True)): raise PathEnd()
        return PList(CSeq([SS(t) for t in items]))
    ts = []
    for t in items: ts += [t, sv]
    rest = X.fresh("rest", STR)
    X.assume(o.t == z3.Concat(*ts, rest))
    n = X.fint("nitems"); X.assume(n > SPLIT_MAX)
    def f(i):
        if isinstance(i, int) and i < SPLIT_MAX: return SS(items[i])
        raise Unsupported("item of a long split")
    return PList(Seq(n, f))

def split_sym(it, o, sep):
    """separator of unknown text: only the structural case"""
    X = core.X
    ps = o.parts if isinstance(o, FStr) else [o]
    def is_sep(p): return isinstance(p, SS) and p.t.eq(sep.t)
    if X.decide(z3.Length(sep.t) >= 1) is not True: raise Unsupported("separator may be empty")
    items, cur = [], []
    for p in ps:
        if is_sep(p): items.append(mkstr(cur)); cur = []
        else:
            # no character of the part occurs in the separator: then no occurrence of sep overlaps it
            h = builtins.getattr(it, "sep_disjoint", None)
            if h is None or not h(p, sep): raise Unsupported("separator inside a part")
            cur.append(p)
    items.append(mkstr(cur))
    return PList(CSeq(items))

@meth(SS, "startswith")
def _startswith(it, o, args, kw):
    p = args[0]
    if isinstance(p, tuple):
        return boolv(z3.Or(*[z3.PrefixOf(sterm(x), o.t) for x in p]))
    if isinstance(o, FStr) and isinstance(p, str) and o.parts and isinstance(o.parts[0], str) and len(o.parts[0]) >= len(p):
        return o.parts[0].startswith(p)
    return boolv(z3.PrefixOf(sterm(p), o.t))
@meth(SS, "endswith")
def _endswith(it, o, args, kw): return boolv(z3.SuffixOf(sterm(args[0]), o.t))

@meth(SS, "join")
def _join_s(it, o, args, kw): return join_(it, o, args[0])
def join_(it, sep, v):
    vals = lib.iter_values(it, v)
    ps = []
    for k, x in enumerate(vals):
        if k: ps.append(sep)
        if not isinstance(x, (str, SS)): it.exc(TypeError, "expected str instance")
        ps.append(x)
    return mkstr(ps)
METHODS[(str, "join")] = lambda it, o, args, kw: join_(it, o, args[0])

@meth(SS, "replace")
def _replace(it, o, args, kw):
    h = builtins.getattr(it, "replace_hook", None)
    if h is not None:
        r = h(it, o, args)
        if r is not None: return r
    raise Unsupported("str.replace")

WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"
@meth(SS, "strip")
def _strip(it, o, args, kw):
    if args: raise Unsupported("strip characters")
    h = builtins.getattr(it, "strip_hook", None)
    if h is not None: return h(it, o)
    X = core.X
    ws = z3.Union(*[z3.Re(c) for c in WS + "\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"])
    l, r, t = (X.fresh(b, STR) for b in ("lead", "body", "trail"))
    X.assume(o.t == z3.Concat(l, r, t))
    X.assume(z3.InRe(l, z3.Star(ws))); X.assume(z3.InRe(t, z3.Star(ws)))
    X.assume(z3.Or(z3.Length(r) == 0, z3.And(z3.Not(z3.InRe(z3.SubString(r, 0, 1), ws)), z3.Not(z3.InRe(z3.SubString(r, z3.Length(r) - 1, 1), ws)))))
    X.assume(z3.Implies(z3.Length(r) == 0, z3.Length(t) == 0))
    return SS(r)

@meth(SS, "ljust")
def _ljust(it, o, args, kw):
    w = args[0]
    if not isinstance(w, int) or len(args) > 1: raise Unsupported("ljust")
    h = builtins.getattr(it, "ljust_hook", None)
    if h is not None: return h(it, o, w)
    n = z3.Length(o.t)
    return SS(z3.simplify(z3.If(n >= w, o.t, z3.Concat(o.t, z3.SubString(z3.StringVal(" " * w), 0, w - n)))))

@meth(SS, "upper", "lower", "rstrip", "lstrip", "zfill", "isdigit", "isalnum", "title", "format", "find", "index", "count", "splitlines", "rjust")
def _unsup(it, o, args, kw): raise Unsupported("string method")

def str_format(it, o, args, kw):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        parts.append(lit)
        if field is None: continue
        if field == "": v = args[auto]; auto += 1
        elif field.isdigit(): v = args[int(field)]
        elif field in kw: v = kw[field]
        else: raise Unsupported("format field")
        parts.append(format_value(it, v, ord(conv) if conv else -1, spec or ""))
    return mkstr(parts)
METHODS[(str, "format")] = str_format
METHODS[(str, "split")] = lambda it, o, args, kw: PList(CSeq(o.split(*args, **kw)))

# ------------------------------------------------------------------ regular expressions
_wcache = {}
def char_ranges(pred):
    key = pred
    if key not in _wcache:
        pat = re.compile(pred[0], pred[1])
        out, start = [], None
        for c in range(0x30000):
            if 0xD800 <= c < 0xE000: m = False
            else: m = pat.fullmatch(chr(c)) is not None
            if m and start is None: start = c
            if not m and start is not None: out.append((start, c - 1)); start = None
        if start is not None: out.append((start, 0x2FFFF))
        _wcache[key] = out
    return _wcache[key]

def zch(c): return z3.StringVal(chr(c)) if c < 127 and c >= 32 else z3.StringVal("\\u{%x}" % c)
def z3_ranges(rs):
    ts = [z3.Range(zch(a), zch(b)) if a != b else z3.Re(zch(a)) for a, b in rs]
    return z3.Union(*ts) if len(ts) > 1 else ts[0]

ANYCHAR = None
ASCII_TEXT = False      # set by a unit whose texts are all ASCII: classes are cut to ASCII
def category(cat, flags):
    if ASCII_TEXT: flags |= re.ASCII
    name = {sre_c.CATEGORY_DIGIT: r"\d", sre_c.CATEGORY_WORD: r"\w", sre_c.CATEGORY_SPACE: r"\s", sre_c.CATEGORY_NOT_DIGIT: r"\D",
            sre_c.CATEGORY_NOT_WORD: r"\W", sre_c.CATEGORY_NOT_SPACE: r"\S"}[cat]
    return char_ranges((name, flags & re.ASCII))

def in_ranges(items, flags):
    rs, neg = [], False
    for op, av in items:
        if op is sre_c.NEGATE: neg = True
        elif op is sre_c.LITERAL: rs.append((av, av))
        elif op is sre_c.RANGE: rs.append(av)
        elif op is sre_c.CATEGORY: rs += category(av, flags)
        else: raise Unsupported(f"regex class {op}")
    rs.sort()
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(b, out[-1][1]))
        else: out.append((a, b))
    if neg:
        inv, prev = [], 0
        for a, b in out:
            if a > prev: inv.append((prev, a - 1))
            prev = b + 1
        if prev <= 0x2FFFF: inv.append((prev, 0x2FFFF))
        out = inv
    return out

def to_z3re(tree, flags):
    parts = []
    for op, av in tree:
        if op is sre_c.LITERAL: parts.append(z3.Re(zch(av)))
        elif op is sre_c.IN: parts.append(z3_ranges(in_ranges(av, flags)))
        elif op is sre_c.ANY: parts.append(z3_ranges([(0, 9), (11, 0x2FFFF)]))
        elif op is sre_c.NOT_LITERAL: parts.append(z3_ranges(in_ranges([(sre_c.NEGATE, None), (sre_c.LITERAL, av)], flags)))
        elif op is sre_c.MAX_REPEAT:
            lo, hi, sub = av
            r = to_z3re(sub, flags)
            if hi is sre_c.MAXREPEAT:
                parts.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            else: parts.append(z3.Loop(r, lo, hi))
        elif op is sre_c.SUBPATTERN: parts.append(to_z3re(av[3], flags))
        elif op is sre_c.BRANCH: parts.append(z3.Union(*[to_z3re(t, flags) for t in av[1]]))
        elif op is sre_c.CATEGORY: parts.append(z3_ranges(category(av, flags)))
        else: raise Unsupported(f"regex {op}")
    if not parts: return z3.Re(z3.StringVal(""))
    return z3.Concat(*parts) if len(parts) > 1 else parts[0]

_recache = {}
def pat_re(p):
    k = (p.pattern, p.flags, ASCII_TEXT)
    if k not in _recache:
        if p.flags & ~(re.ASCII | re.UNICODE): raise Unsupported("regex flags")
        _recache[k] = to_z3re(sre_parse.parse(p.pattern, p.flags), p.flags)
    return _recache[k]

class MatchV(Sym):
    """match object (truthy)"""
    def __init__(self, groups): self.groups = groups
    def truth(self): return True
    def sym_getitem(self, it, i):
        if isinstance(i, int) and 0 <= i < len(self.groups): return self.groups[i]
        it.exc(IndexError, "no such group")
@meth(MatchV, "group")
def _group(it, o, args, kw): return o.sym_getitem(it, args[0] if args else 0)
@meth(MatchV, "groups")
def _groups(it, o, args, kw): return tuple(o.groups[1:])

def full_match(it, pat, s):
    X = core.X
    if isinstance(s, str):
        m = pat.fullmatch(s)
        return None if m is None else MatchV([m.group(0)] + list(m.groups()))
    if not isinstance(s, SS): it.exc(TypeError, "expected string or bytes-like object")
    h = builtins.getattr(it, "match_hook", None)
    if h is not None:
        r = h(it, pat, s)
        if r is not None: return r
    if not X.branch(z3.InRe(s.t, pat_re(pat))): return None
    if pat.groups == 0: return MatchV([s])
    tree = sre_parse.parse(pat.pattern, pat.flags)
    pieces, groups, cs = [], [s], []
    for op, av in tree:
        t = X.fresh("grp", STR)
        X.assume(z3.InRe(t, to_z3re([(op, av)], pat.flags)))
        pieces.append((op, av, t))
        if op is sre_c.SUBPATTERN: groups.append(SS(t))
    X.assume(s.t == z3.Concat(*[t for _, _, t in pieces]))
    greedy(pieces, pat)
    return MatchV(groups)

def greedy(pieces, pat):
    """pieces: (fixed length | literal | group repeat)...; a repeat followed by a literal and a final repeat whose
    class contains both takes as much as possible, so the last part has no further literal"""
    X = core.X
    kinds = []
    for op, av, t in pieces:
        if op is sre_c.LITERAL: kinds.append(("lit", av, t)); continue
        if op is sre_c.SUBPATTERN and len(av[3]) == 1:
            o2, a2 = list(av[3])[0]
            if o2 in (sre_c.IN, sre_c.LITERAL): kinds.append(("one", None, t)); continue
            if o2 is sre_c.MAX_REPEAT and len(a2[2]) == 1 and list(a2[2])[0][0] is sre_c.IN and a2[1] is sre_c.MAXREPEAT:
                kinds.append(("rep", (a2[0], in_ranges(list(a2[2])[0][1], pat.flags)), t)); continue
        raise Unsupported("regex groups")
    reps = [k for k, x in enumerate(kinds) if x[0] == "rep"]
    if len(reps) <= 1: return
    if len(reps) == 2 and reps[1] == len(kinds) - 1 and reps[1] == reps[0] + 2 and kinds[reps[0] + 1][0] == "lit" and kinds[reps[0]][1][1] == kinds[reps[1]][1][1] and kinds[reps[1]][1][0] == 0:
        c = kinds[reps[0] + 1][1]
        if any(a <= c <= b for a, b in kinds[reps[0]][1][1]):
            X.assume(z3.Not(z3.Contains(kinds[reps[1]][2], zch(c))))
        return
    raise Unsupported("regex groups")

@meth(re.Pattern, "fullmatch")
def _fullmatch(it, o, args, kw): return full_match(it, o, args[0])
@model(re.fullmatch)
def _refullmatch(it, args, kw): return full_match(it, re.compile(args[0]), args[1])
@model(re.compile)
def _recompile(it, args, kw):
    if all(is_native(a) for a in args):
        try: return re.compile(*args)
        except re.error as e: raise PyRaise(re.error, e.args)
    h = builtins.getattr(it, "pattern_hook", None)
    if h is not None: return h(it, args[0])
    raise Unsupported("re.compile of symbolic text")
