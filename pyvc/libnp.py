"""Model of the numpy operations the library uses (numpy >= 2, NEP 50 promotion)."""
import ast, builtins
import z3
import numpy as np
from core import *
from heap import *
import core
from interp import *
import lib
from lib import model, meth, GETATTR, METHODS, MODELS, BINOPS, EQUALS, to_bits, _between, as_idx, simp

INTMAX = {(w, s): ((-(1 << (w - 1)) if s else 0), (1 << (w - 1)) - 1 if s else (1 << w) - 1) for w in (8, 16, 32, 64) for s in (True, False)}
def nd(v):
    """dtype of a numpy scalar value"""
    return np.dtype(lib.py_class(v))

def weak_to(it, v, w, signed):
    """python int used with a numpy integer scalar: converted to its type or OverflowError"""
    lo, hi = INTMAX[(w, signed)]
    ok = _between(v, lo, hi)
    if not it.branch(ok): it.exc(OverflowError, f"Python integer out of bounds for int{w}")
    return to_bits(v, w)

def scalar_binop(it, op, a, b):
    X = core.X
    if isinstance(a, (float, SF)) or isinstance(b, (float, SF)) or op is ast.Div:
        np_ = None
        for v in (a, b):
            if isinstance(v, SF) and v.np: np_ = max(np_ or 0, v.np)
            if isinstance(v, NI): np_ = max(np_ or 0, 64 if v.w >= 32 else 32)
        if op is ast.Div:
            r = lib.it_round(it, "npdiv", lib.real_of(a) / lib.real_of(b), a, b)
        else: r = lib.float_binop(it, op, a, b)
        return SF(r.t, r.bits, np_)
    if isinstance(a, NI) and isinstance(b, NI):
        dt = np.promote_types(nd(a), nd(b))
        if dt.kind == "f": raise Unsupported("int64 with uint64")
        w, s = dt.itemsize * 8, dt.kind == "i"
        x, y = to_bits(a, w), to_bits(b, w)
    elif isinstance(a, NI):
        w, s = a.w, a.signed
        x, y = a.t, weak_to(it, b, w, s)
    else:
        w, s = b.w, b.signed
        x, y = weak_to(it, a, w, s), b.t
    return NI(z3.simplify(bvop(it, op, x, y, s)), s)

def bvop(it, op, x, y, s):
    w = x.size()
    if op is ast.Add: return x + y
    if op is ast.Sub: return x - y
    if op is ast.Mult: return x * y
    if op is ast.BitAnd: return x & y
    if op is ast.BitOr: return x | y
    if op is ast.BitXor: return x ^ y
    if op is ast.LShift: return x << y           # count >= width (unsigned) gives 0, as numpy
    if op is ast.RShift: return x >> y if s else z3.LShR(x, y)
    raise Unsupported(f"numpy {op.__name__}")

def asint64(v):
    return NI(to_bits(v, 64), True)

def np_ufunc2(op):
    def h(it, args, kw):
        a, b = args
        if isinstance(a, NArr) or isinstance(b, NArr): raise Unsupported("array ufunc")
        if not (is_intlike(a) and is_intlike(b)): raise Unsupported("ufunc of non integers")
        if not isinstance(a, NI) and not isinstance(b, NI):
            for v in (a, b):
                if not it.branch(_between(v, *INTMAX[(64, True)])): raise Unsupported("object ufunc")
            a, b = asint64(a), asint64(b)
        return scalar_binop(it, op, a, b)
    return h
for f, op in ((np.bitwise_and, ast.BitAnd), (np.bitwise_or, ast.BitOr), (np.bitwise_xor, ast.BitXor), (np.left_shift, ast.LShift),
              (np.right_shift, ast.RShift), (np.add, ast.Add), (np.subtract, ast.Sub)):
    MODELS[id(f)] = (f, np_ufunc2(op))

def to_elem(it, dt, v):
    """value stored in an array of dtype dt -> BV"""
    w = dt.itemsize * 8
    if dt.kind in "iu":
        if isinstance(v, NI):
            sg = dt.kind == "i"
            if (v.w, v.signed) == (w, sg) or v.w < w and (not v.signed or sg) or v.w == w and not sg: return to_bits(v, w)
            if not sg: raise Unsupported("wider numpy integer stored into an unsigned array")
            c = z3.ULE(v.t, z3.BitVecVal((1 << (w - 1)) - 1, v.w)) if not v.signed else v.t == z3.SignExt(v.w - w, z3.Extract(w - 1, 0, v.t))
            if not it.branch(boolv(z3.simplify(c))): it.exc(OverflowError, f"Python integer out of bounds for int{w}")
            return z3.simplify(z3.Extract(w - 1, 0, v.t) if v.w > w else v.t)
        if isinstance(v, (int, SI, SB, SBool)): return weak_to(it, v, w, dt.kind == "i")
        if isinstance(v, (float, SF)): raise Unsupported("float stored into an integer array")
        raise Unsupported(f"{v!r} stored into an array")
    if dt.kind == "f":
        if isinstance(v, SF) and v.bits is not None:
            if v.bits.size() == w: return v.bits
            return lib.f32to64(v.bits) if w == 64 else lib.F64TO32(v.bits)
        b = lib.float_bits(v)
        return b if w == 64 else lib.F64TO32(b)
    raise Unsupported(f"array of {dt}")

def np_int(w, signed, cls):
    def h(it, args, kw):
        v = args[0] if args else 0
        if isinstance(v, NI): return NI(z3.simplify(to_bits(v, w)), signed)
        if isinstance(v, (int, SI, SB, SBool)): return NI(z3.simplify(weak_to(it, v, w, signed)), signed)
        if isinstance(v, (float, str)):
            try: return lift(cls(v))
            except Exception as e: raise PyRaise(type(e), e.args)
        if v is None or isinstance(v, Opaque): raise PyRaise(TypeError, ("int() argument",))
        raise Unsupported(f"np.int of {v!r}")
    MODELS[id(cls)] = (cls, h)
for c in (np.int8, np.int16, np.int32, np.int64): np_int(np.dtype(c).itemsize * 8, True, c)
for c in (np.uint8, np.uint16, np.uint32, np.uint64): np_int(np.dtype(c).itemsize * 8, False, c)

def dtype_of(x):
    if isinstance(x, np.dtype): return x
    if isinstance(x, (type, str)): return np.dtype(x)
    raise Unsupported("dtype argument")

@model(np.dtype)
def _dtype(it, args, kw): return dtype_of(args[0])

@model(np.zeros)
def _zeros(it, args, kw):
    n = args[0]
    dt = dtype_of(kw.get("dtype", args[1] if len(args) > 1 else np.float64))
    if isinstance(n, tuple):
        if len(n) != 1: raise Unsupported("np.zeros of several dimensions")
        n = n[0]
    if isinstance(n, (float, SF, str, SS)) or n is None: it.exc(TypeError, "expected a sequence of integers")
    n = as_idx(n)
    z = z3.BitVecVal(0, dt.itemsize * 8)
    if isinstance(n, int):
        if n < 0: it.exc(ValueError, "negative dimensions are not allowed")
        if n <= 4096: return NArr(dt, CSeq([z] * n))
    elif not it.branch(boolv(n >= 0)): it.exc(ValueError, "negative dimensions are not allowed")
    return NArr(dt, Seq(n, lambda i: z))

def is_array(v): return isinstance(v, (NArr, NArrND))

def list_dtype(it, v):
    raise Unsupported("dtype of a list")

@model(np.array, np.asarray)
def _array(it, args, kw):
    v = args[0]
    d = kw.get("dtype", args[1] if len(args) > 1 else None)
    if isinstance(v, NArr):
        dt = v.dt if d is None else dtype_of(d)
        if dt == v.dt: return NArr(dt, v.seq)
        return astype(it, v, dt, False)
    h = builtins.getattr(it, "array_hook", None)
    if h is not None:
        r = h(it, v, None if d is None else dtype_of(d))
        if r is not None: return r
    if isinstance(v, AArr):
        dt = np.dtype({"h": "i2", "i": "i4", "l": "i8", "q": "i8", "f": "f4", "d": "f8", "b": "i1", "B": "u1", "H": "u2", "I": "u4", "L": "u8"}[v.typecode]) if v.itemsize == 0 else aa_dtype(v)
        r = NArr(dt, v.seq)
        if d is not None and dtype_of(d) != dt: return astype(it, r, dtype_of(d), False)
        return r
    if isinstance(v, (PList, tuple)) and d is not None:
        dt = dtype_of(d)
        n, elem = lib.iteration(it, v)
        if isinstance(n, int):
            out = []
            for k in range(n):
                bad, b = list_elem(dt, elem(k))
                for c, e in bad:
                    if it.branch(boolv(c)): it.exc(e, "list element cannot be converted")
                out.append(b)
            return NArr(dt, CSeq(out))
        r = list_to_array(it, v, dt, n, elem)
        if r is not None: return r
    raise Unsupported("np.array")

TRUNC = lambda r: z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
I2F = {w: z3.Function(f"int_to_f{w}", z3.IntSort(), z3.BitVecSort(w)) for w in (32, 64)}
F16TO = {w: z3.Function(f"f16_to_f{w}", z3.BitVecSort(16), z3.BitVecSort(w)) for w in (32, 64)}
HUGE = (1 << 1024) - (1 << 970)        # ints from here on round to infinity as a double: OverflowError

def list_elem(dt, e):
    """np.array([e], dtype=dt), numpy 2: ([(condition, exception)], bits of the element otherwise). Integer arrays cut
    floats towards zero and refuse NaN, infinities and values out of range; float arrays round to nearest (uninterpreted)"""
    w = dt.itemsize * 8
    if not isinstance(e, (bool, int, float, SI, SB, SBool, NI, SF)): raise Unsupported("list element kind")
    isf = isinstance(e, (float, SF))
    if dt.kind in "iu":
        lo, hi = INTMAX[(w, dt.kind == "i")]
        if not isf:
            c = _between(e, lo, hi)
            c = c if isinstance(c, bool) else c.t
            return [(z3.Not(c) if not isinstance(c, bool) else z3.BoolVal(not c), OverflowError)], z3.simplify(to_bits(e, w))
        nan, inf, r = lib.ieee_parts(e)
        t = TRUNC(r)
        return [(nan, ValueError), (z3.Or(inf != 0, t < lo, t > hi), OverflowError)], z3.Int2BV(t, w)
    if dt.kind != "f" or w not in (32, 64): raise Unsupported(f"list to array of {dt}")
    if isf: return [], to_elem(None, dt, e)
    n = nterm(as_int(e))
    return [(z3.Or(n >= HUGE, n <= -HUGE), OverflowError)], I2F[w](n)

def list_to_array(it, v, dt, n, elem):
    """list of unknown length to an array of dtype: every element is converted, or one of them raises"""
    X = core.X
    if not isinstance(v, PList): return None
    if not X.branch(X.fbool("allfit")):
        k = X.fint("badix"); X.assume(z3.And(k >= 0, k < nterm(n)))
        bad, _ = list_elem(dt, elem(k))
        if not bad: raise PathEnd()
        i = X.choose(len(bad))
        for c, _e in bad[:i]: X.assume(z3.Not(c))
        X.assume(bad[i][0])
        if not X.feasible(z3.BoolVal(True)): raise PathEnd()
        if not hasattr(it, "misfits"): it.misfits = []
        it.misfits.append((dt, k))
        it.exc(bad[i][1], "list element cannot be converted")
    def f(i):
        bad, b = list_elem(dt, elem(i))
        for c, _ in bad: X.assume(z3.Implies(z3.And(nterm(i) >= 0, nterm(i) < nterm(n)), z3.Not(c)))
        return b
    return NArr(dt, Seq(n, f))

def scalar_of(dt, b):
    """python value of an array element (tolist, item)"""
    if dt.kind == "f":
        w = dt.itemsize * 8
        if w == 16: raise Unsupported("float16")
        return SF(None, b if w == 64 else lib.f32to64(b))
    return sbv(b if dt.kind == "i" else z3.ZeroExt(1, b))

@meth(NArr, "tolist")
def _tolist(it, o, args, kw):
    s = o.seq
    if isinstance(s, CSeq): return PList(CSeq([scalar_of(o.dt, e) for e in s.items]))
    return PList(Seq(s.n, lambda i: scalar_of(o.dt, s.get(i))))

def aa_dtype(v):
    return np.dtype(("f" if v.typecode in "fd" else "u" if v.typecode in "BHILQ" else "i") + str(v.itemsize))

def conv_elem(it, e, src, dst):
    """element conversion of ndarray.astype (unsafe casting)"""
    ws, wd = src.itemsize * 8, dst.itemsize * 8
    if src.kind in "iu" and dst.kind in "iu":
        if wd <= ws: return z3.simplify(z3.Extract(wd - 1, 0, e))
        return z3.simplify(z3.SignExt(wd - ws, e) if src.kind == "i" else z3.ZeroExt(wd - ws, e))
    if src.kind == "f" and dst.kind == "f":
        if ws == wd: return e
        return lib.F32TO64(e) if wd == 64 else lib.F64TO32(e)
    if src.kind in "iu" and dst.kind == "f":
        f = z3.Function(f"{src.kind}{ws}_to_f{wd}", z3.BitVecSort(ws), z3.BitVecSort(wd))
        return f(e)
    raise Unsupported(f"astype {src} to {dst}")

def astype(it, v, dt, _=None):
    src = v.dt
    s = v.seq
    if isinstance(s, CSeq): return NArr(dt, CSeq([conv_elem(it, e, src, dt) for e in s.items]))
    return NArr(dt, Seq(s.n, lambda i: conv_elem(it, s.get(i), src, dt)))

@meth(NArr, "astype")
def _astype(it, o, args, kw): return astype(it, o, dtype_of(args[0] if args else kw["dtype"]))
@meth(NArr, "copy")
def _copy(it, o, args, kw): return NArr(o.dt, o.seq)

def order_of(dt): return ">" if dt.byteorder == ">" else "<"

def tobytes_seq(o):
    size = o.dt.itemsize
    order = order_of(o.dt)
    s = o.seq
    if isinstance(s, CSeq):
        out = []
        for e in s.items: out += lib.bytes_of_bits(e, order)
        return CSeq(out)
    def byte(i):
        q, r = lib.divmod_const(i, size)
        bs = lib.bytes_of_bits(s.get(q), order)
        if isinstance(r, int): return bs[r]
        e = bs[-1]
        for j in range(size - 2, -1, -1): e = z3.If(r == j, bs[j], e)
        return e
    return Seq(simp(nterm(s.n) * size), byte)

@meth(NArr, "tobytes")
def _tobytes(it, o, args, kw): return BA(tobytes_seq(o), False)
@meth(AArr, "tobytes")
def _atobytes(it, o, args, kw): return BA(tobytes_seq(NArr(aa_dtype(o), o.seq)), False)

@model(np.frombuffer)
def _frombuffer(it, args, kw):
    b = lib.to_ba(args[0])
    dt = dtype_of(kw.get("dtype", args[1] if len(args) > 1 else np.float64))
    cnt = kw.get("count", args[2] if len(args) > 2 else -1)
    off = kw.get("offset", 0)
    if off != 0: raise Unsupported("frombuffer offset")
    n, size, order = b.seq.n, dt.itemsize, order_of(dt)
    if b.mutable: b.share()
    c = as_idx(cnt)
    if not it.branch(boolv(nterm(n) > 0)) : it.exc(ValueError, "buffer is empty") if not it.branch(boolv(nterm(c) == 0)) else None
    if it.branch(boolv(nterm(c) < 0)):
        if not it.branch(boolv(nterm(n) % size == 0)): it.exc(ValueError, "buffer size must be a multiple of element size")
        c = simp(nterm(n) / size)
    elif not it.branch(boolv(nterm(c) * size <= nterm(n))): it.exc(ValueError, "buffer is smaller than requested size")
    s = b.seq
    def el(i):
        base = i * size if isinstance(i, int) else simp(nterm(i) * size)
        bs = [s.get(base + j if isinstance(base, int) else simp(nterm(base) + j)) for j in range(size)]
        return lib.bits_of_bytes(bs, order)
    if isinstance(c, int) and c <= 4096: return NArr(dt, CSeq([el(i) for i in range(c)])).share()
    return NArr(dt, Seq(c, el)).share()

def np_bool(v): return v

@model(np.max, np.amax)
def _npmax(it, args, kw): return lib._ext(it, [args[0]], {}, True)
@model(np.min, np.amin)
def _npmin(it, args, kw): return lib._ext(it, [args[0]], {}, False)

@model(np.shape)
def _shape(it, args, kw):
    v = args[0]
    if isinstance(v, NArr): return (intv(v.seq.n),)
    if isinstance(v, NArrND): return v.shape
    raise Unsupported("np.shape")

@model(np.iinfo)
def _iinfo(it, args, kw): return np.iinfo(args[0])
GETATTR[np.iinfo] = lambda it, o, name: int(builtins.getattr(o, name)) if name in ("max", "min", "bits") else NOATTR

@model(np.issubdtype)
def _issub(it, args, kw): return bool(np.issubdtype(args[0], args[1]))
@model(np.can_cast)
def _cancast(it, args, kw):
    if not isinstance(args[0], (np.dtype, type)): raise Unsupported("can_cast")
    return bool(np.can_cast(args[0], args[1], *args[2:], **kw))

@model(np.array_equal)
def _array_equal(it, args, kw):
    h = builtins.getattr(it, "array_equal_hook", None)
    if h is not None: return h(it, *args)
    raise Unsupported("np.array_equal")

def _nattr(it, o, name):
    if name == "dtype": return o.dt
    if name == "size": return intv(o.seq.n)
    if name == "shape": return (intv(o.seq.n),)
    if name == "ndim": return 1
    if name == "itemsize": return o.dt.itemsize
    if name == "nbytes": return intv(simp(nterm(o.seq.n) * o.dt.itemsize))
    return NOATTR
GETATTR[NArr] = _nattr
def _ndattr(it, o, name):
    if name == "dtype": return o.dt
    if name == "shape": return o.shape
    if name == "ndim": return len(o.shape)
    return NOATTR
GETATTR[NArrND] = _ndattr
def _aattr(it, o, name):
    if name == "typecode": return o.typecode
    if name == "itemsize": return o.itemsize
    return NOATTR
GETATTR[AArr] = _aattr
GETATTR[NI] = lambda it, o, name: nd(o) if name == "dtype" else NOATTR
@meth(NI, "item")
def _item(it, o, args, kw): return sbv(as_sb(o))
@meth(SF, "item")
def _fitem(it, o, args, kw):
    if o.np is None: it.exc(AttributeError, "item")
    if o.bits is not None and o.bits.size() == 32: return SF(o.t, lib.f32to64(o.bits))
    return SF(o.t, o.bits)

def lift_array(a):
    dt = a.dtype
    u = a.astype(dt.newbyteorder("="))
    w = dt.itemsize * 8
    return NArr(dt, CSeq([z3.BitVecVal(int(x), w) for x in u.view(f"u{dt.itemsize}")]))
