"""Construction of miniSEED3 records from every kind of data: nothing is narrowed, the header agrees."""
from vc import *
import z3, array, struct
import numpy as np
from libio import *
from simplemseed import mseed3, seedcodec
from simplemseed.exceptions import CodecException, UnsupportedCompressionType
from simplemseed.seedcodec import EncodedDataSegment
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, Miniseed3Exception
from header3 import sym_header, LAYOUT
from record3 import BYTYPE

NUMPY = ("np.array(list, dtype) of numpy 2: integer arrays cut floats towards zero and raise for NaN, infinities and values out of range; "
         "float arrays round to nearest and raise for integers beyond the largest double (external; checked against numpy by pyvc/selftest.py)")
WIDEN = "widening a single to a double keeps its value; the rounding of integers and doubles to floats is uninterpreted"
ENC = {v: k for k, v in BYTYPE.items()}
DEFAULT = 4

# ---------------------------------------------------------------- lists
def fn(x, name, sort):
    return z3.Function(f"{name}!{next(x.counter)}", z3.IntSort(), sort)

def list_kinds():
    B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
    def ints(x):
        A = fn(x, "given", z3.IntSort()); return lambda i: SI(A(nterm(i)))
    def floats(x):
        A = fn(x, "given", B64); return lambda i: SF(None, A(nterm(i)))
    def mixed(x):
        a, b = ints(x), floats(x); K = fn(x, "whole", z3.BoolSort())
        return lambda i: a(i) if core.X.branch(K(nterm(i))) else b(i)
    def npint(w, s):
        def mk(x):
            A = fn(x, "given", z3.BitVecSort(w)); return lambda i: NI(A(nterm(i)), s)
        return mk
    def npf(w):
        def mk(x):
            A = fn(x, "given", z3.BitVecSort(w)); return lambda i: SF(None, A(nterm(i)), w)
        return mk
    def both(x):
        a, b = npint(64, True)(x), npf(64)(x); K = fn(x, "whole", z3.BoolSort())
        return lambda i: a(i) if core.X.branch(K(nterm(i))) else b(i)
    return {"int": ints, "float": floats, "int and float": mixed, "numpy.int64": npint(64, True), "numpy.int16": npint(16, True), "numpy.uint64": npint(64, False),
            "numpy.float32": npf(32), "numpy.float64": npf(64), "numpy.int64 and numpy.float64": both}
LISTS = list_kinds()
DTS = ["int16", "int32", "float32", "float64"]

def plain(it, v):
    """python value of a list element"""
    if isinstance(v, NI) or isinstance(v, SF) and v.np: return lib.method(it, v, "item", [], {})
    return v

def exact(it, given, value, rounds):
    """Bool: the value stored is the one given, or a float that may be rounded"""
    given = plain(it, given)
    if rounds and isinstance(given, SF): return z3.BoolVal(True)
    return eqv(it, given, value)

class Check(LoopSpec):
    """isStoredExactly: the elements before k are stored exactly"""
    must_enter = True
    def __init__(self, x, given, stored, rounds): self.x, self.given, self.stored, self.rounds = x, given, stored, rounds
    def at(self, it, j): return exact(it, self.given(j), self.stored(j), self.rounds)
    def entry(self, it, fr, k): pass
    def havoc(self, it, fr, k): self.k = k; self.ended = False
    def check(self, it, fr, k):
        self.x.prove(self.at(it, self.k), "isStoredExactly: goes on past an element only if it is stored exactly")
    def exit(self, it, fr, k): self.ended = True

@unit("seedcodec.isStoredExactly", "C11", assume=[WIDEN])
def u_exact(x, it):
    x.fork_ifs = True
    def go():
        kind = list(LISTS)[x.choose(len(LISTS))]
        dt = np.dtype(DTS[x.choose(4)])
        rounds = bool(x.choose(2))
        n = sym_int(x, "length", 0)
        given = LISTS[kind](x)
        A = fn(x, "stored", z3.BitVecSort(8 * dt.itemsize))
        arr = NArr(dt, Seq(n.t, lambda i: A(nterm(i))))
        spec = Check(x, given, lambda j: libnp.scalar_of(dt, A(nterm(j))), rounds)
        it.loops[("seedcodec.isStoredExactly", "*")] = spec
        o = attempt(it, seedcodec.isStoredExactly, PList(Seq(n.t, given)), arr, rounds)
        x.prove(z3.BoolVal(o.ok), "isStoredExactly: does not fail")
        if not o.ok: return
        r = o.v
        if not isinstance(r, bool):
            r = x.branch(bterm(r))
        if r:
            x.cover("isStoredExactly true")
            x.prove(z3.BoolVal(spec.ended), "isStoredExactly: true only after all elements")
        else:
            x.cover(f"isStoredExactly false")
            x.prove(z3.BoolVal(not spec.ended), "isStoredExactly: false only at an element")
            if not spec.ended: x.prove(z3.Not(spec.at(it, spec.k)), "isStoredExactly: false only if an element is not stored exactly")
    return go

class Made:
    """a header with any encoding and count (among them unset), and what is kept of it"""
    def __init__(self, x, it):
        self.x, self.it = x, it
        self.h = sym_header(x, it, inrange=False)
        self.unset = x.choose(2)
        self.h.set("encoding", -1 if self.unset else self.h.get("encoding"))
        self.before = dict(self.h.a)
        self.enc0, self.n0 = nterm(as_int(self.h.get("encoding"))), nterm(as_int(self.h.get("numSamples")))
        self.ident = sym_str(x, "identifier")
    def make(self, data, eh=None):
        self.eh = eh
        return attempt(self.it, MSeed3Record, self.h, self.ident, data, *([eh] if eh is not None else []))
    def agrees(self, enc, n):
        return z3.And(z3.Or(self.enc0 == -1, self.enc0 == enc), z3.Or(self.n0 == 0, self.n0 == n))
    def made(self, o, enc, n, what):
        """the record o that was made from n samples of encoding enc"""
        x, h, r = self.x, self.h, o.v
        x.prove(self.agrees(enc, n), f"{what}: a header that disagrees with the data is refused")
        x.prove(z3.BoolVal(isinstance(r, Obj) and r.cls is MSeed3Record and r.get("header") is h and r.get("identifier") is self.ident), f"{what}: a record of the header and identifier given")
        x.prove(nterm(as_int(h.get("encoding"))) == enc, f"{what}: the header has the encoding of the data")
        x.prove(nterm(as_int(h.get("numSamples"))) == n, f"{what}: the header has the number of samples of the data")
        x.prove(z3.BoolVal(all(h.a[k] is v for k, v in self.before.items() if k not in ("encoding", "numSamples"))), f"{what}: other header fields stay")
        e = r.a.get("_eh")
        x.prove(z3.BoolVal(e is self.eh or self.eh is None and (e == "" if isinstance(e, str) else isinstance(e, PDict) and not e.d)), f"{what}: the extra headers given, none without")
        return r.get("_data")
    def refused(self, o, why, what):
        """refused: then for a reason"""
        self.x.prove(z3.BoolVal(issubclass(o.v.cls, (Miniseed3Exception, UnsupportedCompressionType, CodecException, ValueError, OverflowError))), f"{what}: refuses with an exception of the library or of numpy")
        self.x.prove(why, f"{what}: refuses only data that cannot be stored exactly or a header that disagrees")

def same_elements(x, data, n, want, what):
    if not isinstance(data, (NArr, AArr)): x.prove(z3.BoolVal(False), what); return
    x.prove(nterm(data.seq.n) == nterm(n), what)
    x.forall(0, nterm(n), lambda i: data.seq.get(i) == want(i), what)

def list_unit(kind):
    def u(x, it):
        x.fork_ifs = True
        def go():
            M = Made(x, it)
            n = sym_int(x, "length", 0)
            given = LISTS[kind](x)
            data = PList(Seq(n.t, given))
            ask = []
            def stored_exactly(it, f, args, kw):
                a = dict(zip(("data", "stored", "roundFloats"), args)); a.update(kw)
                arr = a["stored"]
                x.prove(z3.BoolVal(a["data"] is data and isinstance(arr, NArr)), "list: what is compared is the list and the array made from it")
                r = a["roundFloats"]
                if not isinstance(r, bool): r = x.branch(bterm(r))
                yes = x.branch(x.fbool("exact"))
                if not yes:
                    k = x.fint("witness"); x.assume(z3.And(k >= 0, k < n.t))
                    x.assume(z3.Not(exact(it, given(k), libnp.scalar_of(arr.dt, arr.seq.get(k)), r)))
                    if not x.feasible(z3.BoolVal(True)): raise PathEnd()
                    ask.append((arr, r, k)); return False
                ask.append((arr, r, None)); return True
            it.contracts["seedcodec.isStoredExactly"] = stored_exactly
            it.misfits = []
            o = M.make(data)
            what = f"record from a list of {kind}"
            enc = z3.If(M.enc0 == -1, DEFAULT, M.enc0)
            if not o.ok:
                # numpy refuses an element, or it is not stored exactly: then it cannot be represented
                prim = z3.Or(*[enc == e for e in BYTYPE])
                bad = bool(it.misfits) or any(k is not None and not (r and dtk(arr) != "f") for arr, r, k in ask)
                for d, k in it.misfits: x.prove(enc == ENC[d.type], f"{what}: elements are converted to the type of the encoding")
                for arr, r, k in ask:
                    if k is not None and dtk(arr) == "f" and not r:
                        # a float may be rounded to the width of the encoding
                        x.prove(z3.BoolVal(not isinstance(plain(it, given(k)), SF)), f"{what}: a float is not refused for being rounded to the width of the encoding")
                M.refused(o, z3.BoolVal(True) if bad else z3.Or(z3.Not(prim), z3.Not(M.agrees(enc, n.t))), what)
                x.cover(f"{what} refused")
                return
            x.cover(f"{what} made")
            d = M.made(o, enc, n.t, what)
            if not isinstance(d, NArr): x.prove(z3.BoolVal(False), f"{what}: kept as samples"); return
            x.prove(z3.And(z3.BoolVal(d.dt.type in ENC), enc == ENC.get(d.dt.type, 0)), f"{what}: samples are of the type of the encoding")
            x.prove(nterm(d.seq.n) == n.t, f"{what}: as many samples as were given")
            i = x.fint("index"); x.vars["index"] = i
            x.assume(z3.And(i >= 0, i < n.t))
            g = given(i); val = libnp.scalar_of(d.dt, d.seq.get(i))
            for arr, r, k in ask:
                if arr is d: x.assume(exact(it, g, libnp.scalar_of(arr.dt, arr.seq.get(i)), r))
            p = plain(it, g)
            if dtk(d) == "f" and isinstance(p, SF): ok = d.seq.get(i) == libnp.list_elem(d.dt, g)[1]
            else: ok = eqv(it, p, val)
            x.prove(ok, f"{what}: every sample is the one given (a float in a float encoding rounded to its width)")
        return go
    return u
def dtk(a): return a.dt.kind
for _k in LISTS: unit(f"mseed3.MSeed3Record of a list of {_k}", "C11", assume=[NUMPY, WIDEN])(list_unit(_k))

# ---------------------------------------------------------------- arrays
NPTYPES = ["int8", "<i2", ">i2", "<i4", ">i4", "<i8", ">i8", "uint8", "uint16", "<u4", ">u4", "uint64", "float16", "<f4", ">f4", "<f8", ">f8", "bool", "complex64", "longdouble", "U3", "datetime64[s]"]

@unit("mseed3.MSeed3Record of a numpy array", "C11")
def u_numpy(x, it):
    def go():
        x.fork_ifs = True
        M = Made(x, it)
        dt = np.dtype(NPTYPES[x.choose(len(NPTYPES))])
        what = f"record from a numpy array of {dt}"
        n = sym_int(x, "length", 0)
        w = 8 * dt.itemsize
        A = fn(x, "given", z3.BitVecSort(w))
        data = NArr(dt, Seq(n.t, lambda i: A(nterm(i))))
        o = M.make(data)
        native = {("i", 2): 1, ("i", 4): 3, ("i", 8): 3, ("u", 4): 3, ("u", 8): 3, ("f", 4): 4, ("f", 8): 5}.get((dt.kind, dt.itemsize))
        wide = dt.kind in "iu" and native == 3 and not (dt.kind == "i" and dt.itemsize == 4)
        fits = lambda t: z3.And(t >= -(1 << 31), t < 1 << 31) if dt.kind == "i" else z3.ULT(t, 1 << 31)
        if not o.ok:
            x.cover(f"{what} refused")
            if native is None: M.refused(o, z3.BoolVal(True), what); return
            ext = builtins_getattr(it, "extremes", [])
            out = z3.Or(*[z3.Not(fits(libnp.to_bits(m, w))) for m in ext]) if wide and ext else z3.BoolVal(False)
            M.refused(o, z3.Or(out, z3.Not(M.agrees(native, n.t))), what)
            return
        x.prove(z3.BoolVal(native is not None), f"{what}: a type that cannot be stored is refused")
        if native is None: return
        x.cover(f"{what} made")
        d = M.made(o, native, n.t, what)
        if not isinstance(d, NArr): x.prove(z3.BoolVal(False), f"{what}: kept as samples"); return
        x.prove(z3.BoolVal(d.dt.type is BYTYPE[native]), f"{what}: samples are of the type of the encoding")
        x.prove(nterm(d.seq.n) == n.t, f"{what}: as many samples as were given")
        i = x.fint("index"); x.vars["index"] = i
        x.assume(z3.And(i >= 0, i < n.t))
        e, t = d.seq.get(i), data.seq.get(i)
        if wide:
            x.prove(fits(t), f"{what}: a value that does not fit 32 bits is refused")
            e = z3.SignExt(w - 32, e) if w > 32 else e
        x.prove(e == t, f"{what}: every sample is the one given")
    return go
builtins_getattr = lambda o, n, d: o.__dict__.get(n, d)

@unit("mseed3.MSeed3Record of an array of several dimensions or of none", "C11")
def u_numpynd(x, it):
    def go():
        x.fork_ifs = True
        M = Made(x, it)
        k = x.choose(3)
        if k < 2: data = NArrND(np.dtype(["int32", "float64"][x.choose(2)]), () if k else (sym_int(x, "a", 0), sym_int(x, "b", 0)))
        else:
            # a nested list: numpy makes an array of several dimensions from it
            data = PList(Seq(sym_int(x, "length", 1).t, lambda i: PList(Seq(z3.IntVal(2), lambda j: 1))))
            it.array_hook = lambda it, v, dt: NArrND(dt, (intv(v.seq.n), 2))
            it.contracts["seedcodec.isStoredExactly"] = lambda it, f, args, kw: True
        o = M.make(data)
        x.prove(z3.BoolVal(not o.ok), "record from an array or list that is not one-dimensional: refused")
        if not o.ok: M.refused(o, z3.BoolVal(True), "record from an array of several dimensions")
        x.cover("several dimensions")
    return go

@unit("mseed3.MSeed3Record of an array.array", "C11")
def u_array(x, it):
    def go():
        x.fork_ifs = True
        M = Made(x, it)
        tc = "bBhHiIlLqQfd"[x.choose(12)]
        sz = array.array(tc).itemsize
        what = f"record from an array {tc}"
        n = sym_int(x, "length", 0)
        A = fn(x, "given", z3.BitVecSort(8 * sz))
        data = AArr(tc, sz, Seq(n.t, lambda i: A(nterm(i))))
        o = M.make(data)
        native = {("h", 2): 1, ("i", 4): 3, ("l", 4): 3, ("f", 4): 4, ("d", 8): 5}.get((tc, sz))
        if not o.ok:
            M.refused(o, z3.BoolVal(True) if native is None else z3.Not(M.agrees(native, n.t)), what); x.cover(f"{what} refused"); return
        x.prove(z3.BoolVal(native is not None), f"{what}: a type that cannot be stored is refused")
        if native is None: return
        x.cover(f"{what} made")
        d = M.made(o, native, n.t, what)
        if isinstance(d, (NArr, AArr)):
            t = d.dt if isinstance(d, NArr) else libnp.aa_dtype(d)
            x.prove(z3.BoolVal(t.type is BYTYPE[native]), f"{what}: samples are of the type of the encoding")
        same_elements(x, d, n.t, A, f"{what}: every sample is the one given")
    return go

# ---------------------------------------------------------------- encoded data, nothing, other
@unit("mseed3.MSeed3Record of bytes, an encoded segment, nothing or anything else", "C11")
def u_other(x, it):
    def go():
        x.fork_ifs = True
        M = Made(x, it)
        k = x.choose(7)
        if k == 0:
            o = M.make(None)
            if not o.ok: M.refused(o, z3.Not(M.agrees(0, 0)), "record without data"); x.cover("nothing refused"); return
            x.cover("nothing")
            x.prove(z3.BoolVal(M.made(o, 0, 0, "record without data") is None), "record without data: has none")
        elif k < 3:
            b = sym_bytes(x, "payload", sym_int(x, "payload length", 0).t, mutable=k == 2)
            o = M.make(b)
            x.prove(z3.BoolVal(o.ok), "record from bytes: made as the header says")
            if not o.ok: return
            x.cover("bytes")
            d = M.made(o, M.enc0, M.n0, "record from bytes")
            if not isinstance(d, BA): x.prove(z3.BoolVal(False), "record from bytes: the payload is the bytes given"); return
            x.prove(nterm(d.seq.n) == nterm(b.seq.n), "record from bytes: the payload is the bytes given")
            x.forall(0, nterm(b.seq.n), lambda i: d.seq.get(i) == b.seq.get(i), "record from bytes: the payload is the bytes given")
        elif k < 5:
            b = sym_bytes(x, "payload", sym_int(x, "payload length", 0).t, mutable=bool(x.choose(2)))
            enc, n = sym_int(x, "segment encoding"), sym_int(x, "segment samples", 0)
            little = k == 3
            got = []
            def dec(it, f, args, kw):
                a = dict(zip(("compressionType", "dataBytes", "numSamples", "littleEndian"), args)); a.update(kw)
                x.prove(z3.And(eqv(it, a["compressionType"], enc), z3.BoolVal(a["dataBytes"] is b), eqv(it, a["numSamples"], n), eqv(it, a["littleEndian"], little)), "record from a segment: it is decoded as it says")
                if not x.branch(x.fbool("decodable")): got.append(None); it.exc(CodecException, "payload")
                t = DTS[x.choose(4)]; t = np.dtype(t)
                x.assume(nterm(enc.t) == ENC[t.type])
                if not x.feasible(z3.BoolVal(True)): raise PathEnd()
                A = fn(x, "samples", z3.BitVecSort(8 * t.itemsize))
                got.append(NArr(t, Seq(n.t, lambda i: A(nterm(i)))))
                return got[0]
            it.contracts["seedcodec.decompress"] = dec
            seg = it.call(EncodedDataSegment, [enc, b, n, little])
            o = M.make(seg)
            prim = z3.Or(*[enc.t == e for e in BYTYPE])
            what = "record from an encoded segment"
            x.prove(z3.BoolVal(seg.get("dataBytes") is b and seg.get("compressionType") is enc and seg.get("numSamples") is n), f"{what}: the segment stays as it is")
            if not o.ok:
                x.cover(f"segment refused")
                M.refused(o, z3.BoolVal(True) if got and got[0] is None else z3.Not(M.agrees(enc.t, n.t)), what); return
            d = M.made(o, enc.t, n.t, what)
            if isinstance(d, BA):
                x.cover("segment as it is")
                x.prove(z3.Or(z3.Not(prim), z3.BoolVal(little)), f"{what}: primitive payload is little endian in miniSEED3")
                x.prove(nterm(d.seq.n) == nterm(b.seq.n), f"{what}: the payload is that of the segment")
                x.forall(0, nterm(b.seq.n), lambda i: d.seq.get(i) == b.seq.get(i), f"{what}: the payload is that of the segment")
            else:
                x.cover("segment decoded")
                if not got or not isinstance(d, NArr): x.prove(z3.BoolVal(False), f"{what}: the samples are those of the segment"); return
                x.prove(z3.BoolVal(d.dt.type is got[0].dt.type), f"{what}: samples are of the type of the encoding")
                same_elements(x, d, n.t, got[0].seq.get, f"{what}: the samples are those of the segment")
        else:
            data = (sym_str(x, "text"), PDict(), 5, (1, 2), {1, 2}, 2.5, True)[x.choose(7)] if k == 5 else Opaque(memoryview)
            o = M.make(data)
            x.prove(z3.BoolVal(not o.ok and o.v.cls is Miniseed3Exception), "record from anything else: refused with Miniseed3Exception")
            x.cover("anything else")
    return go
