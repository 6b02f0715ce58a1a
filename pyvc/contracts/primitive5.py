"""Primitive payloads: encode, decompress and their composition; the type tables."""
from vc import *
import z3, struct, array
import numpy as np
from simplemseed import seedcodec, steim1, steim2
from simplemseed.exceptions import CodecException, UnsupportedCompressionType
from simplemseed.seedcodec import EncodedDataSegment

SIZE = {1: 2, 3: 4, 4: 4, 5: 8}
INTENC = {1: 16, 3: 32}
DTYPE = {1: np.int16, 3: np.int32, 4: np.float32, 5: np.float64}
IEEE = "narrowing a double to a single, when the data are wider than the encoding, is IEEE rounding (uninterpreted)"

def data_kinds():
    """(name, make(x, n) -> (container, value at index as kind/term), type guessed from the container or None)"""
    out = []
    def npk(dt):
        d = np.dtype(dt); w = d.itemsize * 8
        def mk(x, n):
            A = z3.Function(f"data{next(x.counter)}", z3.IntSort(), z3.BitVecSort(w))
            return NArr(d, Seq(n, lambda i: A(nterm(i)))), A, w, d.kind
        guess = {("i", 2): 1, ("i", 4): 3, ("f", 4): 4, ("f", 8): 5}.get((d.kind, d.itemsize))
        out.append((f"numpy {d}", mk, guess))
    for dt in ("<i2", ">i2", "<i4", ">i4", "<i8", "<u4", "<f4", ">f4", "<f8", ">f8"): npk(dt)
    def ak(tc):
        sz = array.array(tc).itemsize; w = 8 * sz
        def mk(x, n):
            A = z3.Function(f"data{next(x.counter)}", z3.IntSort(), z3.BitVecSort(w))
            return AArr(tc, sz, Seq(n, lambda i: A(nterm(i)))), A, w, "f" if tc in "fd" else "i" if tc in "bhilq" else "u"
        guess = {"h": 1, "i": 3, "f": 4, "d": 5}.get(tc) if not (tc == "l" and sz == 4) else 3
        out.append((f"array {tc}", mk, guess))
    for tc in "hilfdI": ak(tc)
    def lk(floats):
        def mk(x, n):
            if floats:
                A = z3.Function(f"data{next(x.counter)}", z3.IntSort(), z3.BitVecSort(64))
                return PList(Seq(n, lambda i: SF(None, A(nterm(i))))), A, 64, "f"
            A = z3.Function(f"data{next(x.counter)}", z3.IntSort(), z3.IntSort())
            return PList(Seq(n, lambda i: SI(A(nterm(i))))), A, None, "i"
        out.append(("list of floats" if floats else "list of int", mk, None))
    lk(False); lk(True)
    return out
KINDS = data_kinds()

def int_value(A, w, k, i):
    """mathematical value of integer element i"""
    t = A(i)
    return t if w is None else z3.BV2Int(t, k == "i")

def expected(x, A, w, k, i, enc):
    """(allowed, big endian BV of the standard representation of element i in encoding enc)"""
    if enc in INTENC:
        W = INTENC[enc]
        if k == "f": return z3.BoolVal(False), None
        if w is None: v = A(i); return z3.And(v >= -(1 << (W - 1)), v < (1 << (W - 1))), z3.Int2BV(v, W)
        t = A(i)
        if k == "i": ok = z3.BoolVal(True) if w <= W else z3.And(t >= -(1 << (W - 1)), t < (1 << (W - 1)))
        else: ok = z3.ULT(t, 1 << (W - 1))
        return ok, (z3.Extract(W - 1, 0, t) if w > W else t if w == W else z3.SignExt(W - w, t))
    if k == "f":
        t = A(i)
        if enc == 5: return z3.BoolVal(True), t if w == 64 else lib.f32to64(t)
        if w == 32: return z3.BoolVal(True), t
        return z3.Not(lib.F64OVF(t)), lib.F64TO32(t)
    d = lib.float_bits(SI(A(i)) if w is None else NI(A(i), k == "i"))
    return (z3.BoolVal(True), d) if enc == 5 else (z3.Not(lib.F64OVF(d)), lib.F64TO32(d))
def t2sb(t, k): return t if k == "i" else z3.ZeroExt(1, t)

def be(bs, little): return lib.bits_of_bytes(bs, "<" if little else ">")

ENCS = [1, 3, 4, 5, None, -1, 10, 11, 0, 2, 16, 30, 19, 32, 100]

def encode_unit(ki):
    name, mk, guess = KINDS[ki]
    def u(x, it):
        x.fork_ifs = True
        def go():
            little = (True, False)[x.choose(2)]
            enc = ENCS[x.choose(len(ENCS))]
            n = sym_int(x, "length", 0)
            data, A, w, k = mk(x, n.t)
            passed, (_, enc, little) = omitted(x, it, seedcodec.encode, [data, enc, little], encoding=None, littleEndian=True)
            o = attempt(it, seedcodec.encode, *passed)
            real = guess if enc is None or enc < 0 else enc
            if real not in SIZE:
                x.prove(z3.BoolVal(not o.ok and o.v.cls is UnsupportedCompressionType), "encode: a type that is not primitive is refused"); return
            i = x.fint("index"); x.vars["index"] = i
            x.assume(z3.And(i >= 0, i < n.t))
            ok, rep = expected(x, A, w, k, i, real)
            if not o.ok:
                # refused: then not every element is representable (the witness is chosen by the model of struct.pack)
                x.prove(z3.BoolVal(k != "f" and real in INTENC and (w is None or w > INTENC[real] or (k == "u" and w == INTENC[real])) or (k == "f" and real in INTENC) or (real == 4 and (w is None or k == "f" and w != 32))), f"encode, {name}: refuses only data that does not fit encoding {real}")
                x.prove(z3.BoolVal(o.v.cls in (struct.error, OverflowError)), "encode: refuses with struct.error or OverflowError"); return
            x.cover(f"encode {name} as {real}") if k != "f" or real not in INTENC else None
            seg = o.v
            x.prove(z3.BoolVal(isinstance(seg, Obj) and seg.cls is EncodedDataSegment), "encode: gives an encoded segment")
            b = seg.get("dataBytes")
            x.prove(z3.And(eqv(it, seg.get("compressionType"), real), nterm(as_int(seg.get("numSamples"))) == n.t, eqv(it, seg.get("littleEndian"), little)), "encode: type, count and byte order of the segment")
            x.prove(nterm(b.seq.n) == n.t * SIZE[real], "encode: fixed width")
            bs = [b.seq.get(simp(i * SIZE[real] + j)) for j in range(SIZE[real])]
            x.prove(ok, f"encode, {name}: a value that does not fit encoding {real} is refused")
            if rep is not None: x.prove(be(bs, little) == rep, f"encode, {name} as {real}, {'little' if little else 'big'} endian: standard representation of every value")
        return go
    return u
for _i in range(len(KINDS)): unit(f"seedcodec.encode of {KINDS[_i][0]}", "C05 C07 C11", assume=[IEEE])(encode_unit(_i))

@unit("seedcodec.encode of bytes", "C05")
def u_encode_bytes(x, it):
    def go():
        b = sym_bytes(x, "b", sym_int(x, "length", 0).t, mutable=bool(x.choose(2)))
        o = attempt(it, seedcodec.encode, b, ENCS[x.choose(len(ENCS))], True)
        x.prove(z3.BoolVal(not o.ok and o.v.cls is UnsupportedCompressionType), "encode: bytes are refused")
    return go

@unit("seedcodec.decompress", "C05 C03 C07 C11 C20")
def u_decompress(x, it):
    x.fork_ifs = True
    def go():
        little = (True, False)[x.choose(2)]
        n = sym_int(x, "numSamples", 0); L = sym_int(x, "length", 0)
        b = sym_bytes(x, "b", L.t, mutable=bool(x.choose(2)))
        kinds = [1, 32, 3, 4, 5, 10, 11, "other"]
        enc = kinds[x.choose(len(kinds))]
        arg = enc
        if enc == "other":
            arg = sym_int(x, "compressionType")
            x.assume(z3.And(*[arg.t != e for e in kinds if e != "other"]))
        calls = []
        out1 = Opaque(np.ndarray, "decoded")
        def dec(which):
            def h(it, f, args, kw):
                params = f.__code__.co_varnames[:f.__code__.co_argcount]
                got = dict(zip(params, args)); got.update(kw)
                for p, d in zip(params[-len(f.__defaults__ or ()):] if f.__defaults__ else (), f.__defaults__ or ()): got.setdefault(p, d)
                calls.append((which, [got[p] for p in params])); return out1
            return h
        it.contracts["steim1.decodeSteim1"] = dec(10); it.contracts["steim2.decodeSteim2"] = dec(11)
        o = attempt(it, seedcodec.decompress, arg, b, n, little)
        if x.decide(n.t == 0) is True:
            x.prove(z3.BoolVal(o.ok and isinstance(o.v, NArr)) if not (o.ok and isinstance(o.v, NArr)) else nterm(o.v.seq.n) == 0, "decompress: no samples give an empty array"); return
        x.assume(n.t > 0)
        if enc == "other": x.prove(z3.BoolVal(not o.ok and issubclass(o.v.cls, UnsupportedCompressionType)), "decompress: an unsupported type is refused"); return
        if enc in (10, 11):
            x.cover(f"decompress type {enc}")
            good = o.ok and o.v is out1 and len(calls) == 1 and calls[0][0] == enc and calls[0][1][0] is b
            x.prove(z3.And(nterm(as_int(calls[0][1][1])) == n.t, nterm(as_int(calls[0][1][2])) == 0) if good else z3.BoolVal(False), f"decompress: type {enc} is decoded by decodeSteim{enc - 9} from the bytes and count, bias 0"); return
        real = 1 if enc == 32 else enc
        enough = L.t >= n.t * SIZE[real]
        if not o.ok:
            x.prove(z3.Not(enough), f"decompress: type {enc} refuses only too few bytes"); x.prove(z3.BoolVal(issubclass(o.v.cls, CodecException)), "decompress: too few bytes are refused with a codec error"); return
        x.cover(f"decompress type {enc}")
        x.prove(enough, "decompress: too few bytes for the count are refused")
        v = o.v
        if not isinstance(v, NArr): x.prove(z3.BoolVal(False), "decompress: gives an array"); return
        x.prove(z3.And(nterm(v.seq.n) == n.t, z3.BoolVal(v.dt.type is DTYPE[real])), "decompress: as many values as asked, of the type")
        i = x.fint("index"); x.vars["index"] = i; x.assume(z3.And(i >= 0, i < n.t))
        bs = [b.seq.get(simp(i * SIZE[real] + j)) for j in range(SIZE[real])]
        x.prove(v.seq.get(i) == be(bs, little), f"decompress: type {enc}, {'little' if little else 'big'} endian: every value from its standard representation")
    return go

@unit("seedcodec: decompress after encode", "C05", assume=[IEEE])
def u_inverse(x, it):
    x.fork_ifs = True
    def go():
        little = (True, False)[x.choose(2)]
        names = {"numpy int16": 1, "numpy >i2": 1, "numpy int32": 3, "numpy >i4": 3, "numpy float32": 4, "numpy >f4": 4, "numpy float64": 5, "numpy >f8": 5, "array h": 1, "array i": 3, "array f": 4, "array d": 5, "list of int": 3, "list of floats": 5}
        sel = [k for k in KINDS if k[0] in names]
        name, mk, guess = sel[x.choose(len(sel))]
        enc = names[name]
        n = sym_int(x, "length", 0)
        data, A, w, k = mk(x, n.t)
        o = attempt(it, seedcodec.encode, data, enc, little)
        if not o.ok: return
        r = it.call(EncodedDataSegment.decode, [o.v])
        if x.decide(n.t == 0) is True: x.prove(nterm(r.seq.n) == 0, "nothing encoded decodes to nothing"); return
        x.assume(n.t > 0); x.cover(f"round trip {name}")
        i = x.fint("index"); x.vars["index"] = i; x.assume(z3.And(i >= 0, i < n.t))
        x.prove(nterm(r.seq.n) == n.t, "decoding what was encoded gives as many values")
        got = r.seq.get(i)
        x.prove((z3.BV2Int(got, True) == A(i)) if w is None else got == A(i), f"decoding what was encoded gives every value back ({name})")
    return go

@unit("seedcodec: type tables", "C05 C11", assume=[])
def u_tables(x, it):
    def go():
        for e in range(-2, 128):
            o = attempt(it, seedcodec.arrayTypecodeFromMSeed, e)
            x.prove(z3.BoolVal(o.ok == (e in SIZE) and (o.ok or o.v.cls is UnsupportedCompressionType)), "arrayTypecodeFromMSeed: defined exactly for the primitive types")
            if o.ok and e in SIZE: x.prove(z3.BoolVal(struct.calcsize("<" + o.v) == SIZE[e] and (o.v in "fd") == (e > 3)), "arrayTypecodeFromMSeed: code of the width and class of the type")
            o = attempt(it, seedcodec.numpyDTFromMseed3Encoding, e)
            x.prove(z3.BoolVal((o.v is DTYPE[e]) if o.ok and e in DTYPE else not o.ok and e not in DTYPE), "numpyDTFromMseed3Encoding: the numpy type of each primitive type")
            x.prove(z3.BoolVal(it.call(seedcodec.canDecompress, [e]) is (e in (1, 3, 4, 5, 10, 11))), "canDecompress: primitive and Steim types")
            x.prove(z3.BoolVal(it.call(seedcodec.isPrimitiveCompression, [e]) is (e in SIZE)), "isPrimitiveCompression")
        for c in "bBuhHiIlLqQfd":
            for sz in (1, 2, 4, 8):
                want = {("h", 2): 1, ("i", 2): 1, ("l", 2): 1, ("h", 4): 3, ("i", 4): 3, ("l", 4): 3, ("f", 4): 4, ("d", 4): 4, ("f", 8): 5, ("d", 8): 5}.get((c, sz))
                o = attempt(it, seedcodec.mseed3EncodingFromArrayTypecode, c, sz)
                x.prove(z3.BoolVal(o.v == want if o.ok else want is None and o.v.cls is UnsupportedCompressionType), "mseed3EncodingFromArrayTypecode: type of the width and class of the array code")
        for d in ("i1", "u1", "<i2", ">i2", "u2", "<i4", ">i4", "u4", "i8", "u8", "f2", "<f4", ">f4", "<f8", ">f8", "c8", "?", "S3"):
            dt = np.dtype(d); want = {("i", 2): 1, ("i", 4): 3, ("f", 4): 4, ("f", 8): 5}.get((dt.kind, dt.itemsize))
            o = attempt(it, seedcodec.mseed3EncodingFromNumpyDT, dt)
            x.prove(z3.BoolVal(o.v == want if o.ok else want is None and o.v.cls is UnsupportedCompressionType), "mseed3EncodingFromNumpyDT: type of the width and class of the numpy type")
    return go
