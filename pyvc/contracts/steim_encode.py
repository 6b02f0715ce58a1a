"""encodeSteim1FrameBlock, encodeSteim2FrameBlock: the encoded words hold exactly the differences of the series."""
from vc import *
import z3, numpy as np
from simplemseed import steim1, steim2
from simplemseed.exceptions import SteimException, CodecException
from simplemseed.steimframeblock import SteimFrameBlock
import steimspec as sp
from steimspec import Ghost

ENC = {1: steim1.encodeSteim1FrameBlock, 2: steim2.encodeSteim2FrameBlock}
CONFIG = {4: (7, 0xF, 2), 5: (6, 0x1F, 1), 6: (5, 0x3F, 0), 8: (4, 0xFF, 0), 10: (3, 0x3FF, 3), 15: (2, 0x7FFF, 2), 30: (1, 0x3FFFFFFF, 1)}
NDIFF = {w: c[0] for w, c in CONFIG.items()}
WIDTHS = tuple(CONFIG)

def fits(v, w):
    """python int / numpy int value fits w signed bits -> z3 Bool"""
    c = lib._between(v, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    return z3.BoolVal(c) if isinstance(c, bool) else c.t

# ---------------------------------------------------------------- steimPackWord
def pack_word_unit(kind):
    def u(x, it):
        def go():
            x.fork_ifs = x.keep_ints = True
            w = WIDTHS[x.choose(7)]
            k, mask, sub = CONFIG[w]
            # every width of the elements: a difference that fits w bits
            el = []
            for i in range(7):
                if i >= k: el.append(Poison("a difference that is not there")); continue
                t = x.fbv(33 if kind == "python" else 32, f"d{i}")
                v = SB(t) if kind == "python" else NI(t)
                x.assume(fits(v, w)); el.append(v)
            nm = f"steimPackWord, {w} bits"
            o = attempt(it, steim2.steimPackWord, PList(CSeq(el)), w, k, lift(np.int32(mask)), lift(np.int32(sub)))
            if not o.ok: x.prove(False, f"{nm}: never fails"); return
            x.cover(f"{nm} returns")
            r = o.v
            x.prove(z3.BoolVal(isinstance(r, NI) and r.w == 32 and r.signed), f"{nm}: a 32 bit word")
            for j in range(k): x.prove(sp.field(r.t, k, w, j) == lib.to_bits(el[j], 32), f"{nm}: every difference in its field")
            if w != 8: x.prove(sp.dnib(r.t) == sub, f"{nm}: the sub-code")
        return go
    return u
for kind in ("python", "numpy"):
    unit(f"steimPackWord, {kind} differences", "C02 C04", weight=2)(pack_word_unit(kind))

@unit("steim2.minBitsNeeded, numpy difference", "C02 C04")
def u_minbits_np(x, it):
    def go():
        d = NI(x.fbv(32, "diff"))
        o = attempt(it, steim2.minBitsNeeded, d)
        if not o.ok: x.prove(False, "minBitsNeeded: no exception"); return
        r = nterm(as_int(o.v))
        for w in WIDTHS: x.prove((r <= w) == fits(d, w), f"minBitsNeeded: result <= {w} exactly when the difference fits {w} bits")
        x.prove(z3.Or(*[r == w for w in WIDTHS + (32,)]), "minBitsNeeded: result is a Steim2 width or 32")
    return go

# ---------------------------------------------------------------- contracts of the callees
def c_minbits(it, f, args, kw):
    X = core.X; X.functions.add(qual(f))
    r = X.fint("minbits")
    for w in WIDTHS: X.assume((r <= w) == fits(args[0], w))
    X.assume(z3.Or(*[r == w for w in WIDTHS + (32,)]))
    return SI(r)

def c_bitsforpack(it, f, args, kw):
    X = core.X; X.functions.add(qual(f))
    mb, n = args
    if not isinstance(n, int): raise Unsupported("bitsForPack with a symbolic count")
    X.prove(z3.BoolVal(0 <= n <= 7), "call of bitsForPack: precondition: count 0 to 7")
    def fit(w):
        k = NDIFF[w]
        return z3.And(*[nterm(as_int(mb.seq.get(i))) <= w for i in range(k)]) if k <= n else z3.BoolVal(False)
    c = X.choose(8)
    for i in range(c): X.assume(z3.Not(fit(WIDTHS[i])))
    if c < 7: X.assume(fit(WIDTHS[c]))
    if not X.feasible(z3.BoolVal(True)): raise PathEnd()
    return WIDTHS[c] if c < 7 else 32

def c_packword(it, f, args, kw):
    X = core.X; X.functions.add(qual(f))
    d, w, k, mask, sub = args
    nm = "call of steimPackWord: precondition"
    if not (isinstance(w, int) and w in CONFIG and k == CONFIG[w][0]):
        X.prove(False, f"{nm}: a width of the format and its count"); raise PathEnd()
    X.prove(z3.And(*[lib.to_bits(a, 32) == b for a, b in ((mask, CONFIG[w][1]), (sub, CONFIG[w][2]))]), f"{nm}: masks of the width")
    for j in range(k): X.prove(fits(d.seq.get(j), w), f"{nm}: the differences fit")
    r = X.fbv(32, "word")
    for j in range(k): X.assume(sp.field(r, k, w, j) == lib.to_bits(d.seq.get(j), 32))
    if w != 8: X.assume(sp.dnib(r) == CONFIG[w][2])
    return NI(r)

class Block:
    """the frame block through its contract: number of words cnt, header constants, ghost slots"""
    def __init__(self, g): self.g, self.cnt, self.o = g, 0, None
    def install(self, it):
        q = "steimframeblock.SteimFrameBlock."
        it.contracts[q + "__init__"] = self.init
        it.contracts[q + "addEncodedWord"] = self.add
        it.contracts[q + "setXsubN"] = self.setx
    def init(self, it, f, args, kw):
        o, mx, ver = args
        core.X.functions.add(qual(f))
        self.o = o
        for k, v in (("maxNumFrames", mx), ("steimVersion", ver), ("numSamples", 0), ("#cnt", 0), ("#x0", None), ("#xn", None), ("#last", None)): o.set(k, v)
    def add(self, it, f, args, kw):
        X = core.X; X.functions.add(qual(f))
        o, word, ns, nib = args
        mx, cnt = nterm(as_int(o.get("maxNumFrames"))), o.get("#cnt")
        nm = "call of addEncodedWord: precondition"
        X.prove(z3.Implies(mx > 0, nterm(cnt) < 15 * mx), f"{nm}: the block is not full")
        X.prove(fits(word, 32), f"{nm}: a 32 bit word")
        if not isinstance(nib, int) or not 0 <= nib <= 3: X.prove(False, f"{nm}: a two bit code"); raise PathEnd()
        X.prove(nterm(as_int(ns)) >= 0, f"{nm}: a sample count")
        w = lib.to_bits(word, 32)
        if isinstance(cnt, int) and cnt < 2:
            X.prove(z3.BoolVal(nib == 0), f"the two constants of the first frame have code 00")
            o.set("#x0" if cnt == 0 else "#xn", w)
            X.assume(self.g.P(cnt + 1) == 0)
        else:
            t = nterm(cnt)
            X.assume(z3.And(self.g.W(t) == w, self.g.N(t) == nib))
            for a in self.g.slot_axioms(t, False): X.assume(a)
            o.set("#last", (t, w, nib))
        c1 = simp(nterm(cnt) + 1)
        o.set("#cnt", c1)
        o.set("numSamples", intv(nterm(as_int(o.get("numSamples"))) + nterm(as_int(ns))))
        full = z3.And(mx > 0, nterm(c1) == 15 * mx)
        return X.branch(full)
    def setx(self, it, f, args, kw):
        X = core.X; X.functions.add(qual(f))
        o, word = args
        X.prove(nterm(o.get("#cnt")) >= 1, "call of setXsubN: precondition: there is a first frame")
        X.prove(fits(word, 32), "call of setXsubN: precondition: a 32 bit word")
        o.set("#xn", lib.to_bits(word, 32))

class Enc:
    """what an encoding depends on"""
    def __init__(self, x, ver, N, val, off, mx, bias32):
        self.ver, self.N, self.val, self.off, self.mx, self.bias = ver, N, val, off, mx, bias32
        self.g = Ghost(x, ver)
        self.badbias = False
        self.blk = Block(self.g)
        self.m0, self.t0 = x.fint("somesample"), x.fint("someslot")
        x.assume(self.m0 >= 0)
    def dd(self, m):
        """difference m of the series, modulo 2^32"""
        a = self.val(simp(self.off + m))
        return z3.If(m == 0, a - self.bias, a - self.val(simp(self.off + m - 1)))
    def true_diff(self, m):
        """difference m, exactly (34 bits)"""
        e = lambda t: z3.SignExt(2, t)
        a = e(self.val(simp(self.off + m)))
        return SB(z3.If(m == 0, a - e(self.bias), a - e(self.val(simp(self.off + m - 1)))))
    def inv(self, x, o, idx, pad=None):
        """-> [(text, condition)]"""
        cnt = nterm(o.get("#cnt"))
        k = idx - self.off
        P = self.g.P
        out = [("the index stays in the series", z3.And(idx >= self.off, idx <= self.N)),
               ("at least the two constants are there", cnt >= 2),
               ("never more frames than the limit", z3.Implies(self.mx > 0, cnt < 15 * self.mx)),
               ("the sample count is the number of samples taken", nterm(as_int(o.get("numSamples"))) == k),
               ("the words hold the differences of the samples taken", P(cnt) == k if self.ver == 2 else z3.Or(P(cnt) == k, z3.And(idx == self.N, P(cnt) == k + 1))),
               ("every difference stored is that of the series", z3.Implies(self.m0 < k, self.g.D(self.m0) == self.dd(self.m0))),
               ("every code is defined", z3.Implies(z3.And(self.t0 >= 2, self.t0 < cnt), z3.And(self.g.N(self.t0) != 0, sp.valid(self.ver, self.g.N(self.t0), self.g.W(self.t0))))),
               ("the last constant is the last sample", o.get("#xn") == self.val(simp(self.N - 1))),
               ("the first constant is the first sample", o.get("#x0") == self.val(simp(self.off)))]
        if self.badbias: out.append(("no sample is taken with a bias outside 32 bits", idx == self.off))
        return out

class Words(LoopSpec):
    """the loop over the words"""
    def __init__(self, e, stop=False):
        self.e, self.stop = e, stop
        self.must_exit = self.must_enter = not stop
    def normal(self, it, fr):
        """the samples the loop works on: python ints of 32 bits, or a 32 bit array, with the values of the series"""
        X, e = core.X, self.e
        s = fr.locals["samples"]
        nm = f"{fr.fn}: at the word loop"
        ok = isinstance(s, PList) or (isinstance(s, NArr) and s.dt == np.dtype(np.int32))
        X.prove(z3.BoolVal(ok), f"{nm}: a list or an array of 32 bit integers")
        if not ok: raise PathEnd()
        X.prove(nterm(s.seq.n) == e.N, f"{nm}: all samples")
        def same(m):
            v = lib.elem_value(s, s.seq.get(m))
            if not (is_pyint(v) or isinstance(v, NI)): return z3.BoolVal(False)
            if isinstance(s, PList) and not is_pyint(v): return z3.BoolVal(False)
            return z3.And(fits(v, 32), lib.to_bits(v, 32) == e.val(m))
        X.forall(0, e.N, same, f"{nm}: the samples as given")
        X.prove(nterm(as_int(fr.locals.get("offset", 0))) == e.off, f"{nm}: the start offset")
    def entry(self, it, fr, k):
        X, e = core.X, self.e
        self.normal(it, fr)
        self.check(it, fr, 0)
        core.X.cover(f"{fr.fn}: the word loop is reached")
        if self.stop: raise PathEnd()
        self.fb, self.diff, self.mb = fr.locals["frameBlock"], fr.locals["diff"], fr.locals.get("minbits")
    def havoc(self, it, fr, k):
        X, e = core.X, self.e
        o = self.fb
        idx = X.fint("index")
        self.idx = idx
        cnt = X.fint("words")
        o.set("#cnt", cnt); o.set("numSamples", SI(idx - e.off)); o.set("#xn", X.fbv(32, "xn")); o.set("#x0", X.fbv(32, "x0")); o.set("#last", None)
        fr.setl("sampleIndex", SI(idx))
        if e.ver == 1: self.diff.seq = CSeq([X.fbv(32, "old") for _ in range(4)])
        else:
            self.diff.seq = CSeq([Poison("diff")] * 7); self.mb.seq = CSeq([Poison("minbits")] * 7)
        for t, c in e.inv(X, o, idx): X.assume(c)
        fr.setl("diff", self.diff)
        if self.mb is not None: fr.setl("minbits", self.mb)
    def check(self, it, fr, k):
        X, e = core.X, self.e
        idx = nterm(as_int(fr.locals["sampleIndex"]))
        o = fr.locals["frameBlock"]
        X.prove(z3.BoolVal(o is e.blk.o), f"{fr.fn}: word loop: one frame block")
        for t, c in e.inv(X, o, idx): X.prove(c, f"{fr.fn}: word loop: {t}")
        for nm, n in (("diff", 4 if e.ver == 1 else 7), ("minbits", 7)):
            if nm in fr.locals: X.prove(z3.BoolVal(fr.locals[nm].seq.n == n), f"{fr.fn}: word loop: size of {nm}")
    def variant(self, it, fr, k): return self.e.N - nterm(as_int(fr.locals["sampleIndex"]))

class Mix(Sym):
    """a number that may be a float"""
    def __init__(self, isf): self.isf = isf
    def sym_isinstance(self, ts):
        if float in ts: return boolv(self.isf)
        raise Unsupported("isinstance of a mixed element")

def make_samples(x, kind, N):
    """-> (samples value, val(i) 32 bit value or None, must refuse)"""
    n = next(x.counter)
    if kind == "list":
        V = z3.Function(f"sample!{n}", z3.IntSort(), z3.BitVecSort(32))
        return PList(Seq(N, lambda i: SB(V(nterm(i))))), V, None
    if kind.startswith("list:"):
        dt = np.dtype(kind[5:]); w = dt.itemsize * 8
        V = z3.Function(f"sample!{n}", z3.IntSort(), z3.BitVecSort(w))
        return PList(Seq(N, lambda i: NI(V(nterm(i)), dt.kind == "i"))), (lambda i: lib.to_bits(NI(V(i), dt.kind == "i"), 32)), V
    if kind == "list with a value outside 32 bits":
        V = z3.Function(f"sample!{n}", z3.IntSort(), z3.IntSort())
        s = Seq(N, lambda i: SI(V(nterm(i))))
        j = x.fint("where"); x.assume(z3.And(j >= 0, j < N))
        x.assume(z3.Or(V(j) > (1 << 31) - 1, V(j) < -(1 << 31)))
        s.get(j)
        return PList(s), None, True
    if kind == "list with a float":
        F = z3.Function(f"isfloat!{n}", z3.IntSort(), z3.BoolSort())
        s = Seq(N, lambda i: Mix(F(nterm(i))))
        j = x.fint("where"); x.assume(z3.And(j >= 0, j < N, F(j)))
        s.get(j)
        return PList(s), None, True
    if kind.startswith("float"):
        dt = np.dtype(kind); V = z3.Function(f"sample!{n}", z3.IntSort(), z3.BitVecSort(dt.itemsize * 8))
        return NArr(dt, Seq(N, lambda i: V(nterm(i)))), None, True
    if kind == "two dimensions":
        return NArrND(np.dtype("i4"), (SI(N), SI(x.fint('columns')))), None, True
    dt = np.dtype(kind); w = dt.itemsize * 8
    V = z3.Function(f"sample!{n}", z3.IntSort(), z3.BitVecSort(w))
    return NArr(dt, Seq(N, lambda i: V(nterm(i)))), (lambda i: lib.to_bits(NI(V(i), dt.kind == "i"), 32)), V

def encode_unit(ver, kind, bkind, stop):
    def u(x, it):
        def go():
            x.fork_ifs = x.keep_ints = True
            N = x.fint("length"); x.assume(N >= 0)
            mx = x.fint("frames")
            off = x.fint("offset") if ver == 1 else z3.IntVal(0)
            x.vars.update(length=N, frames=mx, offset=off)
            samples, val, extra = make_samples(x, kind, N)
            b32 = x.fbv(32, "bias")
            x.vars["bias"] = b32
            bias = {"numpy": NI(b32), "python": SB(b32)}.get(bkind)
            if bkind == "outside 32 bits":
                bi = x.fint("bias"); x.assume(z3.Or(bi > (1 << 31) - 1, bi < -(1 << 31))); bias = SI(bi)
            fn = ENC[ver]; nm = fn.__name__
            e = Enc(x, ver, N, val if val is not None else (lambda i: z3.BitVecVal(0, 32)), off, mx, b32)
            e.blk.install(it)
            it.extremes = []
            it.contracts["steim2.minBitsNeeded"] = c_minbits
            it.contracts["steim2.bitsForPack"] = c_bitsforpack
            it.contracts["steim2.steimPackWord"] = c_packword
            sl = Words(e, stop)
            if bkind == "outside 32 bits": e.badbias, sl.must_exit = True, False
            sl.idx = None
            it.loops[(qual(fn), 0)] = sl
            if extra is True or bkind == "outside 32 bits": x.expect(f"{nm}: refused")
            elif stop: x.expect(f"{qual(fn)}: the word loop is reached")
            args = [samples, SI(mx), bias] + ([SI(off)] if ver == 1 else [])
            if bkind == "python": args, _ = omitted(x, it, fn, args, frames=0, bias=0, **({"offset": 0} if ver == 1 else {}))
            o = attempt(it, fn, *args)
            head = z3.Or(N == 0, mx < 0, off < 0, off >= N)
            if not o.ok:
                if extra is True or bkind == "outside 32 bits": x.cover(f"{nm}: refused", z3.Not(head))
                if extra is True:
                    x.prove(z3.BoolVal(issubclass(o.v.cls, CodecException)), f"{nm}: refused with a codec error"); return
                if o.v.cls is SteimException:
                    why = [head]
                    if val is not None and sl.idx is not None and ver == 2: why.append(z3.Not(fits(e.true_diff(sl.idx), 30)))
                    if kind not in ("list", "int32") and isinstance(extra, z3.FuncDeclRef): why += [z3.Not(fits(a, 32)) for a in it.extremes] if getattr(it, "extremes", None) else []
                    x.prove(z3.Or(*why), f"{nm}: refuses with a codec error only what cannot be represented")
                elif o.v.cls is OverflowError:
                    if bkind == "outside 32 bits": return
                    x.prove(z3.BoolVal(kind.startswith("list")), f"{nm}: an overflow only in a list")
                    if sl.idx is None: x.prove(False, f"{nm}: an overflow only for a difference"); return
                    x.prove(z3.Or(*[z3.And(sl.idx + i < N, z3.Not(fits(e.true_diff(simp(sl.idx - off + i)), 32))) for i in range(7)]), f"{nm}: an overflow only for a difference outside 32 bits")
                else: x.prove(False, f"{nm}: refuses with a known error")
                return
            x.prove(z3.Not(head), f"{nm}: refuses an empty series, a negative frame limit and an offset outside the series")
            if extra is True: x.prove(False, f"{nm}: refuses a {kind}"); return
            if bkind == "outside 32 bits": x.prove(False, f"{nm}: refuses a bias outside 32 bits"); return
            x.cover(f"{nm} returns")
            r = o.v
            x.prove(z3.BoolVal(r is e.blk.o), f"{nm}: returns the frame block")
            n, cnt = nterm(as_int(r.get("numSamples"))), nterm(r.get("#cnt"))
            full = z3.And(mx > 0, cnt == 15 * mx)
            x.prove(z3.And(n >= 1, n <= N - off), f"{nm}: at least one and at most all samples")
            x.prove(z3.Or(n == N - off, full), f"{nm}: all samples unless the frame limit is used up")
            x.prove(z3.Implies(mx > 0, cnt <= 15 * mx), f"{nm}: never more frames than the limit")
            x.prove(e.g.P(cnt) >= n, f"{nm}: the words hold a difference for every sample reported")
            x.prove(z3.Implies(e.m0 < n, e.g.D(e.m0) == e.dd(e.m0)), f"{nm}: every difference stored is that of the series")
            x.prove(z3.Implies(z3.And(e.t0 >= 2, e.t0 < cnt), z3.And(e.g.N(e.t0) != 0, sp.valid(ver, e.g.N(e.t0), e.g.W(e.t0)))), f"{nm}: only defined codes")
            x.prove(r.get("#x0") == e.val(simp(off)), f"{nm}: first constant is the first sample")
            x.prove(r.get("#xn") == e.val(simp(off + n - 1)), f"{nm}: last constant is the last sample stored")
        return go
    return u

DTS = ("int8", "int16", "int64", "uint8", "uint16", "uint32", "uint64", ">i4", ">i2")
for ver, p in ((1, "C01 C04"), (2, "C02 C04")):
    for kind in ("list", "int32"):
        for b in ("numpy", "python"):
            unit(f"encodeSteim{ver}FrameBlock, {kind}, {b} bias", p, weight=20)(encode_unit(ver, kind, b, False))
        unit(f"encodeSteim{ver}FrameBlock, {kind}, bias outside 32 bits", p, weight=9)(encode_unit(ver, kind, "outside 32 bits", False))
    for kind in DTS + tuple("list:" + d for d in DTS if d[0] != ">") + ("list:int32", "list with a value outside 32 bits", "list with a float", "float32", "float64", "two dimensions"):
        unit(f"encodeSteim{ver}FrameBlock, {kind}", p)(encode_unit(ver, kind, "numpy", True))
