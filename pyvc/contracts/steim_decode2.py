"""decodeSteim1, decodeSteim2: frame loop and sample loop, the extraction through its contract."""
from vc import *
import z3, numpy as np
from simplemseed.exceptions import CodecException
import steimspec as sp
from steimspec import Ghost
from steim_decode import EXTRACT, DECODE, DT, frame_word

class Ctx:
    """what the decoding of a block of frames depends on"""
    def __init__(self, x, ver, B, L, n, bias, biasbv):
        self.g = Ghost(x, ver); self.B, self.L, self.n, self.bias, self.biasbv = B, L, n, bias, biasbv
        c = next(x.counter)
        self.BAD = z3.Function(f"undefined_code!{c}", z3.IntSort(), z3.BoolSort())
        self.x0 = frame_word(B, 0, 1)
        self.tried = []
        self.f0 = x.fint("someframe")
    def P(self, f): return self.g.P(nterm(simp(15 * nterm(f))))
    def sample(self, m): return self.g.S(m)
    def ax(self, m): return self.g.sample_axiom(m, self.biasbv, self.x0)

def extract_contract(c, data):
    """the contract proved by the extractSteimNSamples units, for frame offset/64"""
    def h(it, f, args, kw):
        X = core.X
        d, off = args[0], args[1]
        X.functions.add(qual(f))
        nm = f"call of {f.__name__}"
        X.prove(z3.BoolVal(d is data), f"{nm}: on the block")
        off = nterm(as_int(off))
        X.prove(z3.And(off >= 0, off % 64 == 0, off + 64 <= c.L), f"{nm}: precondition: a whole frame inside the block")
        fr = simp(off / 64)
        c.tried.append(nterm(fr))
        if X.branch(c.BAD(nterm(fr))): raise PyRaise(CodecException, ())
        p0, p1 = c.P(fr), c.P(simp(nterm(fr) + 1))
        X.assume(z3.And(p0 >= 0, p1 >= p0))
        X.assume(z3.Implies(nterm(fr) == 0, p0 == 0))
        if X.branch(nterm(fr) == 0):
            def get(k):
                r = c.g.D(nterm(k) - 3)
                for i in (2, 1, 0): r = z3.If(nterm(k) == i, frame_word(c.B, 0, i), r)
                return z3.simplify(r)
            return NArr(DT, Seq(simp(3 + p1), get))
        return NArr(DT, Seq(simp(p1 - p0), lambda k: c.g.D(simp(p0 + nterm(k)))))
    return h

def put_last(c, fr, cur):
    """lastValue for the next difference"""
    X = core.X
    if X.branch(nterm(cur) == 0): fr.setl("lastValue", c.bias)
    else: fr.setl("lastValue", NI(c.sample(nterm(simp(nterm(cur) - 1)))))

def check_last(c, fr, cur, nm):
    X = core.X
    v = fr.locals["lastValue"]
    if v is c.bias:
        X.prove(nterm(cur) == 0, f"{nm}: the running value is the previous sample"); return
    X.prove(z3.BoolVal(isinstance(v, NI) and v.w == 32 and v.signed), f"{nm}: the running value is a 32 bit integer")
    if isinstance(v, NI) and v.w == 32:
        X.prove(z3.And(nterm(cur) > 0, v.t == c.sample(nterm(simp(nterm(cur) - 1)))), f"{nm}: the running value is the previous sample")

class Frames(LoopSpec):
    def __init__(self, c): self.c = c
    def begin(self, it, fr, n):
        self.arr = fr.locals["samples"]
    def cur(self, k): return z3.If(nterm(self.c.n) <= self.c.P(k), nterm(self.c.n), self.c.P(k))
    def havoc(self, it, fr, k):
        X, c = core.X, self.c
        X.assume(c.P(0) == 0); X.assume(c.P(k) >= 0)
        cur = self.cur(k)
        fr.setl("current", SI(cur))
        Z = z3.Function(f"rest!{next(X.counter)}", z3.IntSort(), z3.BitVecSort(32))
        self.arr.seq = Seq(c.n, lambda m: z3.If(nterm(m) < cur, c.sample(nterm(m)), Z(nterm(m))))
        X.assume(z3.Implies(z3.And(c.f0 >= 0, c.f0 < k), z3.Not(c.BAD(c.f0))))
        if X.branch(k == 0):
            X.assume(cur == 0)
            for nm in ("start", "lastValue"): fr.setl(nm, Poison(nm))      # not used before they are set
        else:
            fr.setl("start", NI(c.x0)); put_last(c, fr, cur)
    def check(self, it, fr, k):
        X, c = core.X, self.c
        nm = f"{fr.fn}: frame loop"
        X.assume(c.P(0) == 0)
        cur = self.cur(k)
        v = nterm(as_int(fr.locals["current"]))
        X.prove(v == cur, f"{nm}: samples decoded after each frame")
        X.prove(z3.BoolVal(fr.locals["samples"] is self.arr), f"{nm}: one array of samples")
        X.prove(nterm(self.arr.seq.n) == nterm(c.n), f"{nm}: size of the result")
        s = self.arr.seq
        X.forall(0, v, lambda m: s.get(m) == c.sample(m), f"{nm}: samples are the running sum")
        if not (isinstance(k, int) and k == 0):
            X.prove(z3.Implies(z3.And(c.f0 >= 0, c.f0 < nterm(k)), z3.Not(c.BAD(c.f0))), f"{nm}: no frame with an undefined code is accepted")
            st = fr.locals["start"]
            X.prove(z3.BoolVal(isinstance(st, NI) and st.w == 32 and st.signed), f"{nm}: the first sample constant is kept")
            X.prove(st.t == c.x0, f"{nm}: the first sample constant is kept")
            check_last(c, fr, v, nm)

class Samples(LoopSpec):
    def __init__(self, c): self.c = c
    def begin(self, it, fr, n):
        self.arr = fr.locals["samples"]
        self.g0 = nterm(as_int(fr.locals["current"]))
    def havoc(self, it, fr, k):
        X, c = core.X, self.c
        cur = simp(self.g0 + k)
        X.assume(nterm(cur) <= nterm(c.n))
        fr.setl("current", intv(nterm(cur)))
        Z = z3.Function(f"rest!{next(X.counter)}", z3.IntSort(), z3.BitVecSort(32))
        self.arr.seq = Seq(c.n, lambda m: z3.If(nterm(m) < nterm(cur), c.sample(nterm(m)), Z(nterm(m))))
        put_last(c, fr, cur)
        X.assume(c.ax(nterm(cur)))
    def check(self, it, fr, k):
        X, c = core.X, self.c
        nm = f"{fr.fn}: sample loop"
        v = nterm(as_int(fr.locals["current"]))
        X.prove(v == self.g0 + nterm(k), f"{nm}: one sample per difference")
        X.prove(v <= nterm(c.n), f"{nm}: never more samples than requested")
        X.prove(z3.And(z3.BoolVal(fr.locals["samples"] is self.arr), nterm(self.arr.seq.n) == nterm(c.n)), f"{nm}: size of the result")
        s = self.arr.seq
        X.forall(0, v, lambda m: s.get(m) == c.sample(m), f"{nm}: samples are the running sum")
        check_last(c, fr, v, nm)

def decode_unit(ver, kind):
    def u(x, it):
        def go():
            x.keep_ints = x.fork_ifs = True
            L = x.fint("length"); x.assume(L >= 0)
            n = x.fint("count"); x.assume(n >= 1)
            x.vars.update(length=L, count=n)
            B_ = z3.Function("data", z3.IntSort(), z3.BitVecSort(8))
            B = lambda i: B_(nterm(i))
            if kind == "zero": bias, bbv = 0, z3.BitVecVal(0, 32)
            elif kind == "default": bias, bbv = None, z3.BitVecVal(0, 32)
            else:
                bbv = x.fbv(32, "bias"); x.vars["bias"] = bbv
                bias = NI(bbv) if kind == "numpy" else SB(bbv)
            fn = DECODE[ver]
            if bias is None: bias = lift(fn.__defaults__[-1])
            data = BA(Seq(L, B), True)
            c = Ctx(x, ver, B, L, n, bias, bbv)
            it.contracts[qual(EXTRACT[ver])] = extract_contract(c, data)
            it.loops[(qual(fn), 0)] = Frames(c); it.loops[(qual(fn), 1)] = Samples(c)
            x.expect(*[f"{fn.__name__}: {t}" for t in ("refuses a length", "refuses a frame", "refuses a count", "returns")])
            o = attempt(it, fn, data, SI(n), bias)
            nm = fn.__name__
            F = L / 64
            if not o.ok:
                x.prove(z3.BoolVal(o.v.cls is CodecException), f"{nm}: refuses with a codec error")
                bad = z3.Or(*[z3.And(c.BAD(t), t >= 0, t < F) for t in c.tried]) if c.tried else z3.BoolVal(False)
                why = {"a length": L % 64 != 0, "a frame": bad, "a count": c.P(F) < n}
                for k, w in why.items(): x.cover(f"{nm}: refuses {k}", w)
                x.prove(z3.Or(*why.values()), f"{nm}: refuses only a length that is not a multiple of 64, an undefined code in a frame, or too few differences")
                return
            x.cover(f"{nm}: returns")
            r = o.v
            x.prove(L % 64 == 0, f"{nm}: the length is a multiple of 64")
            x.prove(c.P(F) >= n, f"{nm}: the frames hold the requested number of differences")
            x.prove(z3.Implies(z3.And(c.f0 >= 0, c.f0 < F), z3.Not(c.BAD(c.f0))), f"{nm}: no frame has an undefined code")
            x.prove(z3.BoolVal(isinstance(r, NArr) and r.dt == DT), f"{nm}: returns a 32 bit integer array")
            x.prove(nterm(r.seq.n) == n, f"{nm}: exactly the requested number of samples")
            x.forall(0, n, lambda m: r.seq.get(m) == c.sample(m), f"{nm}: the samples are the first sample constant (or bias) followed by the running sum of the differences")
        return go
    return u

for ver in (1, 2):
    for kind in ("zero", "default", "numpy", "python"):
        pids = ("C01 " if ver == 1 else "C02 ") + ("C03" if kind in ("zero", "default") else "")
        unit(f"decodeSteim{ver}, bias {kind}", pids, weight=4)(decode_unit(ver, kind))
