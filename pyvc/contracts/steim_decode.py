"""extractSteim1Samples, extractSteim2Samples, decodeSteim1, decodeSteim2 against the SEED definition."""
from vc import *
import z3, numpy as np
from simplemseed import steim1, steim2
from simplemseed.exceptions import CodecException
import steimspec as sp
from steimspec import Ghost

EXTRACT = {1: steim1.extractSteim1Samples, 2: steim2.extractSteim2Samples}
DECODE = {1: steim1.decodeSteim1, 2: steim2.decodeSteim2}
DT = np.dtype(np.int32)

def frame_word(B, f, w):
    """word w of frame f, f Int term, w int or Int term"""
    base = simp(64 * nterm(f) + 4 * nterm(w))
    return z3.Concat(*[B(simp(nterm(base) + k)) for k in range(4)])

def frame_nib(B, f, i):
    w0 = frame_word(B, f, 0)
    return z3.simplify(z3.Extract(31 - 2 * i, 30 - 2 * i, w0))

class ExtractLoop1(LoopSpec):
    """words of one frame: the list so far holds the header words (frame 0) and the differences of the slots so far"""
    concrete_k = True
    def __init__(self, g, f, B, first): self.g, self.f, self.B, self.first = g, f, B, first
    def slot(self, i): return 15 * self.f + (i - 1)
    def size(self, i):
        g, f = self.g, self.f
        if self.first:
            if i <= 3: return i
            return 3 + g.P(nterm(simp(self.slot(i))))
        if i == 0: return 0
        return g.P(nterm(simp(self.slot(i)))) - g.P(nterm(simp(15 * f)))
    def content(self, k, conv):
        """element k of the list"""
        g = self.g
        k = nterm(k)
        if not self.first: return g.D(g.P(nterm(simp(15 * self.f))) + k)
        r = g.D(k - 3)
        for i in (2, 1, 0): r = z3.If(k == i, frame_word(self.B, self.f, i), r)
        return r
    def axioms(self, i):
        """slots up to and including word i"""
        X = core.X
        if i == 0: return
        for a in self.g.slot_axioms(nterm(simp(self.slot(i))), self.first and i < 3): X.assume(a)
    def begin(self, it, fr, n): self.obj = fr.locals["temp"]
    def data_slots(self, k): return range(3 if self.first else 1, k)
    def slot_valid(self, i):
        t = nterm(simp(self.slot(i)))
        return sp.valid(self.g.ver, self.g.N(t), self.g.W(t))
    def assume_valid(self, k):
        for i in self.data_slots(k): core.X.assume(self.slot_valid(i))
    def lst(self, fr):
        if not isinstance(fr.locals.get("temp"), Poison): self.obj = fr.locals["temp"]
        return self.obj
    def havoc(self, it, fr, k):
        X = core.X
        n = simp(self.size(k))
        if not isinstance(n, int): X.assume(n >= (3 if self.first else 0)); X.assume(n <= (3 if self.first else 0) + 7 * max(k - (3 if self.first else 1), 0))
        if self.first and k == 3: X.assume(self.g.P(2) == 0)
        self.lst(fr).seq = Seq(n, lambda j: SB(self.content(j, True)))
        fr.setl("temp", self.obj)
        self.assume_valid(k)
    def check(self, it, fr, k):
        X = core.X
        nm = f"{fr.fn}: word loop"
        if k > 0:
            self.axioms(k - 1)
            if k - 1 in self.data_slots(k): X.prove(self.slot_valid(k - 1), f"{nm}: an undefined code or sub-code is never accepted")
        if self.first and k == 3: self.axioms(1); self.axioms(2)
        s = self.lst(fr).seq
        n = nterm(simp(self.size(k)))
        X.prove(nterm(s.n) == n, f"{nm}: number of values after each word")
        X.prove(z3.And(n >= (3 if self.first else 0) if k >= 3 else True, n <= (3 if self.first else 0) + 7 * max(k - (3 if self.first else 1), 0)) if k > 3 or not self.first else z3.BoolVal(True), f"{nm}: at most seven differences per word")
        X.forall(0, s.n, lambda m: as_sb_to(s.get(m), 32) == self.content(m, True), f"{nm}: values after each word")
    def entry(self, it, fr, k): self.check(it, fr, 0)

def as_sb_to(v, w):
    return lib.to_bits(v, w) if not isinstance(v, z3.ExprRef) else v

class ExtractLoop2(ExtractLoop1):
    """same, values in a zero filled array of 106 and a count"""
    def havoc(self, it, fr, k):
        X = core.X
        n = simp(self.size(k))
        b = 3 if self.first else 0
        if not isinstance(n, int): X.assume(n >= b); X.assume(n <= b + 7 * max(k - (3 if self.first else 1), 0))
        if self.first and k == 3: X.assume(self.g.P(2) == 0)
        Z = z3.Function(f"rest!{next(X.counter)}", z3.IntSort(), z3.BitVecSort(32))
        self.lst(fr).seq = Seq(106, lambda j: z3.If(nterm(j) < nterm(n), self.content(j, False), Z(nterm(j))))
        fr.setl("currNum", intv(n))
        self.assume_valid(k)
    def check(self, it, fr, k):
        X = core.X
        nm = f"{fr.fn}: word loop"
        if k > 0:
            self.axioms(k - 1)
            if k - 1 in self.data_slots(k): X.prove(self.slot_valid(k - 1), f"{nm}: an undefined code or sub-code is never accepted")
        if self.first and k == 3: self.axioms(1); self.axioms(2)
        n = nterm(simp(self.size(k)))
        cur = nterm(as_int(fr.locals["currNum"]))
        X.prove(cur == n, f"{nm}: number of values after each word")
        if k > 3 or not self.first:
            b = 3 if self.first else 0
            X.prove(z3.And(n >= b, n <= b + 7 * max(k - (3 if self.first else 1), 0)), f"{nm}: at most seven differences per word")
        s = self.lst(fr).seq
        X.prove(nterm(s.n) == 106, f"{nm}: array size")
        X.forall(0, n, lambda m: s.get(m) == self.content(m, False), f"{nm}: values after each word")

def extract_unit(ver, first):
    def u(x, it):
        def go():
            x.keep_ints = x.fork_ifs = True
            L = x.fint("L")
            B_ = z3.Function("data", z3.IntSort(), z3.BitVecSort(8))
            B = lambda i: B_(nterm(i))
            g = Ghost(x, ver)
            f = z3.IntVal(0) if first else x.fint("f")
            if not first: x.assume(f >= 1)
            x.assume(L >= 64 * f + 64)
            # the ghost slots of this frame are the words of the data
            for i in range(1, 16):
                t = nterm(simp(15 * f + (i - 1)))
                x.assume(g.W(t) == frame_word(B, f, i)); x.assume(g.N(t) == frame_nib(B, f, i))
            data = BA(Seq(L, B), False)
            fn = EXTRACT[ver]
            it.loops[(qual(fn), 0)] = (ExtractLoop1 if ver == 1 else ExtractLoop2)(g, f, B, first)
            off = 0 if first else SI(64 * f)
            o = attempt(it, fn, data, off, *([] if ver == 1 else [False]))
            nm = fn.__name__
            x.expect(f"{nm} refuses", f"{nm} returns")
            bad0 = frame_nib(B, f, 0) != 0
            if not o.ok:
                x.prove(z3.BoolVal(o.v.cls is CodecException), f"{nm}: refuses with a codec error")
                sl = it.loops[(qual(fn), 0)]
                bads = [bad0] + [z3.Not(sl.slot_valid(i)) for i in sl.data_slots(16)]
                x.cover(f"{nm} refuses")
                x.prove(z3.Or(*bads), f"{nm}: refuses only frames with an undefined code")
                return
            x.cover(f"{nm} returns")
            x.prove(z3.Not(bad0), f"{nm}: the code of the control word is 00")
            r = o.v
            x.prove(z3.BoolVal(isinstance(r, NArr) and r.dt == DT), f"{nm}: returns a 32 bit integer array")
            sl = it.loops[(qual(fn), 0)]
            x.prove(z3.And(*[sl.slot_valid(i) for i in sl.data_slots(16)]), f"{nm}: every code of a frame that is returned is defined")
            n = nterm(simp(sl.size(16)))
            x.prove(nterm(r.seq.n) == n, f"{nm}: number of values of the frame")
            x.forall(0, n, lambda m: r.seq.get(m) == sl.content(m, False), f"{nm}: values of the frame in order")
        return go
    return u
for ver in (1, 2):
    for first in (True, False):
        w = "first frame" if first else "later frame"
        unit(f"extractSteim{ver}Samples, {w}", "C01 C03" if ver == 1 else "C02 C03", weight=5)(extract_unit(ver, first))
