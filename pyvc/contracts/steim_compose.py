"""encodeSteim1, encodeSteim2 and the composition of the encoder, block and decoder contracts: decoding what was encoded
gives the samples back. Inductions over slots and samples are split into base and step obligations."""
from vc import *
import z3, numpy as np
from simplemseed import steim1, steim2
from simplemseed.steimframeblock import SteimFrameBlock
import steimspec as sp
from steimspec import Ghost

def wrapper_unit(ver):
    def u(x, it):
        def go():
            fn = {1: steim1.encodeSteim1, 2: steim2.encodeSteim2}[ver]
            inner = {1: steim1.encodeSteim1FrameBlock, 2: steim2.encodeSteim2FrameBlock}[ver]
            nm = fn.__name__
            args = [PList(Seq(x.fint("n"), lambda i: SI(z3.Function("s", z3.IntSort(), z3.IntSort())(nterm(i))))), SI(x.fint("frames")), SB(x.fbv(32, "bias"))]
            if ver == 1: args.append(SI(x.fint("offset")))
            calls, block, out = [], Obj(SteimFrameBlock), BA(Seq(x.fint("len"), lambda i: z3.BitVecVal(0, 8)), True)
            params = inner.__code__.co_varnames[:inner.__code__.co_argcount]
            def c_inner(it, f, a, kw):
                got = dict(zip(params, a)); got.update(kw)
                for p, d in zip(params[-len(f.__defaults__):], f.__defaults__): got.setdefault(p, d)
                calls.append(got); return block
            def c_pack(it, f, a, kw):
                x.prove(z3.BoolVal(a[0] is block), f"{nm}: packs the block it encoded")
                calls.append("pack"); return out
            it.contracts[qual(inner)] = c_inner
            it.contracts["steimframeblock.SteimFrameBlock.pack"] = c_pack
            passed, args = omitted(x, it, fn, args, frames=0, bias=0, **({"offset": 0} if ver == 1 else {}))
            o = attempt(it, fn, *passed)
            x.cover(f"{nm} returns")
            if not o.ok: x.prove(False, f"{nm}: fails only when the encoder refuses"); return
            x.prove(z3.BoolVal(o.v is out and len(calls) == 2 and calls[1] == "pack"), f"{nm}: returns the packed block of one encoding")
            if not calls or calls[0] == "pack": return
            x.prove(z3.BoolVal(all(calls[0][p] is v or x.decide(bterm(lib.equal(it, calls[0][p], v))) is True for p, v in zip(params, args))), f"{nm}: encodes with the arguments given")
        return go
    return u
for ver in (1, 2): unit(f"encodeSteim{ver}", "C01 C04" if ver == 1 else "C02 C04")(wrapper_unit(ver))

class Comp:
    """a block with the postcondition of the encoder (g: its ghost slots, cnt words, n samples reported), its bytes through the
    postcondition of pack, and the ghost of the decoder h, defined by the words of the bytes"""
    def __init__(self, x, ver):
        self.x, self.ver = x, ver
        self.g, self.h = Ghost(x, ver, "enc"), Ghost(x, ver, "dec")
        self.cnt, self.n, self.F, self.mx, self.N = x.fint("words"), x.fint("samples"), x.fint("frames"), x.fint("limit"), x.fint("length")
        self.val = z3.Function("sample!in", z3.IntSort(), z3.BitVecSort(32))
        self.off, self.bias = x.fint("offset"), x.fbv(32, "bias")
        self.x0 = x.fbv(32, "x0")
        x.assume(z3.And(self.cnt >= 2, self.n >= 1, self.off >= 0, self.n <= self.N - self.off))
        x.assume(z3.Implies(self.mx > 0, self.cnt <= 15 * self.mx))
        x.assume(self.g.P(2) == 0); x.assume(self.g.P(self.cnt) >= self.n)
        # representation invariant of the block: frames hold the cnt slots, the last frame not empty
        x.assume(z3.And(self.F >= 1, 15 * self.F >= self.cnt, 15 * (self.F - 1) < self.cnt))
        x.assume(self.x0 == self.val(self.off))
    def slot(self, t):
        """slot t of the bytes (pack: word and code of slots below cnt, zero after them) and what the encoder guarantees for it"""
        g, h, x = self.g, self.h, self.x
        x.assume(z3.If(t < self.cnt, z3.And(h.W(t) == g.W(t), z3.If(t < 2, h.N(t) == 0, h.N(t) == g.N(t))), z3.And(h.W(t) == 0, h.N(t) == 0)))
        x.assume(z3.Implies(z3.And(t >= 2, t < self.cnt), sp.valid(self.ver, g.N(t), g.W(t))))
        for a in g.slot_axioms(t, t < 2): x.assume(a)
        for a in h.slot_axioms(t, t < 2): x.assume(a)
    def dd(self, m):
        a = self.val(z3.simplify(self.off + m))
        return z3.If(m == 0, a - self.bias, a - self.val(z3.simplify(self.off + m - 1)))

def compose_unit(ver):
    def u(x, it):
        nm = f"Steim{ver} block"
        def go():
            part = x.choose(5)
            c = Comp(x, ver)
            g, h, cnt = c.g, c.h, c.cnt
            inv = lambda t: h.P(t) == z3.If(t <= cnt, g.P(t), g.P(cnt))
            if part == 0:
                # P of the decoder is P of the encoder
                x.prove(inv(z3.IntVal(0)), f"{nm}: differences before slot 0 (base)")
                t = x.fint("t"); x.assume(z3.And(t >= 0, inv(t)))
                c.slot(t)
                x.cover(f"{nm}: slots")
                x.prove(inv(t + 1), f"{nm}: decoder and encoder count the same differences before every slot (step)")
                x.prove(z3.Implies(t >= 2, sp.valid(ver, h.N(t), h.W(t))), f"{nm}: no slot has an undefined code")
            elif part == 1:
                # D of the decoder is D of the encoder, below P(t)
                t, m = x.fint("t"), x.fint("m"); x.assume(z3.And(t >= 0, t < cnt, m >= 0, inv(t), inv(t + 1)))
                x.assume(z3.Implies(m < g.P(t), h.D(m) == g.D(m)))
                c.slot(t)
                x.prove(z3.Implies(m < g.P(0), h.D(m) == g.D(m)), f"{nm}: differences of decoder and encoder (base)")
                x.prove(z3.Implies(m < g.P(t + 1), h.D(m) == g.D(m)), f"{nm}: differences of decoder and encoder are equal (step)")
            elif part == 2:
                # the decoder does not refuse: length, codes, number of differences
                x.assume(inv(15 * c.F))
                x.prove(h.P(15 * c.F) >= c.n, f"{nm}: the frames hold a difference for every sample reported")
                x.prove((64 * c.F) % 64 == 0, f"{nm}: the length is a multiple of 64")
                x.prove(z3.Implies(c.mx > 0, c.F <= c.mx), f"{nm}: never more frames than the limit")
            elif part == 3:
                # the decoded samples are the samples encoded
                x.assume(z3.Implies(z3.And(0 < c.n), h.D(0) == c.dd(z3.IntVal(0))))
                x.assume(h.sample_axiom(z3.IntVal(0), c.bias, c.x0))
                x.prove(h.S(0) == c.val(c.off), f"{nm}: the first sample comes back (base)")
            else:
                m = x.fint("m"); x.assume(z3.And(m >= 1, m < c.n))
                x.assume(z3.And(h.S(m - 1) == c.val(z3.simplify(c.off + m - 1)), h.D(m) == c.dd(m)))
                x.assume(h.sample_axiom(m, c.bias, c.x0))
                x.cover(f"{nm}: samples")
                x.prove(h.S(m) == c.val(z3.simplify(c.off + m)), f"{nm}: every sample comes back (step)")
        return go
    return u
for ver in (1, 2):
    unit(f"Steim{ver}: decode of encode", ("C01" if ver == 1 else "C02") + " C04",
         assume=["the composition lemma uses the postconditions of the encoder, of SteimFrameBlock.pack and of the decoder as stated in their own units"])(compose_unit(ver))
