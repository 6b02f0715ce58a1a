"""Contracts of the leaf functions of the Steim codecs."""
from vc import *
import z3
from simplemseed import steim2, steim1, steimframeblock

WIDTHS = (4, 5, 6, 8, 10, 15, 30)

@unit("steim2.minBitsNeeded", "C03 C04")
def u_minbits(x, it):
    def go():
        d = sym_int(x, "diff")
        o = attempt(it, steim2.minBitsNeeded, d)
        if not o.ok: x.prove(False, "minBitsNeeded: no exception"); return
        r = nterm(as_int(o.v))
        for w in WIDTHS:
            x.prove((r <= w) == z3.And(d.t >= -(1 << (w - 1)), d.t < (1 << (w - 1))), f"minBitsNeeded: result <= {w} exactly when the difference fits {w} bits")
        x.prove(z3.Or(*[r == w for w in WIDTHS + (32,)]), "minBitsNeeded: result is a Steim2 width or 32")
    return go

NDIFF = {4: 7, 5: 6, 6: 5, 8: 4, 10: 3, 15: 2, 30: 1}
@unit("steim2.bitsForPack", "C03 C04")
def u_bitsforpack(x, it):
    def go():
        mb = [sym_int(x, f"m{i}") for i in range(7)]
        n = x.choose(8)
        o = attempt(it, steim2.bitsForPack, PList(CSeq(mb)), n)
        if not o.ok: x.prove(False, "bitsForPack: no exception"); return
        r = nterm(as_int(o.v))
        for w, k in NDIFF.items():
            if k <= n: fits = z3.And(*[mb[i].t <= w for i in range(k)])
            else: fits = z3.BoolVal(False)
            x.prove(z3.Implies(r == w, fits), f"bitsForPack: width {w} only when {k} differences are there and fit")
            x.prove(z3.Implies(fits, r <= w), f"bitsForPack: never wider than {w} when {k} differences fit in it")
        x.prove(z3.Or(*[r == w for w in WIDTHS + (32,)]), "bitsForPack: result is a Steim2 width or 32")
    return go
