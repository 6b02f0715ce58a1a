"""miniSEED2 records: writing, and reading back what was written."""
from vc import *
import z3, ast, struct
import libdt, libstr
from libio import *
from libdt import DT, TD, TZ, sym_dt, ieee, ROUNDING, days_before, MAXUS, US_S, US_M, US_H, US_D
from datetime import datetime, timedelta, timezone
from simplemseed import miniseed, seedcodec
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, MiniseedException, BTime, Blockette100, Blockette1000, Blockette1001, BlocketteUnknown
from simplemseed.seedcodec import BIG_ENDIAN, LITTLE_ENDIAN, STEIM1, STEIM2
from header2 import FIELDS, TEXTS, KINDS, btime_us, btime_good, word, STRIP

CODE = {">": BIG_ENDIAN, "<": LITTLE_ENDIAN}
TEXT = "text padded with blanks, or a whole number written with leading zeros to at least six digits, is stripped and read to what it was (str.ljust, %06d, str.strip, int)"
def bytes_int(t, w, order):
    """the bytes of the whole number t in w bytes"""
    return lib.bytes_of_bits(z3.Int2BV(t, 8 * w), order)

# ---------------------------------------------------------------- rate
NEAREST = "round() of a float gives a whole number at most half away"
class Arith:
    """double arithmetic of one positive rate r: results are named, so are the products by r (linear laws only: nothing is
    assumed that does not follow from the rounding)"""
    U = z3.RealVal(1) / z3.RealVal(2**53)
    def __init__(self, x, it, r):
        self.x, self.r, self.tab, self.nums = x, r, [], []
        it.float_round = self.round; it.float_roundint = self.roundint
    def times(self, t):
        """r * t"""
        x = self.x
        t = z3.simplify(t)
        if z3.is_rational_value(t): return self.r * t
        for q, p in self.tab:
            if q.eq(t): return p
            if z3.simplify(q + t).eq(z3.RealVal(0)): return -p
        p = x.fresh("product", z3.RealSort())
        for c in self.CONSTS + [d for d, _ in self.tab]:
            q = self.r * c if z3.is_rational_value(c) else self.prod(c)
            x.assume(z3.And((p >= q) == (t >= c), (p <= q) == (t <= c)))
            x.assume(z3.And((p - q >= self.r) == (t - c >= 1), (q - p >= self.r) == (c - t >= 1)))
        self.tab.append((t, p))
        return p
    def prod(self, t): return next(p for q, p in self.tab if q is t)
    CONSTS = [z3.RealVal(c) for c in (0, 32766, -32766, 16383)] + [z3.Q(32765, 2)]
    def near(self, t, e, up):
        u = self.U
        return z3.And(t <= e * (1 + u), t >= e * (1 - u)) if up else z3.And(t >= e * (1 + u), t <= e * (1 - u))
    def isr(self, v): return isinstance(v, SF) and v.t is not None and z3.simplify(v.t).eq(self.r)
    def isminus(self, v): return isinstance(v, SF) and v.t is not None and z3.simplify(v.t + self.r).eq(z3.RealVal(0))
    def round(self, it, what, exact, a, b):
        x, r = self.x, self.r
        t = x.fresh("rounded_" + what, z3.RealSort())
        if what == "div" and self.isr(b):
            n = lib.real_of(a); e = x.fresh("quotient", z3.RealSort())
            p = self.times(e); x.assume(p == n)
            if is_intlike(a): self.nums.append(n)
            up = x.branch(n >= 0)
            x.assume(self.near(self.times(t), n, up))
        elif what == "mul" and any(self.isr(v) or self.isminus(v) for v in (a, b)):
            if not (self.isr(a) or self.isminus(a)): a, b = b, a
            e = self.times(lib.real_of(b))
            if self.isminus(a): e = -e
            up = x.branch(e >= 0)
        else:
            e = z3.simplify(exact); up = x.branch(e >= 0)
        x.assume(self.near(t, e, up))
        # whole numbers below 2**53 are kept, so nothing is rounded past one
        f = x.fint("floor"); F = z3.ToReal(f)
        x.assume(z3.And(F <= e, e < F + 1))
        x.assume(z3.Implies(z3.And(e <= z3.RealVal(2**53), e >= -z3.RealVal(2**53)), z3.And(t >= F, t <= F + 1, z3.Implies(F == e, t == e))))
        return SF(t)
    def roundint(self, it, v):
        x = self.x
        t = lib.real_of(v)
        n = x.fint("rounded"); N = z3.ToReal(n); half = z3.Q(1, 2)
        x.assume(z3.And(N - t <= half, t - N <= half))
        d = self.times(N) - self.times(t)
        x.assume(z3.And(d <= half * self.r, d >= -half * self.r))
        return SI(n)

EPS = z3.RealVal(1) / 2**30
@unit("miniseed.MiniseedHeader.calcSeedMultipilerFactor", "C18", assume=[ROUNDING, NEAREST])
def u_factor(x, it):
    def go():
        x.fork_ifs = True
        kind = x.choose(3)
        if kind == 0: r = 0; rate = 0
        else:
            r = x.fresh("rate", z3.RealSort()); x.vars["rate"] = r
            x.assume(r >= 1 if kind == 1 else z3.And(r > 0, r < 1))
            rate = SF(r)
            A = Arith(x, it, r)
        h = Obj(MiniseedHeader, sampleRate=rate, sampRateFactor=0, sampRateMult=0)
        before = dict(h.a)
        o = attempt(it, MiniseedHeader.calcSeedMultipilerFactor, h)
        what = "factor and multiplier"
        x.prove(z3.BoolVal(all(h.a.get(k) is v for k, v in before.items())), f"{what}: the header stays")
        if not o.ok:
            x.cover("rate refused")
            x.prove(z3.BoolVal(o.v.cls is MiniseedException and kind != 0), f"{what}: refused with MiniseedException")
            if kind: x.prove(z3.Or(r > 32766 , r < z3.Q(1, 32764)), f"{what}: refused only if the rate is out of their range")
            return
        if not (type(o.v) is tuple and len(o.v) == 2 and all(is_pyint(v) for v in o.v)): x.prove(z3.BoolVal(False), f"{what}: two whole numbers"); return
        F, M = (nterm(as_int(v)) for v in o.v)
        if kind == 0: x.prove(z3.And(F == 0, M == 0), f"{what}: no rate"); return
        x.cover(f"rate {'of at least' if kind == 1 else 'below'} 1")
        fr, mr = z3.ToReal(F), z3.ToReal(M)
        x.prove(z3.And(F >= -32768, F <= 32767, M >= -32768, M <= 32767), f"{what}: fit two bytes")
        if kind == 1:
            x.prove(z3.And(F > 0, M < 0), f"{what}: the rate is factor over minus multiplier")
            e = fr + A.times(mr)
            x.prove(z3.And(e <= z3.Q(1, 2) + EPS, e >= -z3.Q(1, 2) - EPS), f"{what}: to half a unit of the factor")
            x.prove(fr >= 16382, f"{what}: factor of at least 14 bits")
        else:
            x.prove(z3.And(F < 0, M > 0), f"{what}: the rate is multiplier over minus factor")
            e = mr + A.times(fr)
            for n in A.nums:
                # the multiplier is the whole number that was divided, unless the rate is close to 1
                k = x.fint("numerator"); x.assume(z3.ToReal(k) == n)
                if x.branch(r < z3.Q(9804, 10000)):
                    p = A.times(fr); near = z3.And(-p - k <= r * z3.Q(501, 1000), -p - k >= -r * z3.Q(501, 1000))
                    if x.decide(near): x.assume(near)
                    if x.decide(z3.And(mr + p < z3.Q(501, 1000), mr + p > -z3.Q(501, 1000))): x.assume(z3.And(mr + p < z3.Q(501, 1000), mr + p > -z3.Q(501, 1000)))
                    if x.decide(M == k): x.assume(M == k)
            x.prove(z3.And(e <= r * z3.Q(51, 100), e >= -r * z3.Q(51, 100)), f"{what}: to half a unit of the factor")
            x.prove(fr <= -16382, f"{what}: factor of at least 14 bits")
    return go

# ---------------------------------------------------------------- header
PAD = z3.Function("padded", z3.StringSort(), z3.IntSort(), z3.StringSort())
SEQ6 = z3.Function("six_digits", z3.IntSort(), z3.StringSort())
WIDTHS = {"sequence_number": (0, 6), "dataquality": (6, 1), "station": (8, 5), "location": (13, 2), "channel": (15, 3), "network": (18, 2)}
NUMS = [f for f in FIELDS if f[0] not in ("year", "yday", "hour", "minute", "second", "tenthMilli", "dataOffset", "blocketteOffset")]
RANGE = {(1, False): (0, 255), (2, False): (0, 65535), (2, True): (-32768, 32767), (4, True): (-2**31, 2**31 - 1)}

def text_hooks(x, it):
    def ljust(it, o, w):
        t = PAD(libstr.sterm(o), w)
        x.assume(z3.And(z3.Length(t) >= w, STRIP(t) == STRIP(libstr.sterm(o))))
        return SS(t)
    def padint(it, v, w):
        if w != 6: raise Unsupported("width of a number")
        n = nterm(as_int(v)); t = SEQ6(n)
        x.assume(z3.And(z3.Length(t) >= 6, libstr.INTOK(STRIP(t)), libstr.INTOF(STRIP(t)) == n, libstr.INTOK(t), libstr.INTOF(t) == n))
        return SS(t)
    it.ljust_hook, it.padint_hook = ljust, padint
    it.strip_hook = lambda it, o: SS(STRIP(libstr.sterm(o)))

def start_time(x):
    """a date-time in UTC; its fields are named, the microsecond as hundreds and rest"""
    dt = sym_dt(x, "start", utc=True)
    f = {k: x.fint(k) for k in ("year", "yday", "hour", "minute", "second")}
    tenth, rest = x.fint("hundreds"), x.fint("below_hundred")
    for t, lo, hi in ((f["year"], 1, 9999), (f["yday"], 1, 366), (f["hour"], 0, 23), (f["minute"], 0, 59), (f["second"], 0, 59), (tenth, 0, 9999), (rest, 0, 99)): x.assume(z3.And(t >= lo, t <= hi))
    f["microsecond"] = 100 * tenth + rest
    dt._f = f; dt.tenth, dt.rest = tenth, rest
    us = nterm(dt.us)
    x.assume(us == (days_before(f["year"]) + f["yday"] - 1) * US_D + f["hour"] * US_H + f["minute"] * US_M + f["second"] * US_S + f["microsecond"])
    x.assume(days_before(f["year"]) + f["yday"] - 1 < days_before(f["year"] + 1))
    return dt

def ints_of(t):
    """whole numbers turned into bits in t"""
    out, todo, seen = {}, [t], set()
    while todo:
        q = todo.pop()
        if q.get_id() in seen: continue
        seen.add(q.get_id())
        if q.decl().kind() == z3.Z3_OP_INT2BV: out[q.get_id()] = q
        else: todo += q.children()
    return list(out.values())
def same(x, got, want, name):
    """bits are the same, because the whole numbers they come from are"""
    got, want = z3.simplify(got), z3.simplify(want)
    for g in ints_of(got):
        for w in ints_of(want):
            if g.size() == w.size() and not g.eq(w) and x.decide(g.arg(0) == w.arg(0)): got = z3.substitute(got, (g, w))
    x.prove(got == want, name)

class Head:
    """a header with any fields"""
    def __init__(self, x, it, order, fits=False):
        self.x, self.it, self.order = x, it, order
        a = {}
        for k, off, w, sg in NUMS:
            lo, hi = RANGE[(w, sg)]
            a[k] = sym_int(x, k, *((lo, hi) if fits else ()))
        self.text = {k: sym_str(x, k) for k in WIDTHS if k != "sequence_number"}
        a.update(self.text)
        a["sequence_number"] = sym_int(x, "sequence_number", 0)
        dt = self.dt = start_time(x)
        a["starttime"] = dt
        a["btime"] = Opaque(BTime, "btime")
        a["sampleRate"] = 0 if not x.choose(2) else SF(x.fresh("rate", z3.RealSort()))
        if isinstance(a["sampleRate"], SF): x.assume(a["sampleRate"].t != 0)
        a["sampPeriod"] = Opaque(timedelta); a["encoding"] = sym_int(x, "encoding"); a["byteorder"] = CODE[order]
        a["recordLengthExp"], a["recordLength"] = sym_int(x, "recordLengthExp"), sym_int(x, "recordLength")
        a["dataOffset"], a["blocketteOffset"] = sym_int(x, "dataOffset"), sym_int(x, "blocketteOffset")
        self.h = Obj(MiniseedHeader, **a); self.a = a
        self.padded = {k: PAD(self.text[k].t if k in self.text else SEQ6(a[k].t), w) for k, (o, w) in WIDTHS.items()}
        self.F, self.M = x.fint("factor"), x.fint("multiplier")      # what calcSeedMultipilerFactor gives
        x.vars["factor"], x.vars["multiplier"] = self.F, self.M
        self.calc = []
        it.contracts["miniseed.MiniseedHeader.calcSeedMultipilerFactor"] = self.factor
    def factor(self, it, f, args, kw):
        x = self.x
        x.prove(z3.BoolVal(args[0] is self.h), "header: the factor is that of the header")
        if not x.branch(x.fbool("representable")): self.calc.append(None); it.exc(MiniseedException, "rate")
        self.calc.append((self.F, self.M))
        return (SI(self.F), SI(self.M))
    def f(self, k): return nterm(as_int(self.a[k]))
    def computes(self):
        """factor and multiplier are computed: there is a rate, and none is stored"""
        if not isinstance(self.a["sampleRate"], SF): return z3.BoolVal(False)
        return z3.And(self.f("sampRateFactor") == 0, self.f("sampRateMult") == 0)
    def num(self, k):
        """value written"""
        if k == "sampRateFactor": return z3.If(self.computes(), self.F, self.f(k))
        if k == "sampRateMult": return z3.If(self.computes(), self.M, self.f(k))
        return self.f(k)
    def fits_text(self, k): return ULEN(self.padded[k]) == WIDTHS[k][1]
    def fits_num(self, k, w, sg):
        lo, hi = RANGE[(w, sg)]
        return z3.And(self.num(k) >= lo, self.num(k) <= hi)
    def fits(self): return z3.And(*[self.fits_text(k) for k in WIDTHS], *[self.fits_num(k, w, sg) for k, o, w, sg in NUMS])
    def unchanged(self, what): self.x.prove(z3.BoolVal(set(self.h.a) == set(self.a) and all(self.h.a[k] is v for k, v in self.a.items())), f"{what}: the header stays as it is")

def time_bytes(x, dt, get, order, what):
    """get(i), i in 20..29, are the bytes of the start in the byte order, to 100 microseconds"""
    f = dt.fields()
    for k, off, w, sg in FIELDS:
        if k not in BTime._fields: continue
        v = dt.tenth if k == "tenthMilli" else nterm(f[k])
        bs = bytes_int(v, w, order)
        for i in range(w): same(x, get(off + i), bs[i], f"{what}: {k} at byte {off}")
    x.prove(get(27) == 0, f"{what}: byte 27 is not used")

@unit("miniseed.MiniseedHeader.pack", "C18", assume=[TEXT, UTF8, "the start of a header is in UTC (setStartTime)", "sequence numbers are not negative"], weight=3)
def u_pack(x, it):
    def go():
        x.fork_ifs = True
        it.float_round = ieee(x)
        text_hooks(x, it)
        order = "><"[x.choose(2)]
        H = Head(x, it, order)
        o = attempt(it, MiniseedHeader.pack, H.h)
        what = f"header pack {order}"
        H.unchanged(what)
        if not o.ok:
            x.cover(f"header refused, {order}")
            x.prove(z3.BoolVal(o.v.cls in (MiniseedException, struct.error)), f"{what}: refuses with MiniseedException or struct.error")
            if None in H.calc: x.prove(H.computes(), f"{what}: the rate is refused only if it has to be computed"); return
            x.prove(z3.Not(H.fits()), f"{what}: refuses only fields that do not fit")
            return
        x.cover(f"header packed, {order}")
        b = o.v
        ok = isinstance(b, BA) and b.mutable and b.seq.n == 48
        x.prove(z3.BoolVal(ok), f"{what}: 48 bytes")
        if not ok: return
        for k, (off, w) in WIDTHS.items():
            x.prove(H.fits_text(k), f"{what}: {k} that does not fit is refused")
            for i in range(w): x.prove(b.seq.get(off + i) == UBYTE(H.padded[k], i), f"{what}: {k} at byte {off}, padded with blanks")
        x.prove(b.seq.get(7) == 32, f"{what}: byte 7 is a blank")
        x.prove(z3.Implies(H.computes(), z3.BoolVal(len(H.calc) == 1 and H.calc[0] is not None)), f"{what}: factor and multiplier are computed for a rate without them")
        for k, off, w, sg in NUMS:
            x.prove(H.fits_num(k, w, sg), f"{what}: {k} that does not fit is refused")
            bs = bytes_int(H.num(k), w, order)
            for i in range(w): x.prove(b.seq.get(off + i) == bs[i], f"{what}: {k} at byte {off}")
        time_bytes(x, H.dt, b.seq.get, order, what)
        for i in range(44, 48): x.prove(b.seq.get(i) == 0, f"{what}: offsets of data and blockettes are left open")
    return go

@unit("miniseed.MiniseedHeader.packBTime", "C18")
def u_packbtime(x, it):
    def go():
        x.fork_ifs = True
        it.float_round = ieee(x)
        order = "><"[x.choose(2)]
        n = sym_int(x, "length", 0).t
        b = sym_bytes(x, "record", n, True); old = b.seq
        dt = start_time(x)
        h = Obj(MiniseedHeader, byteorder=CODE[order], other=1)
        o = attempt(it, MiniseedHeader.packBTime, h, b, dt)
        what = f"packBTime {order}"
        x.prove(z3.BoolVal(h.a == {"byteorder": CODE[order], "other": 1}), f"{what}: the header stays as it is")
        if not o.ok:
            x.cover(f"{what} no room")
            x.prove(z3.And(n < 30, z3.BoolVal(o.v.cls is struct.error)), f"{what}: refused only without room"); return
        x.cover(f"{what} written")
        x.prove(n >= 30, f"{what}: refused without room")
        time_bytes(x, dt, b.seq.get, order, what)
        x.prove(nterm(b.seq.n) == n, f"{what}: the length stays")
        rest_stays(x, b.seq, old, [(20, 10)], n, what)
    return go

def rest_stays(x, new, old, spans, n, what):
    i = x.fint("position"); x.assume(z3.And(i >= 0, i < nterm(n), *[z3.Or(i < nterm(lo), i >= nterm(lo) + nterm(w)) for lo, w in spans]))
    x.prove(new.get(i) == old.get(i), f"{what}: the other bytes stay as they are")

# ---------------------------------------------------------------- blockettes
# SEED 2.4: position in the blockette, bytes
B_LAYOUT = {100: [("blocketteNum", 0, 2), ("nextOffset", 2, 2)], 1000: [("blocketteNum", 0, 2), ("nextOffset", 2, 2), ("encoding", 4, 1), ("byteorder", 5, 1), ("recordLengthExp", 6, 1)],
            1001: [("blocketteNum", 0, 2), ("nextOffset", 2, 2), ("timeQuality", 4, 1), ("microseconds", 5, 1), ("frameCount", 7, 1)], None: [("blocketteNum", 0, 2), ("nextOffset", 2, 2)]}

class SomeB:
    """a blockette with any fields"""
    def __init__(self, x, kind):
        self.x, self.kind = x, kind
        self.num, self.next = sym_int(x, "blocketteNum"), sym_int(x, "nextOffset")
        self.f = {"blocketteNum": self.num, "nextOffset": self.next}
        if kind == 100:
            self.rate = SF(None, x.fbv(64, "rate")) if x.choose(2) else 0
            self.b = NT(Blockette100, [self.num, self.next, self.rate])
        elif kind == 1000: self.b = NT(Blockette1000, [self.num, self.next, sym_int(x, "b_encoding"), sym_int(x, "b_byteorder"), sym_int(x, "b_recLength")])
        elif kind == 1001:
            for k in ("timeQuality", "microseconds", "frameCount"): self.f[k] = sym_int(x, k)
            self.b = NT(Blockette1001, [self.num, self.next, self.f["timeQuality"], self.f["microseconds"], self.f["frameCount"]])
        else:
            self.n = sym_int(x, "raw length", 4).t
            self.raw = sym_bytes(x, "raw", self.n)
            self.b = NT(BlocketteUnknown, [self.num, self.next, self.raw])
        self.size = KINDS[kind][1] if kind else self.n
    def header(self, order):
        x = self.x
        h = Obj(MiniseedHeader, byteorder=CODE[order], encoding=sym_int(x, "encoding"), recordLengthExp=sym_int(x, "recordLengthExp"), recordLength=sym_int(x, "recordLength"), other=1)
        if self.kind == 1000: self.f.update(encoding=h.get("encoding"), byteorder=CODE[order], recordLengthExp=h.get("recordLengthExp"))
        return h
    def fits(self):
        c = [z3.And(nterm(as_int(self.f[k])) >= 0, nterm(as_int(self.f[k])) < 1 << 8 * w) for k, p, w in B_LAYOUT[self.kind]]
        if self.kind == 100 and isinstance(self.rate, SF): c.append(z3.Not(lib.F64OVF(lib.float_bits(self.rate))))
        return z3.And(*c)
    def written(self, get, order, what):
        """get(i) is the i-th byte of the blockette"""
        x = self.x; done = set()
        for k, p, w in B_LAYOUT[self.kind]:
            bs = bytes_int(nterm(as_int(self.f[k])), w, order)
            for i in range(w): same(x, get(p + i), bs[i], f"{what}: {k} at byte {p}"); done.add(p + i)
        if self.kind == 100:
            bits = lib.F64TO32(lib.float_bits(self.rate)) if isinstance(self.rate, SF) else z3.BitVecVal(0, 32)
            for i, q in enumerate(lib.bytes_of_bits(bits, order)): x.prove(get(4 + i) == q, f"{what}: sample rate at byte 4, as single"); done.add(4 + i)
        if self.kind:
            for i in set(range(self.size)) - done: x.prove(get(i) == 0, f"{what}: unused bytes are 0")
        else: x.forall(4, self.n, lambda i: get(i) == self.raw.seq.get(i), f"{what}: the bytes it was read from, from byte 4 on")

def pack_b(kind, via):
    names = {100: "packB100", 1000: "packB1000", 1001: "packB1001", None: "packBlocketteUnknown"}
    f = getattr(MiniseedRecord, "packBlockette" if via else names[kind])
    label = f"packBlockette of {kind or 'unknown'}" if via else names[kind]
    @unit(f"miniseed.MiniseedRecord.{label}", "C18", assume=["the bytes of an unknown blockette include its number and next offset", "a blockette is written to the buffer at an offset that is not negative"])
    def u(x, it):
        def go():
            x.fork_ifs = True
            order = "><"[x.choose(2)]
            B = SomeB(x, kind)
            h = B.header(order); was = dict(h.a)
            n = sym_int(x, "length", 0).t
            b = sym_bytes(x, "record", n, True); old = b.seq
            off = sym_int(x, "offset", 0).t
            bl = PList(CSeq([]))
            rec = Obj(MiniseedRecord, header=h, blockettes=bl, encodedDataBytes=None, _data=None); recwas = dict(rec.a)
            o = attempt(it, f, rec, b, SI(off), B.b)
            what = f"{label} {order}"
            x.prove(z3.BoolVal(h.a == was and rec.a == recwas), f"{what}: record and header stay as they are")
            end = off + nterm(B.size)
            # the bytes of an unknown blockette may lie behind the end: then the buffer grows
            need = end if kind else off + 4
            if not o.ok:
                x.cover(f"{what} refused")
                x.prove(z3.BoolVal(o.v.cls in (struct.error, OverflowError)), f"{what}: refuses with struct.error or OverflowError")
                x.prove(z3.Or(need > n, z3.Not(B.fits())), f"{what}: refuses only what does not fit")
                return
            x.cover(f"{what} written")
            x.prove(z3.And(need <= n, B.fits()), f"{what}: what does not fit is refused")
            x.prove(nterm(as_int(o.v)) == end if is_pyint(o.v) else z3.BoolVal(False), f"{what}: gives the offset behind it")
            x.prove(nterm(b.seq.n) == z3.If(end > n, end, n), f"{what}: the buffer grows only if it is too short")
            B.written(lambda i: b.seq.get(simp(off + nterm(i))), order, what)
            rest_stays(x, b.seq, old, [(off, B.size)], n, what)
        return go
for _k in (100, 1000, 1001, None):
    for _v in (0, 1): pack_b(_k, _v)

@unit("miniseed.MiniseedRecord.packBlockette of something else", "C18")
def u_packb_other(x, it):
    def go():
        x.fork_ifs = True
        n = sym_int(x, "length", 0).t
        b = sym_bytes(x, "record", n, True); old = b.seq
        h = Obj(MiniseedHeader, byteorder=CODE["><"[x.choose(2)]])
        rec = Obj(MiniseedRecord, header=h, blockettes=PList(CSeq([])))
        v = (None, 5, NT(BTime, [1] * 6))[x.choose(3)]
        o = attempt(it, MiniseedRecord.packBlockette, rec, b, sym_int(x, "offset", 0), v)
        x.prove(z3.BoolVal(not o.ok and o.v.cls is miniseed.CodecException and b.seq is old), "packBlockette: something else is refused")
    return go

def create_b(name, kind):
    @unit(f"miniseed.MiniseedRecord.{name}", "C18")
    def u(x, it):
        def go():
            x.fork_ifs = True
            a = dict(encoding=sym_int(x, "encoding"), byteorder=(BIG_ENDIAN, LITTLE_ENDIAN)[x.choose(2)], recordLengthExp=sym_int(x, "recordLengthExp"), sampleRate=SF(x.fresh("rate", z3.RealSort())))
            dt = start_time(x); a["starttime"] = dt
            h = Obj(MiniseedHeader, **a); rec = Obj(MiniseedRecord, header=h, blockettes=PList(CSeq([]))); was = dict(rec.a)
            o = attempt(it, getattr(MiniseedRecord, name), rec)
            x.cover(name)
            cl = KINDS[kind][0]
            ok = o.ok and isinstance(o.v, NT) and o.v.cls is cl
            x.prove(z3.BoolVal(ok and rec.a == was and h.a == a), f"{name}: a {cl.__name__}, and nothing changes")
            if not ok: return
            v = o.v
            x.prove(z3.And(eqv(it, v.get("blocketteNum"), kind), eqv(it, v.get("nextOffset"), 0)), f"{name}: number, and no next one")
            if kind == 100: x.prove(z3.BoolVal(v.get("sampleRate") is a["sampleRate"]), f"{name}: the rate of the header")
            if kind == 1000:
                for k, q in (("encoding", "encoding"), ("byteorder", "byteorder"), ("recLength", "recordLengthExp")): x.prove(eqv(it, v.get(k), a[q]), f"{name}: {k} of the header")
            if kind == 1001: x.prove(nterm(as_int(v.get("microseconds"))) == dt.rest, f"{name}: the microseconds below 100, which the header has no place for")
        return go
for _n, _k in (("createB100", 100), ("createB1000", 1000), ("createB1001", 1001)): create_b(_n, _k)

# ---------------------------------------------------------------- the record
I = z3.IntSort(); B8 = z3.BitVecSort(8)
TBYTE = z3.Function("time_byte", I, I, B8)      # i-th byte (20..29) of an instant in a header
STEIM = (STEIM1, STEIM2)

class PartB:
    """blockette number id of the record; -1 is the blockette 1000 that createB1000 makes"""
    def __init__(self, R, id): self.R, self.id = R, simp(nterm(id))
    def sym_getattr(self, it, name):
        R = self.R
        if name == "blocketteNum": R.known(self.id); return SI(R.NUM(self.id))
        if name == "microseconds" and self.kind() == 1001: return SI(R.US(self.id))
        if hasattr(self.pyclass, name): raise Unsupported(f"blockette.{name}")
        raise PyRaise(AttributeError, (name,))
    def kind(self):
        R, x = self.R, self.R.x
        R.known(self.id)
        for k in KINDS:
            if x.branch(R.NUM(self.id) == k): return k
        return None
    @property
    def pyclass(self): k = self.kind(); return KINDS[k][0] if k else BlocketteUnknown
    def truth(self): return True
    def merge_with(self, c, o):
        if not isinstance(o, PartB): raise MergeFail()
        return PartB(self.R, z3.If(c, self.id, o.id))

class Write:
    """a record to be written"""
    def __init__(self, x, it, order, has):
        self.x, self.it, self.order, self.has = x, it, order, has
        g = lambda n, *s: z3.Function(f"{n}!{next(x.counter)}", *s)
        self.NUM, self.US, self.SIZE, self.OKB = g("number", I, I), g("microseconds", I, I), g("size", I, I), g("packable", I, z3.BoolSort())
        self.BY, self.HB, self.PS, self.OF = g("blockette_byte", I, I, B8), g("header_byte", I, B8), g("microseconds_before", I, I), g("offset", I, I)
        self.RL = sym_int(x, "recordLength", 0).t
        # a power of two
        self.small = x.choose(2) == 1
        q = x.fint("length64"); x.assume(self.RL <= 32 if self.small else z3.And(self.RL == 64 * q, q >= 1))
        self.nb = x.fint("blockettes"); x.vars["blockettes"] = self.nb; x.assume(self.nb >= 0)
        self.w = x.fint("index_of_1000")
        if self.has: x.assume(z3.And(self.w >= 0, self.w < self.nb, self.NUM(self.w) == 1000))
        self.steim = x.choose(2) == 1
        enc = sym_int(x, "encoding"); E = enc.t
        x.assume(z3.Or(*[E == v for v in STEIM]) if self.steim else z3.And(*[E != v for v in STEIM]))
        self.dt = sym_dt(x, "start", utc=True)
        a = dict(byteorder=CODE[order], encoding=enc, recordLength=SI(self.RL), recordLengthExp=sym_int(x, "recordLengthExp"), starttime=self.dt, numSamples=sym_int(x, "numSamples"), other=Opaque(object))
        self.h = Obj(MiniseedHeader, **a); self.hwas = dict(a)
        self.list = PList(Seq(self.nb, lambda i: PartB(self, i)))
        if self.has: self.list.seq.get(self.w)
        self.raw = x.choose(2) == 0
        self.PL = x.fint("payload length"); x.assume(self.PL >= 0); x.vars["payload length"] = self.PL
        P = g("payload", I, B8); self.payload = Seq(self.PL, lambda i: P(nterm(i)))
        self.samples = None if self.raw else Opaque(object, "samples")
        rb = BA(self.payload, False) if self.raw else None
        self.rec = Obj(MiniseedRecord, header=self.h, blockettes=self.list, encodedDataBytes=rb, _data=self.samples); self.rwas = dict(self.rec.a)
        self.why = None; self.buf = None; self.made = 0; self.written = None; self.summed = False; self.mainloop = False
        # total number of blockettes, and the k-th written
        self.n = self.nb if self.has else self.nb + 1
        # any byte of the header, of a blockette, and behind
        self.hs, self.is_, self.qs, self.zs = (x.fint(k) for k in ("header_position", "blockette", "position_in_blockette", "position"))
        x.assume(z3.And(self.hs >= 0, self.hs < 48, self.is_ >= 0, self.is_ < self.n, self.qs >= 0, self.qs < self.SIZE(self.id(self.is_)), self.SIZE(self.id(self.is_)) >= 4))
        x.assume(z3.And(self.OF(0) == 48, self.PS(0) == 0, self.OF(self.is_ + 1) == self.OF(self.is_) + self.SIZE(self.id(self.is_))))
        c = it.contracts
        c["miniseed.MiniseedHeader.pack"] = self.c_header
        c["miniseed.MiniseedHeader.packBTime"] = self.c_time
        c["miniseed.MiniseedRecord.createB1000"] = self.c_create
        c["miniseed.MiniseedRecord.packBlockette"] = self.c_blockette
        c["miniseed.MiniseedRecord.packData"] = self.c_data
        it.sum_hook = self.sum
        it.loop_spec = self.loop_spec
    def known(self, id):
        x = self.x
        x.assume(z3.And(z3.Implies(id == -1, self.NUM(id) == 1000), self.SIZE(id) >= 4))
        if not self.has: x.assume(z3.Implies(id >= 0, self.NUM(id) != 1000))
    def id(self, k): return nterm(k) if self.has else simp(z3.If(nterm(k) == 0, z3.IntVal(-1), nterm(k) - 1))
    def step(self, k): self.x.assume(self.OF(k + 1) == self.OF(k) + self.SIZE(self.id(k)))
    @property
    def MU(self): return self.PS(self.nb)
    def refuse(self, cls, why): self.why = why; self.it.exc(cls, why)
    # contracts of what is called
    def c_header(self, it, f, args, kw):
        self.x.prove(z3.BoolVal(args[0] is self.h), "record: the header of the record is written")
        if not it.branch(boolv(self.x.fbool("header_packable"))): self.refuse((MiniseedException, struct.error)[self.x.choose(2)], "the header does not fit")
        us = nterm(self.dt.us)
        return BA(CSeq([z3.BitVecVal(0, 8) if i >= 44 else TBYTE(us, i) if 20 <= i < 30 else self.HB(i) for i in range(48)]), True)
    def is_buf(self, b):
        """the buffer the record is written to"""
        if self.buf is None and isinstance(b, BA) and b.mutable: self.buf = b
        self.x.prove(z3.BoolVal(b is self.buf), "record: everything is written to one buffer")
        if b is not self.buf: raise PathEnd()
    def c_time(self, it, f, args, kw):
        x = self.x
        b, t = args[1], args[2]
        self.is_buf(b)
        x.prove(z3.BoolVal(args[0] is self.h), "record: time is written in the byte order of the header")
        if not isinstance(t, DT) or t.off is None: raise Unsupported("time")
        x.prove(nterm(t.utc()) == nterm(self.dt.us) - self.MU, "record: the microseconds of blockettes 1001 are taken off the time written")
        x.prove(nterm(t.off) == 0, "record: the time is written in UTC")
        if not x.branch(nterm(b.seq.n) >= 30): self.refuse(struct.error, "room")
        us = nterm(self.dt.us) - self.MU
        b.seq = seq_assign(b.seq, 20, 30, CSeq([TBYTE(us, i) for i in range(20, 30)]))
    def c_create(self, it, f, args, kw):
        self.made += 1
        return PartB(self, -1)
    def c_blockette(self, it, f, args, kw):
        x = self.x
        a = dict(zip(("self", "recordBytes", "offset", "b"), args)); a.update(kw)
        b, off, v = a["recordBytes"], nterm(as_int(a["offset"])), a["b"]
        self.is_buf(b)
        if not isinstance(v, PartB): raise Unsupported("blockette")
        id = v.id
        self.known(id)
        x.prove(off >= 0, "record: blockettes are written behind the header")
        if not x.branch(self.OKB(id)): self.refuse((struct.error, OverflowError, miniseed.CodecException)[x.choose(3)], "a blockette does not fit")
        grows = z3.And(*[self.NUM(id) != k for k in KINDS])
        need = z3.If(grows, off + 4, off + self.SIZE(id))
        if not x.branch(need <= nterm(b.seq.n)):
            self.refuse(struct.error, "room for a blockette")
        b.seq = self.put(b.seq, off, Seq(self.SIZE(id), lambda i: self.BY(id, nterm(i))))
        return SI(simp(off + self.SIZE(id)))
    def put(self, s, off, g):
        """g at off; longer if it does not end before"""
        n, m = nterm(s.n), nterm(g.n); known = self.x.decide
        def get(i):
            j = nterm(i)
            if known(j < off) is True or known(j >= off + m) is True: return s.get(i)
            v = g.get(simp(j - off))
            return v if known(z3.And(j >= off, j < off + m)) is True else z3.If(z3.And(j >= off, j < off + m), v, s.get(i))
        return Seq(simp(z3.If(off + m > n, off + m, n)), get)
    def c_data(self, it, f, args, kw):
        x = self.x
        a = dict(zip(("self", "recordBytes", "offset", "data"), args)); a.update(kw)
        b, off = a["recordBytes"], nterm(as_int(a["offset"]))
        self.is_buf(b)
        x.prove(z3.BoolVal(a["data"] is self.samples and not self.raw), "record: the samples of the record are written")
        if not x.branch(x.fbool("encodable")): self.refuse((MiniseedException, miniseed.CodecException)[x.choose(2)], "the samples cannot be encoded")
        if not x.branch(off + self.PL <= nterm(b.seq.n)): self.refuse(MiniseedException, "room for samples")
        b.seq = self.put(b.seq, off, self.payload)
    def sum(self, it, g):
        x = self.x
        pcm = len(x.pc)
        k = x.fint("k"); x.assume(z3.And(k >= 0, k < nterm(g.n)))
        x.prove(nterm(g.n) == self.nb, "record: microseconds of every blockette")
        nm = "record: the microseconds of blockettes 1001 are added up"
        if x.branch(x.fbool("any blockette")):
            conds, v = True, None
            is1001 = x.branch(self.NUM(k) == 1001)
            conds, v = self.at(g, k)
            x.prove(z3.BoolVal(conds) == is1001, nm)
            if conds and is1001: x.prove(nterm(as_int(v)) == self.US(k), nm)
            raise PathEnd()
        del x.pc[pcm:]
        self.summed = True
        return SI(self.MU)
    def at(self, g, k):
        x = self.x
        sub = Frame(g.fr.fn, g.fr.glob, {}, g.fr); ge = g.e.generators[0]
        g.it.assign(ge.target, g.elem(k), sub)
        for c in ge.ifs:
            t = g.it.truth(g.it.ev(c, sub))
            if not (t if isinstance(t, bool) else x.branch(t)): return False, None
        return True, g.it.ev(g.e.elt, sub)
    # loops
    def loop_spec(self, s, fr):
        if not isinstance(s, ast.For): return None
        calls = {m.func.attr for m in ast.walk(s) if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute)}
        if "packBlockette" in calls: return Packing(self, s)
        if any(isinstance(m, (ast.Break, ast.Return)) for m in ast.walk(s)): return Search(self, s)
        return Adding(self, s)
    def final(self, k, n):
        """byte q of the k-th blockette written, by order"""
    def stays(self, what):
        x = self.x
        x.prove(z3.BoolVal(self.h.a == self.hwas), f"{what}: the header stays as it is")
        x.prove(z3.BoolVal(set(self.rec.a) == set(self.rwas) and all(self.rec.a[k] is v for k, v in self.rwas.items())), f"{what}: the record keeps header, samples, payload and its list of blockettes")
        self.blockettes(f"{what}: the blockettes of the record, with a blockette 1000 in front if there is none")
    def blockettes(self, name):
        x, L = self.x, self.list
        x.prove(nterm(L.seq.n) == self.n, name)
        i = x.fint("i"); pcm = len(x.pc)
        if x.branch(x.fbool("any entry")):
            x.assume(z3.And(i >= 0, i < self.n))
            if not x.feasible(z3.BoolVal(True)): raise PathEnd()
            v = L.seq.get(i)
            x.prove(v.id == self.id(i) if isinstance(v, PartB) else z3.BoolVal(False), name)
            raise PathEnd()
        del x.pc[pcm:]
    def nextbytes(self, k):
        nx = z3.If(nterm(k) < self.n - 1, self.OF(k + 1), z3.IntVal(0))
        return bytes_int(nx, 2, self.order)
    def blockette_byte(self, k, q):
        nb = self.nextbytes(k)
        return z3.If(q == 2, nb[0], z3.If(q == 3, nb[1], self.BY(self.id(k), q)))

class Search(LoopSpec):
    """is there a blockette 1000?"""
    must_exit = must_enter = False
    def __init__(self, W, s): self.W, self.s = W, s
    def begin(self, it, fr, n):
        self.W.x.prove(nterm(n) == self.W.nb, "record: a blockette 1000 is looked for among all blockettes")
        self.was = {k: v for k, v in fr.locals.items() if k in it.assigned(self.s)}
    def entry(self, it, fr, k): pass
    def havoc(self, it, fr, k):
        W = self.W
        if W.has: W.x.assume(k <= W.w)
        for n, v in self.was.items(): fr.setl(n, v)
        self.k = k
    def check(self, it, fr, k):
        W = self.W
        for n, v in self.was.items():
            if fr.locals[n] is not v: W.x.prove(z3.BoolVal(False), "record: goes on looking only without a blockette 1000")
        W.x.prove(W.NUM(self.k) != 1000, "record: goes on looking only without a blockette 1000")

class Adding(LoopSpec):
    """microseconds of the blockettes so far"""
    def __init__(self, W, s): self.W, self.s = W, s
    def begin(self, it, fr, n):
        self.W.x.prove(nterm(n) == self.W.nb, "record: microseconds of every blockette")
        self.names = [k for k, v in fr.locals.items() if k in it.assigned(self.s) and is_pyint(v)]
    def entry(self, it, fr, k): self.state(fr, z3.IntVal(0))
    def state(self, fr, k):
        for n in self.names: self.W.x.prove(nterm(as_int(fr.locals[n])) == self.W.PS(k), "record: the microseconds of blockettes 1001 are added up")
    def havoc(self, it, fr, k):
        W = self.W; k = nterm(k)
        for n in self.names: fr.setl(n, SI(W.PS(k)))
        W.x.assume(W.PS(k + 1) == W.PS(k) + z3.If(W.NUM(k) == 1001, W.US(k), 0))
    def check(self, it, fr, k): self.state(fr, nterm(k))

class Packing(LoopSpec):
    """k blockettes have been written, one after another"""
    def __init__(self, W, s): self.W, self.s = W, s
    def begin(self, it, fr, n):
        W, x = self.W, self.W.x
        x.prove(nterm(n) == W.n, "record: every blockette is written")
        x.prove(z3.BoolVal(not W.mainloop), "record: blockettes are written once"); W.mainloop = True
        bufs = {id(v): v for v in fr.locals.values() if isinstance(v, BA) and v.mutable and (W.buf is None or v is W.buf)}
        if W.buf is None:
            if len(bufs) != 1: raise Unsupported("one buffer")
            W.buf = list(bufs.values())[0]
        W.blockettes("record: all blockettes are written, with a blockette 1000 in front if there is none")
        self.ints = [k for k, v in fr.locals.items() if k in it.assigned(self.s) and is_pyint(v) and not isinstance(v, (bool, SBool)) and x.decide(nterm(as_int(v)) == 48)]
        W.head = W.buf.seq; W.len0 = nterm(W.head.n)
        x.prove(W.len0 == z3.If(W.RL < 48, 48, W.RL), "record: the buffer is of the record length")
        x.prove(z3.Implies(W.zs >= 48, z3.Or(W.zs >= W.len0, W.head.get(W.zs) == 0)), "record: nothing behind the header yet")
        x.assume(W.zs >= 48)
    def entry(self, it, fr, k): self.state(fr, z3.IntVal(0))
    def state(self, fr, k):
        W, x, s = self.W, self.W.x, self.W.buf.seq
        for n in self.ints: x.prove(nterm(as_int(fr.locals[n])) == W.OF(k), "record: offset behind the blockettes written")
        x.prove(nterm(s.n) == z3.If(W.OF(k) > W.len0, W.OF(k), W.len0), "record: the buffer gets longer only for what does not fit")
        x.prove(W.OF(k) >= 48, "record: blockettes are behind the header")
        x.prove(z3.Implies(W.is_ < k, W.OF(W.is_ + 1) <= W.OF(k)), "record: blockettes are one after another")
        x.prove(z3.Implies(W.is_ < k, W.OF(W.is_) >= 48), "record: blockettes are behind the header")
        x.prove(s.get(W.hs) == W.head.get(W.hs), "record: blockettes leave the header as it is")
        nm = "record: each blockette is written, with the offset of the next one"
        got = s.get(simp(W.OF(W.is_) + W.qs))
        if x.decide(W.is_ == k - 1) is True:
            q = next((q for q in (2, 3) if x.decide(W.qs == q) is True), None)
            if q is not None:
                nx = W.OF(W.is_ + 1) if x.decide(W.is_ < W.n - 1) is True else z3.IntVal(0)
                same(x, got, bytes_int(nx, 2, W.order)[q - 2], nm)
            else: x.prove(got == W.BY(W.id(W.is_), W.qs), nm)
        else: x.prove(z3.Implies(W.is_ < k, got == W.blockette_byte(W.is_, W.qs)), nm)
        x.prove(z3.Implies(z3.And(W.zs >= W.OF(k), W.zs < nterm(s.n)), s.get(W.zs) == 0), "record: nothing behind the blockettes")
    def havoc(self, it, fr, k):
        W, x = self.W, self.W.x; k = nterm(k)
        self.k = k; W.step(k)
        A = z3.Function(f"buffer!{next(x.counter)}", I, B8)
        # the invariant holds for every position of the header and every position behind
        def get(i):
            j = nterm(i)
            if x.decide(j < 48) is True: return W.head.get(i)
            if x.decide(j >= W.OF(k)) is True: return z3.BitVecVal(0, 8)
            v = z3.If(j >= W.OF(k), z3.BitVecVal(0, 8), A(j))
            return v if x.decide(j >= 48) is True else z3.If(j < 48, W.head.get(i), v)
        W.buf.seq = s = Seq(simp(z3.If(W.OF(k) > W.len0, W.OF(k), W.len0)), get)
        for n in self.ints: fr.setl(n, SI(W.OF(k)))
        x.assume(z3.And(W.OF(k) >= 48, z3.Implies(W.is_ < k, z3.And(W.OF(W.is_ + 1) <= W.OF(k), W.OF(W.is_) >= 48))))
        x.assume(z3.Implies(W.is_ < k, s.get(simp(W.OF(W.is_) + W.qs)) == W.blockette_byte(W.is_, W.qs)))
        W.at_k = k
    def check(self, it, fr, k):
        W, x = self.W, self.W.x
        # the blockette written now, byte by byte of the offset of the next one
        if x.branch(W.is_ == self.k):
            for q in (2, 3):
                if x.branch(W.qs == q): break
            if x.decide(self.k < W.n - 1) is None: x.branch(self.k < W.n - 1)
        self.state(fr, nterm(k))
    def exit(self, it, fr, k): self.W.at_k = None
    def frame_ok(self, it, fr, o, name): return o is self.W.buf

def write_unit(order, has):
    @unit(f"miniseed.MiniseedRecord.pack, {'big' if order == '>' else 'little'} endian, {'with' if has else 'without'} blockette 1000", "C18", weight=5,
          assume=["the record length is a power of two", "the number of a blockette read or made by the library matches its class", "sum() of a generator adds up its values"])
    def u(x, it):
        def go():
            x.fork_ifs = True
            it.float_round = ieee(x)
            W = Write(x, it, order, has)
            W.at_k = None
            o = attempt(it, MiniseedRecord.pack, W.rec)
            what = f"record pack {order}"
            if not o.ok:
                c = o.v.cls
                if W.why: x.cover(f"record refused: {W.why}")
                x.prove(z3.BoolVal(c in (MiniseedException, miniseed.CodecException, struct.error, OverflowError, ValueError)), f"{what}: refuses with an exception of the library, of struct or a value")
                if W.why in ("the header does not fit", "a blockette does not fit", "the samples cannot be encoded"): return
                us = nterm(W.dt.us) - W.MU
                total = z3.IntVal(48) if W.at_k is None else W.OF(W.at_k + 1)
                x.prove(z3.Or(total > W.RL, total > 65535, W.n > 255, us < 0, us >= MAXUS, W.DO() > 65535 if W.at_k is None and W.mainloop else False, W.DO() + W.PL > W.RL if W.at_k is None and W.mainloop else False),
                        f"{what}: refuses only what does not fit")
                return
            x.cover(f"record written, {'payload' if W.raw else 'samples'}, {'steim' if W.steim else 'other encoding'}, blockette 1000 {'there' if W.has else 'added'}")
            W.stays(what)
            b = o.v
            ok = isinstance(b, BA) and b is W.buf
            x.prove(z3.BoolVal(ok and W.mainloop), f"{what}: gives the bytes written")
            if not ok: return
            n, s = W.n, b.seq
            x.prove(nterm(s.n) == W.RL, f"{what}: exactly the record length")
            x.prove(z3.And(n >= 1, n <= 255), f"{what}: the number of blockettes fits its byte")
            x.prove(s.get(39) == z3.Int2BV(n, 8), f"{what}: number of blockettes at byte 39")
            o48 = bytes_int(z3.IntVal(48), 2, order)
            for i in (0, 1): x.prove(s.get(46 + i) == o48[i], f"{what}: blockettes start at byte 48")
            D = W.DO()
            x.prove(z3.And(D >= W.OF(n), D + W.PL <= W.RL, D <= 65535), f"{what}: data is behind the blockettes and within the record")
            if W.steim: x.prove(z3.And(D % 64 == 0, D < W.OF(n) + 64), f"{what}: steim frames start at a multiple of 64 bytes")
            else: x.prove(D == W.OF(n), f"{what}: data is right behind the blockettes")
            bs = bytes_int(D, 2, order)
            for i in (0, 1): same(x, s.get(44 + i), bs[i], f"{what}: data offset at byte 44")
            us = nterm(W.dt.us) - W.MU
            for i in range(20, 30): x.prove(s.get(i) == TBYTE(us, i), f"{what}: start without the microseconds of blockettes 1001 at byte {i}")
            for i in range(44):
                if i != 39 and not 20 <= i < 30: x.prove(s.get(i) == W.HB(i), f"{what}: the header at byte {i}")
            x.prove(s.get(simp(W.OF(W.is_) + W.qs)) == W.blockette_byte(W.is_, W.qs), f"{what}: each blockette, with the offset of the next one")
            x.forall(0, W.PL, lambda j: s.get(simp(D + j)) == W.payload.get(j), f"{what}: the payload at the data offset")
            x.prove(z3.Implies(z3.And(W.zs >= W.OF(n), W.zs < W.RL, z3.Or(W.zs < D, W.zs >= D + W.PL)), s.get(W.zs) == 0), f"{what}: the rest is 0")
        return go
def _DO(W):
    """data offset: behind the blockettes, for steim at the next multiple of 64"""
    o = W.OF(W.n)
    return simp((o + 63) / 64 * 64) if W.steim else o
Write.DO = _DO
for _o in "><":
    for _h in (True, False): write_unit(_o, _h)

# ---------------------------------------------------------------- samples
@unit("miniseed.MiniseedRecord.packData", "C18")
def u_packdata(x, it):
    def go():
        x.fork_ifs = True
        order = "><"[x.choose(2)]
        n = sym_int(x, "length", 0).t
        b = sym_bytes(x, "record", n, True); old = b.seq
        off = sym_int(x, "offset", 0).t
        enc = sym_int(x, "encoding")
        h = Obj(MiniseedHeader, byteorder=CODE[order], encoding=enc, other=1)
        rec = Obj(MiniseedRecord, header=h, blockettes=PList(CSeq([]))); was, rwas = dict(h.a), dict(rec.a)
        kind = x.choose(3)
        m = sym_int(x, "samples", 0).t
        A = z3.Function(f"sample!{next(x.counter)}", I, z3.BitVecSort(32))
        data = None if kind == 0 else NArr(np.dtype("int32"), Seq(m, lambda i: A(nterm(i)))) if kind == 1 else AArr("i", 4, Seq(m, lambda i: A(nterm(i))))
        calls = []
        el = x.fint("encoded length"); x.assume(el >= 0); x.vars["encoded length"] = el
        E = z3.Function(f"encoded!{next(x.counter)}", I, B8)
        def encode(it, f, args, kw):
            a = dict(zip(("data", "encoding", "littleEndian"), args)); a.update(kw); calls.append(a)
            le = a.get("littleEndian", True)
            if not isinstance(le, bool): le = x.branch(bterm(le))
            x.prove(z3.BoolVal(a["data"] is data and a.get("encoding") is enc and le == (order == "<")), "packData: samples are encoded as the header says, in its byte order")
            if not x.branch(x.fbool("encodable")): calls[-1] = None; it.exc((miniseed.CodecException, struct.error)[x.choose(2)], "samples")
            return Obj(seedcodec.EncodedDataSegment, dataBytes=BA(Seq(el, lambda i: E(nterm(i))), False), compressionType=enc, numSamples=SI(m), littleEndian=le)
        it.contracts["seedcodec.encode"] = encode
        o = attempt(it, MiniseedRecord.packData, rec, b, SI(off), data)
        what = f"packData {order}"
        x.prove(z3.BoolVal(h.a == was and rec.a == rwas), f"{what}: record and header stay as they are")
        none = x.branch(m == 0) if kind else True
        size = z3.IntVal(0) if none else el
        x.prove(z3.BoolVal(none or len(calls) == 1), f"{what}: samples are encoded")
        if not o.ok:
            if calls and calls[0] is None: x.cover(f"{what}: samples that cannot be encoded"); return
            x.cover(f"{what}: no room")
            x.prove(z3.And(off + size > n, z3.BoolVal(o.v.cls is MiniseedException)), f"{what}: refuses only samples that do not fit"); return
        x.cover(f"{what}: written")
        x.prove(z3.BoolVal(not calls or calls[0] is not None), f"{what}: samples that cannot be encoded are refused")
        x.prove(off + size <= n, f"{what}: samples that do not fit are refused")
        x.prove(nterm(b.seq.n) == n, f"{what}: the length stays")
        x.forall(0, size, lambda i: b.seq.get(simp(off + i)) == E(i), f"{what}: the encoded samples at the offset")
        rest_stays(x, b.seq, old, [(off, size)], n, what)
    return go

# ---------------------------------------------------------------- construction
import sys, array as _array
import numpy as np
import data3
from data3 import LISTS, NPTYPES, NUMPY, WIDEN, ENC, BYTYPE, exact, plain, fn, dtk
from simplemseed.seedcodec import EncodedDataSegment
from simplemseed.exceptions import UnsupportedCompressionType
NATIVE = LITTLE_ENDIAN if sys.byteorder == "little" else BIG_ENDIAN

class Made2:
    """a header with any encoding, count (among them unset) and byte order, and what is kept of it"""
    def __init__(self, x, it):
        self.x, self.it = x, it
        self.unset = x.choose(2)
        a = {k: Opaque(object, k) for k in ("network", "starttime", "sampleRate", "timeCorr")}
        a["encoding"] = -1 if self.unset else sym_int(x, "encoding", -1)
        a["numSamples"] = sym_int(x, "numSamples", 0)
        a["byteorder"] = (BIG_ENDIAN, LITTLE_ENDIAN)[x.choose(2)]
        self.h = Obj(MiniseedHeader, **a); self.before = dict(a)
        self.enc0, self.n0, self.order0 = nterm(as_int(a["encoding"])), a["numSamples"].t, a["byteorder"]
        self.bl = (None, PList(CSeq([])), PList(CSeq([NT(Blockette100, [100, 0, 0])])))[x.choose(3)]
        self.pay = None
    def make(self, data):
        kw = {} if self.bl is None else {"blockettes": self.bl}
        return attempt(self.it, MiniseedRecord, self.h, data, **kw)
    def agrees(self, enc, n): return z3.And(z3.Or(self.enc0 == -1, self.enc0 == enc), z3.Or(self.n0 == 0, self.n0 == n))
    def made(self, o, enc, n, order, what):
        x, h, r = self.x, self.h, o.v
        x.prove(self.agrees(enc, n), f"{what}: a header that disagrees with the data is refused")
        ok = isinstance(r, Obj) and r.cls is MiniseedRecord and r.get("header") is h
        x.prove(z3.BoolVal(ok), f"{what}: a record of the header given")
        if not ok: raise PathEnd()
        b = r.get("blockettes")
        x.prove(z3.BoolVal(b is self.bl if self.bl is not None else isinstance(b, PList) and b.seq.n == 0), f"{what}: the blockettes given")
        x.prove(nterm(as_int(h.get("encoding"))) == enc, f"{what}: the header has the encoding of the data")
        x.prove(nterm(as_int(h.get("numSamples"))) == n, f"{what}: the header has the number of samples of the data")
        x.prove(eqv(self.it, h.get("byteorder"), order), f"{what}: the header has the byte order of the data")
        x.prove(z3.BoolVal(all(h.a[k] is v for k, v in self.before.items() if k not in ("encoding", "numSamples", "byteorder"))), f"{what}: other header fields stay")
        return r.get("_data"), r.get("encodedDataBytes")
    def refused(self, o, why, what):
        self.x.prove(z3.BoolVal(issubclass(o.v.cls, (MiniseedException, UnsupportedCompressionType, miniseed.CodecException, ValueError, OverflowError))), f"{what}: refuses with an exception of the library or of numpy")
        self.x.prove(why, f"{what}: refuses only data that cannot be stored exactly or a header that disagrees")

def same_seq(x, data, n, want, what):
    if not isinstance(data, (NArr, AArr, BA)): x.prove(z3.BoolVal(False), what); return
    x.prove(nterm(data.seq.n) == nterm(n), what)
    x.forall(0, nterm(n), lambda i: data.seq.get(i) == want(i), what)

def list2(kind):
    def u(x, it):
        x.fork_ifs = True
        def go():
            M = Made2(x, it)
            n = sym_int(x, "length", 0)
            given = LISTS[kind](x)
            data = PList(Seq(n.t, given))
            ask = []
            def stored_exactly(it, f, args, kw):
                a = dict(zip(("data", "stored", "roundFloats"), args)); a.update(kw)
                arr = a["stored"]
                x.prove(z3.BoolVal(a["data"] is data and isinstance(arr, NArr)), "list: what is compared is the list and the array made from it")
                r = a["roundFloats"]
                if not isinstance(r, bool): r = x.branch(bterm(r))
                if not x.branch(x.fbool("exact")):
                    k = x.fint("witness"); x.assume(z3.And(k >= 0, k < n.t))
                    x.assume(z3.Not(exact(it, given(k), libnp.scalar_of(arr.dt, arr.seq.get(k)), r)))
                    if not x.feasible(z3.BoolVal(True)): raise PathEnd()
                    ask.append((arr, r, k)); return False
                ask.append((arr, r, None)); return True
            it.contracts["seedcodec.isStoredExactly"] = stored_exactly
            it.misfits = []
            o = M.make(data)
            what = f"miniSEED2 record from a list of {kind}"
            enc = z3.If(M.enc0 == -1, data3.DEFAULT, M.enc0)
            if not o.ok:
                prim = z3.Or(*[enc == e for e in BYTYPE])
                bad = bool(it.misfits) or any(k is not None and not (r and dtk(arr) != "f") for arr, r, k in ask)
                for d, k in it.misfits: x.prove(enc == ENC[d.type], f"{what}: elements are converted to the type of the encoding")
                for arr, r, k in ask:
                    if k is not None and dtk(arr) == "f" and not r:
                        x.prove(z3.BoolVal(not isinstance(plain(it, given(k)), SF)), f"{what}: a float is not refused for being rounded to the width of the encoding")
                M.refused(o, z3.BoolVal(True) if bad else z3.Or(z3.Not(prim), z3.Not(M.agrees(enc, n.t))), what)
                x.cover(f"{what} refused")
                return
            x.cover(f"{what} made")
            d, raw = M.made(o, enc, n.t, NATIVE, what)
            x.prove(z3.BoolVal(raw is None), f"{what}: no payload yet")
            if not isinstance(d, NArr): x.prove(z3.BoolVal(False), f"{what}: kept as samples"); return
            x.prove(z3.And(z3.BoolVal(d.dt.type in ENC), enc == ENC.get(d.dt.type, 0)), f"{what}: samples are of the type of the encoding")
            x.prove(nterm(d.seq.n) == n.t, f"{what}: as many samples as were given")
            i = x.fint("index"); x.vars["index"] = i
            x.assume(z3.And(i >= 0, i < n.t))
            g = given(i); val = libnp.scalar_of(d.dt, d.seq.get(i))
            for arr, r, k in ask:
                if arr is d: x.assume(exact(it, g, libnp.scalar_of(arr.dt, arr.seq.get(i)), r))
            p = plain(it, g)
            if dtk(d) == "f" and isinstance(p, SF): ok = d.seq.get(i) == libnp.list_elem(d.dt, g)[1]
            else: ok = eqv(it, p, val)
            x.prove(ok, f"{what}: every sample is the one given (a float in a float encoding rounded to its width)")
        return go
    return u
for _k in LISTS: unit(f"miniseed.MiniseedRecord of a list of {_k}", "C18", assume=[NUMPY, WIDEN])(list2(_k))

@unit("miniseed.MiniseedRecord of an array", "C18")
def u_array2(x, it):
    def go():
        x.fork_ifs = True
        M = Made2(x, it)
        n = sym_int(x, "length", 0)
        if x.choose(2):
            dt = np.dtype(NPTYPES[x.choose(len(NPTYPES))])
            what = f"miniSEED2 record from a numpy array of {dt.str}"
            A = fn(x, "given", z3.BitVecSort(8 * dt.itemsize))
            data = NArr(dt, Seq(n.t, lambda i: A(nterm(i))))
            native = {("i", 2): 1, ("i", 4): 3, ("f", 4): 4, ("f", 8): 5}.get((dt.kind, dt.itemsize))
            order = {"<": LITTLE_ENDIAN, ">": BIG_ENDIAN}.get(dt.byteorder, NATIVE)
        else:
            tc = "bBhHiIlLqQfd"[x.choose(12)]; sz = _array.array(tc).itemsize
            what = f"miniSEED2 record from an array {tc}"
            A = fn(x, "given", z3.BitVecSort(8 * sz))
            data = AArr(tc, sz, Seq(n.t, lambda i: A(nterm(i))))
            native = {("h", 2): 1, ("i", 4): 3, ("l", 4): 3, ("f", 4): 4, ("d", 8): 5}.get((tc, sz)); order = NATIVE
        o = M.make(data)
        if not o.ok:
            x.cover(f"{what} refused")
            M.refused(o, z3.BoolVal(True) if native is None else z3.Not(M.agrees(native, n.t)), what); return
        x.prove(z3.BoolVal(native is not None), f"{what}: a type that cannot be stored is refused")
        if native is None: return
        x.cover(f"{what} made")
        d, raw = M.made(o, native, n.t, order, what)
        x.prove(z3.BoolVal(raw is None), f"{what}: no payload yet")
        if isinstance(d, (NArr, AArr)):
            t = d.dt if isinstance(d, NArr) else libnp.aa_dtype(d)
            x.prove(z3.BoolVal(t.type is BYTYPE[native]), f"{what}: samples are of the type of the encoding")
        same_seq(x, d, n.t, A, f"{what}: every sample is the one given")
    return go

@unit("miniseed.MiniseedRecord of bytes, an encoded segment, nothing or anything else", "C18")
def u_other2(x, it):
    def go():
        x.fork_ifs = True
        M = Made2(x, it)
        k = x.choose(7)
        if k == 0:
            what = "miniSEED2 record without data"
            o = M.make(None); x.cover("nothing")
            x.prove(z3.BoolVal(o.ok), f"{what}: made")
            if not o.ok: return
            d, raw = M.made(o, M.enc0, M.n0, M.order0, what)
            x.prove(z3.BoolVal(d is None and raw is None), f"{what}: has none")
        elif k < 3:
            what = "miniSEED2 record from bytes"
            b = sym_bytes(x, "payload", sym_int(x, "payload length", 0).t, mutable=k == 2)
            o = M.make(b); x.cover("bytes")
            x.prove(z3.BoolVal(o.ok), f"{what}: made as the header says")
            if not o.ok: return
            d, raw = M.made(o, M.enc0, M.n0, M.order0, what)
            x.prove(z3.BoolVal(d is None), f"{what}: no samples yet")
            same_seq(x, raw, b.seq.n, b.seq.get, f"{what}: the payload is the bytes given")
        elif k < 5:
            what = "miniSEED2 record from an encoded segment"
            b = sym_bytes(x, "payload", sym_int(x, "payload length", 0).t, mutable=bool(x.choose(2)))
            enc, n = sym_int(x, "segment encoding", 0), sym_int(x, "segment samples", 0)
            little = k == 3
            seg = it.call(EncodedDataSegment, [enc, b, n, little])
            o = M.make(seg)
            x.prove(z3.BoolVal(seg.get("dataBytes") is b and seg.get("compressionType") is enc and seg.get("numSamples") is n), f"{what}: the segment stays as it is")
            if not o.ok: x.cover("segment refused"); M.refused(o, z3.Not(M.agrees(enc.t, n.t)), what); return
            x.cover("segment")
            d, raw = M.made(o, enc.t, n.t, LITTLE_ENDIAN if little else BIG_ENDIAN, what)
            x.prove(z3.BoolVal(d is None), f"{what}: no samples yet")
            same_seq(x, raw, b.seq.n, b.seq.get, f"{what}: the payload is that of the segment")
        else:
            data = (sym_str(x, "text"), PDict(), 5, (1, 2), {1, 2}, 2.5, True)[x.choose(7)] if k == 5 else Opaque(memoryview)
            o = M.make(data)
            x.prove(z3.BoolVal(not o.ok and o.v.cls is MiniseedException), "miniSEED2 record from anything else: refused with MiniseedException")
            x.cover("anything else")
    return go

# ---------------------------------------------------------------- what a record says of itself
@unit("miniseed.MiniseedRecord times, codes, identifier and clone", "C18")
def u_self(x, it):
    def go():
        x.fork_ifs = True
        from simplemseed.fdsnsourceid import FDSNSourceId
        it.float_round = ieee(x)
        dt = sym_dt(x, "start", utc=True); rate = Opaque(float, "rate")
        h = Obj(MiniseedHeader, starttime=dt, numSamples=sym_int(x, "numSamples", 0), sampleRate=rate)
        rec = Obj(MiniseedRecord, header=h, blockettes=PList(CSeq([]))); was, rwas = dict(h.a), dict(rec.a)
        k = x.choose(5)
        if k == 0:
            o = attempt(it, MiniseedRecord.starttime, rec)
            x.prove(z3.BoolVal(o.ok and o.v is dt), "record: starts when its header says")
        elif k == 1:
            sid = Obj(FDSNSourceId, label=1); it.contracts["miniseed.MiniseedHeader.fdsnSourceId"] = lambda it, f, a, kw: sid if a[0] is h else None
            o = attempt(it, lambda: None) if False else None
            v = it.getattr(rec, "identifier")
            x.prove(z3.BoolVal(v is sid), "record: the identifier is that of its header")
        elif k == 2:
            t = libstr.fresh_str("codes"); sep = sym_str(x, "sep"); got = []
            def codes(it, f, a, kw): got.append((a, kw)); return t
            it.contracts["miniseed.MiniseedHeader.codes"] = codes
            o = attempt(it, MiniseedRecord.codes, rec, sep)
            x.prove(z3.BoolVal(o.ok and o.v is t and len(got) == 1 and got[0][0][0] is h and (got[0][1].get("sep") is sep or len(got[0][0]) > 1 and got[0][0][1] is sep)), "record: the codes are those of its header")
        elif k == 3:
            packed = BA(CSeq([]), True); made = Opaque(MiniseedRecord, "copy")
            it.contracts["miniseed.MiniseedRecord.pack"] = lambda it, f, a, kw: packed if a[0] is rec else None
            it.contracts["miniseed.unpackMiniseedRecord"] = lambda it, f, a, kw: made if a[0] is packed else None
            o = attempt(it, MiniseedRecord.clone, rec)
            x.prove(z3.BoolVal(o.ok and o.v is made), "record: a copy is what is read from its bytes")
        else:
            asked = []
            it.contracts["miniseed.MiniseedRecord._sampleTime"] = lambda it, f, a, kw: asked.append(a) or dt
            end = x.choose(2)
            o = attempt(it, MiniseedRecord.endtime if end else MiniseedRecord.next_starttime, rec)
            n = h.get("numSamples").t
            x.prove(z3.BoolVal(o.ok and o.v is dt and len(asked) == 1 and asked[0][0] is rec), "record: end and next start are times of samples")
            if len(asked) == 1: x.prove(nterm(as_int(asked[0][1])) == (n - 1 if end else n), "record: the end is the time of the last sample, the next start one after that")
        x.prove(z3.BoolVal(h.a == was and rec.a == rwas), "record: nothing changes")
    return go

@unit("miniseed.MiniseedRecord._sampleTime", "C18", assume=[ROUNDING])
def u_sampletime(x, it):
    def go():
        x.fork_ifs = True
        it.float_round = ieee(x)
        us = sym_int(x, "start", 0).t; x.assume(us < MAXUS)
        start = DT(us, 0, timezone.utc)
        i = sym_int(x, "index", -1, 65536); I_ = z3.ToReal(i.t)
        zero = x.choose(2)
        r = None if zero else x.fresh("rate", z3.RealSort())
        rate = 0 if zero else SF(r)
        if not zero: x.assume(z3.Or(r >= z3.Q(1, 10**9), r <= -z3.Q(1, 10**9))); x.vars["rate"] = r
        h = Obj(MiniseedHeader, starttime=start, sampleRate=rate, numSamples=sym_int(x, "numSamples", 0)); rec = Obj(MiniseedRecord, header=h, blockettes=PList(CSeq([])))
        secs = []
        def delta(it, args, kw):
            if set(kw) != {"seconds"} or args: raise Unsupported("timedelta")
            secs.append(kw["seconds"])
            d = x.fint("elapsed"); return TD(d)
        lib.MODELS[id(timedelta)], old = (timedelta, delta), lib.MODELS[id(timedelta)]
        try: o = attempt(it, MiniseedRecord._sampleTime, rec, i)
        finally: lib.MODELS[id(timedelta)] = old
        if zero: x.prove(z3.BoolVal(o.ok and o.v is start), "sample time: without a rate that of the start"); return
        if not o.ok: x.prove(z3.BoolVal(o.v.cls is OverflowError), "sample time: only a time out of range is refused"); return
        x.cover("sample time")
        x.prove(z3.BoolVal(len(secs) == 1 and isinstance(o.v, DT)), "sample time: start and seconds to the sample")
        if len(secs) != 1: return
        s = lib.real_of(secs[0])
        x.prove(s == libdt.RND(z3.simplify(I_ / r)), "sample time: the seconds are index over rate, correctly rounded")
    return go
