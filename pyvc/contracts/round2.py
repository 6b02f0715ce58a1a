"""miniSEED2: what is written reads back, and is written again to the same bytes.

The contracts of writing (write2) and of reading (header2, stream2) are put together here: headers and blockettes by
running the real code of both one after the other, the rest by lemmas over what the contracts ensure."""
from vc import *
import z3
import libdt, libstr
from libio import *
from libdt import ieee, ROUNDING, days_before, MAXUS, US_S, US_M, US_H, US_D
from simplemseed import miniseed
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, MiniseedException, BTime, Blockette100, Blockette1000, Blockette1001, BlocketteUnknown
from header2 import FIELDS, KINDS, PARAMS, DEFAULTS, STRIP, btime_us, btime_good
from write2 import Head, NUMS, WIDTHS, RANGE, CODE, PAD, SEQ6, TEXT, text_hooks, ints_of, SomeB, B_LAYOUT, bytes_int
from stream2 import WELL

STRIPPED = "codes and quality have no blanks around them"

class Read:
    """header attributes as unpackMiniseedHeader hands them to the constructor"""
    def __init__(self, x, it, H):
        self.x, self.got = x, []
        padded = {k: (WIDTHS[k][0], t) for k, t in H.padded.items()}
        def decode(it, o, args, kw):
            s = o.seq
            for k, (off, t) in padded.items():
                w = WIDTHS[k][1]
                known = lambda q: z3.simplify(z3.substitute(q, (ULEN(t), z3.IntVal(w))))    # the header was packed, so it has that length
                if isinstance(s, CSeq) and s.n == w and all(known(s.get(i)).eq(z3.simplify(UBYTE(t, i))) for i in range(w)):
                    x.prove(ULEN(t) == w, f"header written and read: {k} has {w} bytes")
                    return SS(t)
            raise Unsupported("text that was not written")
        it.decode_hook = decode
        def init(it, f, args, kw):
            a = dict(DEFAULTS); a.update(zip(PARAMS, args[1:])); a.update(kw); self.got.append(a)
        it.contracts["miniseed.MiniseedHeader.__init__"] = init

def int_law(v, q, w, sg):
    """bits v of w bytes made of the whole number q, which fits them, are read as q"""
    lo, hi = RANGE[(w, sg)]
    return z3.Implies(z3.And(q >= lo, q <= hi), z3.BV2Int(v, sg) == q)

@unit("whole number: made bits and read", "C18")
def u_int(x, it):
    def go():
        w, sg = list(RANGE)[x.choose(len(RANGE))]
        q = x.fint("number")
        x.prove(int_law(z3.Int2BV(q, 8 * w), q, w, sg), f"{w} bytes{', signed' if sg else ''}: read as written")
        x.cover(f"{w} bytes {sg}")
    return go

def read_num(x, got, w, sg, want, name):
    """the number read is the one written: its bits are those made of it"""
    got = z3.simplify(got)
    for g in ints_of(got):
        if g.size() == 8 * w:
            v = x.fresh("bits", z3.BitVecSort(8 * w))
            x.assume(int_law(v, g.arg(0), w, sg))
            lo, hi = RANGE[(w, sg)]
            if x.decide(z3.And(g.arg(0) >= lo, g.arg(0) <= hi)):
                got = z3.simplify(z3.substitute(got, (g, v)))
                got = z3.substitute(got, (z3.BV2Int(v, sg), g.arg(0)))
    x.prove(got == want, name)

@unit("miniSEED2 header: written and read", "C18", assume=[TEXT, UTF8, STRIPPED, "sequence numbers are not negative"], weight=2)
def u_header(x, it):
    def go():
        x.fork_ifs = True
        it.float_round = ieee(x)
        text_hooks(x, it)
        order = "><"[x.choose(2)]
        H = Head(x, it, order, fits=True)
        for k, t in H.text.items(): x.assume(STRIP(t.t) == t.t)
        o = attempt(it, MiniseedHeader.pack, H.h)
        if not o.ok: return
        R = Read(x, it, H)
        items = list(o.v.seq.items)
        # the record puts in the number of blockettes and the offsets
        new = {i: x.fbv(8, f"byte{i}") for i in (39, 44, 45, 46, 47)}
        for i, t in new.items(): items[i] = t
        r = attempt(it, miniseed.unpackMiniseedHeader, BA(CSeq(items), False), order)
        what = f"header written and read {order}"
        x.prove(z3.BoolVal(r.ok and len(R.got) == 1), f"{what}: is read")
        if not r.ok or len(R.got) != 1: return
        x.cover(what)
        a = R.got[0]
        for k in WIDTHS:
            if k == "sequence_number": x.prove(nterm(as_int(a[k])) == H.f(k), f"{what}: {k}")
            else: x.prove(libstr.sterm(a[k]) == H.text[k].t, f"{what}: {k}")
        for k, off, w, sg in NUMS:
            if k == "numBlockettes": continue
            read_num(x, nterm(as_int(a[k])), w, sg, H.num(k), f"{what}: {k}")
        st = a["starttime"]
        if not isinstance(st, NT): x.prove(z3.BoolVal(False), f"{what}: time"); return
        f = H.dt.fields()
        g = {k: nterm(as_int(st.get(k))) for k in BTime._fields}
        for k, off, w, sg in FIELDS:
            if k in BTime._fields: read_num(x, g[k], w, sg, H.dt.tenth if k == "tenthMilli" else nterm(f[k]), f"{what}: {k}")
    return go

@unit("miniSEED2 start time: written and read", "C18")
def u_time(x, it):
    def go():
        from write2 import start_time
        dt = start_time(x); f = dt.fields()
        g = {k: nterm(f[k]) for k in BTime._fields if k != "tenthMilli"}; g["tenthMilli"] = dt.tenth
        us = nterm(dt.us)
        x.prove(btime_good(g), "time fields written: accepted by the constructor")
        x.prove(btime_us(g) == us - dt.rest, "time fields written: the instant cut to 100 microseconds")
        x.prove(us - dt.rest == us / 100 * 100, "time fields written: the instant cut to 100 microseconds")
        # with microseconds MU in blockettes 1001: taken off before, added after
        S, MU = x.fint("start"), x.fint("MU"); x.vars.update(start=S, MU=MU)
        cut = lambda t: t / 100 * 100
        back = cut(S - MU) + MU
        x.prove(z3.And(back <= S, S - back < 100), "start written and read: to 100 microseconds")
        x.prove(cut(back - MU) + MU == back, "start written and read: stays when written again")
        x.prove(z3.Implies((S - MU) % 100 == 0, back == S), "start written and read: the same with blockette 1001 for the microseconds below 100")
        x.cover("time")
    return go

@unit("miniSEED2 sample rate: written and read", "C18")
def u_rate(x, it):
    """what calcSeedMultipilerFactor ensures makes the rate read that of the header to 32 parts in a million"""
    def go():
        r = x.fresh("rate", z3.RealSort()); F, M = x.fresh("factor", z3.RealSort()), x.fresh("multiplier", z3.RealSort())
        e = x.fresh("read", z3.RealSort()); x.vars.update(rate=r, factor=F, multiplier=M, read=e)
        EPS = z3.RealVal(1) / 2**30
        tol = z3.Q(32, 10**6)
        if x.choose(2):
            # contract of calcSeedMultipilerFactor, and of the constructor (factor over minus multiplier)
            x.assume(z3.And(r >= 1, F >= 16382, M < 0))
            d = F + r * M
            x.assume(z3.And(d <= z3.Q(1, 2) + EPS, d >= -z3.Q(1, 2) - EPS))
            x.assume(e * (-M) == F)
            nm = "rate of at least 1, written and read: to 32 parts in a million"
            # (e - r) * -M is d, and r * -M is at least 16381
            p, q = x.fresh("p", z3.RealSort()), x.fresh("q", z3.RealSort())
            x.assume(z3.And(p == e * (-M), q == r * (-M)))
            x.prove(z3.And(q == F - d, q >= 16381), nm)
            x.prove(z3.And(p - q == d, d <= q * tol, -d <= q * tol), nm)
            x.prove(z3.Implies(z3.And(q >= 16381, p - q <= q * tol, q - p <= q * tol), z3.And((e - r) * (-M) <= r * tol * (-M), (r - e) * (-M) <= r * tol * (-M))), nm)
            a, m = x.fresh("a", z3.RealSort()), x.fresh("m", z3.RealSort())
            x.prove(z3.Implies(z3.And(m > 0, a * m <= 0), a <= 0), "a product by a positive number has its sign")
        else:
            x.assume(z3.And(r > 0, r < 1, F <= -16382, M > 0))
            d = M + r * F
            x.assume(z3.And(d <= r * z3.Q(51, 100), d >= -r * z3.Q(51, 100)))
            x.assume(e * (-F) == M)
            nm = "rate below 1, written and read: to 32 parts in a million"
            p, q = x.fresh("p", z3.RealSort()), x.fresh("q", z3.RealSort())
            x.assume(z3.And(p == e * (-F), q == r * (-F)))
            x.prove(z3.And(q >= 16382 * r), nm)
            x.prove(z3.And(p - q == d, d <= q * tol, -d <= q * tol), nm)
        x.cover("rate")
    return go

def read_b(kind, last):
    @unit(f"miniSEED2 blockette {kind or 'unknown'}{', the last' if last else ''}: written and read", "C18")
    def u(x, it):
        def go():
            x.fork_ifs = True
            order = "><"[x.choose(2)]
            B = SomeB(x, kind)
            h = B.header(order)
            rec = Obj(MiniseedRecord, header=h, blockettes=PList(CSeq([])), encodedDataBytes=None, _data=None)
            n = sym_int(x, "length", 48).t
            b = BA(Seq(n, lambda i: z3.BitVecVal(0, 8)), True)
            off = sym_int(x, "offset", 48).t
            o = attempt(it, MiniseedRecord.packBlockette, rec, b, SI(off), B.b)
            if not o.ok: return
            end = nterm(as_int(o.v))
            x.assume(end <= 65535)
            # the record puts in the offset of the next one
            nx = z3.IntVal(0) if last else end
            nb = bytes_int(nx, 2, order)
            b.seq = seq_assign(b.seq, simp(off + 2), simp(off + 4), CSeq(nb))
            # what the reader hands over: the bytes up to the next one, or to the data
            pad = x.fint("padding"); x.assume(pad >= 0)
            if not last: x.assume(pad == 0)
            size = simp(nterm(B.size) + pad)
            x.assume(nterm(b.seq.n) >= off + size)
            raw = BA(seq_slice(b.seq, off, simp(off + size)), False)
            r = attempt(it, miniseed.unpackBlockette, raw, 0, order, SI(size))
            what = f"blockette {kind or 'unknown'} written and read {order}"
            x.cover(what)
            ok = r.ok and isinstance(r.v, NT)
            if kind is None:
                for k in KINDS:
                    if x.branch(nterm(as_int(B.num)) == k): raise PathEnd()      # its class says it is none of these
            else: x.assume(nterm(as_int(B.num)) == kind)
            if not x.feasible(z3.BoolVal(True)): raise PathEnd()
            x.prove(z3.BoolVal(ok and r.v.cls is (KINDS[kind][0] if kind else BlocketteUnknown)), f"{what}: of the same kind")
            if not ok or r.v.cls is not (KINDS[kind][0] if kind else BlocketteUnknown): return
            v = r.v
            x.prove(nterm(as_int(v.get("blocketteNum"))) == nterm(as_int(B.num)), f"{what}: number")
            x.prove(nterm(as_int(v.get("nextOffset"))) == nx, f"{what}: offset of the next")
            if kind == 100:
                # the rate as a single, which it stays
                want = lib.f32to64(lib.F64TO32(lib.float_bits(B.rate)) if isinstance(B.rate, SF) else z3.BitVecVal(0, 32))
                x.prove(lib.float_bits(v.get("sampleRate")) == want, f"{what}: sample rate, as single")
                x.prove(lib.F64TO32(lib.float_bits(v.get("sampleRate"))) == (lib.F64TO32(lib.float_bits(B.rate)) if isinstance(B.rate, SF) else z3.BitVecVal(0, 32)), f"{what}: sample rate, written again the same")
            if kind == 1000:
                for k, q in (("encoding", "encoding"), ("recLength", "recordLengthExp")): x.prove(nterm(as_int(v.get(k))) == nterm(as_int(h.get(q))), f"{what}: {k} is that of the header")
                x.prove(nterm(as_int(v.get("byteorder"))) == CODE[order], f"{what}: byte order is that of the header")
            if kind == 1001:
                for k in ("timeQuality", "microseconds", "frameCount"): x.prove(nterm(as_int(v.get(k))) == nterm(as_int(B.f[k])), f"{what}: {k}")
            if kind is None:
                w = v.get("rawBytes")
                if not isinstance(w, BA): x.prove(z3.BoolVal(False), f"{what}: its bytes"); return
                x.prove(nterm(w.seq.n) == size, f"{what}: its bytes, and padding only before the data")
                i = x.fint("i"); x.assume(z3.And(i >= 4, i < nterm(B.n)))
                x.prove(w.seq.get(i) == B.raw.seq.get(i), f"{what}: its bytes")
        return go
for _k in (100, 1000, 1001, None):
    for _l in (0, 1): read_b(_k, _l)

# ---------------------------------------------------------------- the record
WELL_PRE = ("at most one of each blockette 100, 1000 and 1001, the record length is two to the power in the header, a blockette 100 carries the rate of the header, "
            "and the start is in the years 1900 to 2050, at least 256 microseconds after their begin")
I = z3.IntSort(); B8 = z3.BitVecSort(8)
class Written:
    """a record as MiniseedRecord.pack leaves it (what the contract in write2 ensures), by any number of blockettes of any sizes"""
    def __init__(self, x, tag="", n=None, SIZE=None, KIND=None, HB=None, TB=None, BY=None, RL=None, steim=None, PL=None, P=None, pre=True):
        self.x = x
        g = lambda k, *s: z3.Function(f"{k}{tag}!{next(x.counter)}", *s)
        self.n = x.fint("blockettes" + tag) if n is None else n
        self.SIZE = g("size", I, I) if SIZE is None else SIZE; self.KIND = g("number", I, I) if KIND is None else KIND; self.OF = g("offset", I, I)
        self.HB = g("header_byte", I, B8) if HB is None else HB; self.BY = g("blockette_byte", I, I, B8) if BY is None else BY
        self.RL = x.fint("record length") if RL is None else RL
        self.steim = (x.choose(2) == 1) if steim is None else steim
        self.PL = x.fint("payload length") if PL is None else PL
        self.P = g("payload", I, B8) if P is None else P
        self.D = x.fint("data offset" + tag)
        self.R = g("record", I, B8)      # its bytes
        e = self.OF(self.n)
        x.assume(z3.And(self.OF(0) == 48, self.PL >= 0))
        x.assume(z3.And(self.D == (e + 63) / 64 * 64, self.D % 64 == 0) if self.steim else self.D == e)
    def accepted(self):
        """not refused"""
        return z3.And(self.n >= 1, self.n <= 255, self.D + self.PL <= self.RL, self.D <= 65535)
    def least(self, k): return z3.If(self.KIND(k) == 100, 12, z3.If(z3.Or(self.KIND(k) == 1000, self.KIND(k) == 1001), 8, 4))
    def blockette(self, k):
        """facts about the k-th blockette"""
        exact = z3.Implies(z3.Or(self.KIND(k) == 100, self.KIND(k) == 1000, self.KIND(k) == 1001), self.SIZE(k) == self.least(k))
        return z3.And(self.SIZE(k) >= 4, exact, self.OF(k + 1) == self.OF(k) + self.SIZE(k))
    def next(self, k): return z3.If(k < self.n - 1, self.OF(k + 1), 0)
    def byte_of(self, k, q, order):
        nb = bytes_int(self.next(k), 2, order)
        return z3.If(q == 2, nb[0], z3.If(q == 3, nb[1], self.BY(k, q)))
    # what pack ensures of the bytes
    def header_at(self, i, order):
        """byte i of the header"""
        if i == 39: return self.R(i) == z3.Int2BV(self.n, 8)
        if i in (44, 45): return self.R(i) == bytes_int(self.D, 2, order)[i - 44]
        if i in (46, 47): return self.R(i) == bytes_int(z3.IntVal(48), 2, order)[i - 46]
        return self.R(i) == self.HB(i)
    def in_blockette(self, k, q, order): return z3.Implies(z3.And(k >= 0, k < self.n, q >= 0, q < self.SIZE(k)), self.R(self.OF(k) + q) == self.byte_of(k, q, order))
    def payload_at(self, j): return z3.Implies(z3.And(j >= 0, j < self.PL), self.R(self.D + j) == self.P(j))
    def zero_at(self, z): return z3.Implies(z3.And(z >= self.OF(self.n), z < self.RL, z3.Or(z < self.D, z >= self.D + self.PL)), self.R(z) == 0)

def monotone(x, W, prove):
    """offsets ascend: 48 <= OF(k) and OF(k) + 4 <= OF(n) for k < n, by induction; instances are handed out afterwards"""
    if prove:
        k = x.fint("k"); x.assume(z3.And(k >= 0, k < W.n, W.blockette(k)))
        x.prove(W.OF(0) >= 48, "record written: blockettes lie behind the header")
        x.prove(z3.Implies(W.OF(k) >= 48, W.OF(k + 1) >= 48), "record written: blockettes lie behind the header")
        # from the end
        x.prove(W.OF(W.n) <= W.OF(W.n), "record written: blockettes lie before the data")
        x.prove(z3.Implies(W.OF(k + 1) <= W.OF(W.n), W.OF(k) + 4 <= W.OF(W.n)), "record written: blockettes lie before the data")
    return lambda k: z3.Implies(z3.And(k >= 0, k <= W.n), z3.And(W.OF(k) >= 48, z3.Implies(k < W.n, W.OF(k) + 4 <= W.OF(W.n)), W.OF(k) <= W.OF(W.n)))

@unit("miniSEED2 record written: well-formed for the reader", "C18", assume=[WELL_PRE])
def u_well(x, it):
    """what readMiniseed2Records requires (Rec in stream2) follows from what MiniseedRecord.pack ensures"""
    def go():
        W = Written(x); n = W.n
        x.assume(z3.And(n >= 1, n <= 255, W.D + W.PL <= W.RL, W.D <= 65535))
        if x.choose(2) == 0:
            monotone(x, W, True); x.cover("offsets"); return
        asc = monotone(x, W, False)
        j = x.fint("j"); x.assume(z3.And(j >= 0, j < n, W.blockette(j), asc(j), asc(j + 1), asc(n), asc(z3.IntVal(0))))
        last = x.branch(j == n - 1)
        x.cover(f"blockette {'last' if last else 'not last'}")
        x.prove(z3.And(W.RL >= 48, W.D >= 0, W.D <= W.RL), "record written: complete")
        x.prove(z3.And(W.OF(0) == 48, z3.IntVal(48) < W.RL), "record written: the first blockette is at the offset the header says")
        x.prove(W.D >= W.OF(n), "record written: data is behind the blockettes")
        # the chain: the offset of the next one, none for the last; the last one goes up to the data
        size = W.D - W.OF(j) if last else W.OF(j + 1) - W.OF(j)
        nx = W.next(j)
        x.prove(nx == (0 if last else W.OF(j + 1)), "record written: each blockette gives the offset of the next one, the last one none")
        x.prove(z3.And(nx >= 0, nx <= 65535, nx < W.RL), "record written: the offset of the next blockette fits its two bytes")
        x.prove(z3.And(size >= W.least(j), W.OF(j) + size <= W.RL, W.OF(j) >= 48, W.OF(j) < W.RL), "record written: each blockette is as long as its kind needs, within the record")
        x.prove(W.D > 0, "record written: there is a data offset, up to which the last blockette goes")
        # what the reader hands over for the last one
        if last: x.prove(z3.And(size - W.SIZE(j) == W.D - W.OF(n), size >= W.SIZE(j)), "record written: a last unknown blockette gains only the padding")
        else: x.prove(size == W.SIZE(j), "record written: a blockette is read in its size")
    return go

@unit("miniSEED2 record written: start, byte order", "C18", assume=[WELL_PRE])
def u_well_time(x, it):
    def go():
        # byte order is told from the year (1900 to 2050, SEED): the year written is that of the time less the microseconds of blockette 1001
        us, MU, y = x.fint("start"), x.fint("microseconds"), x.fint("year")
        lo, hi = (days_before(z3.IntVal(v)) * US_D for v in (1900, 2051))
        x.assume(z3.And(MU >= 0, MU <= 255, us >= lo + 255, us < hi))
        x.vars.update(start=us, microseconds=MU)
        t = (us - MU) / 100 * 100
        x.prove(z3.And(t >= lo, t < hi), "record written: the year tells the byte order")
        x.prove(z3.And(t >= 0, t + 255 < MAXUS), "record written: the start read is in the years of the library")
        x.cover("time")
    return go

@unit("miniSEED2 record: written again, the same bytes", "C18", assume=[WELL_PRE], weight=2)
def u_again(x, it):
    """the record read from what was written is written to the same bytes: by what pack ensures, applied to header, blockettes and payload
    that the reader hands over (the units above)"""
    def go():
        x.fork_ifs = True
        order = "><"[x.choose(2)]
        W = Written(x); n = W.n
        x.assume(z3.And(n >= 1, n <= 255, W.D + W.PL <= W.RL, W.D <= 65535))
        known = lambda k: z3.Or(W.KIND(k) == 100, W.KIND(k) == 1000, W.KIND(k) == 1001)
        what = "written again"
        # the record read: same kinds of blockettes; the last unknown one goes up to the data; payload from the data offset to the end
        g = lambda k, *s: z3.Function(f"{k}!{next(x.counter)}", *s)
        pad = W.D - W.OF(n)
        SIZE2 = g("size2", I, I); BY2 = g("blockette_byte2", I, I, B8); P2 = g("payload2", I, B8)
        W2 = Written(x, "2", n=n, SIZE=SIZE2, KIND=W.KIND, HB=W.HB, BY=BY2, RL=W.RL, steim=W.steim, PL=simp(W.RL - W.D), P=P2)
        size2 = lambda k: SIZE2(k) == z3.If(z3.And(k == n - 1, z3.Not(known(k))), W.SIZE(k) + pad, W.SIZE(k))
        asc, asc2 = monotone(x, W, False), monotone(x, W2, False)
        if x.choose(2) == 0:
            # offsets: by induction
            k = x.fint("k"); x.assume(z3.And(k >= 0, k < n - 1, W.blockette(k), W2.blockette(k), size2(k)))
            x.prove(W2.OF(0) == W.OF(0), f"{what}: blockettes at the same offsets")
            x.prove(z3.Implies(W2.OF(k) == W.OF(k), W2.OF(k + 1) == W.OF(k + 1)), f"{what}: blockettes at the same offsets")
            x.cover("offsets"); return
        at = lambda k: z3.Implies(z3.And(k >= 0, k <= n - 1), W2.OF(k) == W.OF(k))
        for k in (n - 1,): x.assume(z3.And(at(k), W.blockette(k), W2.blockette(k), size2(k), asc(k), asc(n), asc2(n)))
        x.assume(W.OF(n - 1 + 1) == W.OF(n)); x.assume(W2.OF(n - 1 + 1) == W2.OF(n))
        last_known = x.branch(known(n - 1))
        x.prove(W2.OF(n) == (W.OF(n) if last_known else W.D), f"{what}: blockettes end where they did, or at the data")
        x.prove(W2.D == W.D, f"{what}: data at the same offset")
        x.prove(W2.accepted(), f"{what}: it is not refused")
        x.assume(W2.D == W.D)
        part = x.choose(4)
        if part == 0:
            x.cover("header")
            for i in range(48):
                x.assume(z3.And(W.header_at(i, order), W2.header_at(i, order)))
                x.prove(W2.R(i) == W.R(i), f"{what}: the header at byte {i}")
        elif part == 1:
            k, q = x.fint("blockette"), x.fint("position"); x.vars.update(blockette=k, position=q)
            x.assume(z3.And(k >= 0, k < n, q >= 0, q < W.SIZE(k)))
            x.assume(z3.And(at(k), z3.Implies(k + 1 <= n - 1, W2.OF(k + 1) == W.OF(k + 1)), size2(k), W.blockette(k), W2.blockette(k)))
            x.prove(q < SIZE2(k), f"{what}: blockettes are not shorter")
            # same fields of a known one, and same bytes from byte 4 on and same number of an unknown one (units above)
            x.assume(z3.Implies(z3.And(q != 2, q != 3), BY2(k, q) == W.BY(k, q)))
            x.assume(z3.And(W.in_blockette(k, q, order), W2.in_blockette(k, q, order)))
            x.prove(W2.R(W.OF(k) + q) == W.R(W.OF(k) + q), f"{what}: each blockette")
            x.cover("blockette")
        elif part == 2:
            z = x.fint("position"); x.assume(z3.And(z >= W.OF(n), z < W.D)); x.vars["position"] = z
            x.assume(z3.And(W.zero_at(z), W2.zero_at(z)))
            k = n - 1; q = z - W2.OF(k)
            x.assume(z3.Implies(z3.Not(known(k)), W2.in_blockette(k, q, order)))
            # bytes of the last one read: those of the record
            x.assume(z3.Implies(z3.Not(known(k)), z3.Implies(z3.And(q >= 4, q < SIZE2(k)), BY2(k, q) == W.R(W.OF(k) + q))))
            x.prove(z3.Implies(z3.Not(known(k)), z3.And(q >= 4, q < SIZE2(k))), f"{what}: padding is part of a last unknown blockette")
            x.assume(W2.R(W2.OF(k) + q) == W2.R(z))
            x.prove(W2.R(z) == W.R(z), f"{what}: padding before the data")
            x.cover("padding")
        else:
            z = x.fint("position"); x.assume(z3.And(z >= W.D, z < W.RL)); x.vars["position"] = z
            j = z - W.D
            x.assume(z3.And(W2.payload_at(j), P2(j) == W.R(W.D + j)))
            x.prove(W2.R(W2.D + j) == W.R(W.D + j), f"{what}: the payload, and what follows it")
            x.cover("payload")
    return go

@unit("miniSEED2 record: every byte is in the header, a blockette, the padding or the payload", "C18")
def u_every(x, it):
    """so nothing is left out above: positions before OF(k) are in a blockette before the k-th, by induction"""
    def go():
        W = Written(x)
        z, k, w = x.fint("position"), x.fint("k"), x.fint("found"); x.vars.update(position=z, k=k)
        IN = lambda j: z3.And(j >= 0, W.OF(j) <= z, z < W.OF(j + 1))
        x.assume(z3.And(z >= 48, k >= 0, W.blockette(k)))
        x.prove(z3.Not(z < W.OF(0)), "positions behind the header: none before the first blockette")
        # the induction hypothesis gives some w < k, or z is not before OF(k)
        x.assume(z3.Implies(z < W.OF(k), z3.And(IN(w), w < k)))
        x.prove(z3.Implies(z < W.OF(k + 1), z3.Or(z3.And(IN(w), w < k + 1), z3.And(IN(k), k < k + 1))), "positions behind the header: in one of the blockettes before")
        x.prove(z3.Implies(IN(k), z3.And(z - W.OF(k) >= 0, z - W.OF(k) < W.SIZE(k))), "positions behind the header: within the size of the blockette")
        x.cover("position")
    return go
