"""miniSEED2 fixed header and blockettes: reading."""
from vc import *
import z3, struct
import libdt, libstr
from libio import *
from libdt import DT, TD, TZ, sym_dt, ieee, ROUNDING, days_before, MAXUS, US_S, US_M, US_H, US_D
from datetime import datetime, timedelta, timezone
from simplemseed import miniseed
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, MiniseedException, BTime, Blockette100, Blockette1000, Blockette1001, BlocketteUnknown
from simplemseed.seedcodec import BIG_ENDIAN, LITTLE_ENDIAN

# SEED 2.4 fixed section of data header: name, offset, bytes, signed
FIELDS = [("year", 20, 2, False), ("yday", 22, 2, False), ("hour", 24, 1, False), ("minute", 25, 1, False), ("second", 26, 1, False), ("tenthMilli", 28, 2, False),
          ("numSamples", 30, 2, False), ("sampRateFactor", 32, 2, True), ("sampRateMult", 34, 2, True), ("actFlag", 36, 1, False), ("ioFlag", 37, 1, False), ("qualFlag", 38, 1, False),
          ("numBlockettes", 39, 1, False), ("timeCorr", 40, 4, True), ("dataOffset", 44, 2, False), ("blocketteOffset", 46, 2, False)]
TEXTS = [("sequence_number", 0, 6), ("dataquality", 6, 1), ("station", 8, 5), ("location", 13, 2), ("channel", 15, 3), ("network", 18, 2)]
PARAMS = ("network", "station", "location", "channel", "starttime", "numSamples", "sampleRate", "encoding", "byteorder", "sampRateFactor", "sampRateMult", "actFlag", "ioFlag", "qualFlag",
          "numBlockettes", "timeCorr", "dataOffset", "blocketteOffset", "sequence_number", "dataquality")
DEFAULTS = {"encoding": -1, "byteorder": BIG_ENDIAN, "sampRateFactor": 0, "sampRateMult": 0, "actFlag": 0, "ioFlag": 0, "qualFlag": 0, "numBlockettes": 0, "timeCorr": 0, "dataOffset": 0, "blocketteOffset": 0,
            "sequence_number": 0, "dataquality": "D"}

def word(bs, order, signed):
    """python int held by the bytes"""
    t = bs if len(bs) == 1 else None
    bs = list(bs) if order == ">" else list(bs)[::-1]
    t = bs[0] if len(bs) == 1 else z3.Concat(*bs)
    return SB(t) if signed else SB(z3.ZeroExt(1, t))

STRIP = z3.Function("stripped", z3.StringSort(), z3.StringSort())
def strip_hook(it, o): return SS(STRIP(libstr.sterm(o)))
def stripped_text(it, x, v, seq, name):
    """v is the text of the bytes seq without blanks around it"""
    if isinstance(v, SS):
        for q, s in it.decoded:
            if v.t.eq(STRIP(q.t)):
                x.prove(nterm(s.n) == nterm(seq.n), name)
                for i in range(seq.n): x.prove(s.get(i) == seq.get(i), name)
                return q
    x.prove(z3.BoolVal(False), name)

@unit("miniseed.unpackMiniseedHeader", "C19 C18", assume=[UTF8], weight=2)
def u_unpack_header(x, it):
    def go():
        x.fork_ifs = True
        it.decoded = []; it.strip_hook = strip_hook
        order = "><"[x.choose(2)]
        n = sym_int(x, "length", 0).t
        b = sym_bytes(x, "b", n)
        got = []
        def init(it, f, args, kw):
            a = dict(DEFAULTS); a.update(zip(PARAMS, args[1:])); a.update(kw); got.append(a)
            if not it.branch(boolv(x.fbool("constructible"))): it.exc(MiniseedException, "header")
            args[0].set("made", True)
        it.contracts["miniseed.MiniseedHeader.__init__"] = init
        o = attempt(it, miniseed.unpackMiniseedHeader, b, *([order] if order == "<" or x.choose(2) else []))
        if not o.ok:
            e = o.v.cls
            x.cover(f"unpackMiniseedHeader refuses with {e.__name__}")
            if got or e is UnicodeDecodeError: return
            if e is ValueError: x.prove(n >= 48, "unpackMiniseedHeader: reads a number"); return
            x.prove(z3.And(n < 48, z3.BoolVal(e is MiniseedException)), "unpackMiniseedHeader: refuses only short bytes")
            return
        x.cover(f"header read, order {order}")
        x.prove(n >= 48, "unpackMiniseedHeader: short bytes are refused")
        x.prove(z3.BoolVal(len(got) == 1 and isinstance(o.v, Obj) and o.v.cls is MiniseedHeader and o.v.a.get("made", False)), "unpackMiniseedHeader: a header is made")
        if len(got) != 1: return
        a = got[0]; s = b.seq
        start = a["starttime"]
        if not isinstance(start, NT) or start.cls is not BTime: x.prove(z3.BoolVal(False), "unpackMiniseedHeader: start is the time fields"); return
        for k, off, w, sg in FIELDS:
            v = start.get(k) if k in BTime._fields else a[k]
            x.prove(eqv(it, v, word([s.get(off + i) for i in range(w)], order, sg)), f"unpackMiniseedHeader: {k} at byte {off}")
        for k, off, w in TEXTS:
            nm = f"unpackMiniseedHeader: {k} is the text at byte {off}"
            sl = CSeq([s.get(off + i) for i in range(w)])
            if k == "sequence_number":
                v = a[k]
                hit = [q for q, _ in it.decoded if isinstance(v, SI) and (v.t.eq(libstr.INTOF(STRIP(q.t))) or v.t.eq(libstr.INTOF(q.t)))]
                if not hit: x.prove(z3.BoolVal(False), nm); continue
                r = next(t for q, t in it.decoded if q is hit[0])
                x.prove(nterm(r.n) == w, nm)
                for i in range(w): x.prove(r.get(i) == sl.get(i), nm)
            else: stripped_text(it, x, a[k], sl, nm)
        x.prove(eqv(it, a["sampleRate"], 0), "unpackMiniseedHeader: the rate is that of factor and multiplier")
        x.prove(eqv(it, a["encoding"], -1), "unpackMiniseedHeader: the encoding is not known yet")
        x.prove(eqv(it, a["byteorder"], BIG_ENDIAN if order == ">" else LITTLE_ENDIAN), "unpackMiniseedHeader: byte order as read")
    return go

# ---------------------------------------------------------------- constructor
def btime_us(f): return (days_before(f["year"]) + f["yday"] - 1) * US_D + f["hour"] * US_H + f["minute"] * US_M + f["second"] * US_S + 100 * f["tenthMilli"]
def btime_good(f):
    return z3.And(f["year"] >= 1, f["year"] <= 9999, f["yday"] >= 1, f["hour"] >= 0, f["hour"] < 24, f["minute"] >= 0, f["minute"] < 60, f["tenthMilli"] >= 0, f["tenthMilli"] < 10000)
def sym_btime(x):
    f = {k: x.fint(k) for k in BTime._fields}
    for k, hi in zip(BTime._fields, (65535, 65535, 255, 255, 255, 65535)): x.assume(z3.And(f[k] >= 0, f[k] <= hi)); x.vars[k] = f[k]
    return NT(BTime, [SI(f[k]) for k in BTime._fields]), f
def us_of(dt): return nterm(dt.us) if dt.off is None else nterm(dt.utc())

def start_is(x, it, h, us, what, ticks=None):
    """start is the instant us and btime its fields to 100 microseconds (ticks: the number of 100 microseconds in its second)"""
    st = h.get("starttime")
    ok = isinstance(st, DT) and st.off is not None
    x.prove(z3.BoolVal(ok), f"{what}: start is a date-time with a zone")
    if not ok: return
    x.prove(nterm(st.utc()) == us, f"{what}: start is the instant given")
    x.prove(nterm(st.off) == 0, f"{what}: start is in UTC")
    bt = h.get("btime")
    if not isinstance(bt, NT) or bt.cls is not BTime: x.prove(z3.BoolVal(False), f"{what}: time fields"); return
    g = {k: nterm(as_int(bt.get(k))) for k in BTime._fields}
    x.prove(btime_good(g), f"{what}: time fields in range")
    x.prove(z3.And(g["second"] >= 0, g["second"] < 60, days_before(g["year"]) + g["yday"] - 1 < days_before(g["year"] + 1)), f"{what}: time fields in range")
    sec = dict(g); sec["tenthMilli"] = 0
    x.prove(btime_us(sec) == us - us % US_S, f"{what}: time fields are those of the start")
    x.prove(g["tenthMilli"] == (us % US_S) / 100, f"{what}: time fields are those of the start, to 100 microseconds")

@unit("miniseed.MiniseedHeader.setStartTime", "C18 C19 C20", assume=["the UTC offset of a date-time is below 24 hours", "datetime.fromisoformat gives the date-time its text denotes, Z written as +00:00"])
def u_setstart(x, it):
    def go():
        x.fork_ifs = True
        it.float_round = ieee(x)
        h = Obj(MiniseedHeader, other=1)
        kind = x.choose(6)
        nm = ("aware", "naive", "aware text", "naive text", "fields", "something else")[kind]
        what = f"setStartTime, {nm}"
        if kind == 5:
            o = attempt(it, MiniseedHeader.setStartTime, h, (None, 5, PList(CSeq([])))[x.choose(3)])
            x.prove(z3.BoolVal(not o.ok and o.v.cls is MiniseedException), f"{what}: refused"); return
        if kind == 4:
            bt, f = sym_btime(x)
            o = attempt(it, MiniseedHeader.setStartTime, h, bt)
            us = btime_us(f)
            good = z3.And(btime_good(f), us >= 0, us < MAXUS)
            if not o.ok:
                x.cover("fields refused")
                x.prove(z3.Not(good), f"{what}: fields of an instant of years 1 to 9999 are accepted"); return
            x.cover("fields accepted")
            st = h.get("starttime")
            x.prove(z3.BoolVal(isinstance(st, DT) and st.off is not None and h.get("btime") is bt), f"{what}: kept, start is a date-time with a zone")
            x.prove(z3.And(nterm(st.utc()) == us, nterm(st.off) == 0), f"{what}: start is the instant they denote, day of year and second counted on")
            x.prove(z3.BoolVal(set(h.a) == {"other", "starttime", "btime"}), f"{what}: nothing else is set")
            return
        if kind >= 2:
            txt = sym_str(x, "text"); fixed = libstr.fresh_str("fixed")
            dt = sym_dt(x, "time", naive=kind == 3)
            def rep(it, o, a):
                x.prove(z3.BoolVal(o is txt and tuple(a) == ("Z", "+00:00")), f"{what}: read with Z as UTC"); return fixed
            it.replace_hook = rep
            def fromiso(it, v):
                x.prove(z3.BoolVal(v is fixed or v is txt), f"{what}: reads the text given"); return dt
            it.fromiso_hook = fromiso
        else: dt = sym_dt(x, "time", naive=kind == 1)
        us = us_of(dt)
        o = attempt(it, MiniseedHeader.setStartTime, h, txt if kind >= 2 else dt)
        if not o.ok:
            x.prove(z3.Not(z3.And(us >= 0, us < MAXUS)), f"{what}: an instant of years 1 to 9999 is accepted"); return
        x.cover(f"start set from {nm}")
        start_is(x, it, h, us, what)
        x.prove(z3.BoolVal(set(h.a) == {"other", "starttime", "btime"}), f"{what}: nothing else is set")
    return go

@unit("miniseed.MiniseedHeader.__init__", "C18 C19 C20", assume=[ROUNDING], weight=2)
def u_init(x, it):
    def go():
        x.fork_ifs = True
        it.float_round = ieee(x)
        rng = {"numSamples": (0, 65535), "sampRateFactor": (-32768, 32767), "sampRateMult": (-32768, 32767), "actFlag": (0, 255), "ioFlag": (0, 255), "qualFlag": (0, 255), "numBlockettes": (0, 255),
               "timeCorr": (-2**31, 2**31 - 1), "dataOffset": (0, 65535), "blocketteOffset": (0, 65535), "sequence_number": (0, 999999), "encoding": (-1, 255)}
        a = {k: sym_int(x, k, *r) for k, r in rng.items()}
        for k in ("network", "station", "location", "channel", "dataquality"): a[k] = sym_str(x, k)
        a["byteorder"] = (BIG_ENDIAN, LITTLE_ENDIAN)[x.choose(2)]
        start = Opaque(BTime, "start"); a["starttime"] = start
        kind = x.choose(2)
        if kind: a["sampleRate"] = SF(x.fresh("rate", z3.RealSort())); r0 = a["sampleRate"].t; x.assume(r0 != 0)
        else: a["sampleRate"] = 0
        few = x.choose(2)      # with or without the defaults
        h = Obj(MiniseedHeader)
        starts = []
        def setstart(it, f, args, kw):
            starts.append(args[1])
            args[0].set("starttime", Opaque(datetime, "instant")); args[0].set("btime", start)
        it.contracts["miniseed.MiniseedHeader.setStartTime"] = setstart
        def period(it, args, kw):
            return Opaque(timedelta, "period")
        lib.MODELS[id(timedelta)], old = (timedelta, period), lib.MODELS[id(timedelta)]
        try:
            if few:
                pos = [a[k] for k in PARAMS[:7]]
                o = attempt(it, MiniseedHeader.__init__, h, *pos)
                for k, v in DEFAULTS.items(): a[k] = v
            else: o = attempt(it, MiniseedHeader.__init__, h, *[a[k] for k in PARAMS[:7]], **{k: a[k] for k in PARAMS[7:]})
        finally: lib.MODELS[id(timedelta)] = old
        f, m = (nterm(as_int(a[k])) for k in ("sampRateFactor", "sampRateMult"))
        F, M = z3.ToReal(f), z3.ToReal(m)
        enc = nterm(as_int(a["encoding"]))
        norate = z3.BoolVal(False) if kind else z3.Or(f == 0, m == 0)
        if not o.ok:
            x.cover("header refused")
            x.prove(z3.And(norate, enc != -1, enc != 0, z3.BoolVal(o.v.cls is MiniseedException)), "MiniseedHeader: refuses only data without a sample rate"); return
        x.cover(f"header made, rate {'given' if kind else 'from factor and multiplier'}")
        x.prove(z3.Or(z3.Not(norate), enc == -1, enc == 0), "MiniseedHeader: data without a sample rate is refused")
        x.prove(z3.BoolVal(len(starts) == 1 and starts[0] is start), "MiniseedHeader: the start given is set")
        for k in PARAMS:
            if k not in ("starttime", "sampleRate"): x.prove(z3.BoolVal(k in h.a and (h.get(k) is a[k] or is_native(a[k]) and h.get(k) == a[k])), f"MiniseedHeader: {k} is the one given")
        x.prove(z3.And(eqv(it, h.get("recordLengthExp"), 9), eqv(it, h.get("recordLength"), 512)), "MiniseedHeader: 512 bytes unless told otherwise")
        r = h.get("sampleRate")
        if kind: x.prove(z3.BoolVal(r is a["sampleRate"]), "MiniseedHeader: the rate is the one given"); return
        if isinstance(r, int): x.prove(z3.And(norate, z3.BoolVal(r == 0)), "MiniseedHeader: no rate without factor and multiplier"); return
        x.prove(z3.Not(norate), "MiniseedHeader: no rate without factor and multiplier")
        R = lambda e: libdt.RND(z3.simplify(e))
        got = r.t
        for (c, e, t) in ((z3.And(f > 0, m > 0), F * M, "factor times multiplier"), (z3.And(f > 0, m < 0), -F / M, "factor over minus multiplier"),
                          (z3.And(f < 0, m > 0), -M / F, "minus multiplier over factor"), (z3.And(f < 0, m < 0), 1 / (F * M), "one over the product")):
            if x.branch(c):
                x.cover(t)
                # correctly rounded: within half a unit in the last place of the exact rate
                u = z3.RealVal(1) / 2**53
                x.prove(z3.And(got >= e * (1 - u), got <= e * (1 + u)), f"MiniseedHeader: the rate is {t}, correctly rounded")
                return
    return go

@unit("miniseed.MiniseedHeader.setSampleRate", "C18 C19")
def u_setrate(x, it):
    def go():
        x.fork_ifs = True
        h = Obj(MiniseedHeader, other=1)
        r = SF(x.fresh("rate", z3.RealSort())); x.assume(z3.Or(r.t == 0, r.t * r.t > z3.RealVal("1/1000000000000000000")))
        it.float_round = ieee(x)
        lib.MODELS[id(timedelta)], old = (timedelta, lambda it, args, kw: Opaque(timedelta)), lib.MODELS[id(timedelta)]
        try: o = attempt(it, MiniseedHeader.setSampleRate, h, r)
        finally: lib.MODELS[id(timedelta)] = old
        x.cover("rate set")
        x.prove(z3.BoolVal(o.ok and h.get("sampleRate") is r and set(h.a) <= {"other", "sampleRate", "sampPeriod"}), "setSampleRate: the rate is the one given")
    return go

# ---------------------------------------------------------------- byte order
@unit("miniseed.unpackFixedHeaderGuessByteOrder", "C19 C18", assume=["years of records are 1900 to 2050 (SEED detects the byte order from the year)"])
def u_guess(x, it):
    def go():
        x.fork_ifs = True
        n = sym_int(x, "length", 48).t
        b = sym_bytes(x, "b", n)
        got = []
        def unp(it, f, args, kw):
            a = dict(zip(("recordBytes", "endianChar"), args)); a.update(kw)
            x.prove(z3.BoolVal(a["recordBytes"] is b), "byte order: the header is unpacked from the bytes given")
            if not it.branch(boolv(x.fbool("unpacks"))): it.exc(MiniseedException, "header")
            e = a.get("endianChar", ">")
            h = Obj(MiniseedHeader, byteorder=BIG_ENDIAN if e == ">" else LITTLE_ENDIAN, other=1); got.append((h, e))
            return h
        it.contracts["miniseed.unpackMiniseedHeader"] = unp
        y = lambda order: nterm(as_int(SI(z3.BV2Int(z3.Concat(*([b.seq.get(20), b.seq.get(21)] if order == ">" else [b.seq.get(21), b.seq.get(20)]))))))
        b20, b21 = b.seq.get(20), b.seq.get(21)
        big = z3.Concat(b20, b21); little = z3.Concat(b21, b20)
        inr = lambda t: z3.And(z3.UGE(t, 1900), z3.ULE(t, 2050))
        order = x.choose(2)
        x.assume(inr((big, little)[order]))
        o = attempt(it, miniseed.unpackFixedHeaderGuessByteOrder, b)
        if not o.ok:
            x.prove(z3.BoolVal(not got and o.v.cls is MiniseedException), "byte order: refuses only what the header refuses"); return
        x.cover(f"order {'><'[order]}")
        x.prove(z3.BoolVal(len(got) == 1 and got[0][1] == "><"[order]), "byte order: the one in which the year is 1900 to 2050")
        if len(got) != 1: return
        h = got[0][0]
        x.prove(z3.BoolVal(o.v is h and set(h.a) == {"byteorder", "other"} and h.get("byteorder") == (BIG_ENDIAN, LITTLE_ENDIAN)[order]), "byte order: the header read in it")
    return go

# ---------------------------------------------------------------- blockettes
KINDS = {100: (Blockette100, 12), 1000: (Blockette1000, 8), 1001: (Blockette1001, 8)}
@unit("miniseed.unpackBlockette", "C19 C18", assume=["the microseconds of blockette 1001 are from 0 to 127 (known finding: read unsigned)"])
def u_unpack_b(x, it):
    def go():
        x.fork_ifs = True
        order = "><"[x.choose(2)]
        n = sym_int(x, "length", 0).t
        b = sym_bytes(x, "b", n)
        off = sym_int(x, "offset", 0)
        end = sym_int(x, "dataOffset", 0)
        o_ = off.t
        x.assume(o_ + 4 <= n)
        at = lambda k: b.seq.get(simp(o_ + k))
        num = z3.Concat(*([at(0), at(1)] if order == ">" else [at(1), at(0)]))
        w = lambda k, c=2, sg=False: word([at(k + i) for i in range(c)], order, sg)
        kind = (100, 1000, 1001, None)[x.choose(4)]
        if kind is None: x.assume(z3.And(*[num != k for k in KINDS]))
        else: x.assume(num == kind); x.assume(o_ + KINDS[kind][1] <= n)
        if kind is None:
            # blockettes lie one after another
            nx = z3.BV2Int(w(2).t)
        o = attempt(it, miniseed.unpackBlockette, b, off, order, end)
        x.cover(f"blockette {kind}")
        x.prove(z3.BoolVal(o.ok), "unpackBlockette: a blockette that is there is read")
        if not o.ok: return
        v = o.v
        cl = KINDS[kind][0] if kind else BlocketteUnknown
        x.prove(z3.BoolVal(isinstance(v, NT) and v.cls is cl), f"unpackBlockette: {cl.__name__}")
        if not isinstance(v, NT) or v.cls is not cl: return
        nm = f"unpackBlockette {kind or 'unknown'}"
        x.prove(eqv(it, v.get("blocketteNum"), w(0)), f"{nm}: number")
        x.prove(eqv(it, v.get("nextOffset"), w(2)), f"{nm}: offset of the next")
        if kind == 100:
            bits = z3.Concat(*([at(4 + i) for i in range(4)] if order == ">" else [at(7 - i) for i in range(4)]))
            x.prove(lib.float_bits(v.get("sampleRate")) == lib.f32to64(bits), f"{nm}: sample rate")
        if kind == 1000:
            for k, p in (("encoding", 4), ("byteorder", 5), ("recLength", 6)): x.prove(eqv(it, v.get(k), w(p, 1)), f"{nm}: {k}")
        if kind == 1001:
            x.prove(eqv(it, v.get("timeQuality"), w(4, 1)), f"{nm}: timing quality")
            x.prove(z3.Implies(z3.Extract(7, 7, at(5)) == 0, eqv(it, v.get("microseconds"), w(5, 1, True))), f"{nm}: microseconds")
            x.prove(eqv(it, v.get("frameCount"), w(7, 1)), f"{nm}: frame count")
        if kind is None:
            raw = v.get("rawBytes")
            nxt = as_int(v.get("nextOffset"))
            e = z3.If(nterm(nxt) == 0, end.t, nterm(nxt))
            x.assume(e >= o_)
            e = z3.If(e < n, e, n)
            ok = isinstance(raw, BA)
            x.prove(z3.BoolVal(ok), f"{nm}: bytes")
            if not ok: return
            x.prove(nterm(raw.seq.n) == e - o_, f"{nm}: all of its bytes, up to the next one or the data")
            x.forall(0, e - o_, lambda i: raw.seq.get(i) == b.seq.get(nterm(i) + o_), f"{nm}: its bytes as they are")
    return go

# ---------------------------------------------------------------- samples
@unit("miniseed.MiniseedRecord.decompress", "C18 C19 C20")
def u_decompress(x, it):
    def go():
        x.fork_ifs = True
        kind = x.choose(3)
        order = (BIG_ENDIAN, LITTLE_ENDIAN)[x.choose(2)]
        h = Obj(MiniseedHeader, encoding=sym_int(x, "encoding", -1, 255), byteorder=order, numSamples=sym_int(x, "numSamples", 0, 65535))
        have = Opaque(object, "samples") if kind == 0 else None
        raw = sym_bytes(x, "payload", sym_int(x, "payload length", 0).t) if kind == 1 else None
        rec = Obj(MiniseedRecord, header=h, _data=have, encodedDataBytes=raw, blockettes=PList(CSeq([])))
        calls = []
        def dec(it, f, args, kw):
            a = dict(zip(("compressionType", "dataBytes", "numSamples", "littleEndian"), args)); a.update(kw); calls.append(a)
            if not x.branch(x.fbool("decodable")): it.exc(miniseed.CodecException, "payload")
            return Opaque(object, "decoded")
        it.contracts["seedcodec.decompress"] = dec
        o = attempt(it, (MiniseedRecord.decompress, MiniseedRecord.decompressed)[x.choose(2)], rec)
        x.cover(f"decompress {('samples', 'payload', 'nothing')[kind]}")
        x.prove(z3.BoolVal(rec.get("header") is h and rec.get("encodedDataBytes") is raw), "decompress: header and payload stay")
        if kind != 1: x.prove(z3.BoolVal(o.ok and o.v is have and not calls), "decompress: samples that are there are given"); return
        x.prove(z3.BoolVal(len(calls) == 1), "decompress: the payload is decompressed")
        if len(calls) != 1: return
        a = calls[0]
        x.prove(z3.BoolVal(a["compressionType"] is h.get("encoding") and a["dataBytes"] is raw and a["numSamples"] is h.get("numSamples")), "decompress: the payload by the encoding and number of samples of the header")
        x.prove(z3.BoolVal(a["littleEndian"] is (order == LITTLE_ENDIAN)), "decompress: in the byte order of the header")
        if o.ok: x.prove(z3.BoolVal(isinstance(o.v, Opaque) and o.v.label == "decoded"), "decompress: gives the samples")
    return go
