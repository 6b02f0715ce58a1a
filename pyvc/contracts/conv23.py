"""Conversion of miniSEED2 records to miniSEED3."""
from vc import *
import z3, json
import numpy as np
from datetime import timezone
import libdt, libstr
from libio import *
from libdt import DT, ieee, RND, ROUNDING, MAXUS, US_S, US_D, days_before
import importlib
from simplemseed import miniseed, mseed3, seedcodec
conv = importlib.import_module('simplemseed.mseed2to3')
from simplemseed.mseed3 import MSeed3Record, MSeed3Header, Miniseed3Exception
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, MiniseedException, BTime, Blockette100, Blockette1000, Blockette1001, BlocketteUnknown
from simplemseed.exceptions import CodecException, UnsupportedCompressionType
from record3 import BYTYPE
from data3 import ENC, fn, DTS

WELL = "at most one blockette of each of the kinds 100, 1000 and 1001; the start instant of the record is that of its fields plus the microseconds (set by MiniseedHeader.setStartTime, C18)"
CONSOLE = "mseed2to3 is given a record as the reader or the constructor makes it"
BLK = (Blockette100, Blockette1000, Blockette1001, BlocketteUnknown)

class Blks:
    """any number of blockettes of any kinds, at most one each of 100, 1000 and 1001"""
    def __init__(self, x, it, only=None):
        self.x = x
        self.n = sym_int(x, "blockettes", 0).t
        I = z3.IntSort()
        self.num = fn(x, "number", I)
        self.f = {k: fn(x, k, I) for k in ("next", "encoding", "byteorder", "recLength", "quality", "micros", "frames")}
        self.rate = fn(x, "rate100", z3.BitVecSort(32))
        self.at = {}
        for k in (100, 1000, 1001):
            i = self.at[k] = sym_int(x, f"index of {k}", -1).t
            x.assume(i < self.n)
            x.assume(z3.Implies(i >= 0, self.num(i) == k))
        self.memo = {}
    def facts(self, i):
        i = nterm(i)
        inr = z3.And(i >= 0, i < self.n)
        for k, w in self.at.items(): self.x.assume(z3.Implies(inr, (self.num(i) == k) == (i == w)))
        g = self.f
        self.x.assume(z3.Implies(inr, z3.And(self.num(i) >= 0, self.num(i) < 65536, g["encoding"](i) >= 0, g["encoding"](i) < 256, g["quality"](i) >= 0, g["quality"](i) < 256)))
    def get(self, i):
        x = core.X; i = nterm(i); self.facts(i)
        num = self.num(i); g = {k: SI(v(i)) for k, v in self.f.items()}
        if x.branch(num == 1000): return NT(Blockette1000, [1000, g["next"], g["encoding"], g["byteorder"], g["recLength"]])
        if x.branch(num == 100): return NT(Blockette100, [100, g["next"], SF(None, lib.f32to64(self.rate(i)))])
        if x.branch(num == 1001): return NT(Blockette1001, [1001, g["next"], g["quality"], g["micros"], g["frames"]])
        return NT(BlocketteUnknown, [SI(num), g["next"], Opaque(bytes)])
    def has(self, k): return self.at[k] >= 0
    def before(self, k, n): return z3.And(self.at[k] >= 0, self.at[k] < nterm(n))

class Find1000(LoopSpec):
    def __init__(self, S): self.S = S
    def entry(self, it, fr, k):
        self.S.x.prove(z3.BoolVal(fr.locals.get("b1000") is None), "mseed2to3: no blockette 1000 before the first")
    def havoc(self, it, fr, k):
        B = self.S.B
        if core.X.branch(B.before(1000, k)):
            i = B.at[1000]
            fr.setl("b1000", NT(Blockette1000, [1000] + [SI(B.f[q](i)) for q in ("next", "encoding", "byteorder", "recLength")]))
            B.facts(i)
        else: fr.setl("b1000", None)
    def check(self, it, fr, k):
        x, B = self.S.x, self.S.B
        v = fr.locals.get("b1000")
        if v is None: x.prove(z3.Not(B.before(1000, k)), "mseed2to3: blockette 1000 is found")
        elif isinstance(v, NT): x.prove(z3.And(B.before(1000, k), eqv(it, v.get("encoding"), SI(B.f["encoding"](B.at[1000]))), z3.BoolVal(v.cls is Blockette1000)), "mseed2to3: blockette 1000 is the one of the record")
        else: x.prove(z3.BoolVal(False), "mseed2to3: blockette 1000 is found")

class Extras(LoopSpec):
    """rate of blockette 100, time quality of blockette 1001"""
    def __init__(self, S): self.S = S
    def begin(self, it, fr, n):
        S = self.S
        S.h3 = fr.locals["ms3Header"]; S.ex = fr.locals["fdsnExtras"]
        S.base = S.h3.get("sampleRatePeriod"); S.ex0 = dict(S.ex.d)
    def entry(self, it, fr, k): pass
    def havoc(self, it, fr, k):
        S, B, X = self.S, self.S.B, core.X
        if X.branch(B.before(100, k)): S.h3.set("sampleRatePeriod", SF(None, lib.f32to64(B.rate(B.at[100]))))
        else: S.h3.set("sampleRatePeriod", S.base)
        d = dict(S.ex0)
        q = B.f["quality"](B.at[1001])
        if X.branch(z3.And(B.before(1001, k), q != 0)): d["Time"] = PDict({"Quality": SI(q)})
        S.ex._set(S.ex.a, "d", d)
    def frame_ok(self, it, fr, obj, name): return obj is self.S.ex or obj is self.S.h3 and name == "sampleRatePeriod" or isinstance(obj, PDict) and name == "d"
    def check(self, it, fr, k):
        S, B, x = self.S, self.S.B, self.S.x
        v = S.h3.get("sampleRatePeriod")
        if x.branch(B.before(100, k)): x.prove(lib.float_bits(v) == lib.f32to64(B.rate(B.at[100])), "mseed2to3: the rate of blockette 100 is used")
        else: x.prove(z3.BoolVal(v is S.base), "mseed2to3: without blockette 100 the rate is that of the header")
        q = B.f["quality"](B.at[1001])
        want = dict(S.ex0)
        t = S.ex.d.get("Time")
        rest = {k: v for k, v in S.ex.d.items() if k != "Time"}
        x.prove(z3.BoolVal(rest == want), "mseed2to3: other extra headers stay")
        if x.branch(z3.And(B.before(1001, k), q != 0)):
            x.prove(z3.And(z3.BoolVal(list(t.d) == ["Quality"]), eqv(it, t.d.get("Quality"), SI(q))) if isinstance(t, PDict) and "Quality" in t.d else z3.BoolVal(False), "mseed2to3: a timing quality that is not zero is kept as extra header")
        else: x.prove(z3.BoolVal(t is None), "mseed2to3: no extra header for a timing quality of zero")

def sym_header2(x, it, rate, order):
    codes = {k: sym_str(x, k) for k in ("network", "station", "location", "channel")}
    # start: fields and instant
    y, d, hh, mm, ss, tm = (sym_int(x, k, lo, hi) for k, lo, hi in (("year", 1, 9999), ("yday", 1, 366), ("hour", 0, 23), ("minute", 0, 59), ("second", 0, 60), ("tenthMilli", 0, 9999)))
    us = sym_int(x, "microsecond", 0, 999999)
    sec = (days_before(y.t) + d.t - 1) * 86400 + hh.t * 3600 + mm.t * 60 + ss.t
    T = x.fint("start"); x.assume(z3.And(T >= 0, T < MAXUS)); x.assume(T == sec * US_S + us.t)
    start = DT(T, 0, timezone.utc)
    # its microseconds are those of the instant: (sec * 10**6 + us) mod 10**6
    start._f = None; del start._f
    f = {k: x.fint("f_" + k) for k in ("year", "yday", "hour", "minute", "second")}; f["microsecond"] = us.t
    start._f = f
    h = Obj(MiniseedHeader, starttime=start, btime=NT(BTime, [y, d, hh, mm, ss, tm]), sampleRate=rate, **codes)
    for k, w in (("actFlag", 8), ("ioFlag", 8), ("qualFlag", 8)): h.set(k, sym_bv_int(x, k, w, False))
    for k, hi in (("numSamples", 65535), ("encoding", 255), ("dataOffset", 65535), ("blocketteOffset", 65535), ("numBlockettes", 255), ("sequence_number", 999999)): h.set(k, sym_int(x, k, 0, hi))
    h.set("timeCorr", sym_int(x, "timeCorr")); h.set("byteorder", order); h.set("dataquality", sym_str(x, "quality"))
    h.set("sampRateFactor", sym_int(x, "factor")); h.set("sampRateMult", sym_int(x, "mult"))
    h.set("recordLengthExp", 12); h.set("recordLength", 4096); h.set("sampPeriod", Opaque(object))
    return h, T, sec

class St: pass
def conv_unit(dk, sub, order):
    def u(x, it):
        x.fork_ifs = True
        def go():
            it.float_round = ieee(x)
            S = St(); S.x, S.it = x, it
            s = x.fresh("sampleRate", z3.RealSort()); x.vars["sampleRate"] = s; x.assume(s >= 0)
            h, T, sec = sym_header2(x, it, SF(s), order); S.h = h
            B = S.B = Blks(x, it)
            n = h.get("numSamples"); little = h.get("byteorder") == 0
            enc = B.f["encoding"](B.at[1000])
            hb = dict(h.a)
            got, asked = [], []
            def arr(t, cnt):
                A = fn(x, "samples", z3.BitVecSort(8 * np.dtype(t).itemsize))
                return NArr(np.dtype(t), Seq(cnt, lambda i: A(nterm(i))))
            data = payload = None
            if dk in ("bytes", "bytes cached"): payload = sym_bytes(x, "payload", sym_int(x, "payload length", 0).t, mutable=bool(x.choose(2)))
            if dk == "numpy": t = np.dtype(sub); data = arr(t, sym_int(x, "samples", 0).t)
            if dk == "array":
                tc = sub; t = np.dtype({"h": "i2", "i": "i4", "f": "f4", "d": "f8", "l": "i8"}[tc]); data = AArr(tc, t.itemsize, arr(t, sym_int(x, "samples", 0).t).seq)
            cached = None
            if dk == "bytes cached": t = np.dtype(sub); cached = arr(t, n.t)
            rec = Obj(MiniseedRecord, header=h, encodedDataBytes=payload, blockettes=PList(Seq(B.n, B.get)), _data=data if payload is None else cached)
            # what is in the blockette is what is in the header (set when it is read or written)
            x.assume(z3.Implies(B.has(1000), h.get("encoding").t == enc))
            def dec(it, f, args, kw):
                a = dict(zip(("compressionType", "dataBytes", "numSamples", "littleEndian"), args)); a.update(kw)
                x.prove(z3.And(eqv(it, a["compressionType"], SI(enc)), z3.BoolVal(a["dataBytes"] is payload), eqv(it, a["numSamples"], n), eqv(it, a["littleEndian"], little)), "mseed2to3: payload is decoded by its encoding, byte order and count")
                if not x.branch(x.fbool("decodable")): asked.append("fails"); it.exc(CodecException, "payload")
                t = np.dtype(DTS[x.choose(4)])
                # numSamples samples of the type of the encoding (C03, C05)
                x.assume(z3.Or(n.t == 0, *[enc == e for e in {"int16": (1, 32), "int32": (3, 10, 11), "float32": (4,), "float64": (5,)}[t.name]]))
                if not x.feasible(z3.BoolVal(True)): raise PathEnd()
                got.append(arr(t, n.t)); return got[-1]
            it.contracts["seedcodec.decompress"] = dec
            ident = Obj(conv.FDSNSourceId); text = sym_str(x, "identifier"); nslc = []
            def from_nslc(it, f, args, kw):
                a = dict(zip(("net", "sta", "loc", "chan"), args)); nslc.append(args); return ident
            it.contracts["fdsnsourceid.FDSNSourceId.fromNslc"] = from_nslc
            it.contracts["fdsnsourceid.FDSNSourceId.__str__"] = lambda it, f, args, kw: text if args[0] is ident else libstr.fresh_str("other")
            it.all_encodable = True
            dumped = []
            def dumps(it, v, kw): dumped.append(v); return libstr.fresh_str("json")
            it.dumps_hook = dumps
            it.loops[("mseed2to3.mseed2to3", 0)] = Find1000(S)
            it.loops[("mseed2to3.mseed2to3", 1)] = Extras(S)
            o = attempt(it, conv.mseed2to3, rec)
            prim = z3.Or(*[enc == e for e in BYTYPE])
            what = f"mseed2to3 ({dk})"
            x.prove(z3.BoolVal(all(h.a.get(k) is v for k, v in hb.items()) and rec.get("encodedDataBytes") is payload), f"{what}: the miniSEED2 record stays as it is")
            if not o.ok:
                x.cover(f"{what}: refused")
                c = o.v.cls
                reasons = z3.Not(B.has(1000))
                if asked: reasons = z3.BoolVal(True)
                if dk in ("numpy", "array"):
                    # data of another type or number than the header says
                    e = ENC.get(t.type)
                    reasons = z3.BoolVal(True) if e is None and dk == "array" else z3.Or(reasons, z3.And(enc != (e or 3)), z3.Not(z3.Or(n.t == 0, n.t == nterm(data.seq.n))), z3.BoolVal(e is None))
                x.prove(reasons, f"{what}: refuses only a record without blockette 1000 or whose samples do not decode")
                x.prove(z3.BoolVal(issubclass(c, (MiniseedException, CodecException, UnsupportedCompressionType, Miniseed3Exception))), f"{what}: refuses with an exception of the library")
                return
            x.cover(f"{what}: converted")
            x.prove(B.has(1000), f"{what}: a record without blockette 1000 is refused")
            r = o.v; g = r.get("header")
            F = lambda k: nterm(as_int(g.get(k)))
            # time
            us3 = F("nanosecond")
            x.prove(z3.And(us3 >= 0, us3 < 10**9, us3 == 1000 * h.get("starttime")._f["microsecond"]), f"{what}: microseconds of the start, those of blockette 1001 included")
            b = h.get("btime")
            for k3, k2 in (("year", "year"), ("dayOfYear", "yday"), ("hour", "hour"), ("minute", "minute"), ("second", "second")):
                x.prove(F(k3) == nterm(as_int(b.get(k2))), f"{what}: {k3} of the start, leap second included")
            # rate
            q = g.get("sampleRatePeriod")
            if x.branch(B.has(100)): x.prove(lib.float_bits(q) == lib.f32to64(B.rate(B.at[100])), f"{what}: rate is that of blockette 100 when there is one")
            else:
                qr = lib.real_of(q)
                x.prove(z3.Implies(s == 0, qr == 0), f"{what}: rate zero stays zero")
                x.prove(z3.Implies(s > 0, z3.Or(qr == s, z3.And(qr < 0, qr == RND(z3.simplify(-1 / s))))), f"{what}: the sample rate, or minus its period correctly rounded")
            # flags
            bits = lambda k: h.get(k).t
            flag = lambda v, i: z3.Extract(i, i, v)
            fl = lib.to_bits(g.get("flags"), 8)
            x.prove(flag(fl, 0) == flag(bits("actFlag"), 0), f"{what}: calibration flag bit")
            x.prove(flag(fl, 1) == flag(bits("qualFlag"), 7), f"{what}: time tag questionable flag bit")
            x.prove(flag(fl, 2) == flag(bits("ioFlag"), 5), f"{what}: clock locked flag bit")
            x.prove(z3.Extract(7, 3, fl) == 0, f"{what}: no other flag bits")
            # identifier
            x.prove(z3.BoolVal(len(nslc) == 1 and len(nslc[0]) == 4 and r.get("identifier") is text), f"{what}: identifier is the text of the source identifier")
            if nslc and len(nslc[0]) == 4:
                for a, k in zip(nslc[0], ("network", "station", "location", "channel")): x.prove(z3.BoolVal(a is h.get(k)), f"{what}: source identifier is built from the codes")
            # samples
            check_data(x, it, S, r, g, dk, payload, data, cached, got, little, n, enc, prim, what)
            # extra headers
            check_extras(x, it, S, r, dumped, what)
        return go
    return u

def check_data(x, it, S, r, g, dk, payload, data, cached, got, little, n, enc, prim, what):
    d = r.get("_data")
    F = lambda k: nterm(as_int(g.get(k)))
    if isinstance(d, BA):
        x.cover(f"{what}: payload as it is")
        if dk == "none":
            x.prove(z3.And(nterm(d.seq.n) == 0, F("numSamples") == n.t, F("encoding") == enc), f"{what}: no samples, the count and encoding of the header"); return
        x.prove(z3.BoolVal(payload is not None), f"{what}: payload comes from the record")
        if payload is None: return
        x.prove(z3.And(F("encoding") == enc, F("numSamples") == n.t), f"{what}: encoding and sample count")
        x.prove(z3.Or(z3.BoolVal(little), n.t == 0, z3.Not(z3.Or(prim, enc == 32))), f"{what}: a primitive big endian payload is not taken over as it is")
        x.prove(nterm(d.seq.n) == nterm(payload.seq.n), f"{what}: payload bytes the same")
        x.forall(0, nterm(payload.seq.n), lambda i: d.seq.get(i) == payload.seq.get(i), f"{what}: payload bytes the same")
        return
    src = cached if cached is not None else data if payload is None else (got[0] if got else None)
    if src is None or not isinstance(d, (NArr, AArr)): x.prove(z3.BoolVal(False), f"{what}: samples are those decoded"); return
    x.cover(f"{what}: samples")
    dt = lambda v: v.dt if isinstance(v, NArr) else libnp.aa_dtype(v)
    e = ENC.get(dt(d).type)
    x.prove(z3.And(z3.BoolVal(e is not None), F("encoding") == (e or 0)), f"{what}: encoding is that of the samples")
    x.prove(z3.And(nterm(d.seq.n) == nterm(src.seq.n), F("numSamples") == nterm(src.seq.n)), f"{what}: sample count")
    if dt(d).itemsize == dt(src).itemsize: x.forall(0, nterm(src.seq.n), lambda i: d.seq.get(i) == src.seq.get(i), f"{what}: the samples are those of the record")
    else:
        w = 8 * dt(src).itemsize
        x.forall(0, nterm(src.seq.n), lambda i: z3.SignExt(w - 8 * dt(d).itemsize, d.seq.get(i)) == src.seq.get(i), f"{what}: the samples are those of the record")

def check_extras(x, it, S, r, dumped, what):
    h, B = S.h, S.B
    q = libstr.sterm(h.get("dataquality"))
    tq = B.f["quality"](B.at[1001])
    sec = nterm(as_int(h.get("btime").get("second")))
    hasq, hast, hasl = x.branch(q != z3.StringVal("D")), x.branch(z3.And(B.has(1001), tq != 0)), x.branch(sec == 60)
    eh = r.get("_eh")
    if not (hasq or hast or hasl):
        x.prove(z3.BoolVal(not dumped and (eh is None or eh == "")), f"{what}: no extra headers when there is nothing to keep"); return
    ok = len(dumped) >= 1 and isinstance(dumped[-1], PDict) and list(dumped[-1].d) == ["FDSN"] and isinstance(dumped[-1].d["FDSN"], PDict)
    x.prove(z3.BoolVal(ok), f"{what}: extra headers are written as an FDSN object")
    if not ok: return
    f = dumped[-1].d["FDSN"].d
    x.prove(z3.BoolVal("DataQuality" in f) if hasq else z3.BoolVal("DataQuality" not in f), f"{what}: a data quality other than D is kept as extra header")
    if hasq and "DataQuality" in f: x.prove(libstr.sterm(f["DataQuality"]) == q, f"{what}: the data quality itself")
    t = f.get("Time")
    td = t.d if isinstance(t, PDict) else {}
    x.prove(z3.BoolVal((t is not None) == (hast or hasl) and ("Quality" in td) == hast and ("LeapSecond" in td) == hasl and set(td) <= {"Quality", "LeapSecond"} and set(f) <= {"DataQuality", "Time"}), f"{what}: exactly the timing quality and leap second to keep are extra headers")
    if hast and "Quality" in td: x.prove(eqv(it, td["Quality"], SI(tq)), f"{what}: the timing quality itself")
    if hasl and "LeapSecond" in td: x.prove(eqv(it, td["LeapSecond"], 1), f"{what}: a positive leap second")

SUBS = {"bytes": [None], "bytes cached": DTS, "numpy": DTS + ["int64"], "array": list("hifdl"), "none": [None]}
for _k in SUBS:
    for _s in SUBS[_k]:
        for _o in (0, 1):
            unit(f"mseed2to3.mseed2to3 of a {'big' if _o else 'little'} endian record with {_k}{' ' + _s if _s else ''}", "C20", assume=[WELL, ROUNDING, UTF8])(conv_unit(_k, _s, _o))
