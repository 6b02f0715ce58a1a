"""Merging of neighbouring miniSEED3 records."""
from vc import *
import z3, json
import numpy as np
from datetime import timezone
import libdt, libstr
from libdt import DT, ieee, ROUNDING, MAXUS, US_S
from libio import *
from simplemseed import mseed3, seedcodec
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, Miniseed3Exception
from header3 import sym_header, LAYOUT, INTS, same_field
from rate13 import sym_real, FINITE, TDROUND, U, LONG

SIZE = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8}     # bytes of a sample; 2 is the 24 bit integer

class Side:
    """one of the records: its header, times by the contracts of C12 and C13"""
    def __init__(self, x, it, nm):
        self.h = h = sym_header(x, it)
        self.s = sym_real(x, f"{nm} sampleRatePeriod"); h.set("sampleRatePeriod", SF(self.s))
        for f, _, _ in INTS: x.vars[f"{nm} {f}"] = h.get(f).t; x.vars.pop(f, None)
        self.us = x.fint(f"{nm}_start"); x.vars[f"{nm} start"] = self.us
        x.assume(z3.And(self.us >= 0, self.us < MAXUS))
        s = self.s
        # exact period q, and the one samplePeriod gives
        self.q, self.p = x.fresh("period", z3.RealSort()), x.fresh("p", z3.RealSort())
        x.assume(z3.If(s > 0, self.q * s == 1, self.q == -s)); x.assume(self.q >= 0)
        x.assume(z3.If(s > 0, z3.And(self.p <= self.q * (1 + U), self.p >= self.q * (1 - U)), self.p == self.q))
        # end time: exact to the microsecond
        self.end = x.fint(f"{nm}_end")
        n = z3.ToReal(h.get("numSamples").t)
        self.dur1 = x.fresh("dur1", z3.RealSort()); x.assume(self.dur1 == self.q * (n - 1))
        self.dur = x.fresh("dur", z3.RealSort()); x.assume(self.dur == self.q * n)
        err = z3.ToReal(self.end) - z3.ToReal(self.us) - self.dur1 * US_S
        x.assume(z3.And(err < 1, err > -1, self.end >= 0, self.end < MAXUS))
        x.assume(z3.And(self.dur <= LONG, self.q <= LONG))
        # the product of period and samples keeps the relative error
        x.assume(z3.And(self.p * n <= self.dur * (1 + U), self.p * n >= self.dur * (1 - U)))
        self.id = sym_str(x, f"{nm} identifier")
        self.rec = Obj(MSeed3Record, header=h, identifier=self.id, _eh=None, _data=None)

def times(x, it, sides):
    def find(o):
        for s in sides:
            if s.h is o or s.rec is o: return s
        raise Unsupported("header of another record")
    def only_get(args):
        if len(args) != 1: raise Unsupported("setter")
        return find(args[0])
    it.contracts["mseed3.MSeed3Header.starttime"] = lambda it, f, args, kw: DT(only_get(args).us, 0, timezone.utc)
    it.contracts["mseed3.MSeed3Header.endtime"] = lambda it, f, args, kw: DT(only_get(args).end, 0, timezone.utc)
    it.contracts["mseed3.MSeed3Header.samplePeriod"] = lambda it, f, args, kw: SF(only_get(args).p)

@unit("mseed3.areCompatible", "C10", assume=[ROUNDING, FINITE, TDROUND, "records last less than 10^9 s and their times lie between years 1 and 9999"])
def u_compat(x, it):
    x.fork_ifs = True
    def go():
        it.float_round = ieee(x)
        a, b = Side(x, it, "a"), Side(x, it, "b")
        times(x, it, (a, b))
        o = attempt(it, mseed3.areCompatible, a.rec, b.rec)
        if not o.ok:
            # the expected next start is a date after year 9999
            x.prove(z3.And(z3.BoolVal(o.v.cls is OverflowError), z3.ToReal(a.us) + (a.dur + 1) * US_S >= MAXUS), "areCompatible: fails only when the expected next sample is after year 9999"); return
        r = it.truth(o.v); r = z3.BoolVal(r) if isinstance(r, bool) else r
        x.cover("compatible", r); x.cover("not compatible", z3.Not(r))
        same = {"identifier": a.id.t == b.id.t, "sample rate": a.s == b.s, "encoding": a.h.get("encoding").t == b.h.get("encoding").t, "publication version": a.h.get("publicationVersion").t == b.h.get("publicationVersion").t}
        for k, c in same.items(): x.prove(z3.Implies(r, c), f"areCompatible: only with the same {k}")
        x.prove(z3.Implies(r, b.us > a.end), "areCompatible: only if the second starts after the last sample of the first")
        late = z3.ToReal(b.us) - z3.ToReal(a.us) - a.dur * US_S      # exact lateness after the expected next sample, microseconds
        half = a.q * US_S / 2
        x.prove(z3.Implies(r, late < half + 2), "areCompatible: only if the second starts less than half a sample after the expected time (to 2 microseconds)")
        x.prove(z3.Implies(z3.And(*same.values(), b.us > a.end, late < half - 2), r), "areCompatible: whenever identifier, rate, encoding and version are equal and the second starts after the first and less than half a sample late (to 2 microseconds)")
    return go

def sym_record(x, it, nm, enc, kind):
    """record of n samples whose payload is bytes (any number), or an array of the type of its encoding"""
    h = sym_header(x, it)
    h.set("encoding", enc)
    n = h.get("numSamples").t
    x.vars[f"{nm} samples"] = n
    w = SIZE.get(enc, 1)
    if kind < 2:
        m = sym_int(x, f"{nm} payload bytes", 0)
        d = sym_bytes(x, f"{nm}_payload", m.t, mutable=kind == 1); seq = d.seq
    else:
        dt = np.dtype({1: "i2", 3: "i4", 4: "f4", 5: "f8"}[enc])
        A = z3.Function(f"{nm}_samples{next(x.counter)}", z3.IntSort(), z3.BitVecSort(8 * w))
        d = NArr(dt, Seq(n, lambda i: A(nterm(i))))
        B = z3.Function(f"{nm}_bytes{next(x.counter)}", z3.IntSort(), z3.BitVecSort(8))
        seq = Seq(simp(n * w), lambda i: B(nterm(i)))       # what encode gives for it, C05
    ehk = x.choose(2)
    eh = (None, JV(x.fresh(f"{nm}_eh", JS)))[ehk]
    r = Obj(MSeed3Record, header=h, identifier=sym_str(x, f"{nm} identifier"), _eh=eh, _data=d)
    return r, seq

def snapshot(r): return (dict(r.a), dict(r.get("header").a), r.get("_data").seq, r.get("_eh").content if isinstance(r.get("_eh"), JV) else None)
def same_record(r, s):
    return all(r.a.get(k) is v for k, v in s[0].items()) and all(r.get("header").a.get(k) is v for k, v in s[1].items()) and r.get("_data").seq is s[2] and (s[3] is None or r.get("_eh").content.eq(s[3]))

def merge_unit(enc):
    def u(x, it):
        x.fork_ifs = True
        def go():
            nk = 3 if enc in SIZE and enc != 2 else 2; ka, kb = x.choose(nk), x.choose(nk)
            e = enc
            if enc not in SIZE:
                e = sym_int(x, "encoding", 0, 255)
                x.assume(z3.And(*[e.t != k for k in SIZE]))
            a, sa = sym_record(x, it, "a", e, ka)
            b, sb = sym_record(x, it, "b", e, kb)
            if kb < 2 and x.choose(2): b.get("header").set("encoding", sym_int(x, "other encoding", 0, 255))
            data = {id(a.get("_data")): sa, id(b.get("_data")): sb}
            def encode(it, f, args, kw):
                k = dict(zip(("data", "encoding", "littleEndian"), args)); k.update(kw)
                s = data.get(id(k["data"]))
                if s is None: raise Unsupported("encoding of other data")
                x.prove(z3.And(eqv(it, k.get("encoding"), enc), z3.BoolVal(k.get("littleEndian", True) is True)), "mseed3merge: payload in the encoding of the records")
                return it.call(seedcodec.EncodedDataSegment, [enc, BA(s, False), intv(0), True])
            it.contracts["seedcodec.encode"] = encode
            asked = []
            def compat(it, f, args, kw):
                if len(args) > 2 or kw: raise Unsupported("tolerance of areCompatible")
                x.prove(z3.BoolVal(len(args) == 2 and args[0] is a and args[1] is b), "mseed3merge: compatible in the order of the arguments")
                r = x.branch(x.fbool("compatible"))
                if r: x.assume(nterm(as_int(a.get("header").get("encoding"))) == nterm(as_int(b.get("header").get("encoding"))))
                asked.append(r)
                return r
            it.contracts["mseed3.areCompatible"] = compat
            sna, snb = snapshot(a), snapshot(b)
            o = attempt(it, mseed3.mseed3merge, a, b)
            x.prove(z3.BoolVal(same_record(a, sna) and same_record(b, snb)), "mseed3merge: leaves the records as they are")
            na, nb = a.get("header").get("numSamples").t, b.get("header").get("numSamples").t
            w = SIZE.get(enc, 0)
            if not o.ok:
                x.prove(z3.And(z3.BoolVal(o.v.cls is Miniseed3Exception and asked == [True]), z3.Or(nterm(sa.n) < na * w, nterm(sb.n) < nb * w)), "mseed3merge: fails only for a payload with too few bytes for the samples"); return
            out = o.v.seq.items if isinstance(o.v, PList) and isinstance(o.v.seq, CSeq) else None
            if out is None: x.prove(z3.BoolVal(False), "mseed3merge: a list of records"); return
            if len(out) == 2:
                x.cover("passed through")
                x.prove(z3.BoolVal(out[0] is a and out[1] is b), "mseed3merge: records that are not merged are passed through unchanged")
                x.prove(z3.BoolVal(enc not in SIZE or asked == [False]), "mseed3merge: compatible records of a primitive encoding are merged")
                return
            x.cover("merged")
            x.prove(z3.BoolVal(len(out) == 1 and asked == [True] and enc in SIZE), "mseed3merge: only compatible records of a primitive encoding are merged")
            if len(out) != 1 or enc not in SIZE: return
            m = out[0]
            if m is a or m is b: x.prove(z3.BoolVal(False), "mseed3merge: a new record"); return
            h, mh = a.get("header"), m.get("header")
            x.prove(z3.BoolVal(mh is not h and mh is not b.get("header")), "mseed3merge: a header of its own")
            for f, _, k in LAYOUT:
                if f not in ("numSamples", "crc", "identifierLength", "extraHeadersLength", "dataLength"): same_field(x, h, mh, f, k, f"mseed3merge: {f} is that of the first")
            x.prove(nterm(as_int(mh.get("numSamples"))) == na + nb, "mseed3merge: samples of both are counted")
            x.prove(libstr.sterm(m.get("identifier")) == libstr.sterm(a.get("identifier")), "mseed3merge: identifier is that of the first")
            d = m.get("_data")
            if not isinstance(d, BA): raise Unsupported("merged payload")
            x.prove(nterm(d.seq.n) == w * (na + nb), "mseed3merge: payload is that of all the samples")
            x.forall(0, w * na, lambda i: d.seq.get(i) == sa.get(i), "mseed3merge: the samples of the first come first")
            x.forall(0, w * nb, lambda i: d.seq.get(simp(w * na + i)) == sb.get(i), "mseed3merge: followed by the samples of the second")
            x.prove(z3.BoolVal(d is not a.get("_data") and d is not b.get("_data")), "mseed3merge: a payload of its own")
            e1, e2 = a.get("_eh"), m.get("_eh")
            if isinstance(e2, JV): x.prove(z3.And(z3.BoolVal(e2 is not e1 and isinstance(e1, JV)), e2.content == e1.content) if isinstance(e1, JV) else z3.BoolVal(False), "mseed3merge: extra headers are those of the first, in a dict of its own")
            else: x.prove(z3.BoolVal(e2 is None) if e1 is None else JLEN(e1.content) == 0, "mseed3merge: extra headers are those of the first")
        return go
    unit(f"mseed3.mseed3merge, encoding {enc}", "C10", assume=[JSON, "areCompatible by its contract, encode by that of C05"], weight=2)(u)
for _e in (1, 2, 3, 4, 5, "not primitive"): merge_unit(_e)

@unit("mseed3.mseed3merge with nothing", "C10")
def u_none(x, it):
    x.fork_ifs = True
    def go():
        k = x.choose(3)
        r = Obj(MSeed3Record, header=sym_header(x, it), identifier=sym_str(x, "identifier"), _eh=None, _data=None)
        a, b = ((r, None), (None, r), (None, None))[k]
        o = it.call(mseed3.mseed3merge, [a, b])
        out = o.seq.items
        x.cover(f"merge with nothing {k}")
        if k < 2: x.prove(z3.BoolVal(len(out) == 1 and out[0] is r), "mseed3merge: the only record is returned")
    return go
