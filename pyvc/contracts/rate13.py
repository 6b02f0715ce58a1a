"""Sample rate, sample period, end time and next start time."""
from vc import *
import z3
from datetime import timezone
import libdt, libstr
from libdt import DT, TD, ieee, ROUNDING, MAXUS, US_S
from simplemseed import mseed3, miniseed
from simplemseed.mseed3 import MSeed3Header, MSeed3Record
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord
from header3 import sym_header
from time3 import valid_fields

RATE, PERIOD, END = MSeed3Header.sampleRate, MSeed3Header.samplePeriod, MSeed3Header.endtime
FINITE = "the stored rate/period value is finite, and so is its reciprocal"
TDROUND = "timedelta(seconds=x) is x to the nearest microsecond (cross-checked by pyvc/selftest.py)"
U = z3.RealVal(1) / z3.RealVal(2**53)
LONG = z3.RealVal(10**9)      # seconds: about 31 years, where the end time must still be right to the microsecond

def sym_real(x, name):
    t = x.fresh(name, z3.RealSort()); x.vars[name] = t
    return t

def near(a, b, u):
    """a is within relative u of b"""
    return z3.And(z3.Implies(b >= 0, z3.And(a <= b * (1 + u), a >= b * (1 - u))), z3.Implies(b <= 0, z3.And(a >= b * (1 + u), a <= b * (1 - u))))

def nearest(it, v, exact):
    """v is what one correctly rounded operation gives for the exact value"""
    return lib.real_of(v) == lib.real_of(it.float_round(it, "spec", exact, None, None))

@unit("mseed3.MSeed3Header.sampleRate and samplePeriod", "C13", assume=[ROUNDING, FINITE])
def u_get(x, it):
    x.fork_ifs = True
    def go():
        it.float_round = ieee(x)
        h = sym_header(x, it)
        s = sym_real(x, "sampleRatePeriod"); h.set("sampleRatePeriod", SF(s))
        before = dict(h.a)
        r, p = it.call(RATE.fget, [h]), it.call(PERIOD.fget, [h])
        r, p = lib.real_of(r), lib.real_of(p)
        x.cover("rate", s > 0); x.cover("period", s < 0); x.cover("zero", s == 0)
        x.prove(z3.Implies(s >= 0, r == s), "sampleRate: a non-negative stored value is the rate in hertz")
        x.prove(z3.Implies(s < 0, p == -s), "samplePeriod: a negative stored value is minus the period in seconds")
        x.prove(z3.Implies(s == 0, p == 0), "samplePeriod: zero without a rate")
        x.prove(z3.Implies(s < 0, z3.And(r * (-s) <= 1 + U, r * (-s) >= 1 - U)), "sampleRate: reciprocal of a stored period, to the last place")
        x.prove(z3.Implies(s > 0, z3.And(p * s <= 1 + U, p * s >= 1 - U)), "samplePeriod: reciprocal of a stored rate, to the last place")
        x.prove(z3.BoolVal(all(h.a[f] is before[f] for f in before)), "sampleRate and samplePeriod: change no field")
    return go

@unit("mseed3.MSeed3Header.sampleRate and samplePeriod setters", "C13", assume=[ROUNDING, FINITE])
def u_set(x, it):
    x.fork_ifs = True
    def go():
        it.float_round = ieee(x)
        h = sym_header(x, it)
        kind = x.choose(2)
        v = sym_real(x, "value")
        x.assume(v > 0)
        before = dict(h.a)
        it.call((RATE, PERIOD)[kind].fset, [h, SF(v)])
        x.cover(("rate set", "period set")[kind])
        back = lib.real_of(it.call((RATE, PERIOD)[kind].fget, [h]))
        stored = lib.real_of(h.get("sampleRatePeriod"))
        if kind == 0:
            x.prove(stored == v, "sampleRate setter: stores the rate"); x.prove(back == v, "sampleRate: set and get agree")
        else:
            x.prove(stored == -v, "samplePeriod setter: stores minus the period"); x.prove(back == v, "samplePeriod: set and get agree")
        x.prove(z3.BoolVal(all(h.a[f] is before[f] for f in before if f != "sampleRatePeriod")), "sampleRate and samplePeriod setters: other fields stay")
    return go

def start_contract(x, it, qual):
    us = x.fint("start"); x.vars["start_us"] = us
    x.assume(z3.And(us >= 0, us < MAXUS))
    st = DT(us, 0, timezone.utc)
    it.contracts[qual] = lambda it, f, args, kw: st
    return us

def check_end(x, got, start, dur, what):
    """got is start plus dur seconds (exact), to the microsecond"""
    if not (isinstance(got, DT) and got.off is not None): x.prove(z3.BoolVal(False), f"{what}: a date-time in UTC"); return
    err = z3.ToReal(nterm(got.utc())) - z3.ToReal(start) - dur * US_S
    x.prove(z3.Implies(z3.And(dur <= LONG, dur >= -LONG), z3.And(err < 1, err > -1)), f"{what}, to the microsecond")

@unit("mseed3.MSeed3Header.endtime", "C13 C10", assume=[ROUNDING, FINITE, TDROUND])
def u_end(x, it):
    x.fork_ifs = True
    def go():
        it.float_round = ieee(x)
        h = sym_header(x, it)
        s = sym_real(x, "sampleRatePeriod"); h.set("sampleRatePeriod", SF(s))
        start = start_contract(x, it, "mseed3.MSeed3Header.starttime")
        m = z3.ToReal(h.get("numSamples").t) - 1
        q = x.fresh("period", z3.RealSort())      # the exact period
        x.assume(z3.If(s > 0, q * s == 1, q == -s))
        # the period of the contract of samplePeriod
        p = x.fresh("p", z3.RealSort())
        x.assume(z3.If(s > 0, z3.And(p <= q * (1 + U), p >= q * (1 - U)), p == q)); x.assume(q >= 0)
        def per(it, f, args, kw):
            if len(args) != 1: raise Unsupported("samplePeriod setter")
            return SF(p)
        it.contracts["mseed3.MSeed3Header.samplePeriod"] = per
        o = attempt(it, END.fget, h)
        dur = x.fresh("duration", z3.RealSort())
        x.assume(dur == q * m)
        x.cover(f"endtime {'ok' if o.ok else 'out of range'}")
        # q*(1+-U)*m lies within U*|dur| of dur
        e = p * m
        x.prove(z3.Implies(z3.And(m >= 0, q >= 0), z3.And(q * m * (1 - U) <= e, e <= q * m * (1 + U))), "endtime: the product keeps the relative error of the period")
        if not o.ok: x.prove(z3.Implies(z3.And(dur <= LONG, dur >= -LONG), z3.Or(z3.ToReal(start) + (dur + 1) * US_S >= MAXUS, z3.ToReal(start) + (dur - 1) * US_S <= 0)), "endtime: fails only outside years 1 to 9999"); return
        check_end(x, o.v, start, dur, "endtime: start plus (samples - 1) periods")
    return go

# ---------------------------------------------------------------- format version 2
def sym_record2(x, it, rate, n, **kw):
    codes = [sym_str(x, k) for k in ("network", "station", "location", "channel")]
    us = x.fint("start"); x.vars["start_us"] = us
    x.assume(z3.And(us >= 0, us < MAXUS))
    h = it.call(MiniseedHeader, codes + [DT(us, 0, timezone.utc), n, rate], kw)
    return it.call(MiniseedRecord, [h, None]), us

@unit("miniseed.MiniseedRecord.endtime and next_starttime", "C13", assume=[ROUNDING, TDROUND])
def u_end2(x, it):
    x.fork_ifs = True
    def go():
        it.float_round = ieee(x)
        which = x.choose(2)
        n = sym_int(x, "numSamples", 0)
        s = sym_real(x, "sampleRate"); x.assume(s > 0)
        rec, start = sym_record2(x, it, 1.0, n)
        rec.get("header").set("sampleRate", SF(s))
        f, k, nm = ((MiniseedRecord.endtime, z3.ToReal(n.t) - 1, "endtime: start plus (samples - 1) periods"), (MiniseedRecord.next_starttime, z3.ToReal(n.t), "next_starttime: start plus samples periods, one period after the end"))[which]
        o = attempt(it, f, rec)
        x.cover(f"version 2 {nm.split(':')[0]} {'ok' if o.ok else 'out of range'}")
        dur = x.fresh("duration", z3.RealSort()); x.assume(dur * s == k)
        if not o.ok: x.prove(z3.Implies(z3.And(dur <= LONG, dur >= -LONG), z3.Or(z3.ToReal(start) + (dur + 1) * US_S >= MAXUS, z3.ToReal(start) + (dur - 1) * US_S <= 0)), f"MiniseedRecord.{nm.split(':')[0]}: fails only outside years 1 to 9999"); return
        check_end(x, o.v, start, dur, f"MiniseedRecord.{nm}")
    return go

@unit("miniseed.MiniseedHeader.setSampleRate", "C13 C19", assume=[ROUNDING, TDROUND, "the period is within the range of timedelta"])
def u_setrate(x, it):
    x.fork_ifs = True
    def go():
        it.float_round = ieee(x)
        rec, start = sym_record2(x, it, 1.0, sym_int(x, "numSamples", 0))
        h = rec.get("header"); before = dict(h.a)
        s = sym_real(x, "sampleRate"); x.assume(s >= 0)
        o = attempt(it, MiniseedHeader.setSampleRate, h, SF(s))
        x.cover(f"setSampleRate {'ok' if o.ok else 'out of range'}")
        if not o.ok: x.prove(z3.And(z3.BoolVal(o.v.cls is OverflowError), s < 1), "setSampleRate: fails only for a period outside the range of timedelta"); return
        x.prove(lib.real_of(h.get("sampleRate")) == s, "setSampleRate: sets the rate")
        x.prove(z3.BoolVal(all(h.a[k] is before[k] for k in before if k not in ("sampleRate", "sampPeriod"))), "setSampleRate: other fields stay")
    return go

def no_failure(x, it, f, args, what):
    o = attempt(it, f, *args)
    x.prove(z3.BoolVal(o.ok and isinstance(o.v, (str, SS))), f"{what} does not fail with rate zero")

@unit("records of rate zero are listed", "C13", assume=["text of a date-time, and of the codes of a record, exists"])
def u_zero(x, it):
    def go():
        it.float_round = ieee(x)
        it.strip_hook = lambda it, o: libstr.fresh_str("stripped")
        it.replace_hook = lambda it, o, a: libstr.fresh_str("replaced")
        it.contracts["fdsnsourceid.FDSNSourceId.fromNslc"] = lambda it, f, args, kw: libstr.fresh_str("sourceid")
        which = x.choose(2)
        if which == 0:
            enc = (-1, 0)[x.choose(2)]
            rec, start = sym_record2(x, it, 0, sym_int(x, "numSamples", 0), encoding=enc)
            x.cover("version 2, rate zero")
            for f in (MiniseedRecord.summary, MiniseedRecord.__str__, MiniseedRecord.details):
                no_failure(x, it, f, [rec], f"MiniseedRecord.{f.__name__}")
            for f in (MiniseedRecord.endtime, MiniseedRecord.next_starttime):
                o = attempt(it, f, rec)
                x.prove(z3.And(z3.BoolVal(o.ok), nterm(o.v.utc()) == start) if o.ok and isinstance(o.v, DT) else z3.BoolVal(False), f"MiniseedRecord.{f.__name__}: the start when there is no rate")
        else:
            h = sym_header(x, it); h.set("sampleRatePeriod", (0, 0.0)[x.choose(2)])
            start_contract(x, it, "mseed3.MSeed3Header.starttime")
            rec = Obj(MSeed3Record, header=h, identifier=sym_str(x, "identifier"), _eh=None, _data=None)
            x.cover("version 3, rate zero")
            for f in (MSeed3Record.summary, MSeed3Record.__str__, MSeed3Record.details):
                no_failure(x, it, f, [rec], f"MSeed3Record.{f.__name__}")
    return go
