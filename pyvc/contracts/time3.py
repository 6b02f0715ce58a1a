"""Start time of a miniSEED3 header: setter, getter and their composition."""
from vc import *
import z3
import libdt, libstr
from libdt import DT, TD, sym_dt, ieee, days_before, MAXUS, US_S, US_M, US_H, US_D, ROUNDING
from simplemseed.mseed3 import MSeed3Header, Miniseed3Exception
from simplemseed import mseed3
from header3 import sym_header, INTS

SETTER, GETTER = MSeed3Header.starttime.fset, MSeed3Header.starttime.fget
def F(h, k): return nterm(as_int(h.get(k)))

def denotes(h, us, exact_ns=True):
    """fields of the header in normal form denote the instant us (microseconds since 0001-01-01 UTC)"""
    y, d = F(h, "year"), F(h, "dayOfYear")
    t = (days_before(y) + d - 1) * US_D + F(h, "hour") * US_H + F(h, "minute") * US_M + F(h, "second") * US_S
    return [("year in range", z3.And(y >= 1, y <= 9999)), ("day of year in the year", z3.And(d >= 1, days_before(y) + d - 1 < days_before(y + 1))),
            ("hour", z3.And(F(h, "hour") >= 0, F(h, "hour") < 24)), ("minute", z3.And(F(h, "minute") >= 0, F(h, "minute") < 60)), ("second", z3.And(F(h, "second") >= 0, F(h, "second") < 60)),
            ("nanosecond", z3.And(F(h, "nanosecond") >= 0, F(h, "nanosecond") < 10**9, F(h, "nanosecond") % 1000 == 0)),
            ("instant", t + F(h, "nanosecond") / 1000 == us)]

@unit("mseed3.MSeed3Header.starttime setter", "C12", assume=["the UTC offset of a date-time is below 24 hours", "datetime.fromisoformat gives the date-time its text denotes, Z written as +00:00"])
def u_set(x, it):
    x.fork_ifs = True
    def go():
        h = sym_header(x, it)
        before = dict(h.a)
        kind = x.choose(4)
        txt, seen = None, []
        if kind >= 2:
            txt = sym_str(x, "text"); fixed = libstr.fresh_str("fixed")
            dt = sym_dt(x, "time", naive=kind == 3)
            def rep(it, o, a):
                x.prove(z3.BoolVal(o is txt and tuple(a) == ("Z", "+00:00")), "starttime setter: ISO text is read with Z as UTC")
                seen.append(1); return fixed
            it.replace_hook = rep
            def fromiso(it, v):
                x.prove(z3.BoolVal(v is fixed or v is txt), "starttime setter: reads the text given"); return dt
            it.fromiso_hook = fromiso
        else: dt = sym_dt(x, "time", naive=kind == 1)
        arg = txt if kind >= 2 else dt
        us = nterm(dt.us) if dt.off is None else nterm(dt.utc())
        o = attempt(it, SETTER, h, arg)
        inr = z3.And(us >= 0, us < MAXUS)
        nm = ("aware", "naive", "aware text", "naive text")[kind]
        x.cover(f"set from {nm} {'ok' if o.ok else 'refused'}") if o.ok else None
        if not o.ok:
            x.prove(z3.Not(inr), f"starttime setter: refuses only an instant outside years 1 to 9999 UTC ({nm})"); return
        for k, c in denotes(h, us): x.prove(c, f"starttime setter, {nm}: {k}")
        keep = [f for f in before if f not in ("year", "dayOfYear", "hour", "minute", "second", "nanosecond")]
        x.prove(z3.BoolVal(all(h.a[f] is before[f] for f in keep)), "starttime setter: other fields stay")
    return go

@unit("starttime: set then get", "C12")
def u_setget(x, it):
    """the postconditions of the setter and of the getter together"""
    def go():
        h = sym_header(x, it)
        us = x.fint("instant"); x.assume(z3.And(us >= 0, us < MAXUS))
        for k, c in denotes(h, us): x.assume(c)
        x.cover("a stored instant")
        x.prove(z3.And(valid_fields(h), instant(h) == us), "starttime: set and get give the same instant in UTC")
    return go

def valid_fields(h):
    y, d, H, M, S, ns = (F(h, k) for k in ("year", "dayOfYear", "hour", "minute", "second", "nanosecond"))
    return z3.And(y >= 1, y <= 9999, d >= 1, d <= 366, H >= 0, H < 24, M >= 0, M < 60, S >= 0, S <= 60, ns >= 0, ns < 10**9)
def instant(h):
    y, d, H, M, S, ns = (F(h, k) for k in ("year", "dayOfYear", "hour", "minute", "second", "nanosecond"))
    return (days_before(y) + d - 1) * US_D + H * US_H + M * US_M + S * US_S + ns / 1000

@unit("mseed3.MSeed3Header.starttime setter, other types", "C12")
def u_set_bad(x, it):
    def go():
        h = sym_header(x, it)
        v = (sym_int(x, "n"), None, PList(CSeq([])))[x.choose(3)]
        o = attempt(it, SETTER, h, v)
        x.prove(z3.BoolVal(not o.ok and o.v.cls is Miniseed3Exception), "starttime setter: anything but a date-time or text is refused")
    return go

@unit("mseed3.MSeed3Header.starttime getter", "C12 C13", assume=[ROUNDING])
def u_get(x, it):
    x.fork_ifs = True
    def go():
        it.float_round = ieee(x)
        h = sym_header(x, it)
        x.assume(valid_fields(h))
        before = dict(h.a)
        want = instant(h)
        o = attempt(it, GETTER, h)
        x.cover(f"get {'ok' if o.ok else 'refused'}")
        if not o.ok: x.prove(want >= MAXUS, "starttime getter: fails only past year 9999"); return
        g = o.v
        ok = isinstance(g, DT) and g.off is not None
        x.prove(z3.And(nterm(g.utc()) == want, nterm(g.off) == 0) if ok else z3.BoolVal(False), "starttime getter: valid fields read as the instant they denote, in UTC, cut to the microsecond")
        x.prove(z3.BoolVal(all(h.a[f] is before[f] for f in before)), "starttime getter: changes no field")
    return go
