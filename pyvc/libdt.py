"""Model of datetime, timedelta and timezone: exact integer microseconds, the proleptic Gregorian calendar, and the
rounding of timedelta(seconds=float).  Cross-checked on concrete values by selftest.py."""
import ast, builtins, types
from datetime import datetime, timedelta, timezone, tzinfo
import time as _time
import z3
from core import *
from heap import *
import core
from interp import *
import lib
from lib import model, meth, METHODS, BINOPS, EQUALS, COMPARES, as_idx

US_S, US_M, US_H, US_D = 10**6, 60 * 10**6, 3600 * 10**6, 86400 * 10**6
def days_before(y):
    """days before January 1 of year y (proleptic Gregorian; year 1 -> 0)"""
    if isinstance(y, int): m = y - 1; return 365 * m + m // 4 - m // 100 + m // 400
    m = y - 1
    return 365 * m + m / 4 - m / 100 + m / 400
MAXUS = days_before(10000) * US_D
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
def leap_t(y): return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))

class TZ(Sym):
    """some time zone; what matters is the offset of the date-times that carry it"""
    pyclass = timezone
    def __init__(self, label="tz"): self.label = label
    def truth(self): return True

class DT(Sym):
    """us: local microseconds since 0001-01-01; off: UTC offset in microseconds, None when naive"""
    pyclass = datetime
    kind_ = "datetime"
    def __init__(self, us, off, tz=None): self.us, self.off, self.tz = us, off, tz
    def truth(self): return True
    def utc(self): return simp(nterm(self.us) - nterm(self.off)) if not (isinstance(self.us, int) and isinstance(self.off, int)) else self.us - self.off
    def fields(self):
        X = core.X
        if not hasattr(self, "_f"):
            us = nterm(self.us)
            D, r = us / US_D, us % US_D
            y = X.fint("year")
            X.assume(z3.And(days_before(y) <= D, D < days_before(y + 1), y >= 1, y <= 9999))
            self._f = {"year": y, "yday": D - days_before(y) + 1, "hour": r / US_H, "minute": (r % US_H) / US_M, "second": (r % US_M) / US_S, "microsecond": us % US_S}
        return self._f
    def sym_getattr(self, it, name):
        if name == "tzinfo": return None if self.off is None else (self.tz if self.tz is not None else TZ())
        if name in ("year", "hour", "minute", "second", "microsecond"): return intv(simp(self.fields()[name]))
        if name in ("month", "day"):
            f = self.fields()
            m = core.X.fint("month"); yd = f["yday"] - 1
            lp = z3.If(leap_t(f["year"]), 1, 0)
            start = lambda k: z3.IntVal(CUM[k]) + (lp if k > 1 else 0)
            st = start(11)
            for k in range(10, -1, -1): st = z3.If(m == k + 1, start(k), st)
            en = 365 + lp
            for k in range(10, -1, -1): en = z3.If(m == k + 1, start(k + 1), en)
            core.X.assume(z3.And(m >= 1, m <= 12, st <= yd, yd < en))
            return intv(m) if name == "month" else intv(simp(yd - st + 1))
        if (DT, name) in METHODS: return BMethod(self, name)
        if hasattr(datetime, name): raise Unsupported(f"datetime.{name}")
        raise PyRaise(AttributeError, (name,))

class TD(Sym):
    pyclass = timedelta
    kind_ = "timedelta"
    def __init__(self, us): self.us = us
    def truth(self): return nterm(self.us) != 0
    def sym_getattr(self, it, name):
        us = nterm(self.us)
        if name == "days": return intv(simp(us / US_D))
        if name == "seconds": return intv(simp((us % US_D) / US_S))
        if name == "microseconds": return intv(simp(us % US_S))
        if (TD, name) in METHODS: return BMethod(self, name)
        raise PyRaise(AttributeError, (name,))

class TT(Sym):
    """time.struct_time"""
    pyclass = _time.struct_time
    def __init__(self, f): self.f = f
    def sym_getattr(self, it, name):
        k = {"tm_year": "year", "tm_yday": "yday", "tm_hour": "hour", "tm_min": "minute", "tm_sec": "second"}.get(name)
        if k is None: raise Unsupported(f"struct_time.{name}")
        return intv(simp(self.f[k]))

def us_of(v): return nterm(v)
def mk(us, off, tz=None): return DT(simp(us) if not isinstance(us, int) else us, off, tz)

def from_native(d):
    us = (d.toordinal() - 1) * US_D + d.hour * US_H + d.minute * US_M + d.second * US_S + d.microsecond
    o = d.utcoffset()
    return DT(us, None if o is None else o // timedelta(microseconds=1), d.tzinfo)

def tz_offset(it, tz):
    if tz is None: return None
    if tz is timezone.utc: return 0
    if isinstance(tz, timezone): return tz.utcoffset(None) // timedelta(microseconds=1)
    if isinstance(tz, TZ):
        if not hasattr(tz, "off"):
            tz.off = core.X.fint("utcoffset"); core.X.assume(z3.And(tz.off > -US_D, tz.off < US_D))
        return tz.off
    it.exc(TypeError, "tzinfo argument must be None or of a tzinfo subclass")

@model(datetime)
def _datetime(it, args, kw):
    names = ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"]
    d = dict(zip(names, args))
    for k, v in kw.items():
        if k not in names: raise Unsupported(f"datetime({k})") if k == "fold" else PyRaise(TypeError, (k,))
        d[k] = v
    for k in names[:3]:
        if k not in d: it.exc(TypeError, f"missing argument {k}")
    for k in names[3:7]: d.setdefault(k, 0)
    tz = d.pop("tzinfo", None)
    for k, v in d.items():
        if not is_intlike(v): it.exc(TypeError, "integer argument expected")
    v = {k: as_idx(x) for k, x in d.items()}
    if not isinstance(v["month"], int) or not isinstance(v["day"], int): raise Unsupported("datetime with symbolic month")
    mo, da, y = v["month"], v["day"], nterm(v["year"])
    if not 1 <= mo <= 12: it.exc(ValueError, "month must be in 1..12")
    lim = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
    okd = z3.BoolVal(1 <= da <= lim) if not (mo == 2 and da == 29) else leap_t(y)
    ok = z3.And(y >= 1, y <= 9999, okd, *[z3.And(nterm(v[k]) >= 0, nterm(v[k]) < hi) for k, hi in (("hour", 24), ("minute", 60), ("second", 60), ("microsecond", US_S))])
    if not it.branch(boolv(ok)): it.exc(ValueError, "datetime field out of range")
    day = days_before(y) + CUM[mo - 1] + da - 1 + (z3.If(leap_t(y), 1, 0) if mo > 2 else 0)
    us = day * US_D + nterm(v["hour"]) * US_H + nterm(v["minute"]) * US_M + nterm(v["second"]) * US_S + nterm(v["microsecond"])
    return mk(us, tz_offset(it, tz), tz)

def float_us(it, v, unit):
    """timedelta(unit=float): nearest microsecond of value*unit; the product of the fraction is rounded first"""
    X = core.X
    if isinstance(v, float) or v.t is not None: r = lib.real_of(v)
    else: r = lib.bits_real(v)
    exact = z3.simplify(r * z3.RealVal(unit))
    n = z3.Function("timedelta_us", z3.RealSort(), z3.IntSort())(exact)
    eps = z3.RealVal(1) / z3.RealVal(2) + z3.RealVal(1) / z3.RealVal(2**33)
    X.assume(z3.And(z3.ToReal(n) - exact <= eps, exact - z3.ToReal(n) <= eps))
    return n

@model(timedelta)
def _timedelta(it, args, kw):
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    d = dict(zip(names, args)); d.update(kw)
    units = dict(days=US_D, seconds=US_S, microseconds=1, milliseconds=1000, minutes=US_M, hours=US_H, weeks=7 * US_D)
    us, fl = 0, 0
    for k, v in d.items():
        if k not in units: it.exc(TypeError, k)
        if isinstance(v, (float, SF)):
            if isinstance(v, float) and is_native(v):
                try: n = timedelta(**{k: v}) // timedelta(microseconds=1)
                except Exception as e: raise PyRaise(type(e), e.args)
            else: n = float_us(it, v, units[k])
            fl += 1
        elif is_intlike(v): n = nterm(as_idx(v)) * units[k]
        else: it.exc(TypeError, "unsupported type for timedelta")
        us = us + n
    if fl > 1: raise Unsupported("timedelta of two floats")
    us = simp(us) if not isinstance(us, int) else us
    check_td(it, us)
    return TD(us)

def check_td(it, us):
    lim = 10**9 * US_D
    if not it.branch(boolv(z3.And(nterm(us) >= -(lim - US_D), nterm(us) < lim))): it.exc(OverflowError, "timedelta out of range")

def dt_add(it, d, td, sign):
    us = simp(nterm(d.us) + sign * nterm(td.us))
    if not it.branch(boolv(z3.And(nterm(us) >= 0, nterm(us) < MAXUS))): it.exc(OverflowError, "date value out of range")
    return DT(us, d.off, d.tz)
BINOPS[(ast.Add, "datetime", "timedelta")] = lambda it, a, b: dt_add(it, a, b, 1)
BINOPS[(ast.Add, "timedelta", "datetime")] = lambda it, a, b: dt_add(it, b, a, 1)
BINOPS[(ast.Sub, "datetime", "timedelta")] = lambda it, a, b: dt_add(it, a, b, -1)
def dt_sub(it, a, b):
    if (a.off is None) != (b.off is None): it.exc(TypeError, "can't subtract offset-naive and offset-aware datetimes")
    if a.off is None: return TD(simp(nterm(a.us) - nterm(b.us)))
    return TD(simp(nterm(a.utc()) - nterm(b.utc())))
BINOPS[(ast.Sub, "datetime", "datetime")] = dt_sub
BINOPS[(ast.Add, "timedelta", "timedelta")] = lambda it, a, b: TD(simp(nterm(a.us) + nterm(b.us)))
BINOPS[(ast.Sub, "timedelta", "timedelta")] = lambda it, a, b: TD(simp(nterm(a.us) - nterm(b.us)))
def td_mul(it, a, b):
    if isinstance(a, TD): a, b = b, a
    if not is_intlike(a): raise Unsupported("timedelta times float")
    us = simp(nterm(as_idx(a)) * nterm(b.us)); check_td(it, us)
    return TD(us)
for k in ("int", "float"):
    BINOPS[(ast.Mult, k, "timedelta")] = td_mul; BINOPS[(ast.Mult, "timedelta", k)] = td_mul
CMPT = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}
def dt_cmp(it, op, a, b):
    if (a.off is None) != (b.off is None): it.exc(TypeError, "can't compare offset-naive and offset-aware datetimes")
    x, y = (a.us, b.us) if a.off is None else (a.utc(), b.utc())
    return boolv(CMPT[op](nterm(x), nterm(y)))
COMPARES[("datetime", "datetime")] = dt_cmp
COMPARES[("timedelta", "timedelta")] = lambda it, op, a, b: boolv(CMPT[op](nterm(a.us), nterm(b.us)))
def dt_eq(it, a, b):
    if (a.off is None) != (b.off is None): return False
    x, y = (a.us, b.us) if a.off is None else (a.utc(), b.utc())
    return boolv(nterm(x) == nterm(y))
EQUALS[("datetime", "datetime")] = dt_eq
EQUALS[("timedelta", "timedelta")] = lambda it, a, b: boolv(nterm(a.us) == nterm(b.us))

@meth(DT, "astimezone")
def _astimezone(it, o, args, kw):
    tz = args[0] if args else kw.get("tz")
    if o.off is None: raise Unsupported("astimezone of a naive date-time uses the local zone")
    if tz is None: raise Unsupported("local zone")
    off = tz_offset(it, tz)
    us = simp(nterm(o.utc()) + nterm(off))
    if not it.branch(boolv(z3.And(nterm(us) >= 0, nterm(us) < MAXUS))): it.exc(OverflowError, "date value out of range")
    return DT(us, off, tz)
@meth(DT, "replace")
def _replace(it, o, args, kw):
    if args: raise Unsupported("datetime.replace positional")
    r = o
    for k, v in kw.items():
        if k == "tzinfo": r = DT(r.us, tz_offset(it, v), v)
        elif k == "microsecond":
            n = nterm(as_idx(v))
            if not it.branch(boolv(z3.And(n >= 0, n < US_S))): it.exc(ValueError, "microsecond must be in 0..999999")
            r = DT(simp(nterm(r.us) - nterm(r.us) % US_S + n), r.off, r.tz)
        else: raise Unsupported(f"datetime.replace({k})")
    return r
@meth(DT, "utcoffset")
def _utcoffset(it, o, args, kw): return None if o.off is None else TD(o.off)
@meth(DT, "timetuple")
def _timetuple(it, o, args, kw): return TT(o.fields())
@meth(DT, "utctimetuple")
def _utctimetuple(it, o, args, kw): return TT((o if o.off is None else DT(o.utc(), 0)).fields())
@meth(DT, "isoformat", "strftime", "__str__")
def _isoformat(it, o, args, kw):
    import libstr
    return libstr.fresh_str("iso")
@meth(TD, "total_seconds")
def _total_seconds(it, o, args, kw): return lib.it_round(it, "div", z3.ToReal(nterm(o.us)) / 10**6, intv(o.us), 10**6)

def _fromiso(it, args, kw):
    v = args[0]
    if isinstance(v, str):
        try: return from_native(datetime.fromisoformat(v))
        except Exception as e: raise PyRaise(type(e), e.args)
    if not isinstance(v, SS): it.exc(TypeError, "fromisoformat: argument must be str")
    h = builtins.getattr(it, "fromiso_hook", None)
    if h is None: raise Unsupported("fromisoformat of symbolic text")
    return h(it, v)
lib.CLASSMETHODS[(datetime, "fromisoformat")] = _fromiso

def _now(it, args, kw):
    return sym_dt(core.X, "now", naive=not args and not kw)
for _n in ("now", "utcnow"): lib.CLASSMETHODS[(datetime, _n)] = _now

# ---------------------------------------------------------------- double arithmetic on reals
RND = z3.Function("nearest_double", z3.RealSort(), z3.RealSort())
ROUNDING = "double arithmetic gives the exact result rounded to the nearest of 53 bits, whole numbers up to 2**53 exactly (no overflow or underflow)"
def ieee(x):
    """it.float_round: a function of the exact result within half a unit in the last place, exact on whole numbers, keeping order with them"""
    u = z3.RealVal(1) / z3.RealVal(2**53)
    def h(it, what, exact, a, b):
        e = z3.simplify(exact)
        t = RND(e)
        f = z3.ToInt(e)
        big = z3.RealVal(2**53)
        x.assume(z3.Implies(e >= 0, z3.And(t <= e * (1 + u), t >= e * (1 - u))))
        x.assume(z3.Implies(e <= 0, z3.And(t >= e * (1 + u), t <= e * (1 - u))))
        x.assume(z3.Implies(z3.And(e <= big, e >= -big), z3.And(t >= z3.ToReal(f), t <= z3.ToReal(f) + 1, z3.Implies(z3.ToReal(f) == e, t == e))))
        if what == "div" and is_intlike(a) and isinstance(b, int) and b > 0:
            # n/b lies at least 1/b below the next whole number, more than half a unit in the last place for n < 2**53
            n = nterm(as_int(a))
            x.assume(z3.Implies(z3.And(n >= 0, n < 2**53), z3.ToInt(t) == n / b))
        return SF(t)
    return h

def sym_dt(x, name, naive=False, utc=False):
    """any date-time; naive, UTC, or in any zone"""
    us = x.fint(name); x.vars[name] = us
    x.assume(z3.And(us >= 0, us < MAXUS))
    if naive: return DT(us, None)
    if utc: return DT(us, 0, timezone.utc)
    off = x.fint(name + "_offset"); x.vars[name + "_offset"] = off
    x.assume(z3.And(off > -US_D, off < US_D))
    return DT(us, off, TZ())
