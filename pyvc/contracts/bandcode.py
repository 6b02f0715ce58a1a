"""bandCodeForRate against the published band code table."""
from vc import *
import z3, re
from simplemseed import fdsnsourceid as fs

# published table: code, lowest rate, rate above (Hz), response: None, 'broad' (bound at or below 0.1 Hz), 'short'
TABLE = [("J", 5000.0, None, None), ("F", 1000.0, 5000.0, "broad"), ("G", 1000.0, 5000.0, "short"), ("C", 250.0, 1000.0, "broad"), ("D", 250.0, 1000.0, "short"),
         ("H", 80.0, 250.0, "broad"), ("E", 80.0, 250.0, "short"), ("B", 10.0, 80.0, "broad"), ("S", 10.0, 80.0, "short"), ("U", 0.01, 0.1, None),
         ("W", 0.001, 0.01, None), ("R", 0.0001, 0.001, None), ("P", 0.00001, 0.0001, None), ("T", 0.000001, 0.00001, None), ("Q", None, 0.000001, None)]

RND = z3.Function("double_of", z3.RealSort(), z3.RealSort())
def rounding(x):
    """a quotient in double arithmetic: a function of the exact quotient that keeps the sign and positive values positive"""
    def h(it, what, exact, a, b):
        t = RND(z3.simplify(exact))
        x.assume(z3.And(z3.Implies(exact > 0, t > 0), z3.Implies(exact < 0, t < 0), z3.Implies(exact == 0, t == 0)))
        return SF(t)
    return h
ASSUME = ["double division is a function of the exact quotient and keeps its sign; an infinite quotient behaves as a number above every constant of the table; whole numbers are below 2**1024"]

def want(hz, broad):
    """code -> condition"""
    r = lambda v: lib.real_of(v)
    w = {}
    for c, lo, hi, resp in TABLE:
        w[c] = z3.And(hz >= r(lo) if lo is not None else True, hz < r(hi) if hi is not None else True, broad if resp == "broad" else z3.Not(broad) if resp == "short" else True)
    w["M"] = z3.And(hz > 1, hz < 10)
    w["L"] = z3.And(hz > r(0.5), hz <= 1)
    w["V"] = z3.And(hz >= r(0.1), hz <= r(0.5))
    return w

def sym_rate(x, name, kind):
    if kind == "int": return sym_int(x, name)
    t = x.fresh(name, z3.RealSort()); x.vars[name] = t
    return SF(t)

def check(x, code, rate, resp, label):
    x.witness = lambda m: {"rate": num(m, rate), "resp": num(m, resp), "how": 0}
    q = lib.real_of(rate) if not (rate is None) else None
    if rate is None: x.prove(z3.BoolVal(code == "I"), f"bandCodeForRate: a missing rate gives I ({label})"); return
    x.prove((q == 0) == z3.BoolVal(code == "I"), f"bandCodeForRate: I exactly for rate zero ({label})")
    if code == "I": return
    x.assume(q != 0)
    hz = z3.If(q > 0, q, RND(z3.simplify(-1 / q)))
    x.assume(z3.Implies(-1 / q > 0, RND(z3.simplify(-1 / q)) > 0))
    if resp is None: broad = z3.BoolVal(False)
    else:
        l = lib.real_of(resp)
        broad = z3.If(l >= 0, l <= lib.real_of(0.1), RND(z3.simplify(-1 / l)) <= lib.real_of(0.1))
    w = want(hz, broad)
    x.prove(z3.BoolVal(isinstance(code, str) and code in w) if not (isinstance(code, str) and code in w) else w[code], f"bandCodeForRate: the published ranges of {code} hold the rate and response ({label})")
    # the ranges exclude each other: with the obligation above the code is the only one
    for c in w:
        if c != code and code in w: x.prove(z3.Implies(w[code], z3.Not(w[c])), f"band table: {code} and {c} exclude each other")

def num(m, v):
    if v is None or isinstance(v, (int, float)): return v
    r = m.eval(lib.real_of(v), model_completion=True)
    if z3.is_algebraic_value(r): r = r.approx(20)
    f = r.as_fraction() if hasattr(r, "as_fraction") else r.as_long()
    return int(f) if isinstance(v, SI) else float(f)

for rk in ("float", "int", "none"):
    for lk in ("none", "float", "int"):
        def u(x, it, rk=rk, lk=lk):
            x.fork_ifs = True
            it.float_round = rounding(x)
            def go():
                rate = None if rk == "none" else sym_rate(x, "rate", rk)
                resp = None if lk == "none" else sym_rate(x, "response", lk)
                passed, (rate, resp) = omitted(x, it, fs.bandCodeForRate, [rate, resp], **({"sampRatePeriod": None} if rk == "none" else {}), response_lb=None)
                o = attempt(it, fs.bandCodeForRate, *passed)
                x.witness = lambda m: {"rate": num(m, rate), "resp": num(m, resp), "how": 0}
                if not o.ok: x.prove(False, "bandCodeForRate: some code is returned for every rate and response"); return
                x.cover(f"code {o.v}" if isinstance(o.v, str) else "code")
                check(x, o.v, rate, resp, f"{rk} rate, {lk} response")
            return go
        unit(f"fdsnsourceid.bandCodeForRate, {rk} rate, {lk} response", "C14", assume=ASSUME)(u)

@unit("bandCodeForRate: exact boundaries", "C14")
def u_edges(x, it):
    """concrete boundary values, whose quotients are computed in real double arithmetic"""
    def go():
        def is_(r, l, c):
            o = attempt(it, fs.bandCodeForRate, r, l)
            x.witness = lambda m: {"rate": r, "resp": l, "how": 0}
            x.prove(z3.BoolVal(o.ok and isinstance(o.v, str) and o.v == c), f"bandCodeForRate({r}, {l}) is {c}")
        for c, lo, hi, resp in TABLE:
            l = -10.0 if resp == "broad" else None
            if lo is not None:
                is_(lo, l, c)
                if lo <= 1: is_(-float(round(1 / lo)), l, c); is_(-round(1 / lo), l, c)
        for r, c in ((5000, "J"), (1, "L"), (-1, "L"), (0, "I"), (0.0, "I"), (None, "I"), (-10, "V"), (-2.0, "V"), (5e-324, "Q"), (-5e-324, "J"), (1.7e308, "J"), (-1.7e308, "Q")): is_(r, None, c)
        for r, b, s in ((20, "B", "S"), (100, "H", "E"), (500, "C", "D"), (2000, "F", "G")):
            for l in (-10, -10.0, 0.1, 0, 0.0, -100.5): is_(r, l, b)
            for l in (None, 0.11, -9.9, 1): is_(r, l, s)
    return go

@unit("bandcode.json against the published table", "C14")
def u_json(x, it):
    def go():
        J = fs.BAND_CODE_JSON
        for c, lo, hi, resp in TABLE + [("V", 0.1, 1.0, None), ("M", 1.0, 10.0, None), ("L", None, None, None), ("I", None, None, None)]:
            o = attempt(it, fs.bandCodeInfo, c)
            x.prove(z3.BoolVal(o.ok), f"bandCodeInfo: {c} is described")
            e = J.get(c)
            if e is None: continue
            x.prove(z3.BoolVal(e["code"] == c), f"bandcode.json: entry of {c}")
            nums = [float(v) for v in re.findall(r"[0-9.]+", e["rate"])]
            if c in "LI": continue
            x.prove(z3.BoolVal(nums == [v for v in (lo, hi) if v is not None]), f"bandcode.json: published range of {c}")
            x.prove(z3.BoolVal(e["response_lb"].startswith({"broad": ">= 10", "short": "<", None: ""}[resp]) and (resp is not None or e["response_lb"] == "")), f"bandcode.json: response of {c}")
    return go

@unit("fdsnsourceid.FDSNSourceId.createUnknown", "C14")
def u_unknown(x, it):
    def go():
        rate, resp = [None if x.choose(2) else sym_rate(x, n, "float") for n in ("rate", "response")]
        codes = [sym_str(x, n) for n in ("source", "network", "station", "location", "subsource", "band")]
        seen = []
        def c(it, f, a, kw): seen.append((a + [None, None])[:2] + [kw]); return codes[5]
        it.contracts["fdsnsourceid.bandCodeForRate"] = c
        passed, given = omitted(x, it, fs.FDSNSourceId.createUnknown, [rate, codes[0], resp, *codes[1:5]], sampRate=None, sourceCode="H", response_lb=None, networkCode="XX", stationCode="ABC", locationCode="", subsourceCode="U")
        rate, resp = given[0], given[2]
        o = attempt(it, fs.FDSNSourceId.createUnknown, *passed)
        x.cover("createUnknown returns")
        if not o.ok: x.prove(False, "createUnknown: no exception"); return
        x.prove(z3.BoolVal(len(seen) == 1 and {**dict(zip(("sampRatePeriod", "response_lb"), seen[0][:2])), **seen[0][2]} == {"sampRatePeriod": rate, "response_lb": resp}), "createUnknown: band code of its rate and response")
        x.prove(z3.BoolVal(o.v.get("bandCode") is codes[5]), "createUnknown: uses that band code")
        for a, v in zip(("sourceCode", "networkCode", "stationCode", "locationCode", "subsourceCode"), [given[1]] + given[3:]):
            d = {"networkCode": "XX", "stationCode": "ABC"}.get(a)
            x.prove(eqv(it, o.v.get(a), v) if d is None else z3.And(z3.Implies(libstr.sterm(v) != "", eqv(it, o.v.get(a), v)), z3.Implies(libstr.sterm(v) == "", eqv(it, o.v.get(a), d))), f"createUnknown: {a} is the one given" + (f", {d} for none" if d else ""))
    return go
