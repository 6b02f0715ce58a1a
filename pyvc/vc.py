"""Verification units: a unit is a contract on functions of /repo plus the code that generates its obligations."""
import os, sys, time, traceback
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in ("/opt/venv/lib/python3.12/site-packages",):
    if p not in sys.path: sys.path.append(p)
if sys.path[0] != os.path.join(REPO, "src"): sys.path.insert(0, os.path.join(REPO, "src"))
import z3
import core
from core import *
from heap import *
from interp import *
import lib, libnp, libstr, libdt, libio

UNITS = []
class Unit:
    def __init__(self, name, pids, fn, assume=(), timeout=20.0, weight=1, thorough=False, replay=None):
        self.name, self.pids, self.fn, self.assume, self.timeout, self.weight, self.thorough = name, pids, fn, list(assume), timeout, weight, thorough

def unit(name, pids, **kw):
    def deco(f):
        UNITS.append(Unit(name, pids.split() if isinstance(pids, str) else pids, f, **kw))
        return f
    return deco

def run_unit(u, budget=600):
    t0 = time.time()
    x = Explorer(timeout=u.timeout, deadline=t0 + budget)
    core.set_explorer(x)
    err = None
    try:
        it = Interp()
        it.unit = u
        setup = u.fn(x, it)
        # the unit either explores by itself (returns None) or returns the thunk to explore
        if callable(setup): x.run_all(setup)
    except Unsupported as e: err = f"not within the verifier's reach: {e} at {getattr(it, 'line', None)}"
    except PyRaise as e: err = f"the code raises {e.cls.__name__} {e.args_} outside the contract at {getattr(it, 'line', None)}"
    except RecursionError: err = "recursion limit"
    except Exception as e:
        err = f"{type(e).__name__}: {e} | " + " / ".join(l.strip() for l in traceback.format_exc().splitlines()[-7:])
    obs = {}
    for o in x.obs:
        g = obs.setdefault(o.name, {"name": o.name, "status": "discharged", "backend": set(), "secs": 0.0, "count": 0, "detail": None, "case": None, "model": None})
        g["count"] += 1; g["secs"] += o.secs; g["backend"].add(o.backend)
        if o.status != "discharged" and g["status"] == "discharged":
            g["status"] = o.status; g["detail"] = o.detail; g["case"] = getattr(o, "case", None); g["model"] = o.model
    out = list(obs.values())
    for n, ok in x.covers.items():
        if ok is False: out.append({"name": f"reachable: {n}", "status": "vacuous", "backend": {"z3"}, "secs": 0, "count": 1, "detail": None, "case": None, "model": None})
    if err: out.append({"name": f"{u.name}: all paths of the code are covered", "status": "undecided", "backend": {"pyvc"}, "secs": 0, "count": 1, "detail": err, "case": None, "model": None})
    elif not obs: out.append({"name": f"{u.name}: has obligations", "status": "undecided", "backend": {"pyvc"}, "secs": 0, "count": 1, "detail": "no obligation was generated", "case": None, "model": None})
    for o in out: o["backend"] = "+".join(sorted(o["backend"])); o["secs"] = round(o["secs"], 3)
    return {"name": u.name, "functions": sorted(x.functions), "obligations": out, "assumptions": u.assume + sorted(set(x.axioms)), "secs": round(time.time() - t0, 2),
            "paths": x.stats["paths"], "covers": sorted(n for n, ok in x.covers.items() if ok is not None), "covers_open": sorted(n for n, ok in x.covers.items() if ok is None), "solver_secs": round(x.stats["solver_secs"] + x.stats["branch_secs"], 2), "branch_checks": x.stats["branch_checks"]}

# ---------------------------------------------------------------- helpers for contracts
class Outcome:
    """result of a call: ('ok', value) or ('exc', PyRaise)"""
    def __init__(self, kind, v): self.kind, self.v = kind, v
    @property
    def ok(self): return self.kind == "ok"

def attempt(it, f, *args, **kw):
    try: return Outcome("ok", it.call(f, list(args), kw))
    except PyRaise as e: return Outcome("exc", e)

def omitted(x, it, fn, args, **doc):
    """-> (positional arguments for a call, their values). The last parameters (named in doc, with their documented defaults) may be
    left out. Where the defaults of the code are the documented ones, a call that omits them is the call that gives them (rule of
    argument binding), which the unit proves; where they are not, a second set of paths calls without them and asks for the same."""
    import inspect
    ps = inspect.signature(fn).parameters
    nm = f"{fn.__name__}: arguments left out are the documented ones"
    d = {k: ps[k].default for k in doc}
    same = all(type(d[k]) is type(v) and d[k] == v for k, v in doc.items())
    x.prove(z3.BoolVal(all(k in ps and ps[k].default is not ps[k].empty for k in doc)), nm + ": they may be left out")
    if same or not x.choose(2): return list(args), list(args)
    full, cut = list(args), len(args) - len(doc)
    for k, (name, v) in enumerate(doc.items()):
        a = full[cut + k]
        e = None if isinstance(a, Sym) and v is None else lib.equal(it, a, v)
        if e is None or e is False: full[cut + k] = lift(v)
        elif e is not True: x.assume(bterm(e))
    if not x.feasible(z3.BoolVal(True)): raise PathEnd()
    return list(args)[:cut], full

def sym_int(x, name, lo=None, hi=None):
    t = x.fint(name); x.vars[name] = t
    if lo is not None: x.assume(t >= lo)
    if hi is not None: x.assume(t <= hi)
    return SI(t)

def sym_bv_int(x, name, w, signed=True):
    """python int of w bits held as a bit-vector"""
    t = x.fbv(w, name); x.vars[name] = t
    return SB(t) if signed else SB(z3.ZeroExt(1, t))

def sym_bytes(x, name, n, mutable=False):
    """bytes of length n (int or Int term), free contents"""
    if isinstance(n, int) and n <= 256:
        bs = [x.fbv(8, f"{name}{i}") for i in range(n)]
        for i, b in enumerate(bs): x.vars[f"{name}[{i}]"] = b
        return BA(CSeq(bs), mutable)
    A = z3.Function(f"{name}!{next(x.counter)}", z3.IntSort(), z3.BitVecSort(8))
    return BA(Seq(n, lambda i: A(nterm(i))), mutable)

def sym_str(x, name):
    t = x.fresh(name, z3.StringSort()); x.vars[name] = t
    return SS(t)

def eqv(it, a, b):
    """equality of two values as a z3 Bool"""
    r = it.lib.equal(it, a, b)
    return z3.BoolVal(r) if isinstance(r, bool) else bterm(r)

def mval(model, t):
    v = model.eval(t, model_completion=True)
    if z3.is_bv_value(v) or z3.is_int_value(v): return v.as_long()
    if z3.is_string_value(v): return v.as_string()
    return str(v)
