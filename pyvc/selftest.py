"""Cross-check of pyvc against CPython: python3-vt selftest.py [--seed N] [--only NAME] [-v]

Every function of selfcases.py is run by CPython, and by pyvc twice: on the values themselves, and on symbolic values of which
only an assumption says what they are (so that the symbolic models decide, not constant folding). Results, exceptions
and types must agree. The same is done for functions of the library on random input. What pyvc refuses as out of its reach is counted:
refusing is sound."""
import sys, os, signal, random, argparse, itertools, struct, types
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [HERE, os.path.join(HERE, "contracts")]
sys.setrecursionlimit(20000)
import numpy as np
from fractions import Fraction
from datetime import datetime, timedelta, timezone
from vc import *
import vc, core, interp, lib, libdt, libstr, libnp, libio, z3
from libdt import DT, TD
import selfcases

def opened(f):
    if isinstance(f, types.FunctionType) and f.__module__ in ("selfcases", "selfrepo"): return True
    return False
_old = interp.is_repo_func
interp.is_repo_func = lambda f: _old(f) or opened(f)

class Pin:
    """values of which the solver alone knows what they are"""
    def __init__(self, x): self.x = x
    def val(self, v, form):
        x = self.x
        if form == 0: return self.plain(v)
        if isinstance(v, bool): t = x.fbool("b"); x.assume(t == z3.BoolVal(v)); return boolv(t)
        if isinstance(v, np.integer):
            w = v.dtype.itemsize * 8; t = x.fbv(w, "n"); x.assume(t == z3.BitVecVal(int(v), w)); return NI(t, v.dtype.kind == "i")
        if isinstance(v, int):
            if form == 2:
                w = max(v.bit_length() + 1, 8); t = x.fbv(w, "i"); x.assume(t == z3.BitVecVal(v, w)); return SB(t)
            t = x.fint("i"); x.assume(t == v); return SI(t)
        if isinstance(v, float):
            t = x.fbv(64, "f"); x.assume(t == z3.BitVecVal(struct.unpack(">Q", struct.pack(">d", v))[0], 64))
            if form == 2 and v == v and abs(v) != float("inf"): r = x.fresh("f", z3.RealSort()); x.assume(r == z3.Q(*Fraction(v).as_integer_ratio())); return SF(r)
            return SF(None, t)
        if isinstance(v, (bytes, bytearray)):
            if form == 2:
                n = x.fint("n"); x.assume(n == len(v)); A = z3.Function(f"A!{next(x.counter)}", z3.IntSort(), z3.BitVecSort(8))
                for i, b in enumerate(v): x.assume(A(i) == b)
                return BA(Seq(n, lambda i: A(nterm(i))), isinstance(v, bytearray))
            bs = [x.fbv(8, "b") for _ in v]
            for t, b in zip(bs, v): x.assume(t == b)
            return BA(CSeq(bs), isinstance(v, bytearray))
        if isinstance(v, str) and v in ("<", ">", "i2", "i4", "u1", "u2", "f4", "f8", "big", "little"): return v
        if isinstance(v, str): t = x.fresh("s", z3.StringSort()); x.assume(t == z3.StringVal(v)); return SS(t)
        if isinstance(v, datetime):
            us, off = dt_us(v); t = x.fint("us"); x.assume(t == us)
            if off is None: return DT(t, None)
            o = x.fint("off"); x.assume(o == off); return DT(t, o, v.tzinfo if off == 0 else None)
        if isinstance(v, np.ndarray):
            w = v.dtype.itemsize * 8
            bits = [x.fbv(w, "e") for _ in v]
            for t, e in zip(bits, v): x.assume(t == z3.BitVecVal(int.from_bytes(np.array(e, v.dtype.newbyteorder(">")).tobytes(), "big"), w))
            return NArr(v.dtype, CSeq(bits))
        if isinstance(v, list): return PList(CSeq([self.val(e, form) for e in v]))
        return v
    def plain(self, v):
        if isinstance(v, list): return PList(CSeq([self.plain(e) for e in v]))
        if isinstance(v, np.ndarray): return self.val(v, 1)
        if isinstance(v, datetime): return libdt.from_native(v)
        return lift(v)

def dt_us(v):
    off = v.utcoffset()
    d = v.replace(tzinfo=None) - datetime(1, 1, 1)
    one = timedelta(microseconds=1)
    return d // one, None if off is None else off // one

def agree(x, it, got, want, out, path="result"):
    """obligations: got (value of pyvc) is want (value of CPython)"""
    p = lambda c: out.append((path, z3.BoolVal(c) if isinstance(c, bool) else c))
    bad = lambda: p(False)
    if want is None: return p(got is None)
    if isinstance(want, (bool, np.bool_)):
        if isinstance(got, (bool, np.bool_)): return p(bool(got) == bool(want))
        if isinstance(got, SBool): return p(bterm(got) == z3.BoolVal(bool(want)))
        return bad()
    if isinstance(want, np.integer):
        if isinstance(got, np.integer): return p(type(got) is type(want) and got == want)
        if not isinstance(got, NI): return bad()
        if (got.w, got.signed) != (want.dtype.itemsize * 8, want.dtype.kind == "i"): return bad()
        return p(got.t == z3.BitVecVal(int(want), got.w))
    if isinstance(want, int):
        if isinstance(got, (NI, bool, SBool)) or not is_intlike(got): return bad()
        return p(nterm(as_int(got)) == want)
    if isinstance(want, (float, np.floating)):
        if isinstance(got, (float, np.floating)): return p(struct.pack(">d", got) == struct.pack(">d", want))
        if not isinstance(got, SF): return bad()
        if (got.np or 0) != (want.dtype.itemsize * 8 if isinstance(want, np.floating) else 0): return bad()
        if got.bits is not None and got.bits.size() == 32: return p(got.bits == z3.BitVecVal(int.from_bytes(struct.pack(">f", want), "big"), 32))
        if got.bits is not None: return p(got.bits == z3.BitVecVal(int.from_bytes(struct.pack(">d", want), "big"), 64))
        return p(got.t == z3.Q(*Fraction(float(want)).as_integer_ratio()) if want == want and abs(want) != float("inf") else False)
    if isinstance(want, (bytes, bytearray)):
        if isinstance(got, (bytes, bytearray)): return p(type(got) is type(want) and got == want)
        if not isinstance(got, BA) or got.mutable != isinstance(want, bytearray): return bad()
        p(nterm(got.seq.n) == len(want))
        for i, b in enumerate(want): out.append((f"{path}[{i}]", got.seq.get(i) == b))
        return
    if isinstance(want, str):
        if isinstance(got, str): return p(got == want)
        if not isinstance(got, SS): return bad()
        return p(libstr.sterm(got) == z3.StringVal(want))
    if isinstance(want, np.ndarray):
        if not isinstance(got, NArr) or got.dt != want.dtype: return bad()
        b = libnp.tobytes_seq(got)
        return agree(x, it, BA(b, False), want.tobytes(), out, path)
    if isinstance(want, datetime):
        if isinstance(got, datetime): return p(dt_us(got) == dt_us(want))
        if not isinstance(got, DT): return bad()
        us, off = dt_us(want)
        if (off is None) != (got.off is None): return bad()
        return p(z3.And(nterm(got.us) == us, nterm(got.off) == off) if off is not None else nterm(got.us) == us)
    if isinstance(want, timedelta):
        if isinstance(got, timedelta): return p(got == want)
        return p(nterm(got.us) == want // timedelta(microseconds=1)) if isinstance(got, TD) else bad()
    if isinstance(want, tuple) and hasattr(want, "_fields"):
        if not isinstance(got, NT) or got.cls is not type(want): return bad()
        for k in want._fields: agree(x, it, got.get(k), getattr(want, k), out, f"{path}.{k}")
        return
    if isinstance(want, tuple):
        if type(got) is not tuple or len(got) != len(want): return bad()
        for i, (g, w) in enumerate(zip(got, want)): agree(x, it, g, w, out, f"{path}[{i}]")
        return
    if isinstance(want, list):
        if isinstance(got, list): got = PList(CSeq(got))
        if not isinstance(got, PList): return bad()
        p(nterm(got.seq.n) == len(want))
        for i, w in enumerate(want): agree(x, it, lib.elem_value(got, got.seq.get(i)), w, out, f"{path}[{i}]")
        return
    if isinstance(want, dict):
        if not isinstance(got, PDict) or list(got.d) != list(want): return bad()
        for k in want: agree(x, it, got.d[k], want[k], out, f"{path}[{k!r}]")
        return
    if hasattr(want, "__dict__"):
        if not isinstance(got, Obj) or got.cls is not type(want): return bad()
        if set(got.a) != set(vars(want)): return bad()
        for k, v in vars(want).items():
            if not isinstance(v, types.FunctionType): agree(x, it, got.a[k], v, out, f"{path}.{k}")
        return
    raise Unsupported(f"comparison of {type(want).__name__}")

class Refused(Exception): pass
def abstract(t):
    """depends on a function that stands for anything"""
    todo, seen = [t], set()
    while todo:
        q = todo.pop()
        if q.get_id() in seen: continue
        seen.add(q.get_id())
        if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED and q.num_args() and not q.decl().name().startswith("A!"): return True
        todo += q.children()
    return False
def run_case(f, args, form, hooks=None, budget=20):
    """None if pyvc agrees, else what differs"""
    import copy
    try: want = ("ok", f(*copy.deepcopy(args)))
    except Exception as e: want = ("exc", type(e))
    x = core.Explorer(); core.set_explorer(x)
    import time; x.deadline = time.time() + budget
    it = Interp(); it.selftest = True
    seen, open_path = [], []
    def thunk():
        x.fork_ifs = True
        if hooks: hooks(x, it)
        pin = Pin(x)
        vals = [pin.val(a, form) for a in args]
        o = attempt(it, f, *vals)
        if not x.feasible(z3.BoolVal(True)): raise PathEnd()
        if any(abstract(q) for q in x.pc): open_path.append(1)
        if o.ok != (want[0] == "ok"): seen.append(f"{'value' if o.ok else o.v.cls.__name__} instead of {want[1] if want[0] == 'exc' else 'a value'}"); return
        if not o.ok:
            if o.v.cls is not want[1] and not (issubclass(want[1], o.v.cls) and o.v.cls is not Exception): seen.append(f"{o.v.cls.__name__} instead of {want[1].__name__}")
            else: seen.append(None)
            return
        conds = []
        agree(x, it, o.v, want[1], conds)
        for path, c in conds:
            if z3.is_true(z3.simplify(c)): continue
            st = x.decide(c)
            if st is not True:
                s = z3.Solver(); s.set("timeout", 5000)
                for q in x.pc: s.add(q)
                s.add(z3.Not(c)); r = s.check()
                if r == z3.unsat: continue
                if abstract(c): raise Refused("left open: a function of which only laws are known")
                seen.append(f"{path} differs ({r}): {str(z3.simplify(c))[:200]}"); return
        seen.append(None)
    try: x.run_all(thunk)
    except (Unsupported, MergeFail) as e: raise Refused(str(e))
    bad = [s for s in seen if s]
    if bad and open_path: raise Refused("left open: a path by a function of which only laws are known")
    if bad: return bad[0]
    if not seen: return "no path"
    return None

def pick(rnd, choices, k):
    """every value once, and random combinations"""
    out = []
    m = max((len(c) for c in choices), default=1)
    for i in range(min(k, m)): out.append([c[(i * 7 + j) % len(c)] if len(choices) > 1 else c[i % len(c)] for j, c in enumerate(choices)])
    while len(out) < k: out.append([rnd.choice(c) for c in choices])
    return out[:k]

def one(job):
    name, f, args, form, hooks = job
    def late(*_): raise Refused("time")
    signal.signal(signal.SIGALRM, late); signal.alarm(10)
    try: r = run_case(f, args, form, hooks, 6); signal.alarm(0)
    except Refused as e: return (name, "refused", str(e), args, form)
    except Exception as e:
        signal.alarm(0)
        import traceback
        return (name, "error", f"{type(e).__name__}: {e} " + " / ".join(traceback.format_exc().splitlines()[-4:]), args, form)
    return (name, "ok" if r is None else "DIFFERS", r, args, form)

JOBS = []
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--only"); ap.add_argument("-v", action="store_true"); ap.add_argument("--scale", type=float, default=1)
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    import selfrepo
    for f, choices, k in selfcases.CASES + selfrepo.cases(rnd):
        hooks = None
        if isinstance(f, tuple): f, hooks = f
        name = f"{f.__module__.split('.')[-1]}.{f.__qualname__.split('.<locals>.')[-1]}" if f.__module__ != "selfcases" else f.__name__
        if a.only and a.only not in name: continue
        choices = [list(c) for c in choices]
        for args in pick(rnd, choices, max(1, int(k * a.scale))) if choices else [[]]:
            for form in (0, 1, 2): JOBS.append((name, f, args, form, hooks))
    import multiprocessing as mp
    global one_
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool: 
        res = []
        for r in pool.imap_unordered(one_i, range(len(JOBS)), chunksize=4):
            res.append(r)
            if a.v and r[1] in ("DIFFERS", "error"): print(r[:4], flush=True)
    st = {}
    for name, s, why, args, form in res:
        d = st.setdefault(name, {"ok": 0, "refused": 0, "DIFFERS": 0, "error": 0}); d[s] += 1
        if s in ("DIFFERS", "error"): print(f"{s} {name} {'plain bits ints'.split()[0] if form == 0 else 'symbolic ' + str(form)} {args!r:.200}: {why}")
        elif s == "refused" and a.v: print(f"refused {name} form {form} {args!r:.100}: {why[:200]}")
    tot = {k: sum(d[k] for d in st.values()) for k in ("ok", "refused", "DIFFERS", "error")}
    print(f"{len(st)} functions, {tot['ok']} runs agree with CPython, {tot['refused']} refused, {tot['DIFFERS']} differ, {tot['error']} errors")
    never = [n for n, d in st.items() if not d["ok"]]
    if never: print("always refused:", ", ".join(never))
    sys.exit(1 if tot["DIFFERS"] or tot["error"] else 0)
def one_i(i): return one(JOBS[i])
if __name__ == "__main__": main()
