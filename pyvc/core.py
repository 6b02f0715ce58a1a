"""Explorer, path conditions, trail, obligations and symbolic values.

Direct-style symbolic execution: the interpreter is ordinary Python; a symbolic
branch asks the explorer, which re-runs the program for every decision.  Regions
(if statements, calls) are explored on their own and merged into ite terms where
the results allow it.
"""
import time, itertools, os
import z3

class Unsupported(Exception):
    """construct outside the verified subset: the obligation is undecided"""

class PathEnd(Exception):
    """this path is finished (infeasible, or cut at a loop invariant)"""

class MergeFail(Exception):
    pass

class PyRaise(Exception):
    """an exception of the program under verification"""
    def __init__(self, cls, args=(), obj=None):
        self.cls, self.args_, self.obj = cls, args, obj
    def __str__(self):
        return f"PyRaise({self.cls.__name__}, {self.args_})"

class Ob:
    """one proof obligation instance"""
    def __init__(self, name, status, secs, backend, detail=None, model=None):
        self.name, self.status, self.secs, self.backend, self.detail, self.model = name, status, secs, backend, detail, model

INT, BOOL = z3.IntSort(), z3.BoolSort()
_birth = itertools.count()
def birth_mark(): return next(_birth)

class Explorer:
    def __init__(self, timeout=20.0, branch_timeout=4.0, max_paths=4000, deadline=None):
        self.timeout, self.branch_timeout, self.max_paths = timeout, branch_timeout, max_paths
        self.obs = []
        self.deadline = deadline
        self.stats = {"paths": 0, "branch_checks": 0, "branch_secs": 0.0, "solver_secs": 0.0, "merges": 0}
        self.reset()
        self.functions = set()
        self.axioms = []          # assumptions used, textual
        self.ob_cache = {}
        self.feas_cache = {}
        self.no_merge = 0
        self.fork_ifs = False
        self.keep_ints = False    # do not merge paths that differ in a concrete integer
        self.covers = {}

    def reset(self):
        self.dec = []             # decision records of the innermost exploration
        self.pos = 0
        self.pc = []
        self.trail = []
        self.counter = itertools.count()
        self.slv = None
        self.slv_n = 0
        self.vars = {}            # named inputs, for counterexamples

    # ------------------------------------------------------------ names
    def fresh(self, base, sort):
        return z3.Const(f"{base}!{next(self.counter)}", sort)
    def fint(self, base="i"): return self.fresh(base, INT)
    def fbool(self, base="b"): return self.fresh(base, BOOL)
    def fbv(self, w, base="v"): return self.fresh(base, z3.BitVecSort(w))

    # ------------------------------------------------------------ pc
    def assume(self, c):
        if c is True: return
        if c is False: raise PathEnd()
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd()
        self.pc.append(c)

    def _solver(self):
        """incremental solver holding pc"""
        if self.slv is None or self.slv_n > len(self.pc) or self.slv_pc[:self.slv_n] != [p.get_id() for p in self.pc[:self.slv_n]]:
            self.slv = z3.Solver()
            self.slv_n = 0
            self.slv_pc = []
        for p in self.pc[self.slv_n:]:
            self.slv.add(p); self.slv_pc.append(p.get_id())
        self.slv_n = len(self.pc)
        return self.slv

    def feasible(self, c):
        # replays of a path ask the same questions again
        key = (tuple(p.get_id() for p in self.pc), c.get_id())
        hit = self.feas_cache.get(key)
        if hit is not None: return hit[0]
        t = time.time()
        r = timed_check(self._solver(), self.branch_timeout, c)
        self.feas_cache[key] = (r != z3.unsat, list(self.pc), c)      # keeps the terms alive, so ids stay unique
        self.stats["branch_checks"] += 1
        self.stats["branch_secs"] += time.time() - t
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
        return r != z3.unsat

    def decide(self, c):
        """True / False if the path condition settles c, None otherwise"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if not self.feasible(z3.Not(c)): return True
        if not self.feasible(c): return False
        return None

    # ------------------------------------------------------------ decisions
    def _choose(self, mk):
        """mk() -> list of options; returns the option of this run"""
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            opts = mk()
            if not opts: raise PathEnd()
            d = [opts, 0]
            self.dec.append(d)
        self.pos += 1
        return d[0][d[1]]

    def choose(self, n):
        return self._choose(lambda: list(range(n)))

    def branch(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        def mk():
            o = []
            if self.feasible(c): o.append(True)
            if not o or self.feasible(z3.Not(c)): o.append(False)
            return o
        r = self._choose(mk)
        self.assume(c if r else z3.Not(c))
        return r

    def concretize(self, t, limit=80):
        """pick a concrete value of an Int or BV term (one path per value)"""
        t = z3.simplify(t)
        if z3.is_int_value(t) : return t.as_long()
        if z3.is_bv_value(t): return t.as_signed_long()
        def mk():
            s = self._solver(); s.push(); vals = []
            try:
                while True:
                    t0 = time.time(); r = timed_check(s, self.timeout); self.stats["branch_secs"] += time.time() - t0; self.stats["branch_checks"] += 1
                    if r == z3.unsat: break
                    if r == z3.unknown: raise Unsupported("cannot enumerate values")
                    v = s.model().eval(t, model_completion=True)
                    vals.append(v.as_long() if z3.is_int_value(v) else v.as_signed_long())
                    if len(vals) > limit: raise Unsupported(f"more than {limit} values for a term that must be concrete")
                    s.add(t != v)
            finally:
                s.pop()
            return sorted(vals)
        v = self._choose(mk)
        self.assume(t == v)
        return v

    # ------------------------------------------------------------ trail
    def log(self, undo, key, old):
        """record a mutation: undo(old) restores; key identifies the location"""
        self.trail.append((undo, key, old))

    def undo_to(self, mark):
        while len(self.trail) > mark:
            undo, key, old = self.trail.pop()
            undo(old)

    # ------------------------------------------------------------ exploration
    def next_run(self):
        while self.dec:
            d = self.dec[-1]
            if d[1] + 1 < len(d[0]):
                d[1] += 1
                return True
            self.dec.pop()
        return False

    def run_all(self, thunk):
        """outermost: explore every path of thunk"""
        self.reset()
        n = 0
        while True:
            self.pos = 0; self.pc = []; self.trail = []; self.counter = itertools.count(); self.slv = None; self.slv_n = 0; self.no_merge = 0
            try: thunk()
            except PathEnd: pass
            self.undo_to(0)
            n += 1; self.stats["paths"] += 1
            if n > self.max_paths: raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
            if not self.next_run(): break
        return n

    def sub(self, thunk, stops):
        """explore a region; returns alternatives (conds, outcome, writes, counterpos)"""
        save = (self.dec, self.pos)
        self.dec = []
        alts = []
        n = 0
        try:
            while True:
                self.pos = 0
                mark, pcm = len(self.trail), len(self.pc)
                try: out = ("ok", thunk())
                except PathEnd: out = None
                except stops as e: out = ("exc", e)
                if out is not None:
                    writes = {}
                    for undo, key, old in self.trail[mark:]:
                        writes.setdefault(key, (undo, old))
                    new = {k: (u, old, k[2]()) for k, (u, old) in writes.items()}
                    alts.append((list(self.pc[pcm:]), out, new))
                self.undo_to(mark)
                del self.pc[pcm:]
                n += 1
                if n > self.max_paths: raise Unsupported("too many paths in a region")
                if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
                if not self.next_run(): break
        finally:
            self.dec, self.pos = save
        return alts

    def region(self, thunk, stops, merge_out):
        """run thunk with all its paths, merging results where possible.
        merge_out(list of (cond, outcome)) -> outcome or MergeFail"""
        if self.no_merge:
            return thunk()
        born = birth_mark()
        alts = self.sub(thunk, stops)
        if not alts: raise PathEnd()
        if len(alts) > 1:
            groups = []
            for pcd, out, wr in alts:
                c = z3.And(*pcd) if len(pcd) != 1 else pcd[0]
                if not pcd: c = z3.BoolVal(True)
                placed = False
                for g in groups:
                    m = self._merge2(g, (c, out, wr), merge_out, born)
                    if m is not None:
                        g[:] = m; placed = True; self.stats["merges"] += 1
                        break
                if not placed: groups.append([c, out, wr])
        else:
            pcd, out, wr = alts[0]
            groups = [[pcd, out, wr]]
        k = self.choose(len(groups)) if len(groups) > 1 else 0
        c, out, wr = groups[k]
        for p in (c if isinstance(c, list) else [c]): self.assume(p)
        for key, (undo, old, new) in wr.items():
            cur = key[2]()
            self.log(undo, key, cur)
            undo(new)
        if out[0] == "ok": return out[1]
        raise out[1]

    def _merge2(self, g, alt, merge_out, born):
        c1, o1, w1 = g
        c2, o2, w2 = alt
        try:
            out = merge_out(c1, o1, c2, o2)
            wr = {}
            for key in list(w1) + [k for k in w2 if k not in w1]:
                if key.obj.birth > born:      # exists on one of the two sides only
                    wr[key] = w1[key] if key in w1 else w2[key]
                    continue
                if key in w1: undo, old, v1 = w1[key]
                if key in w2: undo2, old2, v2 = w2[key]
                if key not in w1: undo, old, v1 = undo2, old2, old2
                if key not in w2: v2 = old
                wr[key] = (undo, old, merge(c1, v1, v2))
            return [z3.Or(c1, c2), out, wr]
        except MergeFail:
            return None

    # ------------------------------------------------------------ obligations
    def expect(self, *names):
        """reachability points the unit must pass"""
        for n in names: self.covers.setdefault(n, False)

    def forall(self, lo, hi, f, name):
        """prove f(m) for every lo <= m < hi (one fresh index; nothing learnt stays)"""
        pcm, mark = len(self.pc), len(self.trail)
        try:
            m = self.fint("m")
            self.assume(z3.And(m >= nterm(lo), m < nterm(hi)))
            if not self.feasible(z3.BoolVal(True)): return True
            c = f(m)
            return self.prove(c, name)
        except PathEnd: return True
        finally:
            self.undo_to(mark); del self.pc[pcm:]

    def prove(self, c, name, detail=None, timeout=None):
        t0 = time.time()
        if isinstance(c, bool): c = z3.BoolVal(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            self.obs.append(Ob(name, "discharged", 0.0, "simplifier")); return True
        key = (frozenset(p.get_id() for p in self.pc), c.get_id(), name)
        if key in self.ob_cache: return self.ob_cache[key][0]
        st, backend, model = check_valid(self.pc, c, timeout or self.timeout)
        secs = time.time() - t0
        self.stats["solver_secs"] += secs
        ok = st == "discharged"
        self.ob_cache[key] = (ok, list(self.pc), c)   # keep terms alive so ids stay unique
        mv = None
        if model is not None:
            try: mv = {k: str(model.eval(v, model_completion=True)) for k, v in self.vars.items() if not callable(v)}
            except z3.Z3Exception: mv = None
        ob = Ob(name, st, secs, backend, detail, mv)
        ob.z3model = model
        if not ok and model is not None and getattr(self, "witness", None):
            try: ob.case = self.witness(model)
            except Exception as e: ob.case = None; ob.detail = f"{detail or ''} (witness: {type(e).__name__} {e})"
        self.obs.append(ob)
        return ok

    def cover(self, name, *conds):
        """reachability: this point must be reachable (vacuity guard)"""
        if self.covers.get(name): return True
        s = z3.Solver(); s.add(*self.pc, *conds)
        t0 = time.time(); r = timed_check(s, self.timeout)
        self.stats["solver_secs"] += time.time() - t0
        if r == z3.sat: self.covers[name] = True
        elif r == z3.unknown: self.covers[name] = None      # not refuted: noted, no alarm (it would depend on the machine's load)
        else: self.covers.setdefault(name, False)
        return r != z3.unsat

def timed_check(s, secs, *a):
    """z3 with a limit on processor time: its own limit is on wall time, so that answers would depend on the load of the machine"""
    wall = secs
    while True:
        s.set("timeout", int(wall * 1000))
        c0, t0 = time.process_time(), time.time()
        r = s.check(*a)
        if r != z3.unknown: return r
        cpu, el = time.process_time() - c0, time.time() - t0
        if el < 0.9 * wall or cpu >= 0.7 * secs or wall >= 10 * secs: return r
        wall = min(10 * secs, wall * max(2, 1.3 * secs / max(cpu, 0.1 * secs)))

def check_valid(pc, c, timeout):
    """pc => c ?   returns (status, backend, model)"""
    s = z3.Solver()
    s.add(*pc); s.add(z3.Not(c))
    why = ""
    for back, secs in (("z3", min(8, timeout)), ("cvc5", timeout), ("z3", timeout)):
        if back == "z3":
            r = str(timed_check(s, secs))
            if r == "unknown": why = s.reason_unknown()
        else: r = cvc5_check(s, secs)
        if r == "unsat": return "discharged", back, None
        if r == "sat": return "refuted", back, s.model() if back == "z3" else None
    return f"unknown ({why})", "z3+cvc5", None

def cvc5_check(s, timeout):
    c0, t0 = time.process_time(), time.time()
    r = cvc5_check1(s, timeout)
    cpu, el = time.process_time() - c0, time.time() - t0
    if r == "unknown" and el > 0.9 * timeout and cpu < 0.7 * timeout: r = cvc5_check1(s, timeout * min(10, 1.3 * timeout / max(cpu, 0.1 * timeout)))
    return r

def cvc5_check1(s, timeout):
    try:
        import cvc5
    except ImportError:
        return "unavailable"
    try:
        text = "(set-logic ALL)\n" + s.to_smt2().replace("(check-sat)", "")
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption("tlimit-per", str(int(timeout * 1000)))
        slv.setOption("strings-exp", "true")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        while True:
            cmd = p.nextCommand()
            if cmd.isNull(): break
            cmd.invoke(slv, sm)
        r = slv.checkSat()
        return "unsat" if r.isUnsat() else "sat" if r.isSat() else "unknown"
    except Exception as e:
        return f"error {e}"

X = Explorer()     # the current explorer, replaced per obligation set

def set_explorer(x):
    global X
    X = x

def ex(): return X

# ------------------------------------------------------------------ values
class Sym: pass

class SBool(Sym):
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SBool({self.t})"

class SI(Sym):
    """python int, mathematical integer term"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SI({self.t})"

class SB(Sym):
    """python int held as a signed bit-vector wide enough to be exact"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    @property
    def w(self): return self.t.size()
    def __repr__(self): return f"SB{self.w}({self.t})"

class NI(Sym):
    """numpy integer scalar"""
    __slots__ = ("t", "signed")
    def __init__(self, t, signed=True): self.t, self.signed = t, signed
    @property
    def w(self): return self.t.size()
    def __repr__(self): return f"NI{self.w}({self.t})"

class SF(Sym):
    """float: real value abstraction, with the bit pattern when known.
    np: None for python float, 32/64 for numpy scalars"""
    __slots__ = ("t", "bits", "np")
    def __init__(self, t=None, bits=None, np=None): self.t, self.bits, self.np = t, bits, np
    def __repr__(self): return f"SF({self.t},{self.bits})"

class SS(Sym):
    """str as z3 sequence"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SS({self.t})"

class Opaque(Sym):
    """a value of known python type about which nothing is known"""
    def __init__(self, cls, label=""): self.cls, self.label = cls, label
    def __repr__(self): return f"Opaque({self.cls.__name__},{self.label})"

def bvwidth(n):
    """bits of a signed bit-vector holding n"""
    return (n if n >= 0 else -n - 1).bit_length() + 1

def sext(t, w):
    return t if t.size() == w else z3.SignExt(w - t.size(), t)

def as_sb(v):
    """python int value -> signed BV term"""
    if isinstance(v, bool): return z3.BitVecVal(int(v), 2)
    if isinstance(v, int): return z3.BitVecVal(v, bvwidth(v))
    if isinstance(v, SB): return v.t
    if isinstance(v, NI): return v.t if v.signed else z3.ZeroExt(1, v.t)
    if isinstance(v, SBool): return z3.If(v.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
    raise Unsupported(f"bit-vector of {v!r}")

def as_int(v):
    """-> z3 Int term or int"""
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, SI): return v.t
    if isinstance(v, SB): return z3.BV2Int(v.t, is_signed=True)
    if isinstance(v, NI): return z3.BV2Int(v.t, is_signed=v.signed)
    if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"integer of {v!r}")

def intv(t):
    """int or z3 Int term -> value"""
    if isinstance(t, int): return t
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    return SI(t)

def sbv(t):
    t = z3.simplify(t)
    if z3.is_bv_value(t): return t.as_signed_long()
    return SB(t)

def boolv(t):
    if isinstance(t, bool): return t
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SBool(t)

def bterm(v):
    """-> z3 Bool"""
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, SBool): return v.t
    raise Unsupported(f"bool of {v!r}")

def is_intlike(v): return isinstance(v, (bool, int, SI, SB, NI, SBool))
def is_pyint(v): return isinstance(v, (int, SI, SB)) or isinstance(v, SBool)

def merge(c, a, b):
    """value that is a if c else b"""
    if a is b: return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return boolv(c if a else z3.Not(c))
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return boolv(z3.If(c, bterm(a), bterm(b)))
    if isinstance(a, (int, SI)) and isinstance(b, (int, SI)) and not isinstance(a, bool) and not isinstance(b, bool):
        if isinstance(a, int) and isinstance(b, int):
            if a == b: return a
            if X.keep_ints: raise MergeFail()
        return intv(z3.If(c, z3.IntVal(a) if isinstance(a, int) else a.t, z3.IntVal(b) if isinstance(b, int) else b.t))
    if isinstance(a, (int, SB)) and isinstance(b, (int, SB)) and not isinstance(a, bool) and not isinstance(b, bool):
        ta, tb = as_sb(a), as_sb(b); w = max(ta.size(), tb.size())
        return sbv(z3.If(c, sext(ta, w), sext(tb, w)))
    if isinstance(a, NI) and isinstance(b, NI) and a.w == b.w and a.signed == b.signed:
        return NI(z3.simplify(z3.If(c, a.t, b.t)), a.signed)
    if isinstance(a, SF) and isinstance(b, SF) and a.np == b.np:
        t = z3.If(c, a.t, b.t) if a.t is not None and b.t is not None else None
        bits = z3.If(c, a.bits, b.bits) if a.bits is not None and b.bits is not None else None
        if t is None and bits is None: raise MergeFail()
        return SF(t, bits, a.np)
    if isinstance(a, (float, SF)) and isinstance(b, (float, SF)):
        fa, fb = (x if isinstance(x, SF) else from_float(x) for x in (a, b))
        if fa.np == fb.np and fa.t is not None and fb.t is not None: return SF(z3.If(c, fa.t, fb.t), None, fa.np)
        raise MergeFail()
    if isinstance(a, (str, SS)) and isinstance(b, (str, SS)):
        if isinstance(a, str) and isinstance(b, str) and a == b: return a
        if isinstance(a, str) and isinstance(b, str) and len(a) < 4 and len(b) < 4: raise MergeFail()   # keep format characters concrete
        return SS(z3.If(c, sterm(a), sterm(b)))
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if type(a) is list and type(b) is list and len(a) == len(b):      # contents of heap lists
        return [merge(c, x, y) for x, y in zip(a, b)]
    if type(a) is dict and type(b) is dict and list(a) == list(b):
        return {k: merge(c, a[k], b[k]) for k in a}
    if hasattr(a, "merge_with") and type(a) is type(b):
        return a.merge_with(c, b)
    if type(a) is type(b) and isinstance(a, (bytes, type(None), type)) and a == b: return a
    if type(a) is MISSING or type(b) is MISSING: raise MergeFail()
    try:
        if type(a) is type(b) and not isinstance(a, Sym) and not hasattr(a, "__dict__") and a == b: return a
    except Exception: pass
    raise MergeFail()

class MISSING: pass
MISSING_V = MISSING()

def from_float(x):
    import fractions
    if x != x or x in (float("inf"), float("-inf")): raise Unsupported("non-finite float")
    f = fractions.Fraction(x)
    import struct
    return SF(z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator),
              z3.BitVecVal(int.from_bytes(struct.pack(">d", x), "big"), 64))

def sterm(v):
    if isinstance(v, str): return z3.StringVal(v)
    if isinstance(v, SS): return v.t
    raise Unsupported(f"string of {v!r}")

class Key(tuple):
    """identity of a mutable location"""
    def __new__(cls, obj, k, d):
        s = tuple.__new__(cls, (id(d), k, lambda: d.get(k, MISSING_V)))
        s.obj, s.name = obj, k
        return s
    def __hash__(self): return hash((self[0], self[1]))
    def __eq__(self, o): return self[0] == o[0] and self[1] == o[1]

# ------------------------------------------------------------------ sequences
class Seq:
    """immutable symbolic-length sequence: n (int or Int term), get(i) -> element.
    i is an int or Int term.  facts: callables(elem, i) -> z3 Bool known for all elements"""
    def __init__(self, n, f, facts=()):
        if not isinstance(n, int):
            n = z3.simplify(n)
            if z3.is_int_value(n): n = n.as_long()
        self.n, self.f = n, f
        self.a = {"facts": tuple(facts)}
        self.birth = birth_mark()
        self.seen = []
    @property
    def facts(self): return self.a["facts"]
    def get(self, i):
        if not isinstance(i, int):
            i = z3.simplify(i)
            if z3.is_int_value(i): i = i.as_long()
        v = self.f(i)
        if self.facts:
            for p in self.facts:
                X.assume(p(v, i))
        self.seen.append((v, i))
        return v
    def add_fact(self, p):
        d, old = self.a, self.a["facts"]
        def undo(o): d["facts"] = o
        k = Key(self, "facts", d)
        X.log(undo, k, old)
        d["facts"] = old + (p,)
        for v, i in list(self.seen): X.assume(p(v, i))

class CSeq:
    """immutable concrete-length sequence"""
    def __init__(self, items): self.items = list(items); self.n = len(self.items)
    def get(self, i):
        if not isinstance(i, int):
            i = z3.simplify(i)
            if z3.is_int_value(i): i = i.as_long()
        if isinstance(i, int): return self.items[i]
        if not self.items: raise Unsupported("element of empty sequence")
        r = self.items[-1]
        for k in range(len(self.items) - 2, -1, -1): r = ite_elem(i == k, self.items[k], r)
        return r

def ite_elem(c, a, b):
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b): return a
        return z3.If(c, a, b)
    return merge(c, a, b)

def is_conc(s): return isinstance(s, CSeq)

def concretize_seq(s, limit=4096):
    """Seq with int length -> CSeq"""
    if isinstance(s, CSeq): return s
    if isinstance(s.n, int) and s.n <= limit: return CSeq([s.get(i) for i in range(s.n)])
    return s

def nterm(n): return z3.IntVal(n) if isinstance(n, int) else n

def simp(t):
    if isinstance(t, int): return t
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else t

def known(c):
    """c settled by the path condition (True/False/None); python bool allowed"""
    return X.decide(c)

def imin(a, b):
    if isinstance(a, int) and isinstance(b, int): return min(a, b)
    d = known(nterm(a) <= nterm(b))
    if d is True: return a
    if d is False: return b
    return simp(z3.If(nterm(a) <= nterm(b), nterm(a), nterm(b)))

def imax(a, b):
    if isinstance(a, int) and isinstance(b, int): return max(a, b)
    d = known(nterm(a) >= nterm(b))
    if d is True: return a
    if d is False: return b
    return simp(z3.If(nterm(a) >= nterm(b), nterm(a), nterm(b)))

def seq_slice(s, lo, hi):
    """s[lo:hi] with 0 <= lo, hi <= n already clamped, hi >= lo"""
    n = simp(nterm(hi) - nterm(lo)) if not (isinstance(lo, int) and isinstance(hi, int)) else hi - lo
    if isinstance(s, CSeq) and isinstance(lo, int) and isinstance(hi, int): return CSeq(s.items[lo:hi])
    if isinstance(n, int) and isinstance(lo, int) and n <= 4096: return CSeq([s.get(lo + k) for k in range(n)])
    if isinstance(n, int) and n <= 64: return CSeq([s.get(nterm(lo) + k) for k in range(n)])
    return Seq(n, lambda i: s.get(simp(nterm(i) + nterm(lo))))

def clamp_slice(n, lo, hi):
    """python slice bounds (step 1): ints / Int terms / None -> (lo, hi) clamped"""
    def norm(v):
        if isinstance(v, int):
            if v < 0: v = simp(nterm(n) + v) if not isinstance(n, int) else n + v
            else: return imin(v, n)
        else:
            d = known(v >= 0)
            if d is None: v = simp(z3.If(v < 0, v + nterm(n), v))
            elif d is False: v = simp(v + nterm(n))
        return imin(imax(v, 0), n)
    lo = 0 if lo is None else norm(lo)
    hi = n if hi is None else norm(hi)
    return lo, imax(lo, hi)

def seq_concat(a, b):
    if isinstance(a, CSeq) and isinstance(b, CSeq): return CSeq(a.items + b.items)
    if isinstance(a.n, int) and a.n == 0: return b
    if isinstance(b.n, int) and b.n == 0: return a
    na = a.n
    def f(i):
        if isinstance(i, int) and isinstance(na, int): return a.get(i) if i < na else b.get(i - na)
        d = known(nterm(i) < nterm(na))
        if d is True: return a.get(i)
        if d is False: return b.get(simp(nterm(i) - nterm(na)))
        return ite_elem(nterm(i) < nterm(na), a.get(i), b.get(simp(nterm(i) - nterm(na))))
    return Seq(simp(nterm(na) + nterm(b.n)), f)

def seq_assign(s, lo, hi, g):
    """python slice assignment on contents: s[lo:hi] = g (clamped bounds)"""
    if all(isinstance(x, CSeq) for x in (s, g)) and isinstance(lo, int) and isinstance(hi, int):
        return CSeq(s.items[:lo] + g.items + s.items[hi:])
    return seq_concat(seq_concat(seq_slice(s, 0, lo), g), seq_slice(s, hi, s.n))

def seq_store(s, i, v):
    if isinstance(s, CSeq) and isinstance(i, int):
        it = list(s.items); it[i] = v; return CSeq(it)
    return Seq(s.n, lambda k: v if isinstance(k, int) and isinstance(i, int) and k == i else (s.get(k) if isinstance(k, int) and isinstance(i, int) else ite_elem(nterm(k) == nterm(i), v, s.get(k))))
