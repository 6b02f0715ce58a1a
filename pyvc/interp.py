"""Interpreter for the Python subset the library is written in, over symbolic values.
The functions come from the source files of the imported modules: nothing is copied."""
import ast, types, builtins, os, sys, operator
import z3
import numpy as np
from core import *
from heap import *
import core

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.realpath(os.path.join(REPO, "src"))

# ---------------------------------------------------------------- source
_modcache = {}
def _index(fn):
    if fn not in _modcache:
        tree = ast.parse(open(fn).read(), fn)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list: line = min(d.lineno for d in n.decorator_list)
                idx.setdefault((line, n.name if isinstance(n, ast.FunctionDef) else "<lambda>"), n)
        _modcache[fn] = idx
    return _modcache[fn]

def func_ast(f):
    co = f.__code__
    return _index(co.co_filename)[(co.co_firstlineno, co.co_name)]

def own_yield(node):
    """a generator function: a yield that is not in a function within"""
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): todo += list(ast.iter_child_nodes(n))
    return False

def is_repo_func(f):
    return isinstance(f, types.FunctionType) and os.path.realpath(f.__code__.co_filename).startswith(SRC + os.sep)

def is_repo_class(c):
    m = sys.modules.get(c.__module__)
    return m is not None and getattr(m, "__file__", None) and os.path.realpath(m.__file__).startswith(SRC + os.sep)

def qual(f):
    return f.__module__.split(".")[-1] + "." + f.__qualname__

# ---------------------------------------------------------------- values
class Bound:
    """method bound to a value"""
    def __init__(self, func, self_): self.func, self.self_ = func, self_
class BMethod:
    """method of a modelled builtin type"""
    def __init__(self, obj, name): self.obj, self.name = obj, name
    def __repr__(self): return f"BMethod({self.obj!r}.{self.name})"
class Closure:
    def __init__(self, node, frame): self.node, self.frame = node, frame
class Super:
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_
class Exc(Heap):
    """exception instance"""
    def __init__(self, cls, args): super().__init__(); self.cls, self.args = cls, tuple(args); self.a = {"message": args[0] if args else None}
class Poison:
    """a local whose value after a loop cut is not specified"""
    def __init__(self, name): self.name = name
class GenVal:
    """suspended call of a generator function"""
    def __init__(self, f, args, kw): self.f, self.args, self.kw = f, args, kw

class Frame:
    def __init__(self, fn, glob, locs, parent=None):
        self.fn, self.glob, self.locals, self.parent = fn, glob, locs, parent
        self.loop_no = {}
        self.on_yield = None
        self.birth = birth_mark()
    def setl(self, name, v):
        old = self.locals.get(name, MISSING_V)
        d = self.locals
        def undo(o, d=d, k=name):
            if isinstance(o, MISSING): d.pop(k, None)
            else: d[k] = o
        k = Key(self, name, d)
        core.X.log(undo, k, old)
        d[name] = v

NEXT = None

def lift(v):
    """native constant -> value"""
    if isinstance(v, np.bool_): return bool(v)
    if isinstance(v, np.integer): return NI(z3.BitVecVal(int(v), v.dtype.itemsize * 8), v.dtype.kind == "i")
    if isinstance(v, np.floating):
        f = from_float(float(v))
        if v.dtype.itemsize == 4: return SF(f.t, z3.BitVecVal(int(np.float32(v).view(np.uint32)), 32), 32)
        return SF(f.t, f.bits, 64)
    return v

NATIVE = (int, float, str, bytes, bool, type(None), complex, range, frozenset)
def is_native(v):
    if isinstance(v, tuple): return type(v) is tuple and all(is_native(x) for x in v)
    if isinstance(v, slice): return all(is_native(x) for x in (v.start, v.stop, v.step))
    return isinstance(v, NATIVE) or isinstance(v, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, np.dtype)) or v is Ellipsis

class Interp:
    def __init__(self):
        self.contracts = {}       # qualified name -> handler(interp, func, args, kwargs)
        self.loops = {}           # (qualified name, k) -> LoopSpec
        self.depth = 0
        self.unroll_limit = 600
        import lib
        self.lib = lib
        lib.install(self)

    # ------------------------------------------------------------ helpers
    def exc(self, cls, *args):
        raise PyRaise(cls, args)

    def truth(self, v):
        """-> bool or z3 Bool"""
        if isinstance(v, (bool, int, float, str, bytes, type(None), tuple)): return bool(v)
        if isinstance(v, SBool): return v.t
        if isinstance(v, SI): return v.t != 0
        if isinstance(v, (SB, NI)): return v.t != 0
        if isinstance(v, SF):
            if v.t is None: raise Unsupported("truth of float bits")
            return v.t != 0
        if isinstance(v, SS): return z3.Length(v.t) != 0
        if isinstance(v, (PList, BA, AArr)):
            n = v.seq.n
            return n != 0
        if isinstance(v, NArr): raise Unsupported("truth of an array")
        if isinstance(v, PDict): return len(v.d) > 0
        if isinstance(v, (Obj, NT, Exc)):
            m = getattr(v.cls, "__bool__", None) or (getattr(v.cls, "__len__", None) if isinstance(v, Obj) else None)
            if m: raise Unsupported("__bool__")
            return True
        if isinstance(v, Sym):
            t = getattr(v, "truth", None)
            if t is not None: return t()
            raise Unsupported(f"truth of {v!r}")
        if isinstance(v, Poison): raise Unsupported(f"local {v.name} is used after a loop that does not define it")
        return True

    def branch(self, v):
        """-> python bool, splitting the path when symbolic"""
        t = self.truth(v)
        return core.X.branch(t) if not isinstance(t, bool) else t

    def merge_out(self, c1, o1, c2, o2):
        if o1[0] == "ok" and o2[0] == "ok":
            a, b = o1[1], o2[1]
            if a is None and b is None: return ("ok", None)
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2 and a[0] is RET and b[0] is RET:
                return ("ok", (RET, merge(c1, a[1], b[1])))
            if a is b: return ("ok", a)
            raise MergeFail()
        if o1[0] == "exc" and o2[0] == "exc" and isinstance(o1[1], PyRaise) and isinstance(o2[1], PyRaise) and o1[1].cls is o2[1].cls:
            e1, e2 = o1[1], o2[1]
            if e1.obj is None and e2.obj is None: return ("exc", PyRaise(e1.cls, ()))
        raise MergeFail()

    def merge_val(self, c1, o1, c2, o2):
        if o1[0] == "ok" and o2[0] == "ok": return ("ok", merge(c1, o1[1], o2[1]))
        return self.merge_out(c1, o1, c2, o2)

    def vregion(self, thunk):
        return core.X.region(thunk, (PyRaise,), self.merge_val)

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Bound): return self.call(f.func, [f.self_] + args, kw)
        if isinstance(f, BMethod): return self.lib.method(self, f.obj, f.name, args, kw)
        if isinstance(f, Closure) and not isinstance(f.node, ast.Lambda) and own_yield(f.node): raise Unsupported("generator in a function")
        if isinstance(f, Closure): return self.call_node(f.node, f.frame.glob, args, kw, (), {}, f.frame, f.frame.fn)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kw)
        if isinstance(f, staticmethod): return self.call(f.__func__, args, kw)
        if hasattr(f, "sym_call"): return f.sym_call(self, args, kw)
        h = self.lib.model_of(f)
        if h is not None: return h(self, args, kw)
        if isinstance(f, type):
            if is_repo_class(f): return self.construct(f, args, kw)
            if issubclass(f, BaseException): return Exc(f, args)
        if is_repo_func(f):
            q = qual(f)
            if q in self.contracts:
                return self.contracts[q](self, f, args, kw)
            return self.call_repo(f, args, kw)
        if all(is_native(a) for a in args) and all(is_native(a) for a in kw.values()) and self.lib.native_ok(f):
            try: return lift(f(*args, **kw))
            except Exception as e: raise PyRaise(type(e), e.args)
        raise Unsupported(f"call of {getattr(f, '__qualname__', f)!r} with {[type(a).__name__ for a in args]}")

    def construct(self, cls, args, kw):
        if issubclass(cls, BaseException): return Exc(cls, args)
        if hasattr(cls, "_fields") and issubclass(cls, tuple):
            vals = dict(zip(cls._fields, args))
            if len(args) > len(cls._fields): self.exc(TypeError, "too many fields")
            for k, v in kw.items():
                if k in vals or k not in cls._fields: self.exc(TypeError, f"bad field {k}")
                vals[k] = v
            for k in cls._fields:
                if k not in vals:
                    if k in cls._field_defaults: vals[k] = cls._field_defaults[k]
                    else: self.exc(TypeError, f"missing field {k}")
            return NT(cls, [vals[k] for k in cls._fields])
        o = Obj(cls)
        init = cls.__init__
        if is_repo_func(init): self.call(init, [o] + list(args), kw)
        elif args or kw: self.exc(TypeError, "takes no arguments")
        return o

    def call_repo(self, f, args, kw, inline=False):
        node = func_ast(f)
        core.X.functions.add(qual(f))
        if own_yield(node):
            return GenVal(f, args, kw)
        thunk = lambda: self.call_node(node, f.__globals__, args, kw, f.__defaults__ or (), f.__kwdefaults__ or {}, None, qual(f), closure=f)
        return thunk() if core.X.fork_ifs else self.vregion(thunk)

    def bind(self, node, args, kw, defaults, kwdefaults, name):
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        locs = {}
        if len(args) > len(params) and not a.vararg: self.exc(TypeError, f"{name} takes {len(params)} arguments")
        for p, v in zip(params, args): locs[p] = v
        if a.vararg: locs[a.vararg.arg] = tuple(args[len(params):])
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in locs: self.exc(TypeError, f"{name} got multiple values for {k}")
            if k in params or k in kwonly: locs[k] = v
            elif a.kwarg: extra[k] = v
            else: self.exc(TypeError, f"{name} got an unexpected argument {k}")
        if a.kwarg: locs[a.kwarg.arg] = PDict(extra)
        nd = len(defaults)
        for i, p in enumerate(params):
            if p not in locs:
                j = i - (len(params) - nd)
                if j < 0: self.exc(TypeError, f"{name} missing argument {p}")
                if isinstance(defaults[j], (list, dict, set, bytearray)): raise Unsupported("mutable default")
                locs[p] = lift(defaults[j])
        for p in kwonly:
            if p not in locs:
                if p not in kwdefaults: self.exc(TypeError, f"{name} missing argument {p}")
                locs[p] = lift(kwdefaults[p])
        return locs

    def call_node(self, node, glob, args, kw, defaults, kwdefaults, parent, name, closure=None):
        if self.depth > 60: raise Unsupported("recursion too deep")
        if isinstance(node, ast.Lambda) or parent is not None:
            if parent is not None:
                # evaluated where it is called: the same unless they have an effect or their names are assigned in between
                ds = [(None, d) for d in node.args.defaults] + [(p.arg, d) for p, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None]
                if not all(isinstance(d, ast.Constant) or isinstance(d, ast.Name) for _, d in ds): raise Unsupported("default of a function in a function")
                defaults = [self.ev(d, parent) for k, d in ds if k is None]
                kwdefaults = {k: self.ev(d, parent) for k, d in ds if k is not None}
        locs = self.bind(node, args, kw, defaults, kwdefaults, name)
        fr = Frame(name, glob, locs, parent)
        if closure is not None and closure.__closure__:
            for n, c in zip(closure.__code__.co_freevars, closure.__closure__): locs.setdefault(n, lift(c.cell_contents))
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda): return self.ev(node.body, fr)
            return self.run_body(node, fr)
        finally:
            self.depth -= 1

    def run_body(self, node, fr):
        self.number_loops(node, fr)
        sig = self.block(node.body, fr)
        if sig is None: return None
        if sig[0] is RET: return sig[1]
        raise Unsupported("break outside loop")

    def number_loops(self, node, fr):
        k = 0
        fr.loop_no = {}
        for n in ast.walk(node):
            pass
        def visit(n):
            nonlocal k
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
                if isinstance(c, (ast.For, ast.While)):
                    fr.loop_no[id(c)] = k; k += 1
                visit(c)
        visit(node)

    def run_generator(self, g, on_yield):
        """run the body of a generator call, giving every yielded value to on_yield"""
        f = g.f; node = func_ast(f)
        locs = self.bind(node, g.args, g.kw, f.__defaults__ or (), f.__kwdefaults__ or {}, qual(f))
        fr = Frame(qual(f), f.__globals__, locs)
        fr.on_yield = on_yield
        return self.run_body(node, fr)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            sig = self.stmt(s, fr)
            if sig is not None: return sig
        return None

    def stmt(self, s, fr):
        X = core.X
        t = type(s)
        self.line = (fr.fn, s.lineno)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant): return None
            self.ev(s.value, fr); return None
        if t is ast.Assign:
            v = self.ev(s.value, fr)
            for tg in s.targets: self.assign(tg, v, fr)
            return None
        if t is ast.AnnAssign:
            if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)
            return None
        if t is ast.AugAssign:
            self.augassign(s, fr); return None
        if t is ast.Return:
            return (RET, self.ev(s.value, fr) if s.value else None)
        if t is ast.If:
            c = self.truth(self.ev(s.test, fr))
            if not isinstance(c, bool):
                c2 = X.decide(c)
                if c2 is not None: c = c2
            if isinstance(c, bool): return self.block(s.body if c else s.orelse, fr)
            def thunk():
                # an elif chain is one region
                cc, n = c, s
                while True:
                    if X.branch(cc): return self.block(n.body, fr)
                    if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                        n = n.orelse[0]
                        self.line = (fr.fn, n.lineno)
                        cc = self.truth(self.ev(n.test, fr))
                    else: return self.block(n.orelse, fr)
            if X.fork_ifs: return thunk()
            return X.region(thunk, (PyRaise,), self.merge_out)
        if t is ast.For: return self.for_(s, fr)
        if t is ast.While: return self.while_(s, fr)
        if t is ast.Raise:
            if s.exc is None:
                raise self.cur_exc
            e = self.ev(s.exc, fr)
            if s.cause is not None: self.ev(s.cause, fr)
            if isinstance(e, type) and issubclass(e, BaseException): raise PyRaise(e, ())
            if isinstance(e, Exc): raise PyRaise(e.cls, e.args)
            if isinstance(e, PyRaise): raise e
            raise Unsupported("raise of a non exception")
        if t is ast.Pass: return None
        if t is ast.Break: return (BRK, None)
        if t is ast.Continue: return (CONT, None)
        if t is ast.Try: return self.try_(s, fr)
        if t is ast.With: return self.with_(s, fr)
        if t is ast.FunctionDef:
            fr.setl(s.name, Closure(s, fr)); return None
        if t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Attribute):
                    o = self.ev(tg.value, fr)
                    p = getattr(o.cls, tg.attr, None) if isinstance(o, Obj) else None
                    if isinstance(p, property): self.call(p.fdel, [o])
                    else: raise Unsupported("del attribute")
                elif isinstance(tg, ast.Name): fr.setl(tg.id, Poison(tg.id))
                elif isinstance(tg, ast.Subscript): self.lib.delitem(self, self.ev(tg.value, fr), self.index(tg.slice, fr))
                else: raise Unsupported("del")
            return None
        if t in (ast.Import, ast.ImportFrom):
            raise Unsupported("import in a function")
        if t is ast.Assert:
            if not self.branch(self.ev(s.test, fr)): self.exc(AssertionError)
            return None
        if t is ast.Nonlocal or t is ast.Global: raise Unsupported("global/nonlocal")
        raise Unsupported(f"statement {t.__name__}")

    def assign(self, tg, v, fr):
        t = type(tg)
        if t is ast.Name: fr.setl(tg.id, v); return
        if t in (ast.Tuple, ast.List):
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if star:
                vals = self.lib.iter_values(self, v); i = star[0]; after = len(tg.elts) - 1 - i
                if len(vals) < len(tg.elts) - 1: self.exc(ValueError, "unpack")
                mid = PList(CSeq(vals[i:len(vals) - after]))
                for a, b in zip(tg.elts, list(vals[:i]) + [mid] + list(vals[len(vals) - after:])): self.assign(a.value if isinstance(a, ast.Starred) else a, b, fr)
                return
            vals = self.lib.iter_values(self, v, exact=len(tg.elts))
            if len(vals) != len(tg.elts): self.exc(ValueError, "unpack")
            for a, b in zip(tg.elts, vals): self.assign(a, b, fr)
            return
        if t is ast.Attribute: return self.setattr(self.ev(tg.value, fr), tg.attr, v)
        if t is ast.Subscript:
            o = self.ev(tg.value, fr)
            return self.lib.setitem(self, o, self.index(tg.slice, fr), v)
        raise Unsupported(f"assignment to {t.__name__}")

    def augassign(self, s, fr):
        tg = s.target; op = type(s.op)
        if isinstance(tg, ast.Name):
            cur = self.name(tg.id, fr)
            fr.setl(tg.id, self.inplace(op, cur, self.ev(s.value, fr))); return
        if isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, fr)
            cur = self.getattr(o, tg.attr)
            self.setattr(o, tg.attr, self.inplace(op, cur, self.ev(s.value, fr))); return
        if isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, fr); i = self.index(tg.slice, fr)
            cur = self.lib.getitem(self, o, i)
            self.lib.setitem(self, o, i, self.inplace(op, cur, self.ev(s.value, fr))); return
        raise Unsupported("augmented assignment")

    def inplace(self, op, a, b):
        if op is ast.Add and isinstance(a, PList):
            self.lib.list_extend(self, a, b); return a
        if op is ast.Add and isinstance(a, BA) and a.mutable:
            a.seq = seq_concat(a.seq, self.lib.to_ba(b).seq); return a
        if isinstance(a, NArr): raise Unsupported("in place array arithmetic")
        return self.lib.binop(self, op, a, b)

    # loops -------------------------------------------------------------
    def loop_spec(self, s, fr):
        k = fr.loop_no.get(id(s))
        return self.loops.get((fr.fn, k)) or self.loops.get((fr.fn, "*"))

    def for_(self, s, fr):
        X = core.X
        it = self.ev(s.iter, fr)
        spec = self.loop_spec(s, fr)
        n, elem = self.lib.iteration(self, it)
        if spec is not None and spec.wants(self, s, fr, n):
            return self.cut(spec, s, fr, n, elem)
        if not isinstance(n, int):
            m = self.bound(n)
            if m is None: raise Unsupported(f"loop in {fr.fn} line {s.lineno} without invariant")
            k = 0
            while True:
                if not X.branch(nterm(k) < nterm(n)): break
                self.assign(s.target, elem(k), fr)
                sig = self.block(s.body, fr)
                if sig is not None:
                    if sig[0] is BRK: return None
                    if sig[0] is RET: return sig
                k += 1
                if k > m + 1: raise Unsupported("loop bound")
            return self.block(s.orelse, fr)
        if n > self.unroll_limit: raise Unsupported(f"loop in {fr.fn} line {s.lineno} with {n} iterations and no invariant")
        for k in range(n):
            self.assign(s.target, elem(k), fr)
            sig = self.block(s.body, fr)
            if sig is not None:
                if sig[0] is BRK: return None
                if sig[0] is RET: return sig
        return self.block(s.orelse, fr)

    def bound(self, n, most=8):
        if core.X.decide(n <= most): return most
        return None

    def while_(self, s, fr):
        X = core.X
        spec = self.loop_spec(s, fr)
        if spec is not None and spec.wants(self, s, fr, None):
            return self.cut(spec, s, fr, None, None)
        k = 0
        while True:
            c = self.truth(self.ev(s.test, fr))
            if not isinstance(c, bool):
                d = X.decide(c)
                if d is None:
                    if k > 64: raise Unsupported(f"while loop in {fr.fn} line {s.lineno} without invariant")
                    d = X.branch(c)
                c = d
            if not c: break
            sig = self.block(s.body, fr)
            if sig is not None:
                if sig[0] is BRK: return None
                if sig[0] is RET: return sig
            k += 1
            if k > 300: raise Unsupported(f"while loop in {fr.fn} line {s.lineno} without invariant")
        return self.block(s.orelse, fr)

    def assigned(self, s):
        out = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        return out

    def cut(self, spec, s, fr, n, elem):
        """loop by invariant: spec.entry / havoc / check; see contracts for the protocol"""
        X = core.X
        fn = f"{fr.fn} loop {fr.loop_no.get(id(s))}"
        if spec.must_exit: X.expect(f"{fn}: the loop ends")
        if spec.must_enter: X.expect(f"{fn}: the body is reachable")
        if getattr(spec, "node", None) is None: spec.node = s
        spec.begin(self, fr, n)
        spec.entry(self, fr, 0 if n is not None else None)
        mark = birth_mark()
        tmark = len(X.trail)
        names = self.assigned(s)
        auto = {}
        for nm in sorted(names):
            if nm in fr.locals:
                v = fr.locals[nm]
                if is_pyint(v) and not isinstance(v, (bool, SBool)): auto[nm] = SI(X.fint(nm)); fr.setl(nm, auto[nm])      # some python int
                else: fr.setl(nm, Poison(nm))
        if spec.concrete_k and isinstance(n, int):
            k = X.choose(n + 1)
            mode = 1 if k == n else 0
        else:
            k = X.fint("k") if n is not None else None
            if n is not None: X.assume(z3.And(k >= 0, k <= nterm(n)))
            mode = X.choose(2)
        spec.havoc(self, fr, k)
        auto = {nm: v for nm, v in auto.items() if fr.locals.get(nm) is v}
        allowed = {key for _, key, _ in X.trail[tmark:]}
        if mode == 0:
            if n is not None:
                X.assume(nterm(k) < nterm(n))
                if not X.feasible(z3.BoolVal(True)): raise PathEnd()
                self.assign(s.target, elem(k), fr)
            else:
                c = self.truth(self.ev(s.test, fr))
                if isinstance(c, bool):
                    if not c: raise PathEnd()
                else: X.assume(c)
                if X.decide(z3.BoolVal(True)) is None or not X.feasible(z3.BoolVal(True)): raise PathEnd()
            v0 = spec.variant(self, fr, k)
            X.cover(f"{fn}: the body is reachable")
            bmark = len(X.trail)
            sig = self.block(s.body, fr)
            for _, key, _ in X.trail[bmark:]:
                o = key.obj
                if isinstance(o, Frame):
                    if o is fr and key.name not in names and key not in allowed: raise Unsupported(f"frame: {key.name}")
                    continue
                if o.birth < mark and key not in allowed and not spec.frame_ok(self, fr, o, key.name):
                    X.prove(False, f"{fn}: frame: the body writes {type(o).__name__}.{key.name}, which the invariant does not mention")
            if sig is None or sig[0] is CONT:
                spec.check(self, fr, k + 1 if k is not None else None)
                for nm in auto:
                    if not is_pyint(fr.locals[nm]) or isinstance(fr.locals[nm], bool): raise Unsupported(f"local {nm} does not stay a python int in the loop")
                if v0 is not None:
                    v1 = spec.variant(self, fr, k + 1 if k is not None else None)
                    X.prove(z3.And(nterm(v1) < nterm(v0), nterm(v0) >= 0), f"{fn}: terminates: the variant decreases")
                raise PathEnd()
            if sig[0] is BRK: return None
            return sig
        if n is not None:
            X.assume(nterm(k) == nterm(n))
            if not spec.must_exit and not X.feasible(z3.BoolVal(True)): raise PathEnd()
        else:
            c = self.truth(self.ev(s.test, fr))
            if isinstance(c, bool):
                if c: raise PathEnd()
            else: X.assume(z3.Not(c))
            if not X.feasible(z3.BoolVal(True)): raise PathEnd()
        X.cover(f"{fn}: the loop ends")
        spec.exit(self, fr, k)
        return self.block(s.orelse, fr)

    def try_(self, s, fr):
        try: sig = self.try_handled(s, fr)
        except PyRaise:
            f = self._final(s, fr)
            if f is not None: return f
            raise
        f = self._final(s, fr)
        return f if f is not None else sig

    def try_handled(self, s, fr):
        try:
            sig = self.block(s.body, fr)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None: ok = True
                else:
                    ty = self.ev(h.type, fr)
                    tys = ty if isinstance(ty, tuple) else (ty,)
                    ok = issubclass(e.cls, tys)
                if ok:
                    if h.name: fr.setl(h.name, Exc(e.cls, e.args_))
                    saved = getattr(self, "cur_exc", None)
                    self.cur_exc = e
                    try: return self.block(h.body, fr)
                    finally: self.cur_exc = saved
            raise
        if sig is None and s.orelse: sig = self.block(s.orelse, fr)
        return sig

    def _final(self, s, fr):
        return self.block(s.finalbody, fr) if s.finalbody else None

    def with_(self, s, fr):
        mgrs = []
        for it in s.items:
            m = self.ev(it.context_expr, fr)
            v = self.lib.enter(self, m)
            mgrs.append(m)
            if it.optional_vars is not None: self.assign(it.optional_vars, v, fr)
        try:
            sig = self.block(s.body, fr)
        except PyRaise:
            for m in reversed(mgrs): self.lib.exit(self, m)
            raise
        for m in reversed(mgrs): self.lib.exit(self, m)
        return sig

    # ------------------------------------------------------------ expressions
    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.locals:
                v = f.locals[n]
                if isinstance(v, Poison): raise Unsupported(f"local {n} is read although the loop before leaves it unspecified")
                return v
            f = f.parent
        if n in fr.glob: return lift(fr.glob[n])
        if hasattr(builtins, n): return getattr(builtins, n)
        # a local that was never assigned
        self.exc(NameError, n)

    def index(self, node, fr):
        return self.ev(node, fr)

    def ev(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None: raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def ev_Constant(self, e, fr): return e.value
    def ev_Name(self, e, fr): return self.name(e.id, fr)
    def ev_Attribute(self, e, fr): return self.getattr(self.ev(e.value, fr), e.attr)
    def ev_Tuple(self, e, fr): return tuple(self.elts(e, fr))
    def ev_List(self, e, fr): return PList(CSeq(self.elts(e, fr)))
    def ev_Set(self, e, fr):
        v = self.elts(e, fr)
        return SymSet(v) if any(self.lib.has_sym(x) for x in v) else frozenset(v)
    def elts(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred): out += self.lib.iter_values(self, self.ev(x.value, fr))
            else: out.append(self.ev(x, fr))
        return out
    def ev_Dict(self, e, fr):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                if not isinstance(o, (PDict, dict)): raise Unsupported("dict unpacking")
                for a, b in (o.d if isinstance(o, PDict) else o).items(): self.lib.setitem(self, d, a, b if isinstance(o, PDict) else self.lib.wrap_native(b))
                continue
            self.lib.setitem(self, d, self.ev(k, fr), self.ev(v, fr))
        return d
    def ev_Slice(self, e, fr):
        f = lambda x: self.ev(x, fr) if x is not None else None
        return SliceV(f(e.lower), f(e.upper), f(e.step))
    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(o, (type, types.GenericAlias)): return o       # annotations
        return self.lib.getitem(self, o, self.index(e.slice, fr))
    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else boolv(z3.Not(t))
        return self.lib.unop(self, type(e.op), v)
    def ev_BinOp(self, e, fr):
        return self.lib.binop(self, type(e.op), self.ev(e.left, fr), self.ev(e.right, fr))
    def ev_BoolOp(self, e, fr):
        X = core.X
        isand = isinstance(e.op, ast.And)
        def go(i):
            v = self.ev(e.values[i], fr)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if not isinstance(t, bool):
                d = X.decide(t)
                if d is not None: t = d
            if isinstance(t, bool):
                if t == isand: return go(i + 1)
                return v if not isinstance(v, SBool) else t
            def thunk():
                b = X.branch(t)
                if b == isand: return go(i + 1)
                return b if isinstance(v, SBool) else v
            return self.vregion(thunk)
        return go(0)
    def ev_IfExp(self, e, fr):
        X = core.X
        c = self.truth(self.ev(e.test, fr))
        if not isinstance(c, bool):
            d = X.decide(c)
            if d is not None: c = d
        if isinstance(c, bool): return self.ev(e.body if c else e.orelse, fr)
        return self.vregion(lambda: self.ev(e.body if X.branch(c) else e.orelse, fr))
    def ev_Compare(self, e, fr):
        X = core.X
        left = self.ev(e.left, fr)
        def go(i, left):
            right = self.ev(e.comparators[i], fr)
            r = self.lib.compare(self, type(e.ops[i]), left, right)
            if i == len(e.ops) - 1: return r
            t = self.truth(r)
            if not isinstance(t, bool):
                d = X.decide(t)
                if d is not None: t = d
            if isinstance(t, bool): return go(i + 1, right) if t else False
            return self.vregion(lambda: go(i + 1, right) if X.branch(t) else False)
        return go(0, left)
    def ev_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return Super(None, self.name("self", fr))
        f = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                args.append(StarV(v)) if not self.lib.concrete_len(v) else args.extend(self.lib.iter_values(self, v))
            else: args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None: raise Unsupported("**kwargs call")
            kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)
    def ev_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = self.ev(v.format_spec, fr) if v.format_spec else ""
                parts.append(self.lib.format_value(self, x, v.conversion, spec))
        return self.lib.str_join(self, parts)
    def ev_Lambda(self, e, fr): return Closure(e, fr)
    def ev_ListComp(self, e, fr):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.ev(e.generators[0].iter, fr)
            n, elem = self.lib.iteration(self, it)
            if not isinstance(n, int) and self.bound(n) is None: return self.map_comp(e, fr, it, n, elem)
            return PList(CSeq(self.comp(e, fr, it)))
        return PList(CSeq(self.comp(e, fr)))
    def map_comp(self, e, fr, it, n, elem):
        """[f(x) for x in s], s of unknown length: either some element raises, or element i is f(s[i])"""
        X = core.X
        snap = getattr(it, "seq", None)      # contents now
        def at(k):
            sub = Frame(fr.fn, fr.glob, {}, fr)
            v = elem_of(k)
            self.assign(e.generators[0].target, v, sub)
            mark = len(X.trail)
            r = self.ev(e.elt, sub)
            if any(not isinstance(key.obj, (Frame, Seq)) for _, key, _ in X.trail[mark:]): raise Unsupported("comprehension element with an effect")
            return r
        if isinstance(it, (PList, BA, NArr, AArr)):
            elem_of = lambda k: self.lib.elem_value(it, snap.get(k))
        else: elem_of = elem
        raises = X.choose(2) if not self.total_elt(e, fr, n, at) else 0
        if raises:
            k = X.fint("k"); X.assume(z3.And(k >= 0, k < nterm(n)))
            at(k)
            raise PathEnd()
        def f(i):
            try: return at(i)
            except PyRaise: raise PathEnd()
        return PList(Seq(n, f))
    def total_elt(self, e, fr, n, at):
        """the element expression never raises"""
        X = core.X
        pcm, mark = len(X.pc), len(X.trail)
        try:
            k = X.fint("k"); X.assume(z3.And(k >= 0, k < nterm(n)))
            alts = X.sub(lambda: at(k), (PyRaise,))
            return all(o[0] == "ok" for _, o, _ in alts)
        except PathEnd: return True
        finally:
            X.undo_to(mark); del X.pc[pcm:]
    def ev_GeneratorExp(self, e, fr):
        if len(e.generators) == 1 and not e.generators[0].is_async:
            g = e.generators[0]
            it = self.ev(g.iter, fr)
            n, elem = self.lib.iteration(self, it)
            if not isinstance(n, int): return LazyGen(self, e, fr, n, elem)
            return PList(CSeq(self.comp(e, fr, it)))
        return PList(CSeq(self.comp(e, fr)))
    def comp(self, e, fr, it0=None):
        out = []
        sub = Frame(fr.fn, fr.glob, {}, fr)
        def go(i):
            if i == len(e.generators): out.append(self.ev(e.elt, sub)); return
            g = e.generators[i]
            it = it0 if i == 0 and it0 is not None else self.ev(g.iter, sub)
            n, elem = self.lib.iteration(self, it)
            if not isinstance(n, int) or n > 4096: raise Unsupported("comprehension over a sequence of unknown length")
            for k in range(n):
                self.assign(g.target, elem(k), sub)
                if all(self.branch(self.ev(c, sub)) for c in g.ifs): go(i + 1)
        go(0)
        return out
    def ev_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value else None
        f = fr
        while f is not None and f.on_yield is None: f = f.parent
        if f is None: raise Unsupported("yield outside generator")
        return f.on_yield(v)
    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr); fr.setl(e.target.id, v); return v
    def ev_Starred(self, e, fr): raise Unsupported("starred")

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Poison): raise Unsupported(f"local {o.name} unspecified after loop")
        if isinstance(o, Obj):
            c = inspect_static(o.cls, name)
            if isinstance(c, property): return self.call(c.fget, [o])
            if name in o.a: return o.a[name]
            lazy = getattr(o, "lazy", None)
            if lazy is not None:
                v = lazy(name)
                if v is not None: return v
            if name == "__class__": return o.cls
            if isinstance(c, types.FunctionType): return Bound(c, o)
            if isinstance(c, staticmethod): return c.__func__
            if isinstance(c, classmethod): return Bound(c.__func__, o.cls)
            if c is not NOATTR: return lift(c)
            self.exc(AttributeError, name)
        if isinstance(o, NT):
            if name in o.cls._fields: return o.get(name)
            if name in ("_replace", "_asdict"): return BMethod(o, name)
            if name == "__class__": return o.cls
            self.exc(AttributeError, name)
        if isinstance(o, Exc):
            if name == "args": return o.args
            if name in o.a: return o.a[name]
        if isinstance(o, Super):
            return BMethod(o, name)
        if isinstance(o, types.ModuleType):
            if not hasattr(o, name): self.exc(AttributeError, name)
            return lift(getattr(o, name))
        if isinstance(o, type):
            c = inspect_static(o, name)
            if c is NOATTR:
                try: return lift(getattr(o, name))
                except AttributeError: self.exc(AttributeError, name)
            if isinstance(c, staticmethod): return c.__func__
            if isinstance(c, classmethod): return Bound(c.__func__, o) if is_repo_func(c.__func__) else getattr(o, name)
            if is_repo_class(o) and not isinstance(c, property): return lift(c)
            return lift(getattr(o, name))
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType)): return getattr(o, name)
        return self.lib.attr_of(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            c = inspect_static(o.cls, name)
            if isinstance(c, property):
                if c.fset is None: self.exc(AttributeError, name)
                self.call(c.fset, [o, v]); return
            o.set(name, v); return
        if isinstance(o, Exc): o._set(o.a, name, v); return
        raise Unsupported(f"attribute assignment on {o!r}")

class SliceV:
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step
class StarV:
    """*args of symbolic length"""
    def __init__(self, v): self.v = v
class LazyGen(Sym):
    """generator expression over a sequence of symbolic length: element k on demand"""
    def __init__(self, it, e, fr, n, elem): self.it, self.e, self.fr, self.n, self.elem = it, e, fr, n, elem
    def at(self, k):
        """-> (condition the element is produced, value)"""
        sub = Frame(self.fr.fn, self.fr.glob, {}, self.fr)
        g = self.e.generators[0]
        self.it.assign(g.target, self.elem(k), sub)
        conds = [self.it.truth(self.it.ev(c, sub)) for c in g.ifs]
        return conds, self.it.ev(self.e.elt, sub)

class SymSet(Sym):
    """a set display with symbolic members: asked for membership only"""
    def __init__(self, vals): self.vals = tuple(vals)

class _Sig:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
RET, BRK, CONT = _Sig("RET"), _Sig("BRK"), _Sig("CONT")
NOATTR = _Sig("NOATTR")

def inspect_static(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__: return k.__dict__[name]
    return NOATTR

class LoopSpec:
    """loop contract. Subclasses override; k is the iteration number of a for loop."""
    name = "loop"
    def wants(self, it, s, fr, n): return True
    def begin(self, it, fr, n): pass
    def entry(self, it, fr, k): self.check(it, fr, k)
    def havoc(self, it, fr, k): raise NotImplementedError
    def check(self, it, fr, k): raise NotImplementedError
    def variant(self, it, fr, k): return None
    def exit(self, it, fr, k): pass
    def frame_ok(self, it, fr, obj, name): return False
    concrete_k = False
    must_exit = True
    must_enter = True
