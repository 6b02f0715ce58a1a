"""Editing and querying extra headers of files: mseed3details.do_set_eh and do_get_eh."""
from vc import *
import z3, json, re, struct, ast
import libstr
from libio import *
import jsonpointer
from simplemseed import mseed3, mseed3details
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, Miniseed3Exception
from header3 import sym_header

READS = "readMSeed3Records yields every record of the file in order (C09); MSeed3Record.pack gives the bytes of the record as it is when called (C07)"
RECOMPUTED = ("crc", "identifierLength", "extraHeadersLength", "dataLength")

def bools(it, fr, node): return [n for n in it.assigned(node) if isinstance(fr.locals.get(n), bool)]
def loop_nodes(f): return [n for n in ast.walk(func_ast(f)) if isinstance(n, (ast.While, ast.For))]

class Token:
    """what was written so far: the records before the k-th, in order"""
    def __init__(self, k): self.k = k

class Files(LoopSpec):
    """files in order; a local that says whether a target has been found already keeps saying so"""
    must_exit = True
    def __init__(self, S): self.S = S
    def begin(self, it, fr, n):
        self.S.x.prove(nterm(n) == self.S.nf, self.S.what + ": every file named is gone through")
        self.flags = {b: fr.locals[b] for b in bools(it, fr, self.node)}
    def state(self, it, fr, any_):
        for b, v in self.flags.items(): fr.setl(b, SBool(simp_b(z3.Not(any_) if v else any_)))
    def holds(self, it, fr, any_, what):
        for b, v in self.flags.items():
            w = fr.locals.get(b)
            if not isinstance(w, (bool, SBool)): raise Unsupported(f"local {b}")
            w = z3.BoolVal(w) if isinstance(w, bool) else w.t
            self.S.x.prove(w == (z3.Not(any_) if v else any_), f"{self.S.what}: {what}")
    def entry(self, it, fr, k): pass
    def havoc(self, it, fr, k):
        S = self.S
        S.at(k)
        S.x.assume(z3.Implies(z3.Not(S.all), z3.Not(S.found_before(k))))
        self.state(it, fr, S.found_before(k))
    def check(self, it, fr, k):
        S = self.S
        S.file_done()
        self.holds(it, fr, S.found_before(k), "it is known whether a target has been found")
        S.x.prove(z3.Implies(z3.Not(S.all), z3.Not(S.found_before(k))), S.what + ": the next file is for the form for all records, or when no target was found")
    def exit(self, it, fr, k): self.S.stopped = False; self.S.phase = "end"
    def frame_ok(self, it, fr, obj, name): return isinstance(obj, SymFile) and name == "written" and obj in (self.S.out, getattr(self.S, "outfile", None))

class Records(Files):
    def begin(self, it, fr, n):
        S = self.S
        if S.recs is None: S.x.prove(z3.BoolVal(False), S.what + ": the records of the file are read")
        else: S.x.prove(nterm(n) == S.recs.n, S.what + ": every record of the file is gone through")
        self.flags = {b: fr.locals[b] for b in fr.locals if b in it.assigned(self.node) and isinstance(fr.locals[b], (bool, SBool))}
        self.pol = {b: v for b, v in S.outer.flags.items() if b in self.flags}
        self.flags = self.pol
    def entry(self, it, fr, k): self.S.records_begin()
    def havoc(self, it, fr, k):
        S = self.S
        S.record = None
        S.set_written(Token(k)); S.k = k
        self.state(it, fr, S.any(S.f, k))
    def check(self, it, fr, k):
        S = self.S
        S.x.assume(S.any(S.f, k) == z3.Or(S.any(S.f, S.k), S.hits(S.k)))
        S.record_done()
        self.holds(it, fr, S.any(S.f, k), "it is known whether a target has been found after a record")
    def exit(self, it, fr, k): self.S.complete = True

def simp_b(t): return z3.simplify(t)

class RecSeq:
    """the records of a file; reading may also fail at one of them"""
    def __init__(self, S, n, only): self.S, self.n, self.only = S, n, only
    def get(self, i):
        S = self.S
        if not S.x.branch(S.x.fbool("readable")): S.expected = True; S.it.exc(Miniseed3Exception, "record")
        return S.make(i)

class Base:
    def __init__(self, x, it, what):
        self.x, self.it, self.what = x, it, what
        x.fork_ifs = True
        it.json_kinds = True; it.decoded = []
        x.assume(JKIND(EMPTY) == 0)
        S = z3.StringSort(); I = z3.IntSort()
        def fn(name, *sorts): return z3.Function(f"{name}!{next(x.counter)}", *sorts)
        self.NAME, self.COUNT = fn("file", I, S), fn("records", I, I)
        self.IDENT, self.EH = fn("identifier", I, I, S), fn("extra", I, I, S)
        self.ANY, self.BEFORE = fn("found", I, I, z3.BoolSort()), fn("found_before", I, z3.BoolSort())
        self.nf = sym_int(x, "files", 0).t
        self.files = PList(Seq(self.nf, lambda i: SS(self.NAME(nterm(i)))))
        self.setall = bool(x.choose(2)); self.all = z3.BoolVal(self.setall)
        self.verbose = bool(x.choose(2))
        self.pattern = None; self.pat = None
        if x.choose(2):
            self.pattern = sym_str(x, "pattern"); self.pat = Pat()
        it.pattern_hook = self.compile
        it.open_hook = self.open; it.rename_hook = self.rename
        it.contracts["mseed3.readMSeed3Records"] = self.read
        it.contracts["mseed3.MSeed3Record.pack"] = self.pack
        it.contracts["mseed3.MSeed3Record.summary"] = lambda it, f, args, kw: libstr.fresh_str("summary")
        self.f = None; self.recs = None; self.inp = None; self.out = None; self.renamed = []; self.complete = False; self.record = None
        self.expected = False; self.stopped = True; self.phase = "start"; self.packed = []
    def compile(self, it, t):
        if t is not self.pattern: self.x.prove(z3.BoolVal(False), self.what + ": the pattern compiled is the pattern given")
        return self.pat
    def hits(self, i): return z3.BoolVal(True) if self.pat is None else self.pat.found(self.IDENT(self.f, nterm(i)))
    def any(self, f, k): return z3.Or(self.ANY(f, nterm(k)), self.BEFORE(f)) if not (isinstance(k, int) and k == 0) else self.BEFORE(f)
    def found_before(self, k):
        """a target among the records of the files before the k-th"""
        if isinstance(k, int) and k == 0: return z3.BoolVal(False)
        return self.BEFORE(nterm(k))
    def at(self, k):
        x = self.x
        self.phase = "file"
        self.f = nterm(k); self.n = self.COUNT(self.f); x.assume(self.n >= 0)
        self.recs = None; self.inp = None; self.out = None; self.renamed = []; self.complete = False; self.record = None; self.packed = []
        x.assume(z3.Implies(self.f == 0, z3.Not(self.BEFORE(self.f))))
        x.assume(z3.Not(self.ANY(self.f, z3.IntVal(0))))
        x.assume(self.BEFORE(self.f + 1) == z3.Or(self.BEFORE(self.f), self.ANY(self.f, self.n)))
    def read(self, it, f, args, kw):
        x = self.x
        a = dict(zip(("fileptr", "check_crc", "matchsid", "merge", "verbose"), args)); a.update(kw)
        x.prove(z3.BoolVal(a["fileptr"] is self.inp and self.inp is not None and self.recs is None and a.get("merge", False) is False), self.what + ": the records of the file are read, once")
        x.prove(z3.BoolVal(a.get("check_crc", True) is not False), self.what + ": records are checked when read")
        self.filter(a.get("matchsid"))
        self.recs = RecSeq(self, self.n, None)
        return PList(self.recs)
    def make(self, i):
        x, it = self.x, self.it
        i = nterm(i)
        self.i = i
        h = sym_header(x, it)
        eh = SS(self.EH(self.f, i))
        d = sym_bytes(x, "payload", sym_int(x, "payload length", 0).t)
        r = Obj(MSeed3Record, header=h, identifier=SS(self.IDENT(self.f, i)), _eh=eh, _data=d)
        self.record = r; self.was = (h, dict(h.a), r.get("identifier"), eh, d)
        self.packed = []
        return r
    def old_content(self):
        """the extra headers of the record as it is in the file"""
        t = self.was[3].t
        return z3.If(z3.Length(t) == 0, EMPTY, JLOAD(t))
    def records_begin(self): pass
    def set_written(self, tok):
        if self.out is not None: self.out._set(self.out.a, "written", (tok,))
    def pack(self, it, f, args, kw):
        x = self.x; r = args[0]
        if r is not self.record: x.prove(z3.BoolVal(False), self.what + ": the record packed is the one read")
        snap = (r.get("header"), dict(r.get("header").a), r.get("identifier"), r.get("_eh"), json_term(r.get("_eh")) if not isinstance(r.get("_eh"), SS) else r.get("_eh"), r.get("_data"))
        if not x.branch(x.fbool("fits")): self.expected = True; it.exc(struct.error, "does not fit")
        for k in RECOMPUTED: r.get("header").set(k, SI(x.fint(k)))
        b = sym_bytes(x, "packed", sym_int(x, "size", 40).t, True)
        self.packed.append((b, snap))
        return b
    def rename(self, it, args): self.x.prove(z3.BoolVal(False), self.what + ": no file is renamed")

# ---------------------------------------------------------------- editing
class Edit(Base):
    def __init__(self, x, it):
        super().__init__(x, it, "do_set_eh")
        self.ptr = sym_str(x, "pointer"); self.val = sym_str(x, "value")
        self.VAL = JLOAD(self.val.t)
        # the null that is put by a pointer is the one that was given
        it.json_null = self.VAL
        self.use = z3.Length(self.ptr.t) > 1
    def open(self, it, args, kw):
        x = self.x
        a = dict(zip(("file", "mode"), args)); a.update(kw)
        name = libstr.sterm(a["file"]); mode = a.get("mode", "r")
        if self.phase != "file": x.prove(z3.BoolVal(False), "do_set_eh: opens only the files named"); raise PathEnd()
        if mode == "rb":
            x.prove(name == self.NAME(self.f), "do_set_eh: the file read is the one named")
            self.inp = SymFile(Seq(x.fint("size"), lambda i: z3.BitVecVal(0, 8)), 0, "in")
            return self.inp
        if mode == "wb":
            x.prove(name != self.NAME(self.f), "do_set_eh: records are not written into the file being read")
            x.prove(z3.BoolVal(self.out is None), "do_set_eh: one new file for each file")
            self.out = SymFile(None, 0, "out"); self.tmp = name
            return self.out
        raise Unsupported(f"open mode {mode}")
    def filter(self, m): self.x.prove(z3.BoolVal(m is None), "do_set_eh: every record is read, matching or not")
    def rename(self, it, args):
        x = self.x
        if self.out is None: x.prove(z3.BoolVal(False), "do_set_eh: renames the new file"); return None
        x.prove(z3.And(libstr.sterm(args[0]) == self.tmp, libstr.sterm(args[1]) == self.NAME(self.f)), "do_set_eh: the new file takes the place of the one read")
        x.prove(z3.BoolVal(self.complete and not self.renamed), "do_set_eh: the file is replaced only after all its records were written")
        self.renamed.append(1)
    def records_begin(self):
        self.x.prove(z3.BoolVal(self.out is not None and self.out.a["written"] == ()), "do_set_eh: the new file is empty before the first record")
    def record_done(self):
        x = self.x
        w = self.out.a["written"] if self.out is not None else ()
        ok = len(w) == 2 and isinstance(w[0], Token) and any(b is w[1] for b, _ in self.packed)
        x.prove(z3.BoolVal(ok), "do_set_eh: each record is written once, in order")
        if not ok: return
        h, ha, ident, eh, ehc, d = next(s for b, s in self.packed if b is w[1])
        h0, a0, id0, eh0, d0 = self.was
        x.prove(z3.BoolVal(h is h0 and ident is id0 and d is d0), "do_set_eh: payload and identifier stay")
        for k in a0:
            if k not in RECOMPUTED: x.prove(z3.BoolVal(ha.get(k) is a0[k]), f"do_set_eh: header {k} stays")
        hit = z3.And(self.hits(self.k), z3.Or(self.all, z3.Not(self.any(self.f, self.k))))
        if not x.branch(hit):
            x.cover("a record that is not a target")
            x.prove(z3.BoolVal(eh is eh0), "do_set_eh: extra headers of other records stay as they are, to the byte")
            return
        if eh is eh0: x.prove(z3.BoolVal(False), "do_set_eh: a target is changed"); return
        old = self.old_content()
        if x.branch(self.use):
            x.cover("a pointer is set")
            x.prove(z3.BoolVal(False) if ehc is None or isinstance(ehc, SS) else ehc == SETP(old, self.ptr.t, self.VAL), "do_set_eh: a target has the value at the pointer and its other extra headers as before")
        else:
            x.cover("all extra headers are replaced")
            # the value as it is packed: None as no extra headers, text as json text
            good = JKIND(self.VAL) == 4 if eh is None else z3.BoolVal(False) if ehc is None or isinstance(ehc, SS) else ehc == self.VAL
            x.prove(good, "do_set_eh: a target has the value as its extra headers")
    def file_done(self):
        x = self.x
        x.prove(z3.BoolVal(self.complete and len(self.renamed) == 1), "do_set_eh: each file gone through is replaced by the one with its records")
        x.prove(z3.BoolVal(self.out is not None and not self.out.a["open"]), "do_set_eh: the new file is closed")
        if self.out is not None:
            w = self.out.a["written"]
            ok = len(w) == 1 and isinstance(w[0], Token)
            x.prove(nterm(w[0].k) == self.n if ok else z3.BoolVal(False), "do_set_eh: the new file has all records and nothing else")

@unit("mseed3details.do_set_eh", "C21", assume=[READS, POINTER, JSON, "the name of the new file is not that of another file"], weight=3)
def u_set(x, it):
    def go():
        S = Edit(x, it)
        nodes = loop_nodes(mseed3details.do_set_eh)
        outer, inner = Files(S), Records(S)
        S.outer = outer
        for nd in nodes:
            kids = [m for m in ast.walk(nd) if m is not nd and isinstance(m, (ast.For, ast.While))]
            (outer if kids else inner).node = nd
        it.loops[("mseed3details.do_set_eh", 0)] = outer
        it.loops[("mseed3details.do_set_eh", 1)] = inner
        kw = {"verbose": True} if S.verbose else {}
        if S.setall: kw["setall"] = True
        if S.pattern is not None: kw["matchsid"] = S.pattern
        o = attempt(it, mseed3details.do_set_eh, S.ptr, S.val, S.files, **kw)
        if not o.ok:
            e = o.v.cls
            x.cover(f"do_set_eh refuses with {e.__name__}")
            x.prove(z3.BoolVal(not S.renamed), "do_set_eh: a file is not replaced when something is refused in it")
            if S.expected: return
            t = S.was[3].t if S.record is not None else z3.StringVal("")
            badeh = z3.And(z3.Length(t) > 0, z3.Not(JVALID(t)))
            repl = z3.Not(S.use)
            if e is json.JSONDecodeError: g = z3.Or(z3.Not(JVALID(S.val.t)), badeh)
            elif e is Miniseed3Exception: g = z3.And(repl, JKIND(S.VAL) != 0, JKIND(S.VAL) != 4)
            elif e is jsonpointer.JsonPointerException and S.record is not None:
                old = S.old_content()
                g = z3.And(S.use, z3.Or(z3.Not(z3.PrefixOf(z3.StringVal("/"), S.ptr.t)), JKIND(old) > 1, z3.Not(SETOK(old, S.ptr.t))))
            else: g = z3.BoolVal(False)
            x.prove(g, "do_set_eh: refuses only a value that cannot be set, or extra headers that are not JSON")
            if S.record is not None:
                x.prove(z3.And(S.hits(S.k), z3.Or(S.all, z3.Not(S.any(S.f, S.k)))), "do_set_eh: a record that is not a target is not refused")
            return
        x.prove(z3.Or(S.use, JKIND(S.VAL) == 0, JKIND(S.VAL) == 4), "do_set_eh: extra headers that would not be an object are refused")
        if S.phase == "end":
            x.cover("all files were gone through")
        elif S.phase == "file":
            x.cover("stops after a file")
            S.file_done()
            x.prove(z3.And(z3.Not(S.all), S.found_before(S.f + 1)), "do_set_eh: stops before the last file only in the form for one record, after it was found")
        else: x.prove(z3.BoolVal(False), "do_set_eh: goes through the files")
    return go

# ---------------------------------------------------------------- querying
class Query(Base):
    def __init__(self, x, it):
        super().__init__(x, it, "do_get_eh")
        self.ptr = sym_str(x, "pointer")
        k = x.choose(3); self.to = ("file", "nothing", "stdout")[k]
        import sys
        self.outfile = (SymFile(None, 0, "outfile"), None, Opaque(type(sys.stdout), "stdout"))[k]
        if k == 2: self.outfile = sys.stdout
        self.printed = ()
        it.print_hook = self.printing
    def printing(self, it, args, kw):
        if kw or len(args) != 1: raise Unsupported("print options")
        self.printed = self.printed + (args[0],)
    def open(self, it, args, kw):
        x = self.x
        a = dict(zip(("file", "mode"), args)); a.update(kw)
        if self.phase != "file": x.prove(z3.BoolVal(False), "do_get_eh: opens only the files named"); raise PathEnd()
        x.prove(z3.BoolVal(a.get("mode") == "rb"), "do_get_eh: files are only read")
        x.prove(libstr.sterm(a["file"]) == self.NAME(self.f), "do_get_eh: the file read is the one named")
        self.inp = SymFile(Seq(x.fint("size"), lambda i: z3.BitVecVal(0, 8)), 0, "in")
        return self.inp
    def hits(self, i): return z3.BoolVal(True)
    def filter(self, m):
        self.x.prove(z3.BoolVal(m is self.pattern), "do_get_eh: the records are those that match the pattern")
    def set_written(self, tok):
        self.printed = (tok,)
        if self.to == "file": self.outfile._set(self.outfile.a, "written", (tok,))
    def at(self, k):
        super().at(k)
        self.set_written(Token("earlier files"))
    def records_begin(self):
        w = self.lines()
        if self.to != "file" and self.verbose and w is not None and len(w) == 1: w = ()      # name of the file
        self.x.prove(z3.BoolVal(w == ()), "do_get_eh: nothing is shown before the records of a file")
    def lines(self):
        w = self.outfile.a["written"] if self.to == "file" else self.printed
        return w[1:] if w and isinstance(w[0], Token) else None
    def record_done(self):
        x = self.x
        w = self.lines()
        if self.to != "file" and self.verbose and w is not None and len(w) == 2: w = w[1:]     # after the summary
        hit = x.branch(z3.Or(self.all, z3.Not(self.any(self.f, self.k))))
        if not hit:
            x.cover("a record after the first")
            x.prove(z3.BoolVal(w == ()), "do_get_eh: nothing is shown for a record that was not asked for"); return
        if w is None or len(w) != 1: x.prove(z3.BoolVal(False), "do_get_eh: one line for each record asked for"); return
        old = self.old_content(); t = self.ptr.t
        line = libstr.sterm(w[0])
        has = z3.Or(z3.Length(t) == 0, RESOK(old, t))
        file = self.to == "file"
        if x.branch(z3.And(has, z3.Implies(JKIND(old) == 4, z3.Length(t) == 0))):
            x.cover("the pointer is there")
            v = z3.If(z3.Length(t) == 0, old, RESOLVE(old, t))
            text = z3.If(JKIND(v) == 4, z3.StringVal("null"), JDUMP(v))
            x.prove(line == (z3.Concat(text, z3.StringVal("\n")) if file else z3.Concat(z3.StringVal("  "), text)), "do_get_eh: shows the value at the pointer as JSON")
        else:
            x.cover("the pointer is not there")
            x.prove(line == z3.StringVal("\n") if file else line == z3.StringVal("  pointer not found in extra headers"), "do_get_eh: an empty line, or a note, where there is no value")
    def file_done(self):
        self.x.prove(z3.BoolVal(self.recs is not None and self.complete), "do_get_eh: all records of the file are gone through")
        self.x.prove(z3.BoolVal(self.lines() == ()), "do_get_eh: nothing is shown after the records of a file")

@unit("mseed3details.do_get_eh", "C21", assume=[READS, POINTER, JSON])
def u_get(x, it):
    def go():
        S = Query(x, it)
        outer, inner = Files(S), Records(S)
        S.outer = outer
        for nd in loop_nodes(mseed3details.do_get_eh):
            kids = [m for m in ast.walk(nd) if m is not nd and isinstance(m, (ast.For, ast.While))]
            (outer if kids else inner).node = nd
        it.loops[("mseed3details.do_get_eh", 0)] = outer
        it.loops[("mseed3details.do_get_eh", 1)] = inner
        kw = {"verbose": True} if S.verbose else {}
        if S.setall: kw["getall"] = True
        if S.outfile is not None: kw["outfile"] = S.outfile
        if S.pattern is not None: kw["matchsid"] = S.pattern
        o = attempt(it, mseed3details.do_get_eh, S.ptr, S.files, **kw)
        if not o.ok:
            e = o.v.cls
            x.cover(f"do_get_eh refuses with {e.__name__}")
            if S.expected: return
            if e is json.JSONDecodeError and S.record is not None: g = z3.And(z3.Length(S.was[3].t) > 0, z3.Not(JVALID(S.was[3].t)))
            elif e is jsonpointer.JsonPointerException: g = z3.And(z3.Length(S.ptr.t) > 0, z3.Not(z3.PrefixOf(z3.StringVal("/"), S.ptr.t)))
            else: g = z3.BoolVal(False)
            x.prove(g, "do_get_eh: refuses only a wrong pointer or extra headers that are not JSON")
            return
        if S.phase == "end": x.cover("all files were gone through")
        elif S.phase == "file":
            x.cover("stops after a file"); S.file_done()
            x.prove(z3.And(z3.Not(S.all), S.found_before(S.f + 1)), "do_get_eh: stops before the last file only in the form for one record, after it was found")
        else: x.prove(z3.BoolVal(False), "do_get_eh: goes through the files")
    return go

# ---------------------------------------------------------------- the command line
class Text(Heap):
    """text file open for reading"""
    def __init__(self, content): super().__init__(); self.a = {"content": content}
    def sym_enter(self, it): return self
    def sym_exit(self, it): pass
    def truth(self): return True
    def sym_getattr(self, it, name):
        if (Text, name) in lib.METHODS: return BMethod(self, name)
        raise Unsupported(f"file.{name}")
lib.meth(Text, "read")(lambda it, o, args, kw: o.a["content"])

@unit("mseed3details.do_details: options of the command line", "C21", assume=["argparse gives the options of do_parseargs by name"])
def u_options(x, it):
    def go():
        x.fork_ifs = True
        import sys
        opt = ("get", "getall", "set", "setall", "fset", "fsetall")[x.choose(6)]
        files = PList(Seq(sym_int(x, "files", 1).t, lambda i: Opaque(str)))
        pattern = sym_str(x, "pattern") if x.choose(2) else None
        verbose = bool(x.choose(2))
        out = SymFile(None, 0, "outfile") if x.choose(2) else None
        ptr, val = sym_str(x, "pointer"), sym_str(x, "value")
        content = sym_str(x, "content")
        class Options: pass
        a = Obj(Options, verbose=verbose, eh=False, summary=False, data=False, match=pattern, outfile=out, ms3files=files, **{k: None for k in ("get", "getall", "set", "setall", "fset", "fsetall")})
        a.set(opt, ptr if opt.startswith("get") else PList(CSeq([ptr, val])))
        it.contracts["mseed3details.do_parseargs"] = lambda it, f, args, kw: a
        def op(it, args, kw):
            g = dict(zip(("file", "mode"), args)); g.update(kw)
            x.prove(z3.And(libstr.sterm(g["file"]) == val.t, z3.BoolVal(g.get("mode", "r") in ("r", "rt") and opt[0] == "f")), "options: the value is read from the file named")
            return Text(content)
        it.open_hook = op
        calls = []
        it.contracts["mseed3details.do_set_eh"] = lambda it, f, args, kw: calls.append(("set", dict(zip(("setptr", "setval", "ms3files", "matchsid", "setall", "verbose"), args), **kw)))
        it.contracts["mseed3details.do_get_eh"] = lambda it, f, args, kw: calls.append(("get", dict(zip(("getptr", "ms3files", "matchsid", "getall", "outfile", "verbose"), args), **kw)))
        o = attempt(it, mseed3details.do_details)
        x.prove(z3.BoolVal(o.ok and len(calls) == 1), "options: one edit or query is done")
        if not o.ok or len(calls) != 1: return
        x.cover(f"option {opt}")
        which, g = calls[0]
        x.prove(z3.BoolVal(which == ("get" if opt.startswith("get") else "set")), "options: edits for the set options, queries for the get options")
        x.prove(z3.BoolVal(g["ms3files"] is files and g.get("matchsid") is pattern), "options: on the files and pattern given")
        x.prove(z3.BoolVal(g.get("verbose", False) == verbose), "options: verbose as given")
        if which == "get":
            x.prove(z3.BoolVal(g["getptr"] is ptr and g.get("getall", False) is (opt == "getall")), "options: the pointer, for one or all")
            f = g.get("outfile")
            x.prove(z3.BoolVal(f is out if out is not None else f is None or f is sys.stdout), "options: into the file given")
        else:
            x.prove(z3.BoolVal(g["setptr"] is ptr and g["setval"] is (content if opt[0] == "f" else val)), "options: the pointer and the value")
            x.prove(z3.BoolVal(g.get("setall", False) is (opt in ("setall", "fsetall"))), "options: for one record or for all")
    return go

@unit("mseed3.MSeed3Record.summary leaves the record as it is", "C21")
def u_summary(x, it):
    def go():
        x.fork_ifs = True
        import libdt
        it.contracts["mseed3.MSeed3Header.starttime"] = lambda it, f, args, kw: libdt.sym_dt(x, "start", utc=True)
        it.contracts["mseed3.MSeed3Header.endtime"] = lambda it, f, args, kw: libdt.sym_dt(x, "end", utc=True)
        it.contracts["util.isoWZ"] = lambda it, f, args, kw: libstr.fresh_str("iso")
        h = sym_header(x, it); a0 = dict(h.a)
        r = Obj(MSeed3Record, header=h, identifier=sym_str(x, "identifier"), _eh=sym_str(x, "eh"), _data=sym_bytes(x, "payload", sym_int(x, "n", 0).t))
        r0 = dict(r.a)
        o = attempt(it, MSeed3Record.summary, r)
        x.cover("summary")
        x.prove(z3.BoolVal(o.ok), "summary: returns")
        x.prove(z3.BoolVal(all(r.a.get(k) is v for k, v in r0.items()) and all(h.a.get(k) is v for k, v in a0.items())), "summary: leaves the record as it is")
    return go
