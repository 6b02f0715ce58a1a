"""The commands that go through a file record by record: mseed2to3 and mseed3merge."""
from vc import *
import z3, importlib, struct, ast
import libstr
from libio import *
from simplemseed import mseed3, mseed3merge, miniseed
from simplemseed.mseed3 import MSeed3Record, Miniseed3Exception
from simplemseed.miniseed import MiniseedRecord, MiniseedException
conv = importlib.import_module("simplemseed.mseed2to3")

class Token:
    """everything of the first k records was written, in order"""
    def __init__(self, k): self.k = k

class Failed(Exception): pass

class Recs:
    """records a reader yields; it may also fail at one of them"""
    def __init__(self, S, n): self.S, self.n = S, n
    def get(self, i):
        S = self.S
        if not S.x.branch(S.x.fbool("readable")): S.expected = True; S.it.exc(S.err, "record")
        S.record = Obj(S.cls); S.index = nterm(i); S.converted = None; S.packed = None
        return S.record

class Each(LoopSpec):
    def __init__(self, S): self.S = S
    def begin(self, it, fr, n):
        S = self.S
        if S.recs is None: S.x.prove(z3.BoolVal(False), S.what + ": the records of the file given are read"); raise PathEnd()
        S.x.prove(nterm(n) == S.recs.n, S.what + ": every record of the file is gone through")
    def entry(self, it, fr, k):
        S = self.S
        S.x.prove(z3.BoolVal(S.out.a["written"] == ()), S.what + ": nothing is written before the first record")
    def havoc(self, it, fr, k):
        S = self.S
        S.record = S.packed = S.converted = None
        S.out._set(S.out.a, "written", (Token(k),))
        for nm in it.assigned(self.node):
            v = fr.locals.get(nm)
            if isinstance(v, (int, SI)) and not isinstance(v, bool): fr.setl(nm, SI(S.x.fint(nm)))
    def wants(self, it, s, fr, n): return not isinstance(n, int)
    def check(self, it, fr, k):
        S = self.S
        w = S.out.a["written"]
        ok = len(w) == 2 and isinstance(w[0], Token) and S.packed is not None and w[1] is S.packed
        S.x.cover("a record is written")
        S.x.prove(z3.BoolVal(ok), S.what + ": each record is written once, in order, before the next is read")
    def exit(self, it, fr, k): self.S.complete = k
    def frame_ok(self, it, fr, obj, name): return obj is self.S.out and name == "written"

class Command:
    def __init__(self, x, it, what, cls, err):
        self.x, self.it, self.what, self.cls, self.err = x, it, what, cls, err
        x.fork_ifs = True
        self.recs = None; self.record = None; self.packed = None; self.converted = None; self.expected = False; self.complete = None
        self.n = sym_int(x, "records", 0).t
        self.out = SymFile(None, 0, "out"); self.inp = SymFile(Seq(sym_int(x, "size", 0).t, lambda i: z3.BitVecVal(0, 8)), 0, "in")
        self.verbose = bool(x.choose(2))
        it.print_hook = lambda it, args, kw: None
        it.contracts["mseed3.MSeed3Record.pack"] = self.pack
        it.contracts["mseed3.MSeed3Record.summary"] = lambda it, f, args, kw: libstr.fresh_str("summary")
        it.contracts["mseed3.MSeed3Record.__str__"] = lambda it, f, args, kw: libstr.fresh_str("summary")
    def pack(self, it, f, args, kw):
        x = self.x; r = args[0]
        x.prove(z3.BoolVal(self.record is not None and r is self.to_pack() and self.packed is None), self.what + ": what is packed is the record of this turn, once")
        if not x.branch(x.fbool("fits")): self.expected = True; it.exc(struct.error, "does not fit")
        self.packed = sym_bytes(x, "packed", sym_int(x, "packed size", 40).t, True)
        return self.packed
    def to_pack(self): return self.record
    def go(self, f):
        x, it = self.x, self.it
        spec = Each(self)
        it.loop_spec = lambda s, fr: spec       # the loop over the records, in whatever function it is
        o = attempt(it, f)
        if not o.ok:
            x.cover("a record that cannot be read or written ends the command")
            x.prove(z3.BoolVal(self.expected), self.what + ": fails only where a record cannot be read, converted or written")
            return None
        x.cover("the command ends")
        x.prove(z3.BoolVal(False) if self.complete is None else nterm(self.complete) == self.n, self.what + ": ends after the last record")
        w = self.out.a["written"]
        x.prove(nterm(w[0].k) == self.n if len(w) == 1 and isinstance(w[0], Token) else z3.BoolVal(False), self.what + ": the file written has all records and nothing else")
        x.prove(z3.BoolVal(not self.out.a["open"]), self.what + ": the file written is closed")
        return o

class Options: pass

@unit("mseed2to3.main: the command", "C20", assume=["argparse gives the options of do_parseargs by name, files open", "readMiniseed2Records yields every record of the file in order (C19), mseed2to3 is under its own contract"])
def u_mseed2to3(x, it):
    def go():
        S = Command(x, it, "mseed2to3 command", MiniseedRecord, MiniseedException)
        it.contracts["mseed2to3.do_parseargs"] = lambda it, f, args, kw: Obj(Options, verbose=S.verbose, ms2=S.inp, ms3=S.out)
        def read(it, f, args, kw):
            a = dict(zip(("fileptr", "matchsid"), args)); a.update(kw)
            x.prove(z3.BoolVal(a["fileptr"] is S.inp and S.recs is None and a.get("matchsid") is None), "mseed2to3 command: all records of the file given are read, once")
            S.recs = Recs(S, S.n); return PList(S.recs)
        it.contracts["miniseed.readMiniseed2Records"] = read
        def convert(it, f, args, kw):
            x.prove(z3.BoolVal(args[0] is S.record and S.converted is None), "mseed2to3 command: the record of this turn is converted, once")
            if not x.branch(x.fbool("convertible")): S.expected = True; it.exc(MiniseedException, "cannot be converted")
            S.converted = Obj(MSeed3Record); return S.converted
        it.contracts["mseed2to3.mseed2to3"] = convert
        S.to_pack = lambda: S.converted
        o = S.go(conv.main)
        if o is not None: x.prove(z3.BoolVal(o.v is None or isinstance(o.v, int) and o.v == 0), "mseed2to3 command: success is reported")
    return go

@unit("mseed3merge.main: the command", "C10", assume=["argparse gives the options of do_parseargs by name", "readMSeed3Records under its own contract (C09, C10)", "the file written is not the file read"])
def u_merge(x, it):
    def go():
        S = Command(x, it, "mseed3merge command", MSeed3Record, Miniseed3Exception)
        names = sym_str(x, "outfile"), sym_str(x, "ms3file")
        x.assume(names[0].t != names[1].t)
        it.contracts["mseed3merge.do_parseargs"] = lambda it, f, args, kw: Obj(Options, verbose=S.verbose, decomp=bool(x.choose(2)), outfile=names[0], ms3file=names[1])
        def opening(it, args, kw):
            a = dict(zip(("file", "mode"), args)); a.update(kw)
            if a.get("mode") == "wb":
                x.prove(libstr.sterm(a["file"]) == names[0].t, "mseed3merge command: writes the file named for it"); return S.out
            x.prove(z3.And(libstr.sterm(a["file"]) == names[1].t, z3.BoolVal(a.get("mode") == "rb")), "mseed3merge command: reads the file named for it")
            return S.inp
        it.open_hook = opening
        def read(it, f, args, kw):
            a = dict(zip(("fileptr", "check_crc", "matchsid", "merge", "verbose"), args)); a.update(kw)
            x.prove(z3.BoolVal(a["fileptr"] is S.inp and S.recs is None and a.get("matchsid") is None and a.get("merge") is True and a.get("check_crc", True) is not False),
                    "mseed3merge command: all records of the file are read, checked and merged, once")
            S.recs = Recs(S, S.n); return PList(S.recs)
        it.contracts["mseed3.readMSeed3Records"] = read
        S.go(mseed3merge_main())
    return go

def mseed3merge_main():
    return importlib.import_module("simplemseed.mseed3merge").main
