"""Reading miniSEED3 records from a stream, with and without filter and merging."""
from vc import *
import z3, re
import libstr
from libio import *
from simplemseed import mseed3, seedcodec
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, Miniseed3Exception
from header3 import sym_header, LAYOUT, INTS
from record3 import setup, Bytes, zeroed, check_read, zmin, text_of

READ = mseed3.readMSeed3Records
PRIM = (1, 3, 4, 5)

class ReadLoop(LoopSpec):
    """the file is at the start of a record, or at its end; one record may be pending when merging"""
    must_exit = False
    def __init__(self, x, st): self.x, self.st = x, st
    def entry(self, it, fr, k):
        st, x = self.st, self.x
        x.prove(z3.BoolVal(not st.out), "reading: nothing is yielded before the stream is read")
        x.prove(nterm(st.f.a["pos"]) == nterm(st.start), "reading: begins where the stream is")
        st.slots = [n for n in self.it_assigned if n in fr.locals and fr.locals[n] is None]
    def begin(self, it, fr, n):
        self.it_assigned = it.assigned(self.node(it, fr))
    def node(self, it, fr):
        import ast
        w = [n for n in ast.walk(func_ast(READ)) if isinstance(n, (ast.While, ast.For))]
        return w[0]
    def havoc(self, it, fr, k):
        st, x = self.st, self.x
        p = x.fint("position"); x.vars["position"] = p
        x.assume(z3.And(p >= nterm(st.start)))
        st.f._set(st.f.a, "pos", p)
        for n in st.slots: fr.setl(n, None)
        if len(st.slots) > 1 and st.merge: raise Unsupported("more than one pending record")
        st.pending = None
        if st.slots and st.merge and x.choose(2):
            st.pending = Opaque(MSeed3Record, "pending"); fr.setl(st.slots[0], st.pending)
        st.begin(p)
    def check(self, it, fr, k):
        st, x = self.st, self.x
        pend = None
        for n in st.slots:
            if fr.locals.get(n) is not None: pend = fr.locals[n]
        st.iteration(pend)

class State:
    def __init__(self, x, it, merge, pat):
        self.x, self.it = x, it
        self.N = sym_int(x, "stream length", 0).t
        A = z3.Function(f"stream!{next(x.counter)}", z3.IntSort(), z3.BitVecSort(8))
        self.content = Seq(self.N, lambda i: A(nterm(i)))
        self.start = x.fint("start"); x.assume(z3.And(self.start >= 0, self.start <= self.N))
        self.f = SymFile(self.content, self.start)
        self.out = []; self.phase = "entry"; self.matched = None; self.merged = None; self.texts = []
        self.crc = setup(x, it)
        self.check = (True, False, None)[x.choose(3)]
        self.merge = merge
        self.verbose = bool(x.choose(2)) if not self.merge else False
        self.pat = Pat() if pat else None
        it.pattern_hook = self.compile
        if self.pat: self.pattern = sym_str(x, "pattern")
        it.contracts["mseed3.MSeed3Record.__str__"] = lambda it, f, args, kw: libstr.fresh_str("listing")
    def compile(self, it, t):
        self.x.prove(z3.BoolVal(t is self.pattern), "reading: the pattern compiled is the pattern given")
        return self.pat
    def begin(self, p):
        x, it = self.x, self.it
        self.phase = "iteration"; self.p = p
        left = z3.If(p < self.N, self.N - p, 0)
        self.B = B = Bytes.__new__(Bytes)
        B.x, B.it = x, it
        class I: pass
        B.n = I(); B.n.t = left
        B.b = BA(seq_slice(self.content, p, self.N), False)
        B.head_ok = x.fbool("good_header"); x.assume(z3.Implies(B.head_ok, left >= 40))
        B.h = sym_header(x, it)
        B.f = f = {k: nterm(as_int(B.h.get(k))) for k, o, w in INTS}
        B.rate = B.h.get("sampleRatePeriod")
        tot = 40 + f["identifierLength"] + f["extraHeadersLength"] + f["dataLength"]
        B.total = tot
        B.p1, B.p2, B.p3 = zmin(40 + f["identifierLength"], left), zmin(tot - f["dataLength"], left), zmin(tot, left)
        it.contracts["mseed3.unpackMSeed3FixedHeader"] = B.unpack_header
    def good(self):
        return self.crc.spec(self.x, zeroed(seq_slice(self.B.b.seq, 0, self.B.p3))) == self.B.f["crc"]
    def ident(self):
        """identifier text of the record, if the code has decoded it"""
        x, B = self.x, self.B
        for q, s in self.it.decoded:
            n = x.decide(nterm(s.n) == B.p1 - 40)
            if n is True: return q
        return None
    def iteration(self, pend):
        """one pass through the loop that goes on to the next record"""
        x, B = self.x, self.B
        x.prove(B.n.t > 0, "reading: goes on only with a record left in the stream")
        x.prove(B.head_ok, "reading: a wrong header is refused")
        pos = nterm(self.f.a["pos"])
        N = self.N
        x.prove(zmin(pos, N) == zmin(self.p + B.total, N), "reading: goes on at the start of the next record")
        if self.pat:
            # the identifier is the text decoded from its bytes
            t = self.ident()
            if t is None: x.prove(z3.BoolVal(False), "reading: the identifier is decoded"); return
            text_of(self.it, x, t, B.part(40, B.p1), "reading: the text searched is the identifier")
            found = x.decide(self.pat.found(libstr.sterm(t)))
        else: found = True
        if found is None: x.prove(z3.BoolVal(False), "reading: the pattern decides"); return
        if not found:
            x.cover("a record is skipped")
            x.prove(z3.BoolVal(not self.out), "reading with a pattern: a record that does not match is not yielded")
            x.prove(z3.BoolVal(pend is self.pending), "reading with a pattern: a record that does not match changes nothing")
            return
        if self.check is not False: x.prove(self.good(), "reading: with checking on, a record is used only if its stored checksum is the CRC-32C of the bytes read with the checksum field zero")
        if not self.merge:
            x.cover("a record is yielded")
            if len(self.out) != 1 or pend is not None: x.prove(z3.BoolVal(False), "reading: one record is yielded for each record of the stream that matches"); return
            x.prove(z3.BoolVal(True), "reading: one record is yielded for each record of the stream that matches")
            check_read(x, self.it, self.out[0], B, "reading")
            return
        e = B.f["encoding"]
        can = x.decide(z3.Or(*[e == k for k in PRIM + (10, 11)]))
        if self.merged is not None:
            x.cover("merging")
            seq = self.out + ([pend] if pend is not None else [])
            x.prove(z3.BoolVal(len(seq) == len(self.merged) and all(a is b for a, b in zip(seq, self.merged)) and pend is not None), "merged reading: what merging the pending record with the next one gives is yielded in order, its last record stays pending")
        elif can is True: x.prove(z3.BoolVal(False), "merged reading: records that can be decompressed are merged")
        else:
            x.cover("no merging")
            before = [self.pending] if self.pending is not None else []
            seq = self.out + ([pend] if pend is not None else [])
            ok = len(seq) == len(before) + 1 and all(a is b for a, b in zip(seq, before))
            x.prove(z3.BoolVal(ok), "merged reading: a record that cannot be merged follows the pending one unchanged")
            if ok: check_read(x, self.it, seq[-1], B, "merged reading")
            if pend is not None: raise Unsupported("a record that is not decompressed stays pending")
    # contracts of what is called
    def decompressed(self, it, f, args, kw):
        x = self.x
        check_read(x, it, args[0], self.B, "merged reading")
        if not x.branch(x.fbool("decodable")): it.exc(seedcodec.CodecException, "payload")
        self.dec = Opaque(MSeed3Record, "decompressed")
        return self.dec
    def do_merge(self, it, f, args, kw):
        x = self.x
        x.prove(z3.BoolVal(args[0] is self.pending and args[1] is self.dec and self.merged is None), "merged reading: the pending record is merged with the one just read")
        if self.pending is None: r = [self.dec]
        elif x.choose(2): r = [self.pending, self.dec]
        else: r = [Opaque(MSeed3Record, "merged")]
        self.merged = r
        return PList(CSeq(list(r)))

def read_unit(merge, pat):
    def u(x, it): return lambda: read_records(x, it, merge, pat)
    unit(f"mseed3.readMSeed3Records{', merging' if merge else ''}{', with a pattern' if pat else ''}", "C10 C08" if merge else "C08 C09 C10" if not pat else "C08 C09", assume=[CRC, UTF8, "re.search of a pattern is some function of the text", "the stream is a binary file that reads as much as is asked for, up to its end"], weight=4)(u)
for _m in (False, True):
    for _p in (False, True): read_unit(_m, _p)

def read_records(x, it, merge, pat):
        st = State(x, it, merge, pat)
        it.contracts["mseed3.MSeed3Record.decompressedRecord"] = st.decompressed
        it.contracts["mseed3.mseed3merge"] = st.do_merge
        it.loops[("mseed3.readMSeed3Records", 0)] = ReadLoop(x, st)
        kw = {}
        if st.check is not None: kw["check_crc"] = st.check
        if st.pat: kw["matchsid"] = st.pattern
        if st.merge: kw["merge"] = True
        if st.verbose: kw["verbose"] = True
        g = it.call(READ, [st.f], kw)
        if not isinstance(g, GenVal): raise Unsupported("not a generator")
        def on_yield(v):
            st.out.append(v)
        try: it.run_generator(g, on_yield)
        except PyRaise as e:
            B = st.B
            if st.phase == "entry": x.prove(z3.BoolVal(False), "reading: does not fail before the stream is read"); return
            if e.cls is UnicodeDecodeError: return
            if e.cls is seedcodec.CodecException and st.merge: return
            x.cover("reading refuses")
            x.prove(z3.BoolVal(e.cls is Miniseed3Exception), "reading: refuses with Miniseed3Exception")
            x.prove(B.n.t > 0, "reading: the end of the stream is not an error")
            g = z3.BoolVal(True)
            if st.check is not False: g = st.good()
            x.prove(z3.Not(z3.And(B.head_ok, g)), "reading: a record with a good header and checksum is not refused")
            x.prove(z3.BoolVal(not st.out), "reading: a refused record is not yielded")
            if st.pat:
                t = st.ident()
                if t is not None: x.prove(z3.Or(z3.Not(B.head_ok), st.pat.found(libstr.sterm(t))), "reading with a pattern: a record that does not match is not refused")
            return
        if st.phase == "entry": x.prove(z3.BoolVal(False), "reading: reads the stream"); return
        x.cover("the stream ends"); 
        x.prove(st.B.n.t == 0, "reading: stops only at the end of the stream")
        want = [st.pending] if st.pending is not None else []
        x.prove(z3.BoolVal(len(st.out) == len(want) and all(a is b for a, b in zip(st.out, want))), "merged reading: the pending record is yielded at the end" if st.merge else "reading: nothing more is yielded at the end")
