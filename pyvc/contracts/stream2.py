"""Reading miniSEED2 records from a stream: readMiniseed2Records.

The stream is any sequence of well-formed records; each iteration of the outer loop is checked for any record at any
position, each iteration of the inner loop for any blockette of its chain."""
from vc import *
import z3, ast
import libstr
from libio import *
from libdt import DT, TD, US_S, US_M, MAXUS
from datetime import timezone
from simplemseed import miniseed
from simplemseed.fdsnsourceid import FDSNSourceId
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, BTime, Blockette100, Blockette1000, Blockette1001, BlocketteUnknown
from simplemseed.seedcodec import BIG_ENDIAN, LITTLE_ENDIAN
from header2 import KINDS

READ = miniseed.readMiniseed2Records
WELL = ("every record of the stream is well-formed: it is complete, its blockettes lie one after another and are as many as its header says, the last one has no next one, "
        "at most one of each of 100, 1000 and 1001, data offset (if any) behind the blockettes, 512 bytes if there is no blockette 1000, "
        "a byte order in blockette 1000 other than that of the header only in the last blockette, start in the years 1 to 9999")
POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
KEEP = ("dataOffset", "numBlockettes", "blocketteOffset", "numSamples", "other")

class Part:
    """the i-th blockette of the record, as read"""
    def __init__(self, i): self.i = i

def loops():
    ns = [n for n in ast.walk(func_ast(READ)) if isinstance(n, (ast.While, ast.For))]
    outer = [n for n in ns if any(m is not n and m in ns for m in ast.walk(n))]
    if len(ns) != 2 or len(outer) != 1: raise Unsupported("the reader has one loop over records and one over blockettes")
    return outer[0], next(n for n in ns if n is not outer[0])

def carried(x, sec, frac):
    """second and tenths of milliseconds of the instant sec seconds and frac (below two seconds) microseconds after a full minute"""
    if x.branch(frac < US_S): return z3.If(sec == 60, 0, sec), frac / 100
    return z3.If(sec >= 59, sec - 59, sec + 1), (frac - US_S) / 100

@unit("miniSEED2 start time: carry of the microseconds", "C19 C18 C20")
def u_carry(x, it):
    """what carried says is second and tenths of milliseconds of the instant"""
    def go():
        x.fork_ifs = True
        m = x.fint("minute"); s = x.fint("second"); f = x.fint("fraction")
        x.assume(z3.And(m >= 0, s >= 0, s <= 60, f >= 0, f < 2 * US_S))
        a, b = carried(x, s, f)
        us = m * US_M + s * US_S + f
        # a minute, second and fraction that add up to the instant are those of the instant
        n, r = x.fint("minute1"), x.fint("rest")
        x.assume(z3.And(n == z3.If(s * US_S + f >= US_M, m + 1, m), r == f - z3.If(f >= US_S, US_S, 0)))
        x.prove(z3.And(n * US_M + a * US_S + r == us, a >= 0, a < 60, r >= 0, r < US_S, b == r / 100), "start time: second and tenths of milliseconds with the microseconds added")
    return go

class Rec:
    """a well-formed record at position p of the stream"""
    def __init__(self, S, p):
        x = self.x = S.x; self.S = S; self.p = p
        self.order = S.order
        self.nb = self.nat("numBlockettes"); x.assume(self.nb <= 255)
        self.bo = self.nat("blocketteOffset"); self.D = self.nat("dataOffset")
        self.exp = self.nat("recLength"); self.enc = self.nat("b1000_encoding")
        self.same = x.fbool("b1000_same_order")
        g = lambda n, *s: z3.Function(f"{n}!{next(x.counter)}", *s)
        I = z3.IntSort()
        self.OF = g("offset", I, I)
        self.at = {k: x.fint(f"index_of_{k}") for k in KINDS}      # no such blockette: an index that is not in the chain
        for k in KINDS: x.vars[f"index_of_{k}"] = self.at[k]
        x.assume(z3.Distinct(*self.at.values()))
        for k in self.at: x.assume(self.at[k] >= 0)
        self.RL = z3.If(self.has(1000), POW2(self.exp), 512)
        x.assume(z3.And(S.N >= p + self.RL, self.RL >= 48, self.D >= 0, self.D <= self.RL))
        x.assume(z3.Implies(self.nb > 0, z3.And(self.bo >= 48, self.bo < self.RL)))
        x.assume(self.OF(0) == self.bo)
        x.assume(z3.Implies(z3.And(self.nb == 0, self.D > 0), self.D >= 48))
        # after the last blockette
        self.END = self.nat("end"); x.assume(z3.And(z3.Implies(self.nb > 0, self.END <= self.RL), z3.Implies(z3.And(self.nb > 0, self.D > 0), self.END == self.D)))
        self.tq, self.us, self.fc = self.nat("timeQuality"), self.nat("microseconds"), self.nat("frameCount")
        x.assume(z3.And(self.us <= 255, self.tq <= 255, self.fc <= 255, self.enc <= 255, self.exp <= 255))
        self.rate100 = SF(x.fresh("rate100", z3.RealSort()))
        # header as unpackFixedHeaderGuessByteOrder gives it
        f = {k: x.fint(k) for k in BTime._fields}
        x.assume(z3.And(f["second"] >= 0, f["second"] <= 60, f["tenthMilli"] >= 0, f["tenthMilli"] < 10000))
        self.f = f
        self.minute = self.nat("start_minute")
        self.us0 = self.minute * US_M + f["second"] * US_S + 100 * f["tenthMilli"]
        x.assume(self.us0 + 255 < MAXUS)
        self.btime = NT(BTime, [SI(f[k]) for k in BTime._fields])
        self.rate0 = SF(x.fresh("rate", z3.RealSort()))
        self.h = Obj(MiniseedHeader, numBlockettes=SI(self.nb), blocketteOffset=SI(self.bo), dataOffset=SI(self.D), numSamples=SI(x.fint("numSamples")), other=Opaque(object),
                     encoding=-1, byteorder=self.code(self.order), recordLengthExp=9, recordLength=512, sampleRate=self.rate0, starttime=DT(self.us0, 0, timezone.utc), btime=self.btime,
                     network=Opaque(str), station=Opaque(str), location=Opaque(str), channel=Opaque(str))
        self.was = dict(self.h.a)
        # after blockette 1001: start and its fields (contract of setStartTime)
        self.us1 = self.us0 + self.us
        self.sid = Obj(FDSNSourceId, label=1); self.ident = x.fresh("identifier", z3.StringSort())
        self.j = None; self.parts = {}
    def nat(self, n, lo=0):
        t = self.x.fint(n); self.x.vars[n] = t; self.x.assume(t >= lo); return t
    def code(self, order): return BIG_ENDIAN if order == ">" else LITTLE_ENDIAN
    def has(self, k): return self.at[k] < self.nb
    def order1(self):
        """byte order blockette 1000 gives"""
        return self.order if self.x.branch(self.same) else "<>"[self.order == "<"]
    def blockette(self, kind, j, nxt):
        """j-th blockette of the chain"""
        if kind == 1000: return NT(Blockette1000, [1000, SI(nxt), SI(self.enc), self.code(self.order1()), SI(self.exp)])
        if kind == 100: return NT(Blockette100, [100, SI(nxt), self.rate100])
        if kind == 1001: return NT(Blockette1001, [1001, SI(nxt), SI(self.tq), SI(self.us), SI(self.fc)])
    def header_after(self, seen):
        """attributes of the header when the blockettes of the kinds in seen have been read"""
        a = dict(self.was)
        for k in sorted(seen):
            if k not in self.parts: self.parts[k] = self.taken(k)
            a.update(self.parts[k])
        return a
    def taken(self, k):
        """what a blockette gives the header"""
        if k == 1000: return dict(encoding=SI(self.enc), byteorder=self.code(self.order1()), recordLengthExp=SI(self.exp), recordLength=SI(POW2(self.exp)))
        if k == 100: return dict(sampleRate=self.rate100)
        return dict(starttime=DT(self.us1, 0, timezone.utc), btime=self.btime_after())
    def btime_after(self):
        x, f = self.x, self.f
        if x.branch(z3.And(f["second"] == 60, 100 * f["tenthMilli"] + self.us < US_S)):
            # still in the leap second
            d = dict(f); d["tenthMilli"] = (100 * f["tenthMilli"] + self.us) / 100
        else: d = self.fields1()
        return NT(BTime, [SI(d[k]) for k in BTime._fields])
    def fields1(self):
        """time fields of the start with the microseconds, to 100 microseconds (what setStartTime gives)"""
        if not hasattr(self, "_f1"):
            x, f = self.x, self.f
            d = self._f1 = {k: x.fint(k + "1") for k in BTime._fields}
            s, t = carried(x, f["second"], 100 * f["tenthMilli"] + self.us)
            x.assume(z3.And(d["second"] == s, d["tenthMilli"] == t))
        return self._f1
    def same_header(self, h, a, what):
        x, it = self.x, self.S.it
        for k in a:
            v, w = h.a.get(k), a[k]
            if v is w: continue
            n = f"{what}: header {k}"
            if isinstance(w, DT): x.prove(z3.And(nterm(v.us) == nterm(w.us), nterm(v.off) == 0) if isinstance(v, DT) and v.off is not None else z3.BoolVal(False), n)
            elif isinstance(w, NT): x.prove(z3.And(*[eqv(it, v.get(q), w.get(q)) for q in BTime._fields]) if isinstance(v, NT) and v.cls is BTime else z3.BoolVal(False), n)
            elif isinstance(w, (SI, int)): x.prove(eqv(it, v, w), n)
            else: x.prove(z3.BoolVal(False), n)

class ReadLoop(LoopSpec):
    must_exit = False
    def __init__(self, S, node): self.S, self.node = S, node
    def entry(self, it, fr, k):
        S, x = self.S, self.S.x
        names = it.assigned(self.node)
        have = {n: fr.locals[n] for n in names if n in fr.locals}
        self.bytes = [n for n, v in have.items() if isinstance(v, BA)]
        self.ints = [n for n, v in have.items() if is_pyint(v) and not isinstance(v, (bool, SBool))]
        if set(have) - set(self.bytes) - set(self.ints): raise Unsupported(f"locals {sorted(have)} of the loop over records")
        x.prove(z3.BoolVal(not S.out), "reading: nothing is yielded before the stream is read")
        self.state(fr, nterm(S.start))
    def head(self, p): return S_min(self.S.x, self.S.N - p, 48)
    def state(self, fr, p):
        """the loop is about to read the record at p"""
        S, x = self.S, self.S.x
        left = z3.If(S.N - p < 48, z3.If(S.N > p, S.N - p, 0), 48)
        x.prove(nterm(S.f.a["pos"]) == (p + left if self.bytes else p), "reading: the file is at the record that follows")
        for n in self.bytes:
            v = fr.locals.get(n)
            if not isinstance(v, BA): x.prove(z3.BoolVal(False), "reading: header bytes"); continue
            x.prove(nterm(v.seq.n) == left, "reading: the header read is that of the record that follows")
            x.forall(0, left, lambda i: v.seq.get(i) == S.content.get(simp(p + nterm(i))), "reading: the header read is that of the record that follows")
        for n in self.ints:
            v = fr.locals.get(n)
            x.prove(nterm(as_int(v)) == left, "reading: bytes of the record read so far")
    def havoc(self, it, fr, k):
        S, x = self.S, self.S.x
        p = x.fint("position"); x.vars["position"] = p
        x.assume(z3.And(p >= nterm(S.start), p <= S.N))
        if x.choose(2):
            # less than a header is left: the stream ends
            x.assume(S.N - p < 48); left = simp(S.N - p); S.rec = None
        else:
            x.assume(S.N - p >= 48); left = 48
            S.rec = Rec(S, p)
        S.phase = "iteration"
        S.f._set(S.f.a, "pos", simp(p + left) if self.bytes else p)
        for n in self.bytes: fr.setl(n, BA(seq_slice(S.content, p, simp(p + left)), False))
        for n in self.ints: fr.setl(n, SI(z3.IntVal(left) if isinstance(left, int) else left))
        S.out = []; S.given = False
    def check(self, it, fr, k):
        S = self.S
        if S.rec is None: S.x.prove(z3.BoolVal(False), "reading: stops where no header is left"); return
        S.done()
        self.state(fr, simp(S.rec.p + S.rec.RL))

def S_min(x, a, b): return z3.If(a < b, a, b)

class ChainLoop(LoopSpec):
    """j blockettes have been read and taken over into the header"""
    def __init__(self, S, node): self.S, self.node = S, node
    def begin(self, it, fr, n):
        S, x = self.S, self.S.x
        if S.rec is None: x.prove(z3.BoolVal(False), "reading: blockettes of a record"); raise PathEnd()
        if n is not None: x.prove(nterm(n) == S.rec.nb, "reading: every blockette is gone through")
        names = it.assigned(self.node)
        # the local that takes the offset of the next blockette
        nxt = set()
        if isinstance(self.node, ast.While): nxt |= {m.id for m in ast.walk(self.node.test) if isinstance(m, ast.Name)}
        for m in ast.walk(self.node):
            if isinstance(m, ast.Assign):
                for t in m.targets:
                    if isinstance(t, ast.Tuple): nxt |= {q.id for q in t.elts if isinstance(q, ast.Name)}
        have = {n: v for n, v in fr.locals.items() if n in names}
        self.ints = {n: ("next" if n in nxt else "end") for n, v in have.items() if is_pyint(v) and not isinstance(v, (bool, SBool))}
        self.nones = [n for n, v in have.items() if v is None]
        self.bools = {n: v for n, v in have.items() if isinstance(v, bool)}
        self.texts = [n for n, v in have.items() if isinstance(v, str)]
        self.alias = [n for n, v in have.items() if v is S.rec.h]
        self.lists = [n for n, v in fr.locals.items() if isinstance(v, PList)]
        if len(self.lists) != 1: raise Unsupported("one list of blockettes")
        rest = set(have) - set(self.ints) - set(self.nones) - set(self.texts) - set(self.bools) - set(self.alias) - set(self.lists)
        # what earlier iterations left behind: not read before it is written
        self.other = rest
    def entry(self, it, fr, k):
        S, x, R = self.S, self.S.x, self.S.rec
        x.prove(R.nb > 0 if not isinstance(self.node, ast.For) else z3.BoolVal(True), "reading: goes through the blockettes if there are any")
        self.state(it, fr, z3.IntVal(0), entry=True)
    def where(self, j):
        """offsets when j blockettes have been read: of the next one, and behind the last one"""
        R = self.S.rec
        if self.S.x.branch(j < R.nb): return R.OF(j), R.OF(j)
        return z3.IntVal(0), R.END
    def state(self, it, fr, j, entry=False):
        S, x, R = self.S, self.S.x, self.S.rec
        nxt, end = self.where(j)
        for n, role in self.ints.items():
            x.prove(nterm(as_int(fr.locals[n])) == (nxt if role == "next" else end), "reading: offset of the next blockette" if role == "next" else "reading: bytes of the record read so far, up to the next blockette")
        x.prove(nterm(S.f.a["pos"]) == R.p + end, "reading: the file is at the next blockette")
        seen = {q for q in KINDS if x.branch(R.at[q] < j)}
        R.same_header(R.h, R.header_after(seen), "reading: rate, encoding, byte order, length and microseconds from the blockettes")
        for n in self.nones:
            v = fr.locals[n]
            x.prove(z3.BoolVal((v is not None) == (1000 in seen)), "reading: it is known whether the data format has been read")
        for n, b in self.bools.items(): x.prove(z3.BoolVal(fr.locals[n] is (b if 1000 not in seen else not b)), "reading: it is known whether the data format has been read")
        for n in self.texts: x.prove(z3.BoolVal(fr.locals[n] == ("<" if R.h.get("byteorder") == LITTLE_ENDIAN else ">")), "reading: byte order")
        L = fr.locals[self.lists[0]]
        x.prove(nterm(L.seq.n) == j, "reading: one entry for each blockette")
        if entry: return
        i = x.fint("i"); x.assume(z3.And(i >= 0, i < j))
        if x.branch(i < j - 1):
            v = L.seq.get(i)
            x.prove(v.i == i if isinstance(v, Part) else z3.BoolVal(False), "reading: the entries stay")
        else:
            v = L.seq.get(simp(j - 1))
            x.prove(z3.BoolVal(S.made is not None and v is S.made), "reading: the new entry is the blockette read")
    def havoc(self, it, fr, k):
        S, x, R = self.S, self.S.x, self.S.rec
        j = nterm(k) if k is not None else x.fint("blockettes_read")
        x.vars["blockettes_read"] = j
        x.assume(z3.And(j >= 0, j <= R.nb))
        nxt, end = self.where(j)
        for n, role in self.ints.items(): fr.setl(n, SI(nxt if role == "next" else end))
        S.f._set(S.f.a, "pos", simp(R.p + end))
        x.assume(z3.And(end >= 48, z3.Implies(j < R.nb, end < R.RL)))
        seen = {q for q in KINDS if x.branch(R.at[q] < j)}
        self.seen = seen
        # a different byte order only in the last blockette
        if 1000 in seen: x.assume(z3.Implies(j < R.nb, R.same))
        a = R.header_after(seen)
        for q, v in a.items():
            if R.h.a.get(q) is not v: R.h.set(q, v)
        for n in self.nones: fr.setl(n, R.blockette(1000, None, x.fint("next")) if 1000 in seen else None)
        for n, b in self.bools.items(): fr.setl(n, b if 1000 not in seen else not b)
        for n in self.texts: fr.setl(n, "<" if R.h.get("byteorder") == LITTLE_ENDIAN else ">")
        for n in self.alias: fr.setl(n, R.h)
        L = fr.locals[self.lists[0]] if isinstance(fr.locals[self.lists[0]], PList) else None
        if L is None: raise Unsupported("list of blockettes is made anew")
        L.seq = Seq(simp(j), lambda i: Part(nterm(i)))
        R.j = j; S.made = None; R.kind = None; self.chain = L
        S.list = L
    def check(self, it, fr, k):
        S = self.S
        if S.made is None: S.x.prove(z3.BoolVal(False), "reading: each blockette is read"); return
        self.state(it, fr, simp(S.rec.j + 1))
    def variant(self, it, fr, k): return None
    def exit(self, it, fr, k):
        S = self.S; R = S.rec
        # the loop has been left because all blockettes were read
        S.x.prove(R.j == R.nb, "reading: every blockette of the chain is read")
        S.through = True
    def frame_ok(self, it, fr, o, name): return o is self.S.rec.h and name in ("encoding", "byteorder", "recordLength", "recordLengthExp", "sampleRate", "sampPeriod", "starttime", "btime") or o is self.S.f and name == "pos" or o is self.chain

class State:
    def __init__(self, x, it, pat, order):
        self.x, self.it, self.order = x, it, order
        self.N = sym_int(x, "stream length", 0).t
        A = z3.Function(f"stream!{next(x.counter)}", z3.IntSort(), z3.BitVecSort(8))
        self.content = Seq(self.N, lambda i: A(nterm(i)))
        self.start = sym_int(x, "start", 0).t; x.assume(self.start <= self.N)
        self.f = SymFile(self.content, self.start)
        self.out = []; self.phase = "entry"; self.rec = None; self.made = None; self.list = None; self.given = False; self.through = False
        self.pat = Pat() if pat else None
        if pat: self.pattern = sym_str(x, "pattern")
        it.pattern_hook = self.compile
        it.pow2_hook = lambda it, e: SI(POW2(e))
        it.unpack_hook = self.unpack
        it.print_hook = lambda it, args, kw: None
        c = it.contracts
        c["miniseed.unpackFixedHeaderGuessByteOrder"] = self.header
        c["miniseed.unpackBlockette"] = self.blockette
        c["miniseed.MiniseedHeader.setStartTime"] = self.set_start
        c["miniseed.MiniseedHeader.setSampleRate"] = self.set_rate
        c["miniseed.MiniseedHeader.fdsnSourceId"] = self.source
        c["fdsnsourceid.FDSNSourceId.__str__"] = self.text
        c["miniseed.MiniseedHeader.codes"] = lambda it, f, args, kw: libstr.fresh_str("codes")
    def compile(self, it, t):
        self.x.prove(z3.BoolVal(self.pat is not None and t is self.pattern), "reading: the pattern compiled is the pattern given")
        return self.pat
    def from_stream(self, b, off, n, name):
        """b is the n bytes of the record from offset off"""
        x, R = self.x, self.rec
        x.prove(nterm(b.seq.n) == n, name)
        x.forall(0, n, lambda i: b.seq.get(i) == self.content.get(simp(R.p + off + nterm(i))), name)
    # contracts
    def header(self, it, f, args, kw):
        x, R = self.x, self.rec
        if R is None: x.prove(z3.BoolVal(False), "reading: a header is read only where there is one"); raise PathEnd()
        x.prove(z3.BoolVal(not self.given), "reading: one header for each record")
        b = args[0]
        if not isinstance(b, BA): raise Unsupported("header bytes")
        # the header is in the first 48 bytes
        x.prove(nterm(b.seq.n) >= 48, "reading: the header is in the first 48 bytes of the record")
        x.forall(0, 48, lambda i: b.seq.get(i) == self.content.get(simp(R.p + nterm(i))), "reading: the header is in the first 48 bytes of the record")
        self.given = True
        return R.h
    def link(self):
        """number and next offset of the blockette at hand"""
        x, R = self.x, self.rec
        if R.kind is None:
            j = R.j
            R.num = x.fint("blocketteNum"); x.vars["blocketteNum"] = R.num
            x.assume(z3.And(R.num >= 0, R.num <= 65535))
            R.kind = 0
            for k in KINDS:
                x.assume((R.num == k) == (j == R.at[k]))
                if R.kind == 0 and x.branch(R.num == k): R.kind = k
            R.last = x.branch(j == R.nb - 1)
            R.next = z3.IntVal(0) if R.last else R.OF(j + 1)
            o = R.OF(j)
            least = KINDS[R.kind][1] if R.kind else 4
            if R.last:
                R.size = R.END - o
                # behind the last blockette: the data, or else the end of the record (a blockette 1000 is 8 bytes)
                x.assume(z3.Implies(R.D == 0, R.END == (o + 8 if R.kind == 1000 else R.RL)))
            else:
                R.size = R.next - o
                x.assume(z3.And(R.next < R.RL, R.next <= 65535))
                if R.kind == 1000: x.assume(R.same)
                # a record whose length is not given yet is not longer than said there
            x.assume(z3.And(R.size >= least, o + R.size <= R.RL))
        return R.num, R.next
    def unpack(self, it, order, items, b):
        x, R = self.x, self.rec
        if [c for c, n in items] != ["H", "H"] or R is None or R.j is None: return None
        if order != R.order: x.prove(z3.BoolVal(False), "reading: blockettes are read in the byte order of the record"); raise PathEnd()
        num, nxt = self.link()
        self.from_stream(b, R.OF(R.j), 4, "reading: number and next offset are the first 4 bytes of the blockette")
        return (SI(num), SI(nxt))
    def blockette(self, it, f, args, kw):
        x, R = self.x, self.rec
        a = dict(zip(("recordBytes", "offset", "endianChar", "dataOffset"), args)); a.update(kw)
        if R is None or R.j is None or self.made is not None: x.prove(z3.BoolVal(False), "reading: each blockette is read once"); raise PathEnd()
        num, nxt = self.link()
        b, off, end = a["recordBytes"], nterm(as_int(a["offset"])), nterm(as_int(a["dataOffset"]))
        if a["endianChar"] != R.order: x.prove(z3.BoolVal(False), "reading: blockettes are read in the byte order of the record"); raise PathEnd()
        n = nterm(b.seq.n)
        o = R.OF(R.j)
        x.prove(n - off >= R.size, "reading: all of the blockette is read")
        x.forall(0, R.size, lambda i: b.seq.get(simp(nterm(i) + off)) == self.content.get(simp(R.p + o + nterm(i))), "reading: all of the blockette is read")
        if R.kind: r = R.blockette(R.kind, R.j, nxt)
        else:
            e = z3.If(nxt == 0, end, nxt)
            e = z3.If(e < n, e, n)
            x.prove(e - off == R.size, "reading: an unknown blockette is kept up to the next one, or the data")
            r = NT(BlocketteUnknown, [SI(num), SI(nxt), BA(seq_slice(b.seq, off, simp(off + R.size)), False)])
        self.made = r
        return r
    def set_start(self, it, f, args, kw):
        x, R = self.x, self.rec
        v = args[1]
        if args[0] is not R.h or R.kind != 1001 or not isinstance(v, DT): x.prove(z3.BoolVal(False), "reading: the microseconds of blockette 1001 are added to the start"); raise PathEnd()
        x.prove(nterm(v.utc()) == R.us1, "reading: the microseconds of blockette 1001 are added to the start")
        R.h.set("starttime", DT(nterm(v.utc()), 0, timezone.utc))
        d = R.fields1()
        R.h.set("btime", NT(BTime, [SI(d[k]) for k in BTime._fields]))
    def set_rate(self, it, f, args, kw):
        if args[0] is not self.rec.h: raise Unsupported("header of another record")
        self.rec.h.set("sampleRate", args[1])
    def source(self, it, f, args, kw):
        self.x.prove(z3.BoolVal(self.rec is not None and args[0] is self.rec.h), "reading: the identifier is that of the record")
        return self.rec.sid
    def text(self, it, f, args, kw):
        if args[0] is not self.rec.sid: raise Unsupported("text of another identifier")
        return SS(self.rec.ident)
    # one record has been read
    def done(self):
        x, it, R = self.x, self.it, self.rec
        found = x.branch(self.pat.found(R.ident)) if self.pat else True
        if not found:
            x.cover("a record is skipped")
            x.prove(z3.BoolVal(not self.out), "reading with a pattern: a record that does not match is not yielded"); return
        x.cover("a record is yielded")
        ok = len(self.out) == 1 and isinstance(self.out[0], Obj) and self.out[0].cls is MiniseedRecord
        x.prove(z3.BoolVal(ok), "reading: one record is yielded for each record of the stream that matches")
        if not ok: return
        r = self.out[0]
        x.prove(z3.BoolVal(r.get("header") is R.h), "reading: the record has the header read")
        seen = {k for k in KINDS if x.branch(R.has(k))}
        R.same_header(R.h, R.header_after(seen), "reading: a record has the header of its stream, with rate, encoding, byte order, length and microseconds from the blockettes")
        x.prove(z3.BoolVal(r.get("_data") is None), "reading: samples are decompressed when asked for")
        L = r.get("blockettes")
        if x.branch(R.nb == 0):
            x.cover("a record without blockettes")
            x.prove(nterm(lib.length(it, L)) == 0 if isinstance(L, PList) else z3.BoolVal(False), "reading: no blockettes")
        else:
            x.cover("a record with blockettes")
            x.prove(z3.BoolVal(self.through and L is self.list), "reading: the record has its blockettes in order")
            if isinstance(L, PList):
                x.prove(nterm(L.seq.n) == R.nb, "reading: the record has its blockettes in order")
                i = x.fint("i"); x.assume(z3.And(i >= 0, i < R.nb)); v = L.seq.get(i)
                x.prove(v.i == i if isinstance(v, Part) else z3.BoolVal(False), "reading: the record has its blockettes in order")
        d = r.get("encodedDataBytes")
        if x.branch(R.D == 0):
            x.cover("a record without data")
            x.prove(z3.BoolVal(d is None) if d is None or not isinstance(d, BA) else nterm(d.seq.n) == 0, "reading: no payload without a data offset")
        else:
            x.cover("a record with data")
            if not isinstance(d, BA): x.prove(z3.BoolVal(False), "reading: the payload is from the data offset to the end of the record"); return
            self.from_stream(d, R.D, R.RL - R.D, "reading: the payload is from the data offset to the end of the record")

def read_unit(pat, order):
    def u(x, it):
        def go():
            x.fork_ifs = True
            S = State(x, it, pat, order)
            outer, inner = loops()
            it.loops[("miniseed.readMiniseed2Records", 0)] = ReadLoop(S, outer)
            it.loops[("miniseed.readMiniseed2Records", 1)] = ChainLoop(S, inner)
            g = it.call(READ, [S.f], {"matchsid": S.pattern} if pat else {})
            if not isinstance(g, GenVal): raise Unsupported("not a generator")
            try: it.run_generator(g, lambda v: S.out.append(v))
            except PyRaise as e:
                x.prove(z3.BoolVal(False), f"reading: a well-formed record is not refused ({e.cls.__name__})"); return
            if S.phase == "entry": x.prove(z3.BoolVal(False), "reading: reads the stream"); return
            x.cover("the stream ends")
            x.prove(z3.BoolVal(S.rec is None), "reading: stops only where no header is left")
            x.prove(z3.BoolVal(not S.out), "reading: nothing more is yielded at the end")
        return go
    unit(f"miniseed.readMiniseed2Records{', with a pattern' if pat else ''}, header {'big' if order == '>' else 'little'} endian", "C19" if pat else "C19 C18 C20", assume=[WELL, "re.search of a pattern is some function of the text", "the stream is a binary file that reads as much as is asked for, up to its end"], weight=4)(u)
for _p in (False, True):
    for _o in "><": read_unit(_p, _o)

# ---------------------------------------------------------------- the identifier, and one record alone
@unit("miniseed.MiniseedHeader.fdsnSourceId", "C19 C18 C16")
def u_source(x, it):
    def go():
        x.fork_ifs = True
        STRIP = z3.Function("stripped", z3.StringSort(), z3.StringSort())
        it.strip_hook = lambda it, o: SS(STRIP(libstr.sterm(o)))
        codes = {k: sym_str(x, k) for k in ("network", "station", "location", "channel")}
        h = Obj(MiniseedHeader, other=1, **codes)
        got = []
        def nslc(it, f, args, kw):
            a = dict(zip(("net", "sta", "loc", "chan"), args[-4:] if not kw else args)); a.update(kw); got.append(a)
            return Obj(FDSNSourceId, label=1)
        it.contracts["fdsnsourceid.FDSNSourceId.fromNslc"] = nslc
        o = attempt(it, MiniseedHeader.fdsnSourceId, h)
        x.prove(z3.BoolVal(o.ok and len(got) == 1 and isinstance(o.v, Obj) and o.v.cls is FDSNSourceId), "fdsnSourceId: that of network, station, location and channel")
        if len(got) != 1 or set(got[0]) != {"net", "sta", "loc", "chan"}: x.prove(z3.BoolVal(False), "fdsnSourceId: that of network, station, location and channel"); return
        for k, q in zip(("net", "sta", "loc", "chan"), codes):
            v = libstr.sterm(got[0][k])
            x.prove(z3.Or(v == STRIP(codes[q].t), v == codes[q].t), f"fdsnSourceId: {q}, without blanks around it")
            x.prove(z3.Implies(STRIP(codes[q].t) != codes[q].t, v == STRIP(codes[q].t)), f"fdsnSourceId: {q}, without blanks around it")
        x.prove(z3.BoolVal(all(h.get(k) is codes[k] for k in codes)), "fdsnSourceId: the header stays")
    return go

@unit("miniseed.unpackMiniseedRecord", "C19 C18")
def u_one(x, it):
    def go():
        x.fork_ifs = True
        b = sym_bytes(x, "bytes", sym_int(x, "length", 48).t)
        got = []; rec = Opaque(MiniseedRecord, "first record")
        def read(it, f, args, kw):
            a = dict(zip(("fileptr", "matchsid"), args)); a.update(kw)
            s = a["fileptr"]
            ok = isinstance(s, SymFile) and s.a["content"] is not None and a.get("matchsid") is None and not got
            got.append(1)
            x.prove(z3.BoolVal(ok), "unpackMiniseedRecord: reads the bytes given, without filter")
            if ok:
                c = s.a["content"]
                x.prove(z3.And(nterm(s.a["pos"]) == 0, nterm(c.n) == nterm(b.seq.n)), "unpackMiniseedRecord: reads all bytes given")
                x.forall(0, nterm(b.seq.n), lambda i: c.get(i) == b.seq.get(i), "unpackMiniseedRecord: reads all bytes given")
            return Iter([rec])
        it.contracts["miniseed.readMiniseed2Records"] = read
        o = attempt(it, miniseed.unpackMiniseedRecord, b)
        x.cover("a record is read")
        x.prove(z3.BoolVal(o.ok and o.v is rec), "unpackMiniseedRecord: gives the first record")
    return go
