"""SteimFrameBlock: representation invariant and the contract of its methods.

Block of cnt words: frame f holds slots 15f .. 15f+14 in words 1..15; slots from cnt on are 0; word 0 of a frame is
00 followed by the fifteen two bit codes (0 for slots from cnt on); currentSteimFrame is the last frame when it has room, else None."""
from vc import *
import z3, numpy as np
from simplemseed.steimframeblock import SteimFrameBlock, SteimFrame

BE = np.dtype(np.int32).newbyteorder(">")

def word0(codes):
    return z3.simplify(z3.Concat(z3.BitVecVal(0, 2), *codes))

class Rep:
    """symbolic block in the representation invariant"""
    def __init__(self, x, cnt, cntpos, mx, ns):
        """cnt: Int term; cntpos: concrete cnt % 15; cnt = 15*full + cntpos"""
        n = next(x.counter)
        self.W = z3.Function(f"w!{n}", z3.IntSort(), z3.BitVecSort(32)); self.N = z3.Function(f"c!{n}", z3.IntSort(), z3.BitVecSort(2))
        self.full, self.pos, self.cnt = simp((cnt - cntpos) / 15), cntpos, cnt
        self.nf = self.full if cntpos == 0 else simp(self.full + 1)
        self.o = Obj(SteimFrameBlock, maxNumFrames=SI(mx), steimVersion=SI(x.fint("version")), numSamples=SI(ns), currentFrame=intv(nterm(self.nf)))
        self.cur = None
        if cntpos: self.cur = self.frame_obj(self.full, cntpos)
        cur, nf = self.cur, self.nf
        def get(i):
            if cur is not None and core.known(nterm(i) == nterm(nf) - 1): return cur
            return freeze(self.frame_obj(nterm(i), 15, 15))
        self.frames = PList(Seq(nf, get))
        self.o.a["steimFrameList"] = self.frames
        self.o.a["currentSteimFrame"] = cur
    def slot(self, f, w): return nterm(simp(15 * nterm(f) + (w - 1)))
    def words(self, f, used):
        z = z3.BitVecVal(0, 32)
        codes = [self.N(self.slot(f, w)) if w <= used else z3.BitVecVal(0, 2) for w in range(1, 16)]
        return [word0(codes)] + [self.W(self.slot(f, w)) if w <= used else z for w in range(1, 16)]
    def frame_obj(self, f, used, pos=None):
        o = Obj(SteimFrame, word=NArr(BE, CSeq(self.words(f, used))), pos=pos if pos is not None else used + 1)
        return o

def check_block(x, o, frames_list, mx, ver, nm):
    """attributes that never change"""
    x.prove(eqv(None, o.a["maxNumFrames"], mx) if False else nterm(as_int(o.a["maxNumFrames"])) == mx, f"{nm}: the frame limit stays")
    x.prove(z3.BoolVal(o.a["steimFrameList"] is frames_list), f"{nm}: one list of frames")

WORDKINDS = {"python": lambda x: SB(x.fbv(32, "word")), "numpy": lambda x: NI(x.fbv(32, "word"))}

def add_unit(wk):
    def u(x, it):
        def go():
            x.fork_ifs = x.keep_ints = True
            full, mx, ns, k = x.fint("full"), x.fint("max"), x.fint("numSamples"), x.fint("samples")
            pos = x.choose(15)
            cnt = simp(15 * full + pos)
            x.assume(z3.And(full >= 0, mx >= 0, ns >= 0, k >= 0))
            x.assume(z3.Implies(mx > 0, nterm(cnt) < 15 * mx))
            r = Rep(x, nterm(cnt), pos, mx, ns)
            # the frames so far: full (+1)
            r.full = full; r.nf = full if pos == 0 else simp(full + 1)
            word = WORDKINDS[wk](x)
            nib = x.choose(4)
            nm = "addEncodedWord"
            o = attempt(it, SteimFrameBlock.addEncodedWord, r.o, word, SI(k), nib)
            x.cover(f"{nm} returns")
            if not o.ok: x.prove(False, f"{nm}: never fails"); return
            # the frame that got the word
            lst = r.o.a["steimFrameList"]
            check_block(x, r.o, r.frames, mx, None, nm)
            nfn = simp(nterm(full) + 1)
            x.prove(nterm(lst.seq.n) == nterm(nfn), f"{nm}: a frame is added exactly when the last one is full")
            fobj = lst.seq.get(full)
            if pos: x.prove(z3.BoolVal(fobj is r.cur), f"{nm}: the word goes to the frame that has room")
            if not isinstance(fobj, Obj): x.prove(False, f"{nm}: the list holds frames"); return
            wd = fobj.a["word"]
            x.prove(z3.BoolVal(isinstance(wd, NArr) and wd.dt == BE and wd.seq.n == 16), f"{nm}: frames hold 16 big endian words")
            codes = [r.N(r.slot(full, w)) for w in range(1, pos + 1)] + [z3.BitVecVal(nib, 2)] + [z3.BitVecVal(0, 2)] * (14 - pos)
            exp = [word0(codes)] + [r.W(r.slot(full, w)) for w in range(1, pos + 1)] + [word.t] + [z3.BitVecVal(0, 32)] * (14 - pos)
            x.prove(wd.seq.get(0) == exp[0], f"{nm}: the control word holds 00 and the code of every word")
            x.prove(z3.And(*[wd.seq.get(i) == exp[i] for i in range(1, 16)]), f"{nm}: the word is stored in the next slot, the others stay")
            # earlier frames untouched: the frame condition of the heap
            # (a write to one would be refused by the verifier: they are read only)
            x.forall(0, full, lambda j: z3.And(*[a == b for a, b in zip(lst.seq.get(j).a["word"].seq.items, r.words(j, 15))]), f"{nm}: earlier frames stay")
            x.prove(nterm(as_int(r.o.a["numSamples"])) == ns + k, f"{nm}: the sample count grows by the samples of the word")
            x.prove(nterm(as_int(r.o.a["currentFrame"])) == full + 1, f"{nm}: currentFrame is the number of frames")
            cs = r.o.a["currentSteimFrame"]
            if pos == 14: x.prove(z3.BoolVal(cs is None), f"{nm}: a full frame is closed")
            else:
                x.prove(z3.BoolVal(cs is fobj), f"{nm}: a frame with room stays open")
                x.prove(nterm(as_int(fobj.a["pos"])) == pos + 2, f"{nm}: the position is the next free word")
            ret = it.truth(o.v)
            ret = z3.BoolVal(ret) if isinstance(ret, bool) else ret
            x.prove(ret == z3.And(mx > 0, nterm(simp(cnt + 1)) == 15 * mx), f"{nm}: reports full exactly when the frame limit is used up")
        return go
    return u
for wk in WORDKINDS:
    unit(f"SteimFrameBlock.addEncodedWord, {wk} word", "C01 C02 C04", weight=3)(add_unit(wk))

@unit("SteimFrameBlock()", "C01 C02 C04")
def init_unit(x, it):
    def go():
        mx, v = x.fint("max"), x.fint("version")
        passed, _ = omitted(x, it, SteimFrameBlock, [SI(mx), SI(v)], maxNumFrames=0, steimVersion=2)
        o = it.call(SteimFrameBlock, passed)
        nm = "SteimFrameBlock()"
        x.prove(nterm(as_int(o.a["maxNumFrames"])) == mx, f"{nm}: frame limit")
        x.prove(nterm(as_int(o.a["numSamples"])) == 0, f"{nm}: no samples yet")
        x.prove(nterm(as_int(o.a["currentFrame"])) == 0, f"{nm}: no frame yet")
        x.prove(z3.BoolVal(o.a["currentSteimFrame"] is None and isinstance(o.a["steimFrameList"], PList) and o.a["steimFrameList"].seq.n == 0), f"{nm}: no frame yet")
    return go

@unit("SteimFrameBlock.setXsubN", "C01 C02 C04")
def xsubn_unit(x, it):
    def go():
        W = [x.fbv(32, f"w{i}") for i in range(16)]
        rest = x.fint("rest"); x.assume(rest >= 0)
        first = Obj(SteimFrame, word=NArr(BE, CSeq(W)), pos=x.choose(15) + 1)
        lst = PList(Seq(simp(rest + 1), lambda i: first if core.known(nterm(i) == 0) else Opaque(SteimFrame)))
        o = Obj(SteimFrameBlock, maxNumFrames=SI(x.fint("max")), steimVersion=1, numSamples=SI(x.fint("ns")), currentFrame=SI(rest + 1), steimFrameList=lst, currentSteimFrame=None)
        before = dict(o.a)
        word = NI(x.fbv(32, "word"))
        r = attempt(it, SteimFrameBlock.setXsubN, o, word)
        nm = "setXsubN"
        if not r.ok: x.prove(False, f"{nm}: never fails"); return
        x.prove(z3.BoolVal(all(o.a[k] is before[k] for k in before)), f"{nm}: changes nothing else of the block")
        wd = first.a["word"].seq
        x.prove(z3.And(*[wd.get(i) == (word.t if i == 2 else W[i]) for i in range(16)]), f"{nm}: replaces word 2 of the first frame only")
    return go

class PackLoop(LoopSpec):
    """bytes of the frames so far: in a growing buffer, or at the start of one made beforehand whose rest stays as it was"""
    def __init__(self, byte): self.byte = byte
    def begin(self, it, fr, n):
        self.bufs = [nm for nm, v in fr.locals.items() if isinstance(v, BA) and v.mutable]
        self.ints = [nm for nm in it.assigned(self.node) if isinstance(fr.locals.get(nm), int) and not isinstance(fr.locals.get(nm), bool)]
        self.init = {nm: fr.locals[nm].seq for nm in self.bufs}
    def grows(self, nm): return isinstance(self.init[nm].n, int) and self.init[nm].n == 0
    def state(self, nm, k):
        if self.grows(nm): return Seq(simp(64 * nterm(k)), lambda j: self.byte(nterm(j)))
        b = self.init[nm]
        def get(j):
            t = nterm(j); inside = t < 64 * nterm(k)
            if core.known(inside): return self.byte(t)
            if core.known(z3.Not(inside)): return b.get(j)
            return z3.If(inside, self.byte(t), b.get(j))
        return Seq(b.n, get)
    def havoc(self, it, fr, k):
        for nm in self.bufs:
            if self.grows(nm): fr.setl(nm, BA(self.state(nm, k), True))
            else: fr.locals[nm].seq = self.state(nm, k)
        for nm in self.ints: fr.setl(nm, SI(simp(64 * nterm(k))))
    def check(self, it, fr, k):
        X = core.X
        nm_ = f"{fr.fn}: frame loop"
        X.prove(z3.BoolVal(all(isinstance(fr.locals.get(nm), BA) for nm in self.bufs) and len(self.bufs) == 1), f"{nm_}: bytes")
        for nm in self.ints: X.prove(nterm(as_int(fr.locals[nm])) == 64 * nterm(k), f"{nm_}: offset of the next frame")
        for nm in self.bufs:
            out = fr.locals[nm]; want = self.state(nm, k)
            X.prove(nterm(out.seq.n) == nterm(want.n), f"{nm_}: 64 bytes per frame")
            for b in range(64): X.forall(0, k, lambda q: out.seq.get(simp(64 * q + b)) == self.byte(64 * q + b), f"{nm_}: bytes are the frames in order, big endian")
            if not self.grows(nm): X.forall(64 * nterm(k), nterm(want.n), lambda q: out.seq.get(q) == self.init[nm].get(q), f"{nm_}: the rest of the buffer stays")
    def frame_ok(self, it, fr, obj, name): return any(fr.locals.get(nm) is obj for nm in self.bufs)

def split64(m):
    """m as (m / 64, m % 64), by form where it is 64*q + constant"""
    m = z3.simplify(m)
    if z3.is_mul(m) and z3.is_int_value(m.arg(0)) and m.arg(0).as_long() == 64 and m.num_args() == 2: return m.arg(1), 0
    if z3.is_add(m) and m.num_args() == 2 and z3.is_int_value(m.arg(0)) and 0 <= m.arg(0).as_long() < 64:
        q, r = split64(m.arg(1))
        if isinstance(r, int) and r == 0: return q, m.arg(0).as_long()
    return m / 64, m % 64

def frame_byte(r, m):
    """byte m of the frames of a block whose slots all count as used (unused ones are 0 by the invariant)"""
    f, b = split64(m)
    res = None
    words = r.words(simp(f), 15)
    if isinstance(b, int): return z3.simplify(z3.Extract(31 - 8 * (b % 4), 24 - 8 * (b % 4), words[b // 4]))
    for w in range(15, -1, -1):
        for k in range(3, -1, -1):
            t = z3.Extract(31 - 8 * k, 24 - 8 * k, words[w])
            res = t if res is None else z3.If(b == 4 * w + k, t, res)
    return res

@unit("SteimFrameBlock.pack", "C01 C02 C04", weight=3)
def pack_unit(x, it):
    def go():
        nf = x.fint("frames"); x.assume(nf >= 1)
        r = Rep(x, nterm(15 * nf), 0, x.fint("max"), x.fint("ns"))
        r.frames.seq = Seq(nf, lambda i: freeze(r.frame_obj(nterm(i), 15, 15)))
        it.loops[("steimframeblock.SteimFrameBlock.pack", 0)] = PackLoop(lambda m: frame_byte(r, m))
        o = attempt(it, SteimFrameBlock.pack, r.o)
        nm = "pack"
        x.expect(f"{nm} returns")
        if not o.ok: x.prove(False, f"{nm}: never fails"); return
        x.cover(f"{nm} returns")
        x.prove(nterm(o.v.seq.n) == 64 * nf, f"{nm}: 64 bytes per frame")
        for b in range(64): x.forall(0, nf, lambda q: o.v.seq.get(simp(64 * q + b)) == frame_byte(r, 64 * q + b), f"{nm}: bytes are the frames in order, big endian")
    return go

@unit("SteimFrameBlock getters", "C04")
def getters_unit(x, it):
    def go():
        nf, mx, ns, v = x.fint("frames"), x.fint("max"), x.fint("ns"), x.fint("version")
        x.assume(z3.And(nf >= 0, mx >= 0))
        lst = PList(Seq(nf, lambda i: Opaque(SteimFrame)))
        o = Obj(SteimFrameBlock, maxNumFrames=SI(mx), steimVersion=SI(v), numSamples=SI(ns), currentFrame=SI(nf), steimFrameList=lst, currentSteimFrame=None)
        before = dict(o.a)
        r = attempt(it, SteimFrameBlock.getNumSamples, o)
        x.prove(z3.BoolVal(r.ok) if not r.ok else nterm(as_int(r.v)) == ns, "getNumSamples: the samples of the block")
        r = attempt(it, SteimFrameBlock.getSteimVersion, o)
        x.prove(z3.BoolVal(r.ok) if not r.ok else nterm(as_int(r.v)) == v, "getSteimVersion: the version")
        r = attempt(it, SteimFrameBlock.getSteimFrames, o)
        x.prove(z3.BoolVal(r.ok and r.v is lst), "getSteimFrames: the frames")
        r = attempt(it, SteimFrameBlock.getNumFrames, o)
        x.prove(z3.BoolVal(r.ok) if not r.ok else nterm(as_int(r.v)) == z3.If(mx == 0, nf, mx), "getNumFrames: the frame limit, or the frames there are")
        x.prove(z3.BoolVal(all(o.a[k] is before[k] for k in before)), "getters change nothing")
    return go

@unit("SteimFrame.isEmpty", "C04")
def empty_unit(x, it):
    def go():
        W = [x.fbv(32, f"w{i}") for i in range(16)]
        o = Obj(SteimFrame, word=NArr(BE, CSeq(W)), pos=SI(x.fint("pos")))
        r = attempt(it, SteimFrame.isEmpty, o)
        t = it.truth(r.v) if r.ok else None
        x.prove(z3.BoolVal(False) if t is None else (z3.BoolVal(t) if isinstance(t, bool) else t) == (W[0] == 0), "isEmpty: the control word is 0")
    return go

@unit("SteimFrameBlock.getEncodedData", "C04", weight=3)
def encoded_unit(x, it):
    def go():
        nf, mx = x.fint("frames"), x.fint("max")
        x.assume(z3.And(nf >= 0, mx >= 0, z3.Implies(mx > 0, nf <= mx)))
        r = Rep(x, nterm(15 * nf), 0, mx, x.fint("ns"))
        r.frames.seq = Seq(nf, lambda i: freeze(r.frame_obj(nterm(i), 15, 15)))
        it.loops[("steimframeblock.SteimFrameBlock.getEncodedData", 0)] = PackLoop(lambda m: frame_byte(r, m))
        o = attempt(it, SteimFrameBlock.getEncodedData, r.o)
        nm = "getEncodedData"
        x.expect(f"{nm} returns")
        if not o.ok: x.prove(False, f"{nm}: never fails"); return
        x.cover(f"{nm} returns")
        x.prove(nterm(o.v.seq.n) == 64 * z3.If(mx == 0, nf, mx), f"{nm}: whole frames up to the frame limit")
        for b in range(64): x.forall(0, nf, lambda q: o.v.seq.get(simp(64 * q + b)) == frame_byte(r, 64 * q + b), f"{nm}: bytes are the frames in order, big endian")
        x.forall(64 * nf, nterm(o.v.seq.n), lambda q: o.v.seq.get(q) == 0, f"{nm}: unused frames are zero")
    return go
