"""Heap objects of the program under verification. Every mutation is logged on the
explorer's trail so that a region can be undone and merged."""
import itertools
import z3
from core import *
import core

class Heap:
    """attrs live in self.a; set() is the only mutator"""
    def __init__(self):
        self.birth = birth_mark()
    frozen = False       # element of a sequence of symbolic length, made on demand: must not be written
    def _set(self, d, k, v):
        X = core.X
        if self.frozen: raise Unsupported("write to an object of a sequence of unknown length")
        old = d.get(k, MISSING_V)
        def undo(o, d=d, k=k):
            if isinstance(o, MISSING): d.pop(k, None)
            else: d[k] = o
        X.log(undo, Key(self, k, d), old)
        d[k] = v

class Obj(Heap):
    """instance of a class of the library"""
    def __init__(self, cls, **attrs):
        super().__init__()
        self.cls = cls
        self.a = dict(attrs)
    def get(self, k): return self.a[k]
    def set(self, k, v): self._set(self.a, k, v)
    def __repr__(self): return f"<{self.cls.__name__} {self.a}>"

class NT:
    """named tuple instance (immutable)"""
    def __init__(self, cls, vals): self.cls, self.vals = cls, tuple(vals)
    def get(self, k): return self.vals[self.cls._fields.index(k)]
    def __repr__(self): return f"{self.cls.__name__}{self.vals}"
    def merge_with(self, c, o):
        if self.cls is not o.cls: raise MergeFail()
        return NT(self.cls, [merge(c, x, y) for x, y in zip(self.vals, o.vals)])

class SeqHolder(Heap):
    """mutable container over an immutable Seq/CSeq"""
    def __init__(self, seq):
        super().__init__()
        self.a = {"seq": seq}
    @property
    def seq(self): return self.a["seq"]
    @seq.setter
    def seq(self, s):
        if self.a.get("shared"): raise Unsupported("write to memory shared by two arrays")
        self._set(self.a, "seq", s)
    def share(self):
        if not self.frozen and not self.a.get("shared"): self._set(self.a, "shared", True)
        return self

class PList(SeqHolder):
    def __repr__(self): return f"PList({self.seq.n})"

class PDict(Heap):
    """dict with concrete, ordered keys"""
    def __init__(self, d=None):
        super().__init__()
        self.a = {"d": dict(d or {})}
    @property
    def d(self): return self.a["d"]
    def put(self, k, v):
        n = dict(self.d); n[k] = v
        self._set(self.a, "d", n)
    def __repr__(self): return f"PDict({self.d})"

class BA(SeqHolder):
    """bytearray (mutable) or bytes; elements are BV8 terms"""
    def __init__(self, seq, mutable):
        super().__init__(seq)
        self.mutable = mutable
    def __repr__(self): return f"{'bytearray' if self.mutable else 'bytes'}({self.seq.n})"
    def merge_with(self, c, o):
        raise MergeFail()

class NArr(SeqHolder):
    """one-dimensional numpy array; elements are BV terms of the item width holding the value (integers)
    or the bit pattern (floats), independent of byte order"""
    def __init__(self, dt, seq):
        super().__init__(seq)
        self.dt = dt
    def __repr__(self): return f"NArr({self.dt},{self.seq.n})"

class NArrND:
    """numpy array that is not one-dimensional: only its shape and dtype matter"""
    def __init__(self, dt, shape): self.dt, self.shape = dt, shape

class AArr(SeqHolder):
    """array.array"""
    def __init__(self, typecode, itemsize, seq):
        super().__init__(seq)
        self.typecode, self.itemsize = typecode, itemsize

class Iter(Heap):
    """python iterator over a concrete list of values"""
    def __init__(self, vals): super().__init__(); self.vals = vals; self.a = {}

def freeze(o):
    """o and what it holds are read only"""
    if isinstance(o, Heap) and not o.frozen:
        o.frozen = True
        for v in o.a.values(): freeze(v)
    return o

def bv8s(b):
    """native bytes -> list of BV8"""
    return [z3.BitVecVal(x, 8) for x in b]

def ba_of(b): return BA(CSeq(bv8s(b)), isinstance(b, bytearray))

# merge of Seq values (contents of holders)
def _seq_merge(c, a, b):
    if isinstance(a, CSeq) and isinstance(b, CSeq):
        if a.n != b.n: raise MergeFail()
        return CSeq([x if x is y else ite_elem(c, x, y) for x, y in zip(a.items, b.items)])
    na, nb = a.n, b.n
    if isinstance(na, int) and isinstance(nb, int) and na != nb: raise MergeFail()
    n = na if (isinstance(na, int) and isinstance(nb, int)) else simp(z3.If(c, nterm(na), nterm(nb)))
    return Seq(n, lambda i: ite_elem(c, a.get(i), b.get(i)))
CSeq.merge_with = lambda s, c, o: _seq_merge(c, s, o)
Seq.merge_with = lambda s, c, o: _seq_merge(c, s, o)
