"""Specification of the Steim formats (SEED manual, appendix B) as terms over a control code and a 32 bit word."""
import z3
BV = z3.BitVecVal
I = z3.IntVal
SUB1 = {1: (4, 8), 2: (2, 16), 3: (1, 32)}                       # code -> (differences, bits)
SUB2 = {(2, 1): (1, 30), (2, 2): (2, 15), (2, 3): (3, 10), (3, 0): (5, 6), (3, 1): (6, 5), (3, 2): (7, 4)}

def dnib(w): return z3.Extract(31, 30, w)

def layouts(ver):
    """[(condition(nib, word), count, bits)]"""
    if ver == 1: return [(lambda n, w, c=c: n == BV(c, 2), k, b) for c, (k, b) in SUB1.items()]
    return [(lambda n, w: n == BV(1, 2), 4, 8)] + [(lambda n, w, c=c, d=d: z3.And(n == BV(c, 2), dnib(w) == BV(d, 2)), k, b) for (c, d), (k, b) in SUB2.items()]

def field(w, k, b, j):
    """difference j of k differences of b bits, the first one in the highest position"""
    lo = (k - 1 - j) * b
    t = z3.Extract(lo + b - 1, lo, w)
    return z3.SignExt(32 - b, t) if b < 32 else t

def count(ver, n, w):
    r = I(0)
    for c, k, b in layouts(ver): r = z3.If(c(n, w), I(k), r)
    return z3.simplify(r)

def diff(ver, n, w, j):
    r = BV(0, 32)
    for c, k, b in layouts(ver):
        if j < k: r = z3.If(c(n, w), field(w, k, b, j), r)
    return z3.simplify(r)

def valid(ver, n, w):
    return z3.simplify(z3.Or(n == BV(0, 2), *[c(n, w) for c, k, b in layouts(ver)]))

class Ghost:
    """the slots of a block of frames (slot t = word 1 + t%15 of frame t/15), the number of differences before a slot,
    the differences in order, and the samples they stand for"""
    def __init__(self, x, ver, tag=""):
        n = next(x.counter)
        self.ver = ver
        f = lambda nm, *s: z3.Function(f"{nm}{tag}!{n}", *s)
        INT = z3.IntSort()
        self.N = f("nib", INT, z3.BitVecSort(2))
        self.W = f("word", INT, z3.BitVecSort(32))
        self.P = f("before", INT, INT)
        self.D = f("diff", INT, z3.BitVecSort(32))
        self.S = f("sample", INT, z3.BitVecSort(32))
        x.assume(self.P(0) == 0)
    def slot_axioms(self, t, header):
        """definition of P and D at slot t; header: z3 Bool / bool, the slot is one of the two constants of frame 0"""
        n, w = self.N(t), self.W(t)
        if header is True: return [self.P(t + 1) == self.P(t)]
        c = count(self.ver, n, w)
        ax = [self.P(t + 1) == self.P(t) + c]
        for j in range(7 if self.ver == 2 else 4):
            ax.append(z3.Implies(j < c, self.D(self.P(t) + j) == diff(self.ver, n, w, j)))
        if header is not False: ax = [z3.If(header, self.P(t + 1) == self.P(t), z3.And(*ax))]
        return ax
    def sample_axiom(self, m, bias, x0):
        """definition of the decoded samples: first constant (or bias), then the running sum modulo 2^32"""
        return self.S(m) == z3.If(m == 0, z3.If(bias == 0, x0, bias + self.D(0)), self.S(m - 1) + self.D(m))
