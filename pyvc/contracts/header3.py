"""miniSEED3 fixed header: pack, unpack, clone against the layout of the specification."""
from vc import *
import z3, struct
from simplemseed import mseed3
from simplemseed.mseed3 import MSeed3Header

# field, offset, bytes (all unsigned little endian integers; the rate is an IEEE 754 double)
LAYOUT = [("flags", 3, 1), ("nanosecond", 4, 4), ("year", 8, 2), ("dayOfYear", 10, 2), ("hour", 12, 1), ("minute", 13, 1), ("second", 14, 1),
          ("encoding", 15, 1), ("sampleRatePeriod", 16, 8), ("numSamples", 24, 4), ("crc", 28, 4), ("publicationVersion", 32, 1),
          ("identifierLength", 33, 1), ("extraHeadersLength", 34, 2), ("dataLength", 36, 4)]
INTS = [(f, o, n) for f, o, n in LAYOUT if f != "sampleRatePeriod"]

def le(bs): return z3.Concat(*bs[::-1]) if len(bs) > 1 else bs[0]
def byte_at(b, i): return b.seq.get(i)
def field_bits(b, o, n): return le([byte_at(b, o + k) for k in range(n)])

def sym_header(x, it, inrange=True):
    """a header object with any field values (in range of their width when inrange)"""
    h = it.call(MSeed3Header)
    for f, o, n in INTS:
        v = sym_int(x, f, 0, (1 << (8 * n)) - 1) if inrange else sym_int(x, f)
        h.set(f, v)
    rate = x.fbv(64, "rate"); x.vars["sampleRatePeriod"] = rate
    h.set("sampleRatePeriod", SF(None, rate))
    return h

def same_field(x, a, b, f, n, name):
    va, vb = a.get(f), b.get(f)
    if f == "sampleRatePeriod": x.prove(lib.float_bits(va) == lib.float_bits(vb), name)
    else: x.prove(nterm(as_int(va)) == nterm(as_int(vb)), name)

@unit("mseed3.MSeed3Header.pack", "C06 C07")
def u_pack(x, it):
    def go():
        h = sym_header(x, it, inrange=False)
        before = dict(h.a)
        ok = z3.And(*[z3.And(h.get(f).t >= 0, h.get(f).t < (1 << (8 * n))) for f, o, n in INTS])
        o = attempt(it, MSeed3Header.pack, h)
        x.cover("header pack returns" if o.ok else "header pack refuses")
        if not o.ok:
            x.prove(z3.Not(ok), "MSeed3Header.pack: refuses only a field that does not fit")
            x.prove(z3.BoolVal(issubclass(o.v.cls, struct.error)), "MSeed3Header.pack: refuses with struct.error")
            return
        x.prove(ok, "MSeed3Header.pack: a field value that does not fit its width is refused")
        b = o.v
        x.prove(z3.BoolVal(isinstance(b, BA)) if not isinstance(b, BA) else nterm(b.seq.n) == 40, "MSeed3Header.pack: 40 bytes")
        x.prove(z3.And(byte_at(b, 0) == 77, byte_at(b, 1) == 83, byte_at(b, 2) == 3), "MSeed3Header.pack: indicator MS and version 3")
        for f, off, n in INTS:
            x.prove(z3.BV2Int(field_bits(b, off, n)) == h.get(f).t, f"MSeed3Header.pack: {f} is {n} bytes at {off}")
        x.prove(field_bits(b, 16, 8) == h.get("sampleRatePeriod").bits, "MSeed3Header.pack: rate is the double at 16")
        x.prove(z3.BoolVal(all(h.a[k] is before[k] for k in before)), "MSeed3Header.pack: leaves the header as it is")
    return go

@unit("mseed3.unpackMSeed3FixedHeader", "C06 C07 C08 C09")
def u_unpack(x, it):
    def go():
        n = sym_int(x, "length", 0)
        b = sym_bytes(x, "b", n.t)
        bs = [b.seq.get(i) for i in range(40)]
        for i, t in enumerate(bs): x.vars[f"b[{i}]"] = t
        good = z3.And(n.t >= 40, bs[0] == 77, bs[1] == 83, bs[2] == 3)
        o = attempt(it, mseed3.unpackMSeed3FixedHeader, b)
        x.cover("header unpack returns" if o.ok else "header unpack refuses")
        if not o.ok:
            x.prove(z3.Not(good), "unpackMSeed3FixedHeader: refuses only short bytes, a wrong indicator or a wrong version")
            x.prove(z3.BoolVal(o.v.cls is mseed3.Miniseed3Exception), "unpackMSeed3FixedHeader: refuses with Miniseed3Exception")
            return
        x.prove(good, "unpackMSeed3FixedHeader: short bytes, a wrong indicator or a wrong version are refused")
        h = o.v
        for f, off, k in INTS:
            x.prove(nterm(as_int(h.get(f))) == z3.BV2Int(le(bs[off:off + k])), f"unpackMSeed3FixedHeader: {f} is the {k} bytes at {off}")
        x.prove(lib.float_bits(h.get("sampleRatePeriod")) == le(bs[16:24]), "unpackMSeed3FixedHeader: rate is the double at 16")
        x.prove(z3.And(eqv(it, h.get("recordIndicator"), "MS"), eqv(it, h.get("formatVersion"), 3)), "unpackMSeed3FixedHeader: indicator and version")
    return go

@unit("header3: unpack after pack", "C06")
def u_inverse(x, it):
    def go():
        h = sym_header(x, it)
        h2 = it.call(mseed3.unpackMSeed3FixedHeader, [it.call(MSeed3Header.pack, [h])])
        x.cover("header round trip")
        for f, o, n in LAYOUT: same_field(x, h, h2, f, n, f"unpack after pack gives {f} back")
    return go

@unit("mseed3.MSeed3Header.clone", "C06 C07 C10")
def u_clone(x, it):
    def go():
        h = sym_header(x, it, inrange=False)
        c = it.call(MSeed3Header.clone, [h])
        x.cover("clone returns")
        x.prove(z3.BoolVal(c is not h), "MSeed3Header.clone: a new header")
        for f, o, n in LAYOUT: same_field(x, h, c, f, n, f"MSeed3Header.clone: {f} copied")
    return go

@unit("mseed3.MSeed3Header.recordSize", "C06 C07")
def u_size(x, it):
    def go():
        h = sym_header(x, it, inrange=False)
        r = it.call(MSeed3Header.recordSize, [h])
        x.prove(nterm(as_int(r)) == 40 + h.get("identifierLength").t + h.get("extraHeadersLength").t + h.get("dataLength").t, "recordSize: fixed header plus the three lengths")
    return go
