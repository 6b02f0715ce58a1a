"""Independent reference oracles (no code from /repo): SEED Steim definition,
miniSEED 2/3 byte layouts, CRC-32C, calendar, source identifier grammar."""
import struct
from fractions import Fraction

# ---------------------------------------------------------------- CRC-32C
_T = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ (0x82F63B78 if _c & 1 else 0)
    _T.append(_c)

def crc32c(data):
    c = 0xFFFFFFFF
    for b in bytes(data):
        c = _T[(c ^ b) & 255] ^ (c >> 8)
    return c ^ 0xFFFFFFFF

# ---------------------------------------------------------------- Steim
class Bad(Exception):
    pass

def sx(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v

def wrap32(v):
    return sx(v, 32)

def fields(word, n, bits):
    return [sx(word >> (bits * (n - 1 - k)), bits) for k in range(n)]

def word_diffs(version, nib, word):
    """differences in one data word by the SEED manual"""
    if nib == 0:
        return []
    if version == 1:
        return fields(word, *{1: (4, 8), 2: (2, 16), 3: (1, 32)}[nib])
    if nib == 1:
        return fields(word, 4, 8)
    d = word >> 30
    if nib == 2:
        if d == 0:
            raise Bad("dnib 0 under nibble 2")
        return fields(word, *{1: (1, 30), 2: (2, 15), 3: (3, 10)}[d])
    if d == 3:
        raise Bad("dnib 3 under nibble 3")
    return fields(word, *{0: (5, 6), 1: (6, 5), 2: (7, 4)}[d])

def frames_of(data):
    if len(data) % 64:
        raise Bad("length")
    out = []
    for f in range(len(data) // 64):
        w = struct.unpack(">16I", data[64 * f:64 * f + 64])
        out.append((w, [(w[0] >> (30 - 2 * i)) & 3 for i in range(16)]))
    return out

def steim_decode(version, data, n, bias=0):
    data = bytes(data)
    diffs = []
    x0 = None
    for f, (w, nib) in enumerate(frames_of(data)):
        if nib[0] != 0:
            raise Bad("c0")
        if f == 0:
            x0 = sx(w[1], 32)
        for i in range(3 if f == 0 else 1, 16):
            diffs += word_diffs(version, nib[i], w[i])
    if len(diffs) < n:
        raise Bad("too few")
    out = []
    for k in range(n):
        if k == 0:
            out.append(x0 if bias == 0 else wrap32(bias + diffs[0]))
        else:
            out.append(wrap32(out[-1] + diffs[k]))
    return out

# ---------------------------------------------------------------- calendar
def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)

def days_before_year(y):
    y -= 1
    return 365 * y + y // 4 - y // 100 + y // 400

MLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]

def yday(y, m, d):
    return sum(MLEN[:m - 1]) + (1 if m > 2 and leap(y) else 0) + d

def micros(y, doy, h, mi, s, us):
    """microseconds since 0001-01-01, second may be 60"""
    return (((days_before_year(y) + doy - 1) * 24 + h) * 60 + mi) * 60 * 10**6 + s * 10**6 + us

def dt_micros(dt):
    """same scale for an aware datetime, by its own offset"""
    o = dt.utcoffset()
    off = (o.days * 86400 + o.seconds) * 10**6 + o.microseconds
    return micros(dt.year, yday(dt.year, dt.month, dt.day), dt.hour, dt.minute, dt.second, dt.microsecond) - off

def fields_of_micros(t):
    """year, doy, h, m, s, us"""
    us = t % 10**6
    t //= 10**6
    s = t % 60
    t //= 60
    mi = t % 60
    t //= 60
    h = t % 24
    day = t // 24
    y = day * 400 // 146097 + 1
    while days_before_year(y) > day:
        y -= 1
    while days_before_year(y + 1) <= day:
        y += 1
    return y, day - days_before_year(y) + 1, h, mi, s, us

# ---------------------------------------------------------------- miniSEED 3
H3 = [("flags", 3, "B"), ("nanosecond", 4, "I"), ("year", 8, "H"), ("dayOfYear", 10, "H"),
      ("hour", 12, "B"), ("minute", 13, "B"), ("second", 14, "B"), ("encoding", 15, "B"),
      ("sampleRatePeriod", 16, "d"), ("numSamples", 24, "I"), ("crc", 28, "I"),
      ("publicationVersion", 32, "B"), ("identifierLength", 33, "B"),
      ("extraHeadersLength", 34, "H"), ("dataLength", 36, "I")]
H3MAX = {"B": 255, "H": 65535, "I": 2**32 - 1}

def ms3_header(f):
    out = bytearray(40)
    out[0:3] = b"MS\x03"
    for n, o, c in H3:
        struct.pack_into("<" + c, out, o, f[n])
    return bytes(out)

def ms3_parse_header(b):
    return {n: struct.unpack_from("<" + c, b, o)[0] for n, o, c in H3}

def ms3_record(f, ident, eh, data):
    f = dict(f)
    f["identifierLength"] = len(ident)
    f["extraHeadersLength"] = len(eh)
    f["dataLength"] = len(data)
    f["crc"] = 0
    body = ident + eh + data
    f["crc"] = crc32c(ms3_header(f) + body)
    return ms3_header(f) + body

# ---------------------------------------------------------------- miniSEED 2
def ms2_rate(factor, mult):
    if factor == 0 or mult == 0:
        return Fraction(0)
    r = Fraction(factor) if factor > 0 else Fraction(1, -factor)
    return r * mult if mult > 0 else r / -mult

def ms2_record(r):
    """r: dict; returns bytes of a SEED 2.4 data record"""
    e = ">" if r["byteorder"] == 1 else "<"
    L = 2 ** r["exp"]
    out = bytearray(L)
    out[0:6] = b"%06d" % r["seq"]
    out[6:7] = r["quality"].encode()
    out[7:8] = b" "
    out[8:13] = r["sta"].ljust(5).encode()
    out[13:15] = r["loc"].ljust(2).encode()
    out[15:18] = r["chan"].ljust(3).encode()
    out[18:20] = r["net"].ljust(2).encode()
    y, d, h, mi, s, tm = r["btime"]
    struct.pack_into(e + "HHBBBBH", out, 20, y, d, h, mi, s, 0, tm)
    struct.pack_into(e + "Hhh", out, 30, r["n"], r["factor"], r["mult"])
    struct.pack_into(e + "BBBBi", out, 36, r["act"], r["io"], r["qual"], len(r["blks"]), r["corr"])
    boff = r.get("boff", 48)
    struct.pack_into(e + "HH", out, 44, r["dataOffset"], boff if r["blks"] else 0)
    off = boff
    for k, b in enumerate(r["blks"]):
        body = ms2_blk(e, b, r)
        nxt = off + len(body) + b.get("gap", 0) if k < len(r["blks"]) - 1 else 0
        raw = struct.pack(e + "HH", b["num"], nxt) + body[4:]
        out[off:off + len(raw)] = raw
        off += len(raw) + b.get("gap", 0)
    if r["dataOffset"]:
        out[r["dataOffset"]:r["dataOffset"] + len(r["data"])] = r["data"]
    assert len(out) == L, (len(out), L)
    return bytes(out)

def ms2_blk(e, b, r):
    if b["num"] == 1000:
        return struct.pack(e + "HHBBBB", 1000, 0, r["enc"], r["byteorder"], r["exp"], 0)
    if b["num"] == 100:
        return struct.pack(e + "HHfB3x", 100, 0, b["rate"], 0)
    if b["num"] == 1001:
        return struct.pack(e + "HHBbBB", 1001, 0, b["tq"], b["us"], 0, b["fc"])
    return struct.pack(e + "HH", b["num"], 0) + bytes(b["raw"])

def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]

# ---------------------------------------------------------------- source ids
UP = set("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
DG = set("0123456789")

def net_valid(n): return 1 <= len(n) <= 8 and set(n) <= UP | DG
def sta_valid(s): return 1 <= len(s) <= 8 and set(s) <= UP | DG | {"-"}
def loc_valid(l): return len(l) <= 8 and l != "--" and set(l) <= UP | DG | {"-"}
def src_valid(s): return len(s) >= 1 and set(s) <= UP | DG
def sub_valid(s): return set(s) <= UP | DG
def seed_temp(n): return len(n) == 2 and n[0] in DG | set("XYZ") and n[1] in UP | DG and n != "XX"
def hist_temp(n): return len(n) == 6 and n[0] in DG | set("XYZ") and n[1] in UP | DG and set(n[2:]) <= DG and n[:2] != "XX"
def conv_temp(n): return 5 <= len(n) <= 8 and set(n[-4:]) <= DG and set(n[:-4]) <= UP | DG

def band(rate, resp):
    """published table; rate, resp floats or None"""
    if rate is None or rate == 0:
        return "I"
    r = rate if rate > 0 else -1.0 / rate
    lb = resp
    if lb is not None and lb < 0:
        lb = -1.0 / lb
    broad = lb is not None and lb <= 0.1      # response period >= 10 s
    if r >= 5000: return "J"
    if r >= 1000: return "F" if broad else "G"
    if r >= 250: return "C" if broad else "D"
    if r >= 80: return "H" if broad else "E"
    if r >= 10: return "B" if broad else "S"
    if r > 1: return "M"
    if r > 0.5: return "L"
    for lo, c in ((0.1, "V"), (0.01, "U"), (0.001, "W"), (0.0001, "R"), (0.00001, "P"), (0.000001, "T")):
        if r >= lo: return c
    return "Q"
