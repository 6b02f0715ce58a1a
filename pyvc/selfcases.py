"""Python functions the interpreter and its models are checked on (selftest.py): each is run by CPython and by pyvc.

case(f, *argument choices): every argument is a list of values or a generator of values."""
import struct, math, re
import numpy as np
from datetime import datetime, timedelta, timezone
from array import array
CASES = []
INTS = [-2**63 - 1, -2**40, -65537, -65536, -257, -129, -128, -3, -2, -1, 0, 1, 2, 3, 7, 9, 63, 64, 127, 128, 255, 256, 1023, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32, 2**53 + 1, 2**63]
SMALL = [-7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 7]
POS = [0, 1, 2, 3, 5, 8, 31, 33]
def case(*choices, k=12):
    def d(f): CASES.append((f, choices, k)); return f
    return d

# integers
@case(INTS, INTS, k=40)
def i_add(a, b): return a + b, a - b, a * 3, 5 - b, -a, +a
@case(INTS, [-65536, -4, -3, -1, 1, 2, 3, 10, 63, 64, 255], k=40)
def i_div(a, b): return a // b, a % b
@case(INTS, INTS, k=40)
def i_cmp(a, b): return a < b, a <= b, a == b, a != b, a > b, a >= b, 0 <= a < b, a < b == (b > 5)
@case(INTS, [0, 1, 0xff, 0x3fff, 0xffffffff, 0x80, 0x0f], k=30)
def i_bits(a, b): return a & b, a | b, a ^ b, ~a
@case([0, 1, -1, 3, -8, 255, 2**30, -2**31], [0, 1, 2, 3, 8, 30], k=30)
def i_shift(a, b): return a << b, a >> b, (a << 4) & 0xff
@case(INTS, INTS, k=30)
def i_minmax(a, b): return min(a, b), max(a, b), abs(a), min(a, b, 3), max([a, b, 0])
@case(INTS)
def i_truth(a): return (not a), bool(a), (a or 5), (a and 7), (1 if a else 2), a is None
@case(SMALL, SMALL, k=30)
def i_branch(a, b):
    r = 0
    if a > b: r += 1
    elif a == b: r = r - 10
    else: r *= 2
    if a > 0 and b > 0 or a == -3: r += 100
    if not (a < 0): r += 1000
    return r
@case(INTS)
def i_int(a): return int(a), int(True), 2 ** 5, (a, 3)[0]
@case([0, 1, 2, 3, 4])
def i_loop(n):
    s = 0
    for i in range(5):
        if i == n: continue
        if i > 3: break
        s += i * 10 + n
    else: s = -1
    k = 3
    while k > 0: k -= 1; s += k
    else: s += 500
    return s
@case(SMALL)
def i_try(a):
    log = []
    try:
        if a < 0: raise ValueError("negative")
        if a == 0: raise KeyError("zero")
        if a > 5: raise ArithmeticError("big")
        log.append(1)
    except ValueError as e: log.append(2)
    except (KeyError, IndexError): log.append(3)
    else: log.append(4)
    finally: log.append(5)
    return log
@case(SMALL)
def i_raise(a):
    if a == 3: raise ValueError("three")
    if a == 4: raise IndexError("four")
    try: raise KeyError("inner") if a == 2 else OverflowError("x")
    except KeyError as e: raise TypeError("outer") from e
    except OverflowError: pass
    return a
@case(SMALL, SMALL)
def i_zero(a, b): return a // b, a % b
@case(INTS)
def i_nested(a):
    def inc(x, d=2, *rest, k=1): return x + d + len(rest) + k
    def make(n): return lambda x: x * n
    xs = [inc(a), inc(a, 5), inc(a, 1, 2, 3), inc(a, k=7), make(3)(a)]
    return xs, sum([1, 2, 3])
@case(SMALL, SMALL)
def i_swap(a, b):
    a, b = b, a
    c = d = a
    (e, f), g = (c, d), b
    x, *y = [a, b, c]
    return a, b, e, f, g, x
@case(SMALL)
def i_gen(a):
    def g(n):
        for i in range(n):
            if i == 2: continue
            yield i + a
        yield -1
    return [v for v in g(4)], list(g(1))

# lists, dictionaries
@case(SMALL, SMALL)
def l_ops(a, b):
    l = [a, b, 3]
    l.append(4); l.insert(0, 9); l.insert(100, 8); l.extend([1, 2]); l += [7]
    m = l[:]; m[1] = 77
    p = l.pop(); q = m.pop(0)
    return l, m, p, q, len(l), l[-1], l[1:3], l[-3:], l[:-2], l[2:100], [a] * 3, l + m
@case(SMALL, k=11)
def l_index(i): return [10, 20, 30, 40][i]
@case(SMALL, SMALL, k=40)
def l_slice(i, j):
    l = [0, 1, 2, 3, 4]
    return l[i:j], l[i:], l[:j]
@case(SMALL, SMALL)
def l_comp(a, b):
    xs = [a, b, 5]
    return [x * 2 for x in xs if x > 0], [(i, x) for i, x in enumerate(xs)], [x + y for x, y in zip(xs, [1, 2])], any(x > 3 for x in xs), all(x > 3 for x in xs), a in xs, 6 in xs, list(reversed(xs)), sum(x for x in xs), [x for y in [[a, 1], [b]] for x in y]
@case(SMALL, SMALL)
def l_alias(a, b):
    l = [a]; m = l; n = list(l)
    m.append(b)
    return l, m, n, l is m, l == n, l == [a, b], (a, b) == (b, a)
@case(SMALL)
def d_ops(a):
    d = {"x": a, "y": 2}
    d["z"] = a + 1
    e = d.copy(); e["x"] = 0; del e["y"]
    k = "x" in d, "q" in d, d.get("q"), d.get("q", 5), len(d), list(d.keys()), [v for v in d.values()], [(p, q) for p, q in d.items()]
    return k, d, e, "y" in e
@case(SMALL, SMALL)
def d_symkey(a, b):
    d = {1: "x", 2: "y", 5: "z"}
    e = {**d, 7: a}
    e[5] = b
    r = [d.get(a), d.get(b, "q"), a in d, a in {b, 3}, e, e.pop(1), e.pop(9, "none"), d.setdefault(2, "w"), d.setdefault(11, a), len(d)]
    d.update({2: "k"}); d.update({}, )
    return r, d, d[2 if a == b else 5]
@case(SMALL)
def d_symget(a): return {1: "one", 2: "two"}[a]
@case(["", "a", "abc", "x_y", "été"])
def s_iter(s): return [c for c in s], [c == "a" for c in s]
@case(["", "a", "abc", "x_y"])
def s_unpack3(s):
    a, b, c = s
    return a + "-" + c, b
@case(SMALL)
def d_missing(a):
    d = {"x": a}
    return d["x"] if a > 0 else d["y"]
def _bytes(n): return [bytes(range(7, 7 + n)), bytes([255] * n), bytes((37 * i + 200) % 256 for i in range(n))]
@case(_bytes(8), SMALL, SMALL, k=60)
def b_slice(b, i, j): return b[i:j], b[i:], b[:j], len(b)
@case(_bytes(8), list(range(-9, 9)), k=40)
def b_index(b, i): return b[i]
@case(_bytes(6), [b"", b"a", b"xyz"], SMALL, SMALL, k=80)
def b_assign(b, c, i, j):
    r = bytearray(b)
    r[i:j] = c
    return bytes(r), len(r)
@case(_bytes(4), [-1, 0, 5, 255, 256], [-5, -4, -1, 0, 3, 4], k=40)
def b_set(b, v, i):
    r = bytearray(b); r[i] = v
    return r
@case(_bytes(3), _bytes(2), k=6)
def b_cat(a, b):
    r = bytearray(a); r.extend(b); r.append(9); r += b
    return r, a + b, bytes(2) + a, b == a, a[:2] == b, bytearray(a) == a, bytes([1, 2]), [x + 1 for x in a], max(a), min(a), sum([x for x in a])
@case([0, 1, 2, 5])
def b_zero(n): return bytes(n), bytearray(n), len(bytearray(n))

# struct
@case(INTS, ["<", ">"], k=60)
def s_i(v, o): return struct.pack(o + "i", v)
@case(INTS, ["<", ">"], k=60)
def s_H(v, o): return struct.pack(o + "HBxh", v, 3, -2)
@case(INTS, ["<", ">"], k=60)
def s_q(v, o): return struct.pack(o + "qI", v, 7)
@case(INTS, k=32)
def s_b(v): return struct.pack("<bB", v, 255 if v < 0 else 0)
@case(_bytes(8), ["<", ">"])
def s_un(b, o): return struct.unpack(o + "hHbBxx", b), struct.unpack(o + "q", b), struct.unpack(o + "Q", b), struct.unpack(o + "iI", b), struct.unpack(o + "2s3sxxx", b)
@case(_bytes(8), [6, 7, 8])
def s_short(b, n): return struct.unpack("<ii", b[:n])
@case(_bytes(8), ["<", ">"], [0, 2, 4, 6, 8], SMALL)
def s_into(b, o, off, v):
    r = bytearray(b); struct.pack_into(o + "hB", r, off, v, 5)
    return r
@case(_bytes(8), ["<", ">"], [0, 1, 4, 5])
def s_from(b, o, off): return struct.unpack_from(o + "i", b, off)
@case([0.0, 1.5, -2.25, 3.4e38, 1e39, -1e300, 0.1, float("inf"), 1e-45], ["<", ">"], k=20)
def s_f(v, o): return struct.pack(o + "f", v)
@case([0.0, 1.5, -2.25, 0.1, 1e300, float("-inf")], ["<", ">"])
def s_d(v, o): return struct.pack(o + "d", v)
@case([b"\0\0\x80\x3f\1\2\3\4", b"\0\0\xc0\xff\0\0\0\x80", b"\0\0\x80\x7f\xff\xff\x7f\x7f"], ["<", ">"])
def s_uf(b, o): return struct.unpack(o + "ff", b), struct.unpack(o + "d", b)
@case(_bytes(8), [1, 2, 3, 4], [True, False])
def s_fb(b, n, s): return int.from_bytes(b[:n], "big", signed=s), int.from_bytes(b[:n], "little", signed=s)

# numpy
def np_pair(t):
    i = np.iinfo(t)
    return [t(v) for v in (i.min, i.min + 1, -1 if i.min else 200, 0, 1, 5, i.max - 1, i.max)]
for _t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64):
    def _mk(t):
        @case(np_pair(t), np_pair(t), k=30)
        def n_arith(a, b): return a + b, a - b, a * b, a & b, a | b, a ^ b, a < b, a == b, a >= b
        @case(np_pair(t), [0, 1, 2, 3, 7, 4], k=20)
        def n_shift(a, b): return a << b, a >> b, a + b, a & b, a - b
        @case(np_pair(t), [-1, 300, 70000, 2**31, 2**32 + 5, 2**63], k=20)
        def n_weak(a, b): return a + b
        @case(np_pair(t), [-1, 300, 70000, 2**31, 2**32 + 5, 2**63], k=20)
        def n_weakcmp(a, b): return a < b, a == b, a >= b
        @case(np_pair(t))
        def n_conv(a): return int(a), a.item(), bool(a), -a, ~a
        n_arith.__name__ += t.__name__; n_shift.__name__ += t.__name__; n_weak.__name__ += t.__name__; n_weakcmp.__name__ += t.__name__; n_conv.__name__ += t.__name__
    _mk(_t)
@case(np_pair(np.int32), np_pair(np.int16), k=20)
def n_mix(a, b): return a + b, b - a, a < b
@case(np_pair(np.uint8), np_pair(np.int32), k=20)
def n_mix2(a, b): return a + b, a & b, b >> a
@case(np_pair(np.uint32), np_pair(np.int32), k=20)
def n_mix3(a, b): return a + b, a - b, a == b
@case(SMALL, SMALL, k=40)
def l_assign(i, j):
    l = [0, 1, 2, 3]; m = list(l)
    l[i:j] = [7, 8, 9]; m[1:2] = (5, 6)
    return l, m
@case(SMALL, SMALL, INTS, k=60)
def n_assign(i, j, v):
    a = np.zeros(5, dtype=np.int32)
    a[i:j] = [v, 2]
    b = np.zeros(4, dtype=np.int32); b[1:3] = (3, v)
    return a, b
@case(np_pair(np.int64) + np_pair(np.uint32) + np_pair(np.int16) + [np.int64(7), np.uint32(7)])
def n_store(v):
    a = np.zeros(2, dtype=np.int32); a[1] = v
    return a
@case(INTS, k=32)
def n_make(a): return np.int32(a)
@case(INTS, k=32)
def n_make8(a): return np.uint8(a)
@case(INTS, k=32)
def n_make64(a): return np.int64(a)
@case([np.array([1, -2, 300000], np.int32), np.array([-2**31, 2**31 - 1, 0], np.int32), np.array([5, 6, 7], np.int32)])
def n_array(a): return len(a), a[0], a[-1], a[1:].tolist() if False else 0, a.astype(np.int16)[2], a.tobytes(), a.copy()[1], a.dtype == np.int32, [int(v) for v in a], a.shape if False else 0, max(a), min(a)
@case([[1, 2, 3], [-5, 0, 2**31 - 1]])
def n_list(l):
    a = np.array(l, dtype=np.int32)
    b = np.zeros(3, dtype=np.int32)
    b[1] = a[2]; b[0] = 7
    return b[0], b[1], b[2], a[0] - b[0], len(b)
@case([b"\1\2\3\4\5\6\7\x88", b"\xff\xfe\0\0\x80\0\0\0"], ["<", ">"], ["i2", "i4", "u1", "u2", "f4", "f8"], k=24)
def n_buf(b, o, t):
    a = np.frombuffer(b, dtype=o + t)
    return len(a), a[0], a[-1], a.tobytes()

# floats: exact ones
FL = [0.0, -0.0, 1.0, -1.5, 2.5, 0.1, 1e10, -3.75, 100.0, 0.001953125]
@case(FL, FL, k=30)
def f_cmp(a, b): return a < b, a == b, a <= b, a != 0, a > 3, abs(a), -a, min(a, b), max(a, b)
@case(FL)
def f_int(a): return int(a), math.floor(a), math.ceil(a), bool(a), int(-a)
@case([0.5, 1.5, 2.5, -0.5, -1.5, 0.25, 3.75, 2.0, -7.5, 1e6])
def f_round(a): return round(a)

# date-times
DTS = [datetime(1, 1, 1, tzinfo=timezone.utc), datetime(1900, 2, 28, 23, 59, 59, 999999, timezone.utc), datetime(2000, 2, 29, 12, 0, 0, 1, timezone.utc), datetime(2016, 12, 31, 23, 59, 59, 500000, timezone.utc), datetime(2100, 3, 1, 0, 0, 0, 123456, timezone.utc), datetime(9999, 12, 31, 23, 59, 59, 999999, timezone.utc), datetime(1969, 12, 31, 1, 2, 3, 4, timezone.utc)]
ZON = [d.replace(tzinfo=timezone(timedelta(hours=h, minutes=m))) for d in DTS[1:5] for h, m in ((5, 30), (-8, 0), (0, 0), (-1, -15))]
@case(DTS)
def t_fields(d): return d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.timetuple().tm_yday, d.utctimetuple().tm_yday
@case(ZON, k=16)
def t_zone(d): return d.astimezone(timezone.utc), d.utcoffset(), d.utctimetuple().tm_yday, d.utctimetuple().tm_hour
@case(DTS, [0, 1, -1, 999999, 86400 * 10**6, -10**15, 10**17, 123456789012], k=40)
def t_add(d, n): return d + timedelta(microseconds=n), d - timedelta(microseconds=n)
@case(DTS, DTS, k=30)
def t_sub(a, b): return a - b, a < b, a == b, a >= b
@case(DTS, ZON, k=30)
def t_subz(a, b): return a - b, a < b, a == b
@case([1900, 2000, 2016, 1, 9999, 0, 10000], [1, 2, 12, 13, 0], [1, 29, 30, 31, 0], k=60)
def t_make(y, m, d): return datetime(y, m, d, 1, 2, 3, tzinfo=timezone.utc)
@case([-3, 0, 1, 59, 366, 10**6], [0, 5, -5, 86399, 100000], [0, 1, 999999, -1, 2 * 10**6], k=30)
def t_td(d, s, u):
    t = timedelta(days=d, seconds=s, microseconds=u)
    return t.days, t.seconds, t.microseconds, t, t * 3, t == timedelta(0)
@case(DTS, [0, 5, 999999])
def t_replace(d, u): return d.replace(microsecond=u), d.replace(tzinfo=None), d.tzinfo is None

# text
TX = ["", "a", "abc", "FDSN:CO_BIRD_00_H_H_Z", "a_b", "_", "XFDSN:", "  x ", "0012", "a:b:c"]
@case(TX)
def x_basic(s): return len(s), s + "z", s == "abc", s.startswith("FDSN:"), s.endswith("Z"), "_" in s, s != "", s[:2], s[1:], bool(s), s[len(s):]
@case(TX, k=10)
def x_index(s): return s[0], s[-1]
@case(TX, SMALL)
def x_fmt(s, n): return f"{s}-{n}", f"{n:d}", "-".join([s, "q"]), s.replace("FDSN:", ""), f"{n:03d}" if n >= 0 else ""
@case(["10", "-5", "0007", "x", "", "1_0", "+3", "12a"])
def x_int(s): return int(s)
@case(["a_b_c", "abc", "", "_", "a__b"])
def x_split(s):
    p = s.split("_")
    return len(p), p

@case(_bytes(4), [[], [1], [255, 0, 9], [256], [-1]], k=20)
def b_list(b, l):
    r = bytearray(b); r[1:3] = l; r.extend(l)
    return r
@case(SMALL, ["s", "", 1.5, None, b"x", [1], {}], k=20)
def e_types(a, b): return a + b
@case(SMALL, ["s", "", 1.5, None, b"x", [1], {}], k=20)
def e_order(a, b): return a < b
@case(SMALL, ["s", "", 1.5, None, b"x", [1], {}], k=20)
def e_equal(a, b): return a == b, a != b
@case(["s", "", 1.5, None, b"x", [1], {}, 3])
def e_len(a): return len(a)
@case(["s", "", None, b"xyz", [1], 3])
def e_index(a): return a[0]
@case(["12", "", None, [1], 3, 2.7, -2.7])
def e_int(a): return int(a)
@case([1, 2, "a"], [[1, 2], "xa", (1, 5), {"a": 1}], k=12)
def e_in(a, b): return a in b
