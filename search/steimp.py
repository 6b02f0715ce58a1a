"""Search oracles for C01-C05: runs the real code, compares with ref.py."""
import struct, array, warnings
import numpy as np
import ref
from common import prop, lib
warnings.simplefilter("ignore")

EDGES = [0, 1, 7, 8, 15, 16, 31, 32, 127, 128, 511, 512, 16383, 16384, 32767, 32768,
         2**29 - 1, 2**29, 2**30, 2**31 - 1, 2**31, 2**32 - 1]

def edge(rng, cap=len(EDGES)):
    e = EDGES[rng.randrange(cap)]
    v = e + rng.choice((-1, 0, 0, 0, 1))
    return v if rng.random() < .5 else -v

def gen_diffs(rng, n, hard):
    out = []
    while len(out) < n:
        run = rng.randrange(1, 16)
        mode = rng.randrange(10)
        for _ in range(run):
            if mode == 0: d = 0
            elif mode < 7:
                b = rng.choice((3, 4, 5, 7, 9, 14, 15, 20, 29))
                lo, hi = -(1 << b), (1 << b) - 1
                d = rng.choice((lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), 0, -1))
            elif mode == 7: d = edge(rng, 17)
            else: d = edge(rng, len(EDGES) if hard else 16)
            out.append(d)
    return out[:n]

DT = ["list", "int32", "int64", "int16", "int8", "uint8", "uint16", "uint32", "uint64", ">i4", ">i2", "list:int16", "list:uint8", "list:int32", "list:int64", "list:uint32"]

def clip_series(d, dtype, first):
    if dtype == "list":
        lo, hi = -2**31, 2**31 - 1
    else:
        ii = np.iinfo(np.dtype(dtype.removeprefix("list:"))); lo, hi = int(ii.min), int(ii.max)
    x = [max(lo, min(hi, first))]
    for v in d[1:]:
        nv = x[-1] + v
        if not lo <= nv <= hi: nv = x[-1] - v
        if not lo <= nv <= hi: nv = max(lo, min(hi, nv))
        x.append(nv)
    return x

def gen_series(rng, i):
    hard = rng.random() < .25
    n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 13, 26, 50, 52, 91, 92, 93, rng.randrange(1, 400)))
    dtype = rng.choice(DT[:2]) if rng.random() < .5 else rng.choice(DT)
    first = rng.choice((0, 1, -1, edge(rng), rng.randint(-2**31, 2**31 - 1), rng.randint(-100, 100)))
    d = gen_diffs(rng, n, hard)
    x = clip_series(d, dtype, first)
    if rng.random() < .06:   # out of range values in containers that can hold them
        k = rng.randrange(n)
        v = rng.choice((2**31, 2**31 + 5, -2**31 - 1, 2**40, -2**40, 2**33))
        if dtype == "list" or (dtype == "int64") or (dtype in ("uint32", "uint64") and 0 <= v < 2**32):
            x[k] = v
    frames = rng.choice((0, 0, 0, 1, 2, 3, 5))
    bias = rng.choice((0, 0, 0, x[0], x[0] + rng.randint(-9, 9), 12, -7, edge(rng), rng.randint(-2**31, 2**31 - 1)))
    bias = max(-2**31, min(2**31 - 1, bias))
    return {"x": x, "dtype": dtype, "frames": frames, "bias": bias,
            "offset": rng.choice((0, 0, 0, 1, n // 2, n - 1)) if n > 1 else 0}

SPECIAL = [
    {"kind": "empty"}, {"kind": "emptynp"}, {"kind": "2d"}, {"kind": "floatnp"}, {"kind": "floatlist"},
    {"kind": "floatlate"}, {"kind": "negframes"}, {"kind": "negoffset"}, {"kind": "bigoffset"}, {"kind": "float32np"},
]

def mk(case):
    x = case["x"]
    if case["dtype"].startswith("list:"): return list(np.array(x, dtype=np.dtype(case["dtype"][5:])))
    return list(x) if case["dtype"] == "list" else np.array(x, dtype=np.dtype(case["dtype"]))

def special(ver, case):
    m = lib()
    enc = m.encodeSteim1 if ver == 1 else m.encodeSteim2
    k = case["kind"]
    arg = {"empty": [], "emptynp": np.zeros(0, np.int32), "2d": np.zeros((2, 3), np.int32),
           "floatnp": np.array([1., 2.]), "float32np": np.array([1.5, 2.], np.float32), "floatlist": [1.5, 2], "floatlate": [1, 2, 2.5, 3],
           "negframes": [1, 2], "negoffset": [1, 2], "bigoffset": [1, 2]}[k]
    kw = {}
    if k == "negframes": kw = {"frames": -1}
    if k in ("negoffset", "bigoffset"):
        if ver == 2: return None
        kw = {"offset": -1 if k == "negoffset" else 2}
    try:
        enc(arg, **kw)
    except m.CodecException:
        return None
    except Exception as e:
        return f"{k} refused with {type(e).__name__} instead of a codec error: {e}"
    return f"{k} was accepted"

def encode(ver, case):
    m = lib()
    x = mk(case)
    keep = list(x)
    if ver == 1:
        fb = m.encodeSteim1FrameBlock(x, frames=case["frames"], bias=case["bias"], offset=case["offset"])
    else:
        fb = m.encodeSteim2FrameBlock(x, frames=case["frames"], bias=case["bias"])
    if list(x) != keep: raise AssertionError("input series was modified")
    return fb

def representable(ver, x, bias, dtype, off):
    """(must_accept, must_refuse)"""
    if any(not -2**31 <= v < 2**31 for v in x):
        return False, True
    d = [x[off] - bias] + [b - a for a, b in zip(x[off:], x[off + 1:])]
    if ver == 2:
        return all(-2**29 <= v < 2**29 for v in d), False
    return (not dtype.startswith("list") or all(-2**31 <= v < 2**31 for v in d[1:])), False

def roundtrip(ver, case):
    m = lib()
    if "kind" in case: return special(ver, case)
    x = case["x"]; off = case["offset"] if ver == 1 else 0
    must, never = representable(ver, x, case["bias"], case["dtype"], off)
    try:
        fb = encode(ver, case)
        data = fb.pack(); n = fb.getNumSamples()
        api = bytes(m.encodeSteim1(mk(case), case["frames"], case["bias"], off) if ver == 1
                    else m.encodeSteim2(mk(case), case["frames"], case["bias"]))
    except AssertionError as e:
        return str(e)
    except (m.CodecException, OverflowError) as e:
        if must: return f"valid series refused: {type(e).__name__}: {e}"
        if never and not isinstance(e, m.CodecException):
            return f"refused with {type(e).__name__}"
        return None
    except Exception as e:
        return f"refused with unexpected {type(e).__name__}: {e}"
    if never: return "series with a value outside 32 bits was accepted"
    if bytes(data) != api: return "encode and frame block pack differ"
    if not 1 <= n <= len(x) - off: return f"sample count {n}"
    if n < len(x) - off and (case["frames"] == 0 or len(data) != 64 * case["frames"]):
        return f"only {n} of {len(x)-off} samples stored although the block is not full"
    try:
        dec = (m.decodeSteim1 if ver == 1 else m.decodeSteim2)(data, n, case["bias"])
        got = [int(v) for v in dec]
    except Exception as e:
        return f"decode of own output failed: {type(e).__name__}: {e}"
    if got != x[off:off + n]:
        k = next((k for k in range(n) if k >= len(got) or got[k] != x[off + k]), None)
        return f"sample {k}: {got[k:k+1]} != {x[off+k]}"
    g0 = [int(v) for v in m.decompress(10 if ver == 1 else 11, data, n, False)]
    if g0 != got: return "decompress without bias differs"
    return None

def corner(i):
    """deterministic corner series: every pair of edge differences in every position of the first words"""
    base = [7, 8, -8, -9, 15, 16, -16, -17, 31, 32, -32, -33, 127, 128, -128, -129, 511, 512, -512, -513,
            16383, 16384, -16384, -16385, 32767, 32768, -32768, -32769, 2**29 - 1, -2**29, 2**29, -2**29 - 1]
    L = len(base)
    if i < L * 8:
        e, pos = base[i // 8], i % 8
        d = [1, -1, 2, -2, 3, -3, 0, 1, 5, -4]
        d[pos] = e
        x = [100]
        for v in d[1:]: x.append(x[-1] + v)
        return {"x": x, "dtype": "list" if i % 2 else "int32", "frames": 0, "bias": 100 - d[0], "offset": 0}
    return None

NC = 32 * 8

def sgen(rng, i):
    if i < len(SPECIAL): return SPECIAL[i]
    c = corner(i - len(SPECIAL))
    return c if c else gen_series(rng, i)

@prop("C01", sgen)
def c01(case): return roundtrip(1, case)

@prop("C02", sgen)
def c02(case):
    return roundtrip(2, case)

def gen_block(rng, i):
    ver = 1 + i % 2
    nf = rng.choice((0, 1, 1, 1, 2, 3))
    bad = rng.random() < .25
    words = []
    for f in range(nf):
        nibs = [0] * 16
        ws = [0] * 16
        style = rng.randrange(5)
        for k in range(1, 16):
            nib = rng.randrange(4) if style else rng.choice((1, 2, 3))
            if style == 4: nib = rng.choice((0, 0, 1, 2, 3))
            w = rng.getrandbits(32)
            if rng.random() < .3: w = rng.choice((0, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x40000000, 0xBFFFFFFF, 0x80808080, 0x7F7F7F7F))
            if ver == 2 and not (bad and rng.random() < .05):
                if nib == 2 and w >> 30 == 0: w |= rng.choice((1, 2, 3)) << 30
                if nib == 3 and w >> 30 == 3: w ^= rng.choice((1, 2, 3)) << 30
            if f == 0 and k < 3 and rng.random() < .9: nib = 0
            nibs[k] = nib; ws[k] = w
        c0 = rng.choice((1, 2, 3)) if bad and rng.random() < .2 else 0
        nibs[0] = c0
        ws[0] = sum(n << (30 - 2 * k) for k, n in enumerate(nibs))
        words += ws
    data = struct.pack(f">{len(words)}I", *words)
    if bad and rng.random() < .2: data += bytes(rng.randrange(1, 64))
    total = 0
    try:
        for f, (w, nib) in enumerate(ref.frames_of(data)):
            for k in range(3 if f == 0 else 1, 16):
                total += len(ref.word_diffs(ver, nib[k], w[k]))
    except (ref.Bad, KeyError): total = rng.randrange(1, 50)
    n = rng.choice((total, total, total, max(1, total - 1), total + 1, 1, rng.randrange(1, total + 2)))
    return {"ver": ver, "hex": data.hex(), "n": max(1, n), "bias": rng.choice((0, 0, 0, 5, -77, 2**31 - 1, -2**31))}

@prop("C03", gen_block)
def c03(case):
    m = lib()
    data = bytes.fromhex(case["hex"]); n = case["n"]; ver = case["ver"]
    try: exp = ref.steim_decode(ver, data, n, case["bias"])
    except ref.Bad as e: exp = None; why = str(e)
    forms = [("decode", lambda d: (m.decodeSteim1 if ver == 1 else m.decodeSteim2)(d, n, case["bias"]))]
    if case["bias"] == 0:
        forms.append(("decompress", lambda d: m.decompress(9 + ver, d, n, True)))
        forms.append(("segment", lambda d: m.EncodedDataSegment(9 + ver, d, n, False).decode()))
    for nm, f in forms:
        for mkb in (bytes, bytearray):
            try:
                r = f(mkb(data))
                got = [int(v) for v in r]
            except m.CodecException as e:
                if exp is not None: return f"{nm}: well-formed frames rejected: {e}"
                continue
            except Exception as e:
                return f"{nm}: {type(e).__name__}: {e}"
            if exp is None: return f"{nm}: malformed frames ({why}) decoded to {got[:5]}..."
            if got != exp:
                k = next((k for k in range(max(len(got), len(exp))) if got[k:k+1] != exp[k:k+1]))
                return f"{nm}: sample {k}: {got[k:k+1]} should be {exp[k:k+1]}"
    return None

def c04gen(rng, i):
    c = sgen(rng, i)
    return {"ver": 1 + (i >> 3) % 2, **c} if "x" in c else {"ver": 1 + i % 2, **gen_series(rng, i)}

@prop("C04", c04gen)
def c04(case):
    m = lib(); ver = case["ver"]; x = case["x"]; off = case["offset"] if ver == 1 else 0
    try:
        fb = encode(ver, case)
    except AssertionError as e: return str(e)
    except Exception:
        return None
    data = bytes(fb.pack()); n = fb.getNumSamples()
    if any(not -2**31 <= v < 2**31 for v in x[off:off + n]): return None
    if len(data) == 0 or len(data) % 64: return f"length {len(data)}"
    if case["frames"] and len(data) > 64 * case["frames"]: return f"{len(data)//64} frames over limit {case['frames']}"
    padded = bytes(fb.getEncodedData())
    want = data + bytes(64 * max(0, case["frames"] - len(data) // 64) if case["frames"] else 0)
    if padded != want: return "padded block differs from packed frames"
    if fb.getNumFrames() * 64 != len(padded): return "frame count"
    api = bytes(m.encodeSteim1(mk(case), case["frames"], case["bias"], off) if ver == 1 else m.encodeSteim2(mk(case), case["frames"], case["bias"]))
    if api != data: return "encode and frame block differ"
    diffs = []
    fr = ref.frames_of(data)
    ended = False
    for f, (w, nib) in enumerate(fr):
        if nib[0] != 0: return f"control code 0 of frame {f} is {nib[0]}"
        if f == 0:
            if nib[1] or nib[2]: return "constants not marked 00"
            if ref.sx(w[1], 32) != x[off]: return f"first sample constant {ref.sx(w[1],32)} != {x[off]}"
            if ref.sx(w[2], 32) != x[off + n - 1]: return f"last sample constant {ref.sx(w[2],32)} != {x[off+n-1]}"
        for k in range(3 if f == 0 else 1, 16):
            if nib[k] == 0:
                if w[k] != 0: return f"unused word {k} of frame {f} not zero"
                ended = True
                continue
            if ended: return f"data word {k} of frame {f} after an unused word"
            if len(diffs) >= n: return "data word after last sample"
            try: diffs += ref.word_diffs(ver, nib[k], w[k])
            except (ref.Bad, KeyError) as e: return f"undefined code in word {k} frame {f}: {e}"
    exp = [ref.wrap32(x[off] - case["bias"])] + [ref.wrap32(b - a) for a, b in zip(x[off:], x[off + 1:])]
    if len(diffs) < n: return f"{len(diffs)} differences for {n} samples"
    if diffs[:n] != exp[:n]: return "differences in words are not those of the samples"
    if (n < len(x) - off) and len(fr) != case["frames"]: return "samples left but block not full"
    return None

CODES = {1: ("h", 2, np.int16), 3: ("i", 4, np.int32), 4: ("f", 4, np.float32), 5: ("d", 8, np.float64)}

def c05gen(rng, i):
    k = i % 8
    enc = (1, 3, 4, 5)[(i // 8) % 4]
    n = rng.choice((0, 1, 2, 3, 10, rng.randrange(1, 60)))
    if k == 7:
        return {"kind": "unsup", "enc": rng.choice((0, 2, 6, 7, 9, 12, 13, 14, 15, 16, 18, 19, 20, 30, 31, 33, 100, 255, -1, rng.randrange(256))), "n": max(1, n), "le": bool(rng.getrandbits(1))}
    if k == 6:
        e = rng.choice((1, 3, 4, 5, 32))
        return {"kind": "short", "enc": e, "n": max(1, n), "cut": rng.randrange(1, 9), "le": bool(rng.getrandbits(1))}
    if k == 5:
        enc = rng.choice((1, 3))
        lim = 2 ** (CODES[enc][1] * 8 - 1)
        return {"kind": "wide", "enc": enc, "v": rng.choice((lim, -lim - 1, lim + rng.randrange(99999), 2**33, -2**33)), "le": bool(rng.getrandbits(1))}
    if enc in (1, 3):
        lim = 2 ** (CODES[enc][1] * 8 - 1)
        v = [rng.choice((0, 1, -1, lim - 1, -lim, rng.randint(-lim, lim - 1), 255, 256, -256)) for _ in range(n)]
        v = [max(-lim, min(lim - 1, a)) for a in v]
        h = struct.pack(f"<{n}{CODES[enc][0]}", *v).hex()
    else:
        w = CODES[enc][1]
        h = b"".join(rng.choice((struct.pack("<" + CODES[enc][0], rng.choice((0., -0., 1.5, 1e-40, 1e38, -3.25, float("inf"), rng.gauss(0, 1e5)))), rng.randbytes(w))) for _ in range(n))
        # no signalling NaN: bytes through Python floats may quiet them
        vals = struct.unpack(f"<{n}{CODES[enc][0]}", h)
        h = b"".join(struct.pack("<" + CODES[enc][0], 0. if a != a else a) for a in vals).hex()
    return {"kind": "rt", "enc": enc, "n": n, "hex": h, "le": bool(rng.getrandbits(1)), "form": rng.choice(("np", "npbe", "array", "list")), "pad": rng.choice((0, 0, 1, 8)), "auto": rng.random() < .3}

@prop("C05", c05gen)
def c05(case):
    m = lib(); le = case["le"]
    from simplemseed import seedcodec as sc
    e = "<" if le else ">"
    if case["kind"] == "rt":
        enc, n = case["enc"], case["n"]
        ch, w, npt = CODES[enc]
        raw = bytes.fromhex(case["hex"])
        vals = struct.unpack(f"<{n}{ch}", raw)
        form = case["form"]
        src = np.array(vals, npt) if form == "np" else np.array(vals, np.dtype(npt).newbyteorder(">")) if form == "npbe" else array.array(ch, vals) if form == "array" else list(vals)
        want = struct.pack(f"{e}{n}{ch}", *vals)
        try:
            seg = m.encode(src, None if case["auto"] and form != "list" else enc, le)
        except Exception as ex: return f"encode refused: {type(ex).__name__} {ex}"
        if bytes(seg.dataBytes) != want: return f"bytes differ from fixed width representation"
        if (seg.compressionType, seg.numSamples, seg.littleEndian) != (enc, n, le): return "segment description wrong"
        for f in (lambda: m.decompress(enc, want + bytes(case["pad"]), n, le), lambda: seg.decode()):
            try: got = f()
            except Exception as ex: return f"decode refused: {type(ex).__name__} {ex}"
            if len(got) != n: return f"decoded {len(got)} of {n}"
            if struct.pack(f"<{n}{ch}", *[g.item() for g in got]) != raw: return "decoded values differ"
            if n and got.dtype.newbyteorder("=") != np.dtype(npt): return f"decoded type {got.dtype}"
        if enc == 1 and n:
            if struct.pack(f"<{n}{ch}", *[g.item() for g in m.decompress(32, want, n, le)]) != raw: return "DWWSSN values differ"
        if not m.canDecompress(enc) or not m.isPrimitiveCompression(enc): return "encoding not reported as supported"
        return None
    if case["kind"] == "short":
        w = 2 if case["enc"] == 32 else CODES[case["enc"]][1]
        data = bytes(max(0, w * case["n"] - case["cut"]))
        try: m.decompress(case["enc"], data, case["n"], le)
        except m.CodecException: return None
        except Exception as ex: return f"short data: {type(ex).__name__} {ex}"
        return "short data accepted"
    if case["kind"] == "wide":
        try: r = m.encode([case["v"]], case["enc"], le)
        except Exception: return None
        return f"value {case['v']} stored as {r.dataBytes.hex()}"
    enc = case["enc"]
    if enc in (1, 3, 4, 5, 10, 11, 32): return None
    try: m.decompress(enc, bytes(512), case["n"], le)
    except m.UnsupportedCompressionType: pass
    except Exception as ex: return f"unsupported type {enc}: {type(ex).__name__}"
    else: return f"unsupported type {enc} decoded"
    if m.canDecompress(enc): return f"type {enc} reported as supported"
    if enc >= 0:
        try: m.encode(np.array([1, 2], np.int32), enc, le)
        except m.UnsupportedCompressionType: return None
        except Exception as ex: return f"encode unsupported {enc}: {type(ex).__name__}"
        return f"encode to unsupported {enc} accepted"
    return None
