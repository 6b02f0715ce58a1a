"""Search oracles for C06-C12, C21."""
import struct, array, io, json, os, re, tempfile, shutil, contextlib
from fractions import Fraction
from datetime import datetime, timedelta, timezone
import numpy as np
import ref
from common import prop, lib, run_main

def rint(rng, mx):
    return rng.choice((0, 1, mx, mx - 1, mx // 2, rng.randint(0, mx), rng.randint(0, min(mx, 999))))

def gen_fields(rng):
    f = {}
    for n, o, c in ref.H3:
        if c == "d":
            f[n] = rng.choice((1.0, 0.0, -10.0, 100.0, 0.1, -1e-3, 1e9, rng.gauss(0, 100), 3.0000000000000004))
        else: f[n] = rint(rng, ref.H3MAX[c])
    return f

def c06gen(rng, i):
    k = i % 6
    f = gen_fields(rng)
    if k == 5:
        n, o, c = rng.choice([x for x in ref.H3 if x[2] != "d"])
        return {"kind": "over", "f": f, "name": n, "v": rng.choice((ref.H3MAX[c] + 1, -1, ref.H3MAX[c] + 77))}
    if k == 4:
        b = bytearray(ref.ms3_header(f))
        j = rng.choice((0, 1, 2))
        b[j] = rng.choice([v for v in (0, 2, 4, 255, 0x4D, 0x53, 3, 109, rng.randrange(256)) if v != b[j]])
        return {"kind": "bad", "hex": bytes(b).hex()}
    if k == 3:
        return {"kind": "short", "hex": ref.ms3_header(f)[:rng.randrange(40)].hex()}
    return {"kind": "ok", "f": f, "extra": rng.randrange(0, 20)}

@prop("C06", c06gen)
def c06(case):
    m = lib()
    if case["kind"] in ("bad", "short"):
        try: m.unpackMSeed3FixedHeader(bytes.fromhex(case["hex"]))
        except m.Miniseed3Exception: return None
        except Exception as e: return f"{case['kind']} header: {type(e).__name__} {e}"
        return f"{case['kind']} header accepted"
    f = case["f"]
    h = m.MSeed3Header()
    for n, v in f.items(): setattr(h, n, v)
    if case["kind"] == "over":
        setattr(h, case["name"], case["v"])
        try: b = h.pack()
        except Exception: return None
        return f"{case['name']}={case['v']} packed as {bytes(b).hex()}"
    want = ref.ms3_header(f)
    for hh, nm in ((h, "header"), (h.clone(), "clone")):
        try: b = bytes(hh.pack())
        except Exception as e: return f"pack refused: {e}"
        if b != want: return f"{nm} packs to {b.hex()} not {want.hex()}"
    for mk in (bytes, bytearray):
        u = m.unpackMSeed3FixedHeader(mk(want + bytes(range(case["extra"]))))
        for n, v in f.items():
            if getattr(u, n) != v: return f"unpacked {n}={getattr(u,n)} not {v}"
        if (u.recordIndicator, u.formatVersion) != ("MS", 3): return "indicator"
    tot = 40 + f["identifierLength"] + f["extraHeadersLength"] + f["dataLength"]
    if h.recordSize() != tot: return f"record size {h.recordSize()} not {tot}"
    c = h.clone(); c.flags = (c.flags + 1) % 256; c.year = 1
    if h.flags != f["flags"] or h.year != f["year"]: return "clone shares state"
    return None

IDS = ["FDSN:CO_BIRD_00_H_H_Z", "", "FDSN:XX_ABC__B_H_Z", "XYZ", "FDSN:CO_JSC_00_H_H_Ä", "日本" * 5, "é" * 127, "a" * 255]
EHS = [None, "", "{}", {"a": 1}, {"FDSN": {"Time": {"Quality": 100}}}, {"ü": "日本", "l": [1, 2.5, None, True]}, '{"x": "é"}', {}, {"big": "z" * 3000}, '{ "sp" :  [1,2] }']

def gen_data(rng, allow_raw=True):
    kind = rng.choice(("np", "np", "list", "array", "none", "bytes", "steim1", "steim2"))
    n = rng.choice((0, 1, 2, 5, 100, rng.randrange(1, 300)))
    if kind in ("none",): return {"kind": kind}
    if kind in ("steim1", "steim2"):
        n = max(1, n); x = [rng.randint(-1000, 1000)]
        for _ in range(n - 1): x.append(x[-1] + rng.choice((0, 1, -1, rng.randint(-300, 300), rng.randint(-10**5, 10**5))))
        return {"kind": kind, "v": x}
    enc = rng.choice((1, 3, 4, 5))
    if enc in (1, 3):
        lim = 2 ** (8 * (2 if enc == 1 else 4) - 1)
        v = [rng.choice((0, -1, lim - 1, -lim, rng.randint(-lim, lim - 1))) for _ in range(n)]
    else:
        v = [rng.choice((0.0, 1.5, -2.25, 1e20 if enc == 5 else 1024.0, rng.randint(-9999, 9999) / 8)) for _ in range(n)]
    return {"kind": kind, "enc": enc, "v": v, "be": rng.random() < .3}

CH = {1: "h", 3: "i", 4: "f", 5: "d"}
NT = {1: np.int16, 3: np.int32, 4: np.float32, 5: np.float64}

def mkdata(m, d, h):
    """returns (data argument, expected samples or None, expected encoding, payload bytes or None)"""
    k = d["kind"]
    if k == "none": return None, None, 0, b""
    if k.startswith("steim"):
        e = 10 if k == "steim1" else 11
        b = bytes((m.encodeSteim1 if e == 10 else m.encodeSteim2)(d["v"]))
        return m.EncodedDataSegment(e, b, len(d["v"]), False), d["v"], e, b
    e, v = d["enc"], d["v"]
    raw = struct.pack(f"<{len(v)}{CH[e]}", *v)
    if k == "np":
        t = np.dtype(NT[e]).newbyteorder(">") if d["be"] else np.dtype(NT[e])
        return np.array(v, t), v, e, raw
    if k == "array": return array.array(CH[e], v), v, e, raw
    if k == "list": h.encoding = e; return list(v), v, e, raw
    if k == "bytes":
        h.encoding = e; h.numSamples = len(v)
        return (bytearray if d["be"] else bytes)(raw), v, e, raw
    raise KeyError(k)

def hdr_values(rng):
    return {"flags": rint(rng, 255), "nanosecond": rng.randint(0, 999999999), "year": rng.randint(1, 9998), "dayOfYear": rng.randint(1, 365),
            "hour": rng.randrange(24), "minute": rng.randrange(60), "second": rng.randrange(60),
            "sampleRatePeriod": rng.choice((1.0, 20.0, -10.0, 100.0, 0.0, 0.37)), "publicationVersion": rint(rng, 255)}

def c07gen(rng, i):
    idn = rng.choice(IDS) if rng.random() < .7 else "".join(rng.choice("ABC_:é日x") for _ in range(rng.randrange(0, 60)))
    return {"id": idn[:85] if len(idn.encode()) > 255 else idn, "eh": rng.choice(EHS), "h": hdr_values(rng), "d": gen_data(rng), "sid": rng.random() < .15}

def mkrec(m, case):
    h = m.MSeed3Header()
    for k, v in case["h"].items(): setattr(h, k, v)
    arg, exp, enc, raw = mkdata(m, case["d"], h)
    ident = m.FDSNSourceId("CO", "BIRD", "00", "H", "H", "Z") if case.get("sid") else case["id"]
    rec = m.MSeed3Record(h, ident, arg, json.loads(json.dumps(case["eh"])))
    return rec, exp, enc, raw, str(ident)

def eh_norm(e):
    if e is None or e == "": return {}
    return json.loads(e) if isinstance(e, str) else e

def eh_val(e): return eh_norm(e) or {}

def samples(rec): return [v.item() for v in rec.decompress()]

@prop("C07", c07gen)
def c07(case):
    m = lib()
    rec, exp, enc, raw, ident = mkrec(m, case)
    try: b = bytes(rec.pack())
    except Exception as e: return f"pack refused: {type(e).__name__} {e}"
    f = ref.ms3_parse_header(b)
    ib = ident.encode("utf-8")
    if b[:3] != b"MS\x03": return "indicator"
    if f["identifierLength"] != len(ib): return f"identifier length {f['identifierLength']} not {len(ib)}"
    o = 40; gi = b[o:o + len(ib)]; o += len(ib)
    ge = b[o:o + f["extraHeadersLength"]]; o += f["extraHeadersLength"]
    gd = b[o:o + f["dataLength"]]; o += f["dataLength"]
    if o != len(b): return f"lengths add up to {o}, record is {len(b)}"
    if gi != ib: return "identifier bytes"
    try: ged = json.loads(ge.decode()) if ge else {}
    except Exception as e: return f"extra header bytes not JSON: {ge[:60]}"
    if ged != eh_norm(case["eh"]): return f"extra headers {ged}"
    if isinstance(case["eh"], str) and ge != case["eh"].encode(): return "extra header text changed"
    if gd != raw: return f"payload bytes differ ({len(gd)} vs {len(raw)})"
    for k, v in case["h"].items():
        if f[k] != v: return f"header {k}={f[k]} not {v}"
    if f["encoding"] != enc or f["numSamples"] != (len(exp) if exp is not None else 0): return "encoding or sample count"
    H = rec.header
    if (H.identifierLength, H.extraHeadersLength, H.dataLength) != (len(gi), len(ge), len(gd)): return "header lengths after pack"
    if rec.getSize() != len(b) or H.recordSize() != len(b): return f"record size {rec.getSize()} / {H.recordSize()} not {len(b)}"
    if H.crc != f["crc"]: return "crc after pack"
    if bytes(rec.pack()) != b: return "packing twice differs"
    for nm, g in (("unpack", m.unpackMSeed3Record(b)), ("unpack bytearray", m.unpackMSeed3Record(bytearray(b))), ("clone", rec.clone()),
                  ("nocheck", m.unpackMSeed3Record(b, check_crc=False)), ("stream", next(m.readMSeed3Records(io.BytesIO(b))))):
        if g.identifier != ident: return f"{nm}: identifier {g.identifier!r}"
        for k in f:
            if getattr(g.header, k) != f[k]: return f"{nm}: header {k}"
        if bytes(g.encodedDataBytes()) != raw: return f"{nm}: payload"
        if exp is not None and samples(g) != exp and len(exp): return f"{nm}: samples differ"
        if bytes(g.pack()) != b: return f"{nm}: repack differs"
        if (g.eh or {}) != eh_norm(case["eh"]): return f"{nm}: extra headers {g.eh}"
        g.header.flags ^= 1; g.eh = {"changed": 1}; g.identifier = "other"
    if bytes(rec.pack()) != b: return "clone is not independent"
    return None

def c08gen(rng, i):
    c = c07gen(rng, i)
    c["sid"] = False
    c["mut"] = rng.choice(("none", "flip", "flip", "flip", "bytes", "trunc", "crcfield", "swap", "zero"))
    c["pos"] = rng.random(); c["pos2"] = rng.random(); c["bit"] = rng.randrange(8); c["val"] = rng.randrange(256)
    c["sect"] = rng.randrange(5)
    return c

@prop("C08", c08gen)
def c08(case):
    m = lib()
    rec, exp, enc, raw, ident = mkrec(m, case)
    b = bytearray(rec.pack())
    z = bytearray(b); z[28:32] = bytes(4)
    if struct.unpack_from("<I", b, 28)[0] != ref.crc32c(z): return "stored checksum is not the CRC-32C of the record"
    f = ref.ms3_parse_header(b)
    cuts = [0, 40, 40 + f["identifierLength"], 40 + f["identifierLength"] + f["extraHeadersLength"], len(b)]
    s = case["sect"] % 4 if case["sect"] < 4 else None
    lo, hi = (cuts[s], cuts[s + 1]) if s is not None and cuts[s + 1] > cuts[s] else (0, len(b))
    p = lo + int(case["pos"] * (hi - lo)); q = int(case["pos2"] * len(b))
    mu = case["mut"]
    if mu == "flip": b[p] ^= 1 << case["bit"]
    elif mu == "bytes": b[p] = case["val"]; b[q] = (b[q] + 1 + case["val"] % 255) % 256
    elif mu == "trunc": b = b[:max(0, len(b) - 1 - int(case["pos"] * min(60, len(b) - 1)))]
    elif mu == "crcfield": b[28 + case["bit"] % 4] ^= 1 + case["val"] % 255
    elif mu == "swap": b[p], b[q] = b[q], b[p]
    elif mu == "zero": b[p:p + 8] = bytes(len(b[p:p + 8]))
    b = bytes(b)
    ok = False
    if len(b) >= 40 and b[:3] == b"MS\x03":
        f = ref.ms3_parse_header(b)
        n = 40 + f["identifierLength"] + f["extraHeadersLength"] + f["dataLength"]
        body = bytearray(b[:n]); body[28:32] = bytes(4)
        ok = ref.crc32c(body) == f["crc"]
    for nm, g in (("unpack", lambda: m.unpackMSeed3Record(b)), ("unpackba", lambda: m.unpackMSeed3Record(bytearray(b))),
                  ("stream", lambda: list(m.readMSeed3Records(io.BytesIO(b)))[0]),
                  ("stream match", lambda: list(m.readMSeed3Records(io.BytesIO(b), matchsid=".*"))[0]),
                  ("stream merge", lambda: list(m.readMSeed3Records(io.BytesIO(b), merge=True))[0])):
        try: r = g()
        except IndexError:
            if len(b) == 0: continue
            return f"{nm}: nothing read"
        except Exception as e:
            if ok and mu == "none" and nm != "stream merge": return f"{nm}: intact record rejected: {type(e).__name__} {e}"
            if not ok and not isinstance(e, (m.Miniseed3Exception, UnicodeDecodeError)): return f"{nm}: {type(e).__name__} {e}"
            continue
        if not ok: return f"{nm}: damaged record ({mu}) accepted"
    return None

SIDS = ["FDSN:CO_BIRD_00_H_H_Z", "FDSN:CO_BIRD_00_H_H_N", "FDSN:CO_JSC_00_H_H_Z", "FDSN:XX_JSC__B_H_Z", "other", "", "é"]
PATS = [None, None, "CO_", "^FDSN:CO_BIRD", "_Z$", ".*", "nomatch", "JSC", "^$", "[EN]$", "H_H_[ZN]"]

def c09gen(rng, i):
    n = rng.choice((0, 1, 2, 3, 5, rng.randrange(0, 9)))
    recs = [{"id": rng.choice(SIDS), "eh": rng.choice(EHS), "h": hdr_values(rng), "d": gen_data(rng)} for _ in range(n)]
    return {"recs": recs, "pat": rng.choice(PATS), "corrupt": rng.random() < .3, "seed": rng.randrange(10**6), "crc": rng.random() < .7}

@prop("C09", c09gen)
def c09(case):
    m = lib()
    import random
    rng = random.Random(case["seed"])
    parts = []; want = []
    for c in case["recs"]:
        b = bytes(mkrec(m, c)[0].pack())
        hit = case["pat"] is None or re.search(case["pat"], c["id"]) is not None
        if hit: want.append(b)
        elif case["corrupt"]:
            o = 40 + len(c["id"].encode())
            if len(b) > o:
                bb = bytearray(b); p = rng.randrange(o, len(b)); bb[p] ^= 0xFF; b = bytes(bb)
        parts.append(b)
    try: got = list(m.readMSeed3Records(io.BytesIO(b"".join(parts)), check_crc=case["crc"], matchsid=case["pat"]))
    except Exception as e: return f"stream reading failed: {type(e).__name__} {e}"
    if len(got) != len(want): return f"{len(got)} records, expected {len(want)}"
    for k, (g, w) in enumerate(zip(got, want)):
        if bytes(g.pack()) != w: return f"record {k} differs"
        a = m.unpackMSeed3Record(w)
        if a.identifier != g.identifier or a.eh != g.eh or vars(a.header) != vars(g.header): return f"record {k} differs from reading it alone"
    return None

def c10gen(rng, i):
    n = 2 if i % 2 else rng.randrange(1, 8)
    recs = []
    t = 63_000_000_000_000_000 + rng.randrange(10**14)
    rate = rng.choice((1.0, 20.0, 100.0, -10.0, 0.5))
    sid = rng.choice(SIDS[:3]); pv = rng.randrange(3); enc = rng.choice((1, 3, 4, 5, 3, 11))
    for k in range(n):
        c = rng.random()
        if c < .12: sid = rng.choice(SIDS)
        elif c < .22: rate = rng.choice((1.0, 20.0, 100.0, -10.0, 50.0, 40.0))
        elif c < .30: pv = rng.randrange(3)
        elif c < .42: enc = rng.choice((1, 3, 4, 5, 10, 11, 0, 100))
        ns = rng.choice((1, 2, 5, 40))
        if enc in (0, 100): v = None
        elif enc in (4, 5): v = [rng.randint(-999, 999) / 4 for _ in range(ns)]
        else: v = [rng.randint(-30000, 30000) for _ in range(ns)]
        per = 1 / rate if rate > 0 else -rate
        recs.append({"sid": sid, "rate": rate, "pv": pv, "enc": enc, "v": v, "n": ns, "t": t, "eh": rng.choice((None, {"a": k}, {})), "pad": rng.choice((0, 0, 0, 4)), "form": rng.choice(("np", "bytes"))})
        gap = rng.choice((0, 0, 0, 0, .3, .45, .55, -.3, -.9, -1, -1, -1.2, 3, -50, 1))
        t += int(round((ns + gap) * per * 1e6))
    return {"recs": recs, "stream": i % 2 == 0, "pat": rng.choice((None, None, None, "CO_", "_Z$"))}

def c10rec(m, r):
    h = m.MSeed3Header()
    h.year, h.dayOfYear, h.hour, h.minute, h.second, us = ref.fields_of_micros(r["t"])
    h.nanosecond = us * 1000
    h.sampleRatePeriod = r["rate"]; h.publicationVersion = r["pv"]
    e = r["enc"]
    if e in (10, 11): d = m.EncodedDataSegment(e, bytes((m.encodeSteim1 if e == 10 else m.encodeSteim2)(r["v"])), r["n"], False)
    elif e in (0, 100): h.encoding = e; h.numSamples = r["n"]; d = b"some text"
    elif r["form"] == "np": d = np.array(r["v"], NT[e])
    else: h.encoding = e; h.numSamples = r["n"]; d = struct.pack(f"<{r['n']}{CH[e]}", *r["v"]) + bytes(r["pad"])
    return m.MSeed3Record(h, r["sid"], d, r["eh"])

def may_merge(a, b, encs):
    """True / False / None (too close to a limit to call)"""
    if a["sid"] != b["sid"] or a["rate"] != b["rate"] or a["pv"] != b["pv"] or encs[0] != encs[1] or encs[0] not in (1, 3, 4, 5): return False
    per = (1 / Fraction(a["rate"]) if a["rate"] > 0 else -Fraction(a["rate"])) * 10**6
    end = a["t"] + per * (a["n"] - 1); nxt = a["t"] + per * a["n"]
    exact = a["rate"] in (1.0, 20.0, 100.0, -10.0, 0.5, 50.0, 40.0)    # periods of whole microseconds
    if abs(b["t"] - nxt - per / 2) < 3 or not exact and abs(b["t"] - end) < 3: return None
    return b["t"] > end and b["t"] - nxt < per / 2

@prop("C10", c10gen)
def c10(case):
    m = lib()
    R = case["recs"]
    if not case["stream"]:
        a, b = R[0], R[1]
        ra, rb = c10rec(m, a), c10rec(m, b)
        ba, bb = bytes(ra.pack()), bytes(rb.pack())
        exp = may_merge(a, b, (a["enc"], b["enc"]))
        try: out = m.mseed3merge(ra, rb)
        except Exception as e: return f"merge failed {type(e).__name__} {e}"
        if m.mseed3merge(None, rb) != [rb] or m.mseed3merge(ra, None) != [ra]: return "merge with nothing"
        if len(out) == 2:
            if exp: return "mergeable records not merged"
            if out[0] is not ra or out[1] is not rb or bytes(ra.pack()) != ba or bytes(rb.pack()) != bb: return "unmerged records changed"
            return None
        if len(out) != 1: return "result length"
        if exp is False: return "incompatible records merged"
        g = out[0]
        if bytes(ra.pack()) != ba or bytes(rb.pack()) != bb: return "merge changed its inputs"
        return chk_merged(m, g, a, [a, b])
    parts = [bytes(c10rec(m, r).pack()) for r in R]
    keep = [r for r in R if case["pat"] is None or re.search(case["pat"], r["sid"])]
    groups = []; unsure = False
    for r in keep:
        e = 3 if r["enc"] in (10, 11) else r["enc"]
        if groups and e in (1, 3, 4, 5) and groups[-1][0]["_e"] in (1, 3, 4, 5):
            g = groups[-1]
            acc = dict(g[0]); acc["n"] = sum(x["n"] for x in g)
            mm = may_merge(acc, r, (g[0]["_e"], e))
            if mm is None: return None
            if mm: g.append({**r, "_e": e}); continue
        groups.append([{**r, "_e": e}])
    try: got = list(m.readMSeed3Records(io.BytesIO(b"".join(parts)), merge=True, matchsid=case["pat"]))
    except Exception as e: return f"merged reading failed {type(e).__name__} {e}"
    packed = b"".join(bytes(g.pack()) for g in got)
    if len(got) != len(groups): return f"{len(got)} records from merged reading, expected {len(groups)}"
    for k, (g, grp) in enumerate(zip(got, groups)):
        if grp[0]["_e"] in (0, 100):
            if g.identifier != grp[0]["sid"] or bytes(g.encodedDataBytes()) != b"some text" or g.header.encoding != grp[0]["_e"]: return f"record {k}: not passed through"
            continue
        r = chk_merged(m, g, grp[0], grp)
        if r: return f"record {k}: {r}"
    if case["pat"] is None:
        import importlib, sys
        f = m.mseed3merge
        importlib.import_module("simplemseed.mseed3merge")
        m.mseed3merge = f      # importing the command's module hides the function of that name
        err, ob = run_main(sys.modules["simplemseed.mseed3merge"].main, ["-o", "@out"] + (["-v"] if len(R) % 2 else []) + ["@in"], {"in": b"".join(parts)}, "out")
        if err: return f"mseed3merge failed: {err}"
        if ob != packed: return "mseed3merge did not write the merged records in order"
    return None

def chk_merged(m, g, a, grp):
    if g.identifier != a["sid"]: return "identifier"
    if ref.dt_micros(g.starttime) != a["t"]: return f"start {g.starttime}"
    if g.header.sampleRatePeriod != a["rate"] or g.header.publicationVersion != a["pv"]: return "rate or version"
    v = [x for r in grp for x in r["v"]]
    if g.header.numSamples != len(v): return f"sample count {g.header.numSamples} not {len(v)}"
    if samples(g) != v: return "samples are not those of the parts in order"
    u = m.unpackMSeed3Record(g.pack())
    if samples(u) != v: return "samples after writing differ"
    if (g.eh or {}) != (a["eh"] or {}): return "extra headers not those of the first"
    return None

def c11gen(rng, i):
    k = rng.choice(("np", "np", "list", "array", "seg", "none", "bytes", "odd"))
    n = rng.choice((0, 1, 2, 7, rng.randrange(1, 50)))
    c = {"kind": k, "henc": rng.choice((-1, -1, -1, 1, 3, 4, 5, 10, 11, 0)), "hn": rng.choice((0, 0, 0, n, n + 1)), "n": n}
    if k == "np":
        t = rng.choice(("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", ">i2", ">i4", ">i8", ">f4", ">f8", "bool", "complex64"))
        c["t"] = t
        d = np.dtype(t)
        if d.kind in "iu":
            ii = np.iinfo(d); c["v"] = [int(max(ii.min, min(ii.max, rng.choice((0, 1, -1, 2**31 - 1, -2**31, 2**31, -2**31 - 1, int(ii.min), int(ii.max), rng.randint(-99, 99)) if rng.random() < .3 else (rng.randint(-2**31, 2**31 - 1), rng.randint(-99, 99)))))) for _ in range(n)]
        elif d.kind == "b": c["v"] = [bool(rng.getrandbits(1)) for _ in range(n)]
        else: c["v"] = [rng.randint(-999, 999) / 4 for _ in range(n)]
        c["2d"] = rng.random() < .03
    elif k == "array":
        c["t"] = rng.choice("bhilqBHILQfd")
        if c["t"] in "fd": c["v"] = [rng.randint(-999, 999) / 4 for _ in range(n)]
        else: c["v"] = [rng.choice((0, 1, 100, 127) if c["t"] in "bB" else (0, 30000, 77)) for _ in range(n)]
    elif k == "list":
        c["v"] = rng.choice(([rng.randint(-32768, 32767) for _ in range(n)], [rng.randint(-2**31, 2**31 - 1) for _ in range(n)], [rng.choice((2**31, 70000, -2**31 - 1, 2**24 + 1, 5)) for _ in range(n)], [rng.randint(-99, 99) / 4 for _ in range(n)], [rng.random() for _ in range(n)], [rng.choice((2**53 + 1, 2**24 + 1, 2**53, 2**60 + 1, -2**24 - 1, 2**62, 2**64, 7)) for _ in range(n)], [rng.choice((2**53 + 1, 0.5, 2**24 + 1, 0.1, 3)) for _ in range(n)]))
    elif k in ("seg", "bytes"):
        e = rng.choice((1, 3, 4, 5)); lim = 2 ** (8 * (2 if e == 1 else 4) - 1)
        c["enc"] = e; c["v"] = [rng.randint(-lim, lim - 1) if e < 4 else rng.randint(-999, 999) / 4 for _ in range(n)]; c["le"] = rng.random() < .5
    return c

@prop("C11", c11gen)
def c11(case):
    m = lib()
    h = m.MSeed3Header(); h.encoding = case["henc"]; h.numSamples = case["hn"]
    k = case["kind"]; v = case.get("v")
    native = None        # encoding implied by the data
    if k == "np":
        a = np.array(v, np.dtype(case["t"]))
        if case["2d"]: a = np.zeros((2, 2), np.int32)
        arg = a
        d = np.dtype(case["t"])
        nm = d.newbyteorder("=").name
        native = {"int16": 1, "int32": 3, "int64": 3, "uint32": 3, "uint64": 3, "float32": 4, "float64": 5}.get(nm)
        fits = native is not None and not case["2d"] and not (native == 3 and any(not -2**31 <= x < 2**31 for x in v))
    elif k == "array":
        arg = array.array(case["t"], v)
        native = {("h", 2): 1, ("i", 4): 3, ("l", 4): 3, ("f", 4): 4, ("d", 8): 5}.get((case["t"], arg.itemsize)); fits = native is not None
    elif k == "list":
        arg = list(v); native = 4 if case["henc"] == -1 else case["henc"]
        fits = native in NT
        if fits:
            if native in (1, 3):
                lim = 2 ** (8 * (2 if native == 1 else 4) - 1)
                fits = all(x == int(x) and -lim <= x < lim for x in v)
                if fits: v = [int(x) for x in v]
            else:
                rnd = ref.f32 if native == 4 else float
                try: fits = all(isinstance(x, float) or rnd(float(x)) == x for x in v)
                except OverflowError: fits = False
                if fits: v = [rnd(float(x)) for x in v]
    elif k == "seg":
        e = case["enc"]; b = struct.pack(("<" if case["le"] else ">") + f"{len(v)}{CH[e]}", *v)
        arg = m.EncodedDataSegment(e, b, len(v), case["le"]); native = e; fits = True
    elif k == "bytes":
        e = case["enc"]; arg = struct.pack(f"<{len(v)}{CH[e]}", *v); h.encoding = e; h.numSamples = len(v); native = e; fits = True
    elif k == "none": arg = None; native = 0; v = []; fits = True
    else: arg = rng_odd(case); fits = False
    henc0, hn0 = h.encoding, h.numSamples
    cnt = len(v) if v is not None else 0
    agree = fits and henc0 in (-1, native) and hn0 in (0, cnt)
    try: rec = m.MSeed3Record(h, "FDSN:CO_BIRD_00_H_H_Z", arg)
    except Exception as e:
        if agree: return f"valid data refused: {type(e).__name__} {e}"
        return None
    if not fits:
        return f"unrepresentable data accepted: encoding {rec.header.encoding}"
    if not agree: return f"header disagreement accepted (enc {henc0} n {hn0}, data enc {native} n {cnt})"
    if rec.header.encoding != native or rec.header.numSamples != cnt: return f"encoding {rec.header.encoding} / {rec.header.numSamples}"
    if k == "none": return None
    want = struct.pack(f"<{len(v)}{CH[native]}", *v)
    if cnt and samples(rec) != v: return f"samples {samples(rec)[:5]} not {v[:5]}"
    if bytes(rec.encodedDataBytes()) != want: return "encoded payload wrong"
    u = m.unpackMSeed3Record(rec.pack())
    if cnt and samples(u) != v: return f"samples read back {samples(u)[:5]} not {v[:5]}"
    if cnt:
        dr = rec.decompressedRecord()
        if samples(dr) != v or dr.header.numSamples != cnt or dr.header.encoding != native: return "decompressed record"
        du = u.decompressedRecord()
        if samples(m.unpackMSeed3Record(du.pack())) != v: return "decompressed record written differs"
    return None

def rng_odd(case): return {0: "text", 1: 5, 2: {"a": 1}, 3: [[1, 2], [3, 4]], 4: [[]]}.get(case["n"] % 5)

def c12gen(rng, i):
    k = i % 3
    y = rng.choice((1, 2, 4, 100, 1899, 1900, 1904, 1970, 1999, 2000, 2016, 2020, 2023, 2024, 2100, 9998, 9999, rng.randint(1, 9999)))
    if k == 2:
        return {"kind": "get", "y": y, "doy": rng.choice((1, 31, 59, 60, 61, 365, 366 if ref.leap(y) else 365, rng.randint(1, 365))),
                "h": rng.choice((0, 23, rng.randrange(24))), "m": rng.choice((0, 59, rng.randrange(60))), "s": rng.choice((0, 59, 60, rng.randrange(61))),
                "ns": rng.choice((0, 1, 999, 1000, 999999999, 999999000, 500000500, rng.randrange(10**9)))}
    mo = rng.choice((1, 2, 3, 12, rng.randint(1, 12)))
    dmax = ref.MLEN[mo - 1] + (1 if mo == 2 and ref.leap(y) else 0)
    return {"kind": ("dt", "str")[k], "y": y, "mo": mo, "d": rng.choice((1, dmax, rng.randint(1, dmax))), "h": rng.choice((0, 23, rng.randrange(24))), "m": rng.randrange(60), "s": rng.randrange(60),
            "us": rng.choice((0, 1, 999999, 100000, rng.randrange(10**6))), "tz": rng.choice((None, 0, 0, 60, -60, 330, -570, 14 * 60, -12 * 60, 1439, -1439)), "fmt": rng.randrange(4)}

@prop("C12", c12gen)
def c12(case):
    m = lib()
    h = m.MSeed3Header()
    if case["kind"] == "get":
        if case["y"] == 9999 and case["s"] == 60 and case["doy"] == 365: return None
        h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond = case["y"], case["doy"], case["h"], case["m"], case["s"], case["ns"]
        try: st = h.starttime
        except Exception as e: return f"valid fields not readable: {type(e).__name__} {e}"
        want = ref.micros(case["y"], case["doy"], case["h"], case["m"], case["s"], case["ns"] // 1000)
        if st.utcoffset() != timedelta(0): return "start time not in UTC"
        if ref.dt_micros(st) != want: return f"start {st} for {case}"
        if not h.sanityCheck() and case["y"] < 3000: return "sanity check rejects valid fields"
        return None
    tz = case["tz"]
    dt = datetime(case["y"], case["mo"], case["d"], case["h"], case["m"], case["s"], case["us"])
    local = ref.micros(case["y"], ref.yday(case["y"], case["mo"], case["d"]), case["h"], case["m"], case["s"], case["us"])
    want = local - (tz or 0) * 60 * 10**6
    if not 0 <= want < ref.micros(10000, 1, 0, 0, 0, 0): return None
    if tz is not None: dt = dt.replace(tzinfo=timezone(timedelta(minutes=tz)))
    arg = dt
    if case["kind"] == "str":
        arg = dt.isoformat(sep=" " if case["fmt"] == 1 else "T")
        if tz == 0 and case["fmt"] != 2: arg = arg.replace("+00:00", "Z")
    h.nanosecond = 77
    try: h.starttime = arg
    except Exception as e: return f"start time {arg} refused: {type(e).__name__} {e}"
    f = ref.fields_of_micros(want)
    got = (h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond)
    if got != (*f[:5], f[5] * 1000): return f"{arg}: fields {got} expected {f}"
    st = h.starttime
    if ref.dt_micros(st) != want or st.utcoffset() != timedelta(0): return f"{arg}: reads back {st}"
    rec = m.MSeed3Record(h, "x", None)
    if ref.dt_micros(m.unpackMSeed3Record(rec.pack()).starttime) != want: return "start after writing"
    return None

def c21gen(rng, i):
    if i % 4 == 3:
        return {"kind": "rec", "eh": rng.choice(EHS), "d": gen_data(rng), "h": hdr_values(rng), "id": "FDSN:CO_BIRD_00_H_H_Z",
                "ops": [rng.choice((["set", {"n": 1}], ["set", '{"s": 2}'], ["set", None], ["set", {}], ["del"], ["set", [1, "x"]], ["set", 7], ["set", rng.choice(('["x"]', '"t"', 'null', '[]', '17'))], ["mut", "k", 5], ["get"], ["get"])) for _ in range(rng.randrange(1, 4))]}
    files = []
    for _ in range(rng.choice((1, 1, 2))):
        files.append([{"id": rng.choice(SIDS), "eh": rng.choice([e for e in EHS if not (isinstance(e, dict) and "big" in e)]), "h": hdr_values(rng), "d": gen_data(rng)} for _ in range(rng.randrange(0, 5))])
    return {"kind": "set", "files": files, "ptr": rng.choice(("/a", "/FDSN", "", "/", "/new")), "val": rng.choice(({"z": 1}, {"é": [1, "日"]}, {})) if rng.random() < .6 else rng.choice((1, "str", [1, 2], None)),
            "pat": rng.choice(PATS), "all": rng.random() < .5}

@prop("C21", c21gen)
def c21(case):
    m = lib()
    if case["kind"] == "rec":
        rec = mkrec(m, case)[0]
        cur = case["eh"]
        for op in case["ops"]:
            if op[0] == "set": rec.eh = json.loads(json.dumps(op[1])); cur = op[1]
            elif op[0] == "del": del rec.eh; cur = None
            elif op[0] == "get":
                if (rec.eh or {}) != eh_val(cur): return f"headers read {rec.eh}"
            elif op[0] == "mut":
                if not isinstance(rec.eh, dict): continue
                rec.eh[op[1]] = op[2]; cur = {**eh_norm(cur), op[1]: op[2]}
            try: u = m.unpackMSeed3Record(rec.pack())
            except Exception as e: return f"after {op}: {type(e).__name__} {e}"
            if (u.eh or {}) != eh_val(cur): return f"after {op}: extra headers {u.eh} not {eh_norm(cur)}"
            if isinstance(cur, str) and cur and json.loads(m.unpackMSeed3Record(u.pack())._eh) != eh_norm(cur): return f"after {op}: looking at the extra headers changes what is packed"
            if isinstance(eh_norm(cur), (dict, list)) and op[0] != "get":
                if u.hasExtraHeaders() != (len(eh_val(cur)) > 0): return "hasExtraHeaders"
                if not isinstance(cur, str) and rec.hasExtraHeaders() != (len(eh_val(cur)) > 0): return "hasExtraHeaders"
            if rec.getSize() != len(rec.pack()): return "size after edit"
        return None
    from simplemseed import mseed3details as md
    repl = len(case["ptr"]) <= 1
    tmp = tempfile.mkdtemp(prefix="c21_")
    try:
        paths = []; before = []
        for k, f in enumerate(case["files"]):
            p = os.path.join(tmp, f"f{k}.ms3"); bs = [bytes(mkrec(m, c)[0].pack()) for c in f]
            open(p, "wb").write(b"".join(bs)); paths.append(p); before.append(bs)
        import warnings; warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()) as so:
            try: md.do_set_eh(case["ptr"], json.dumps(case["val"]), paths, matchsid=case["pat"], setall=case["all"])
            except Exception as e:
                if not (repl and not (case["val"] is None or isinstance(case["val"], dict))): return f"edit failed: {type(e).__name__} {e}"
                if any(open(p, "rb").read() != b"".join(bs) for p, bs in zip(paths, before)): return "refused edit changed a file"
                return None
        done = False
        for k, f in enumerate(case["files"]):
            data = open(paths[k], "rb").read(); pos = 0
            want = []
            for c, b in zip(f, before[k]):
                hit = (case["pat"] is None or re.search(case["pat"], c["id"])) and (case["all"] or not done)
                e = eh_norm(c["eh"])
                if hit:
                    done = True
                    e = (case["val"] or {}) if repl else {**e, case["ptr"][1:]: case["val"]}
                want.append((b, e, bool(hit)))
            for j, (b, e, hit) in enumerate(want):
                if pos + 40 > len(data): return f"file {k}: record {j} missing"
                fh = ref.ms3_parse_header(data[pos:pos + 40])
                n = 40 + fh["identifierLength"] + fh["extraHeadersLength"] + fh["dataLength"]
                g = data[pos:pos + n]; pos += n
                z = bytearray(g); z[28:32] = bytes(4)
                if ref.crc32c(z) != fh["crc"]: return f"file {k}: record {j} fails its checksum"
                if not hit:
                    if g != b: return f"file {k}: record {j} not a target but changed"
                    continue
                u, o = m.unpackMSeed3Record(g), m.unpackMSeed3Record(b)
                if (u.eh or {}) != e: return f"file {k}: record {j} extra headers {u.eh} not {e}"
                if u.identifier != o.identifier or bytes(u.encodedDataBytes()) != bytes(o.encodedDataBytes()): return "payload or identifier changed"
                for n2 in fh:
                    if n2 not in ("crc", "extraHeadersLength") and getattr(u.header, n2) != getattr(o.header, n2): return f"header {n2} changed"
            if pos != len(data): return f"file {k}: extra bytes"
        if sorted(os.listdir(tmp)) != sorted(os.path.basename(p) for p in paths): return "temporary files left behind"
        # query: first / all matching
        exp = []
        for k, f in enumerate(case["files"]):
            for r in m.readMSeed3Records(open(paths[k], "rb"), matchsid=case["pat"]): exp.append(r.eh or {})
        for allf in (False, True):
            out = io.StringIO()
            with contextlib.redirect_stdout(io.StringIO()):
                md.do_get_eh("", paths, matchsid=case["pat"], getall=allf, outfile=out)
            got = [json.loads(l) for l in out.getvalue().splitlines()]
            if got != (exp if allf else exp[:1]): return f"query returned {got} expected {exp if allf else exp[:1]}"
    finally:
        shutil.rmtree(tmp)
    return None
