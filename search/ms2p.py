"""Search oracles for C13, C18, C19, C20."""
import struct, io, array, math, re, contextlib
from fractions import Fraction
from datetime import datetime, timedelta, timezone
import numpy as np
import ref
from common import prop, lib, run_main

U36 = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
CH = {1: "h", 3: "i", 4: "f", 5: "d"}
SZ = {1: 2, 3: 4, 4: 4, 5: 8}
NT = {1: np.int16, 3: np.int32, 4: np.float32, 5: np.float64}

def rnd(rng, lo, hi): return "".join(rng.choice(U36) for _ in range(rng.randint(lo, hi)))

def gen_codes(rng):
    return {"net": rng.choice(("CO", "XD", "N", rnd(rng, 1, 2))), "sta": rng.choice(("BIRD", "JSC", rnd(rng, 1, 5))), "loc": rng.choice(("", "00", rnd(rng, 0, 2))), "chan": rng.choice(("HHZ", "BHZ", "LOG", rnd(rng, 3, 3)))}

def gen_vals(rng, enc, n):
    if enc in (4, 5): return [rng.choice((0.0, 1.5, -2.25, rng.randint(-9999, 9999) / 8)) for _ in range(n)]
    lim = 2 ** (8 * (2 if enc in (1, 32) else 4) - 1)
    if enc in (10, 11):
        x = [rng.randint(-1000, 1000)] if n else []
        for _ in range(n - 1): x.append(x[-1] + rng.choice((0, 1, -1, rng.randint(-300, 300), rng.randint(-10**5, 10**5))))
        return x
    return [rng.choice((0, 1, -1, lim - 1, -lim, rng.randint(-lim, lim - 1))) for _ in range(n)]

def enc_bytes(m, enc, v, bo):
    if enc in (10, 11): return bytes((m.encodeSteim1 if enc == 10 else m.encodeSteim2)(v)) if v else b""
    e = ">" if bo == 1 else "<"
    return struct.pack(f"{e}{len(v)}{CH[1 if enc == 32 else enc]}", *v)

def gen_btime(rng):
    y = rng.choice((1900, 1970, 1999, 2000, 2004, 2016, 2023, 2024, 2047, 2048, 2050, rng.randint(1900, 2050)))
    return [y, rng.choice((1, 60, 365, 366 if ref.leap(y) else 365, rng.randint(1, 365))), rng.choice((0, 23, rng.randrange(24))), rng.choice((0, 59, rng.randrange(60))),
            rng.choice((0, 59, rng.randrange(60), rng.randrange(60), 60)), rng.choice((0, 9999, rng.randrange(10000)))]

def gen_rate2(rng):
    return rng.choice(((20, 1), (100, 1), (1, 1), (-10, 1), (200, -3), (-7, -3), (-1, 5), (32767, 1), (1, -32768), (rng.choice((-1, 1)) * rng.randint(1, 32767), rng.choice((-1, 1)) * rng.randint(1, 32767))))

def gen_raw(rng):
    """a well-formed SEED data record as a dict"""
    r = gen_codes(rng)
    r["byteorder"] = rng.randrange(2)
    r["exp"] = rng.choice((7, 8, 9, 9, 9, 10, 12, 13))
    r["seq"] = rng.choice((0, 1, 999999, rng.randrange(10**6))); r["quality"] = rng.choice("DRQM")
    r["btime"] = gen_btime(rng)
    f, mu = gen_rate2(rng)
    r["act"], r["io"], r["qual"] = (rng.choice((0, 1, 32, 128, 255, rng.randrange(256))) for _ in range(3))
    r["corr"] = rng.choice((0, 0, -1, 2**31 - 1, -2**31, rng.randint(-10**6, 10**6)))
    enc = rng.choice((1, 3, 4, 5, 10, 11, 32))
    r["enc"] = enc
    nodata = rng.random() < .12
    if nodata:
        if rng.random() < .5: f = mu = 0; r["enc"] = 0
    blks = []
    kinds = [1000] + [rng.choice((100, 1001, 200, 300, 2000, 1001)) for _ in range(rng.choice((0, 0, 1, 1, 2, 3, 4)))]
    if rng.random() < .5: rng.shuffle(kinds)
    if r["exp"] == 9 and rng.random() < .04 and not nodata: kinds = [k for k in kinds if k != 1000]
    seen = set(); kk = []
    for k in kinds:
        if k in (100, 1001) and k in seen: continue
        seen.add(k); kk.append(k)
    off = 48
    if kk and rng.random() < .1: r["boff"] = 48 + 4 * rng.randint(1, 3); off = r["boff"]
    for k in kk:
        b = {"num": k}
        if k == 100: b["rate"] = ref.f32(rng.choice((20.0, 100.0, 0.1, 1e-3, 3.7, rng.uniform(0.01, 500)))); ln = 12
        elif k == 1001: b["tq"] = rng.choice((0, 100, 255, rng.randrange(256))); b["us"] = rng.choice((0, 1, 49, -50, -1, 99, 127, rng.randint(0, 127), rng.randint(0, 99))); b["fc"] = rng.randrange(256); ln = 8
        elif k == 1000: ln = 8
        else: b["raw"] = [rng.randrange(256) for _ in range(rng.choice((0, 1, 4, 8, 12, 20)))]; ln = 4 + len(b["raw"])
        if k in (100, 1000, 1001) and rng.random() < .1: b["gap"] = 4 * rng.randint(1, 3)
        if off + ln + b.get("gap", 0) > 2 ** r["exp"] - 16: break
        blks.append(b); off += ln + b.get("gap", 0)
    if not any(b["num"] == 1000 for b in blks):
        if r["exp"] == 7: r["exp"] = 9
        if 1000 in kk: blks = [{"num": 1000}]; off = r.get("boff", 48) + 8
        else: r["exp"] = 9
    r["factor"], r["mult"] = f, mu
    if blks: blks[-1].pop("gap", None)
    off += 0
    if nodata:
        r["n"] = 0; r["vals"] = []; r["dataOffset"] = rng.choice((0, max(64, off)))
        if r["dataOffset"] == 0 and blks[-1]["num"] != 1000 and blks[0]["num"] != 1000: blks.sort(key=lambda b: b["num"] != 1000)
        if r["dataOffset"] > 2 ** r["exp"]: r["dataOffset"] = 0
    else:
        do = rng.choice((off, max(64, off), (off + 63) // 64 * 64, off + rng.randrange(9)))
        if enc in (10, 11): do = (off + 63) // 64 * 64
        L = 2 ** r["exp"]
        if do >= L: do = off
        room = L - do
        if enc in (10, 11):
            r["n"] = max(1, rng.randint(1, max(1, room // 64 * 4)))
            if room < 64: r["enc"] = enc = 1
        if enc not in (10, 11): r["n"] = rng.choice((1, room // SZ[1 if enc == 32 else enc], rng.randint(1, max(1, room // SZ[1 if enc == 32 else enc]))))
        r["vals"] = gen_vals(rng, enc, r["n"]); r["dataOffset"] = do
    r["blks"] = blks
    return r

def build(m, r):
    r = dict(r)
    r["data"] = enc_bytes(m, r["enc"], r["vals"], r["byteorder"]) if r["vals"] else b""
    room = 2 ** r["exp"] - r["dataOffset"] if r["dataOffset"] else 0
    while len(r["data"]) > room and r["enc"] in (10, 11):
        r["vals"] = r["vals"][:max(1, len(r["vals"]) // 2)]; r["n"] = len(r["vals"])
        if len(r["vals"]) == 1 and room < 64: return None, None
        r["data"] = enc_bytes(m, r["enc"], r["vals"], r["byteorder"])
    return ref.ms2_record(r), r

def sid_of(r): return f"FDSN:{r['net']}_{r['sta']}_{r['loc']}_{r['chan'][0]}_{r['chan'][1]}_{r['chan'][2]}"

def approx(a, b, rel=1e-12):
    return abs(a - b) <= rel * max(abs(a), abs(b))

def chk_read(m, u, b, r):
    """u: record read, b: its bytes, r: description. returns message, or ('known', msg)"""
    h = u.header
    for nm, at in (("net", "network"), ("sta", "station"), ("loc", "location"), ("chan", "channel")):
        if getattr(h, at).strip() != r[nm]: return f"{at} {getattr(h, at)!r} not {r[nm]!r}"
    if h.sequence_number != r["seq"]: return f"sequence {h.sequence_number}"
    if h.dataquality != r["quality"]: return f"quality {h.dataquality!r}"
    for nm, at in (("n", "numSamples"), ("factor", "sampRateFactor"), ("mult", "sampRateMult"), ("act", "actFlag"), ("io", "ioFlag"), ("qual", "qualFlag"), ("corr", "timeCorr"), ("dataOffset", "dataOffset")):
        if getattr(h, at) != r[nm]: return f"{at} {getattr(h, at)} not {r[nm]}"
    if h.numBlockettes != len(r["blks"]): return "number of blockettes"
    has = any(x["num"] == 1000 for x in r["blks"])
    if h.byteorder != r["byteorder"]: return "byte order"
    if h.encoding != (r["enc"] if has else -1): return f"encoding {h.encoding}"
    if h.recordLength != len(b) or h.recordLengthExp != r["exp"]: return "record length"
    rate = float(ref.ms2_rate(r["factor"], r["mult"])); us = 0
    for x in r["blks"]:
        if x["num"] == 100: rate = x["rate"]
        if x["num"] == 1001: us = x["us"]
    if not approx(h.sampleRate, rate): return f"sample rate {h.sampleRate} not {rate}"
    y, d, hh, mi, s, tm = r["btime"]
    base = ref.micros(y, d, hh, mi, s, 100 * tm)
    got = ref.dt_micros(u.starttime())
    known = None
    if got != base + us:
        if us < 0 and got == base + us + 256: known = f"blockette 1001 microseconds {us} read as {us + 256}"
        else: return f"start {u.starttime()} for {r['btime']} and {us} microseconds"
    # blockettes
    if len(u.blockettes) != len(r["blks"]): return f"{len(u.blockettes)} blockettes not {len(r['blks'])}"
    e = ">" if r["byteorder"] == 1 else "<"
    off = r.get("boff", 48)
    for k, (x, g) in enumerate(zip(r["blks"], u.blockettes)):
        if g.blocketteNum != x["num"]: return f"blockette {k} is {g.blocketteNum}"
        raw = ref.ms2_blk(e, x, r); ln = len(raw) + x.get("gap", 0)
        nxt = off + ln if k < len(r["blks"]) - 1 else 0
        if g.nextOffset != nxt: return f"blockette {k} next offset {g.nextOffset} not {nxt}"
        if x["num"] == 100:
            if type(g).__name__ != "Blockette100" or g.sampleRate != x["rate"]: return f"blockette 100 {g}"
        elif x["num"] == 1000:
            if (g.encoding, g.byteorder, g.recLength) != (r["enc"], r["byteorder"], r["exp"]): return f"blockette 1000 {g}"
        elif x["num"] == 1001:
            if (g.timeQuality, g.frameCount) != (x["tq"], x["fc"]) or g.microseconds not in (x["us"], x["us"] % 256): return f"blockette 1001 {g}"
        else:
            end = nxt if nxt else (r["dataOffset"] or len(b))
            if bytes(g.rawBytes) != b[off:end]: return f"unknown blockette {x['num']} is not kept verbatim"
        off += ln
    if r["dataOffset"]:
        if u.encodedDataBytes is None or bytes(u.encodedDataBytes) != b[r["dataOffset"]:]: return "payload bytes"
    elif u.encodedDataBytes is not None and len(u.encodedDataBytes): return "payload without data offset"
    if has and r["n"] and r["enc"] in (1, 3, 4, 5, 10, 11, 32):
        try: v = [x.item() if hasattr(x, "item") else x for x in u.decompress()]
        except Exception as ex: return f"payload not decoded: {type(ex).__name__} {ex}"
        if v != r["vals"]: return f"samples {v[:6]} not {r['vals'][:6]}"
    if known: return {"known": "blockette 1001 microseconds read unsigned", "msg": known}
    return None

PATS = [None, None, None, ".*", "CO_", "^FDSN:CO_BIRD", "_H_H_Z$", "BIRD_00", "nomatch", "FDSN:X.", "_L_", "[0-9]", "$^"]

def c19gen(rng, i):
    return {"recs": [gen_raw(rng) for _ in range(rng.choice((1, 1, 2, 3, 6)))], "pat": rng.choice(PATS), "tail": rng.choice((0, 0, 0, 5, 47))}

@prop("C19", c19gen)
def c19(case):
    m = lib()
    bs, rs = [], []
    for r in case["recs"]:
        b, rr = build(m, r)
        if b is None: return None
        bs.append(b); rs.append(rr)
    f = io.BytesIO(b"".join(bs))
    want = [(b, r) for b, r in zip(bs, rs) if case["pat"] is None or re.search(case["pat"], sid_of(r))]
    with contextlib.redirect_stdout(io.StringIO()):
        try: got = list(m.readMiniseed2Records(f, matchsid=case["pat"]) if case["pat"] is not None else m.readMiniseed2Records(f))
        except Exception as e: return f"well-formed stream: {type(e).__name__} {e}"
    if len(got) != len(want): return f"{len(got)} records not {len(want)}"
    known = None
    for k, (u, (b, r)) in enumerate(zip(got, want)):
        x = chk_read(m, u, b, r)
        if isinstance(x, dict): known = x
        elif x: return f"record {k}: {x}"
    if len(bs) == 1:
        u = m.unpackMiniseedRecord(bs[0])
        x = chk_read(m, u, bs[0], rs[0])
        if isinstance(x, str): return "single record: " + x
        if str(u.identifier) != sid_of(rs[0]): return "identifier"
        if u.codes() != f"{rs[0]['net']}.{rs[0]['sta']}.{rs[0]['loc']}.{rs[0]['chan']}": return "codes"
    return known

# ------------------------------------------------------------------ C18
def c18gen(rng, i):
    c = gen_codes(rng)
    enc = rng.choice((1, 3, 4, 5, 10, 11)); exp = rng.choice((9, 9, 8, 10, 12))
    room = 2 ** exp - 64
    kind = rng.choice(("np", "list", "array", "seg", "seg", "bytes", "none"))
    if enc in (10, 11): kind = "seg"
    if kind == "array" and enc == 3: c["tc"] = rng.choice("il" if array.array("l").itemsize == 4 else "i")
    full = room // SZ.get(enc, 16)
    n = rng.choice((1, 2, rng.randint(1, max(1, full)), full, full + 1, full + rng.randint(1, 40)) if rng.random() < .5 else (rng.randint(1, max(1, full // 2)),))
    blks = []
    for _ in range(rng.choice((0, 0, 1, 1, 2, 3))):
        k = rng.choice((100, 1000, 1001, 300, 2000))
        if any(b["num"] == k for b in blks) and k != 300: continue
        b = {"num": k, "next": rng.choice((0, 0, 56, 60, 9999))}
        if k == 1001: b.update(us=rng.choice(("c", 0, 99, rng.randrange(100))), tq=rng.randrange(256), fc=rng.randrange(256))
        if k >= 300 and k not in (1000, 1001): b["raw"] = [rng.randrange(256) for _ in range(rng.choice((0, 1, 2, 3, 4, 7, 8, 20, 300)))]
        blks.append(b)
    rate = rng.choice((20.0, 100.0, 1.0, 0.1, 40, 3.3, 1 / 3, 1000.0, 31234.5, 4e-5, 10 ** rng.uniform(-4.5, 4.5), rng.uniform(0.9, 1.1), 0.999, 1.0000001))
    fm = gen_rate2(rng) if rng.random() < .25 else (0, 0)
    y = rng.choice((1900, 1999, 2000, 2016, 2024, 2047, 2050, rng.randint(1900, 2050)))
    mo = rng.randint(1, 12); dm = ref.MLEN[mo - 1] + (1 if mo == 2 and ref.leap(y) else 0)
    vals = gen_vals(rng, enc, n)
    if kind == "list" and enc in (4, 5) and rng.random() < .5: vals = [rng.choice((2**53 + 1, 2**24 + 1, 0.5, 3, -2**24 - 1, 2**60 + 1, 2**24)) if rng.random() < .5 else rng.randint(-99, 99) for _ in range(n)]
    c.update({"enc": enc, "exp": exp, "kind": kind, "vals": vals, "bo": rng.randrange(2), "dbo": rng.randrange(2), "blks": blks, "rate": rate, "fm": fm,
              "dt": [y, mo, rng.choice((1, dm, rng.randint(1, dm))), rng.choice((0, 23, rng.randrange(24))), rng.randrange(60), rng.randrange(60), rng.choice((0, 999999, rng.randrange(10**6), 100 * rng.randrange(10**4)))],
              "tz": rng.choice((0, None, 0, 60, -330)), "tk": rng.choice(("dt", "dt", "str", "b")), "act": rng.randrange(256), "io": rng.randrange(256), "qual": rng.randrange(256), "corr": rng.choice((0, 5, -1, -2**31, 2**31 - 1)),
              "seq": rng.choice((0, 7, 999999, rng.randrange(10**6))), "quality": rng.choice("DRQM"), "long": rng.random() < .04, "dflt": exp == 9 and rng.random() < .3})
    return c

@prop("C18", c18gen)
def c18(c):
    m = lib()
    from simplemseed import miniseed as ms
    y, mo, d, hh, mi, s, us = c["dt"]
    dt = datetime(y, mo, d, hh, mi, s, us)
    local = ref.micros(y, ref.yday(y, mo, d), hh, mi, s, us)
    tz = c["tz"]; t0 = local
    if c["tk"] == "b":
        st = ms.BTime(y, ref.yday(y, mo, d), hh, mi, s, us // 100); t0 = local // 100 * 100
    else:
        if tz is not None: dt = dt.replace(tzinfo=timezone(timedelta(minutes=tz))); t0 = local - tz * 60 * 10**6
        st = dt if c["tk"] == "dt" else dt.isoformat()
    if ref.fields_of_micros(t0)[0] < 1900: return None
    enc, v, k = c["enc"], c["vals"], c["kind"]
    net, sta, loc, chan = c["net"], c["sta"], c["loc"], c["chan"]
    if c["long"]:
        net, sta, loc, chan = ((net + "AB", sta, loc, chan), (net, sta + "ABCDE", loc, chan), (net, sta, loc + "ABC", chan), (net, sta, loc, chan + "Z"))[c["act"] % 4]
    f, mu = c["fm"]
    h = m.MiniseedHeader(net, sta, loc, chan, st, 0 if k != "bytes" else len(v), 0 if f else c["rate"], encoding=enc, byteorder=c["bo"], sampRateFactor=f, sampRateMult=mu,
                         actFlag=c["act"], ioFlag=c["io"], qualFlag=c["qual"], timeCorr=c["corr"], sequence_number=c["seq"], dataquality=c["quality"])
    if not c["dflt"]: h.recordLengthExp = c["exp"]; h.recordLength = 2 ** c["exp"]
    rate = float(ref.ms2_rate(f, mu)) if f else c["rate"]
    le = struct.pack("=h", 1) == struct.pack("<h", 1)
    nat = 0 if le else 1
    if k == "np": data = np.array(v, np.dtype(NT[enc]).newbyteorder(">" if c["dbo"] else "<")); bo = c["dbo"]
    elif k == "list": data = list(v); bo = nat
    elif k == "array": data = array.array(c.get("tc", CH[enc]), v); bo = nat
    elif k == "seg":
        raw = enc_bytes(m, enc, v, c["dbo"]); bo = c["dbo"]
        data = m.EncodedDataSegment(enc, raw, len(v), bo == 0)
    elif k == "bytes": data = enc_bytes(m, enc, v, c["bo"]); bo = c["bo"]
    else: data = None; v = []; bo = c["bo"]
    if k == "list" and enc in (4, 5):
        rf = ref.f32 if enc == 4 else float
        holds = all(isinstance(x, float) or rf(float(x)) == x for x in v)
        try: rec = m.MiniseedRecord(h, data)
        except Exception as e: return f"valid list refused: {type(e).__name__} {e}" if holds else None
        if not holds: return "list of integers stored as floats that differ from them"
        v = [rf(float(x)) for x in v]
    else: rec = m.MiniseedRecord(h, data)
    B = []; us1 = 0; r100 = None
    for b in c["blks"]:
        if b["num"] == 100: B.append(ms.Blockette100(100, b["next"], h.sampleRate)); r100 = ref.f32(h.sampleRate)
        elif b["num"] == 1000: B.append(ms.Blockette1000(1000, b["next"], 99, 7, 3))
        elif b["num"] == 1001:
            us1 = t0 % 100 if b["us"] == "c" else b["us"]
            B.append(rec.createB1001()._replace(timeQuality=b["tq"], frameCount=b["fc"]) if b["us"] == "c" else ms.Blockette1001(1001, b["next"], b["tq"], us1, b["fc"]))
        else: B.append(ms.BlocketteUnknown(b["num"], b["next"], struct.pack(">HH", 1, 2) + bytes(b["raw"])))
    rec.blockettes.extend(B)
    nb = sum({100: 12, 1000: 8, 1001: 8}.get(b["num"], 4 + len(b.get("raw", ()))) for b in c["blks"])
    has = any(b["num"] == 1000 for b in c["blks"])
    off = 48 + nb + (0 if has else 8)
    if enc in (10, 11):
        if off % 64:
            if c["blks"] and c["blks"][-1]["num"] in (300, 2000): return None
            off = (off + 63) // 64 * 64
    payload = enc_bytes(m, enc, v, bo) if v else b""
    L = 2 ** c["exp"]
    fits = off + len(payload) <= L and not c["long"]
    if not 3.2e-5 <= rate <= 32764 and not f: return None
    try: out = bytes(rec.pack())
    except Exception as e:
        return f"valid record refused: {type(e).__name__} {e}" if fits else None
    if len(out) != L: return f"written record is {len(out)} bytes not {L}"
    if not fits: return "content that does not fit was written"
    e = ">" if bo == 1 else "<"
    # fixed header as SEED lays it out
    if out[:20] != b"%06d" % c["seq"] + c["quality"].encode() + b" " + sta.ljust(5).encode() + loc.ljust(2).encode() + chan.ljust(3).encode() + net.ljust(2).encode(): return f"header text {out[:20]}"
    yy, dd, h2, m2, s2, u2 = ref.fields_of_micros(t0 - us1)
    if out[20:30] != struct.pack(e + "HHBBBBH", yy, dd, h2, m2, s2, 0, u2 // 100): return f"start bytes {out[20:30].hex()}"
    n_, f_, mu_ = struct.unpack(e + "Hhh", out[30:36])
    if n_ != len(v): return f"sample count {n_}"
    wr = float(ref.ms2_rate(f_, mu_))
    if f and (f_, mu_) != (f, mu) or not f and not approx(wr, rate, 3.2e-5): return f"rate {rate} stored as {f_} {mu_}"
    if out[36:44] != struct.pack(e + "BBBBi", c["act"], c["io"], c["qual"], len(c["blks"]) + (not has), c["corr"]): return f"flag bytes {out[36:44].hex()}"
    if struct.unpack(e + "HH", out[44:48]) != (off, 48): return f"offsets {out[44:48].hex()}"
    if out[off:off + len(payload)] != payload or any(out[off + len(payload):]): return "payload bytes"
    nums = []; o = 48
    while o: nm, o2 = struct.unpack(e + "HH", out[o:o + 4]); nums.append((nm, o)); o = o2 if len(nums) < 20 else 0
    wn = ([] if has else [1000]) + [b["num"] for b in c["blks"]]
    if [x[0] for x in nums] != wn: return f"blockette chain {nums}"
    for nm, o in nums:
        if nm == 1000 and out[o + 4:o + 7] != bytes((enc, bo, c["exp"])): return f"blockette 1000 {out[o:o+8].hex()}"
    with contextlib.redirect_stdout(io.StringIO()):
        u = m.unpackMiniseedRecord(out)
    g = u.header
    for nm, w in (("network", net), ("station", sta), ("location", loc), ("channel", chan), ("dataquality", c["quality"]), ("sequence_number", c["seq"]), ("numSamples", len(v)),
                  ("actFlag", c["act"]), ("ioFlag", c["io"]), ("qualFlag", c["qual"]), ("timeCorr", c["corr"]), ("byteorder", bo), ("encoding", enc), ("recordLength", L)):
        if getattr(g, nm) != w: return f"{nm} {getattr(g, nm)!r} not {w!r}"
    wt = (t0 - us1) // 100 * 100 + us1
    if ref.dt_micros(u.starttime()) != wt: return f"start {u.starttime()}"
    if r100 is not None:
        if not approx(g.sampleRate, r100): return f"rate {g.sampleRate} not {r100}"
    elif not approx(g.sampleRate, rate, 3.2e-5): return f"rate {g.sampleRate} not {rate}"
    ub = [b for b in u.blockettes]
    if [b.blocketteNum for b in ub] != wn: return "blockettes read back"
    if not has: ub = ub[1:]
    for k2, (b, q) in enumerate(zip(c["blks"], ub)):
        if b["num"] == 1001 and (q.timeQuality, q.microseconds, q.frameCount) != (b["tq"], us1, b["fc"]): return f"blockette {q}"
        if b["num"] == 100 and q.sampleRate != r100: return f"blockette {q}"
        if "raw" in b and bytes(q.rawBytes)[4:] != bytes(b["raw"]): return f"blockette {b['num']} content"
    if v:
        dv = [x.item() if hasattr(x, "item") else x for x in u.decompress()]
        if dv != v: return f"samples {dv[:5]} not {v[:5]}"
    try: again = bytes(u.pack())
    except Exception as ex: return f"read record cannot be written: {type(ex).__name__} {ex}"
    if again != out: return f"written again differs at byte {next(i for i in range(L) if again[i] != out[i])}"
    if bytes(rec.pack()) != out: return "packing twice differs"
    cl = rec.clone()
    if bytes(cl.pack()) != out: return "clone differs"
    return None

# ------------------------------------------------------------------ C20
def c20gen(rng, i):
    r = gen_raw(rng)
    if not any(b["num"] == 1000 for b in r["blks"]): r = gen_raw(rng)
    if rng.random() < .3: r["btime"][4] = 60
    return {"r": r}

def f20(v, enc): return v

def reads(m, b):
    """the reader of files takes the record as a whole (its length is that of blockette 1000)"""
    try: return len(list(m.readMiniseed2Records(io.BytesIO(b)))) == 1
    except Exception: return False

@prop("C20", c20gen)
def c20(case):
    m = lib()
    b, r = build(m, case["r"])
    if b is None or not any(x["num"] == 1000 for x in r["blks"]): return None
    with contextlib.redirect_stdout(io.StringIO()):
        u = m.unpackMiniseedRecord(b)
    st = ref.dt_micros(u.starttime())
    try: t = m.mseed2to3(u)
    except Exception as e: return f"conversion failed: {type(e).__name__} {e}"
    try: first = bytes(t.pack())
    except Exception as e: return f"converted record cannot be written: {type(e).__name__} {e}"
    for nm, x in (("record", t), ("written record", None)):
        if x is None:
            try: x = m.unpackMSeed3Record(t.pack())
            except Exception as e: return f"converted record cannot be written and read: {type(e).__name__} {e}"
        h = x.header
        if ref.dt_micros(x.starttime) != st: return f"{nm}: start {x.starttime} not {u.starttime()}"
        us = sum(q["us"] for q in r["blks"] if q["num"] == 1001)
        if us >= 0 and st != ref.micros(*r["btime"][:5], r["btime"][5] * 100) + us: return f"{nm}: start {u.starttime()} of the source"
        rate = float(ref.ms2_rate(r["factor"], r["mult"]))
        for q in r["blks"]:
            if q["num"] == 100: rate = q["rate"]
        if not approx(h.sampleRate, rate): return f"{nm}: rate {h.sampleRate} not {rate}"
        if h.numSamples != r["n"]: return f"{nm}: sample count {h.numSamples}"
        if str(x.identifier) != sid_of(r): return f"{nm}: identifier {x.identifier}"
        fl = (r["act"] & 1) | (2 if r["qual"] & 128 else 0) | (4 if r["io"] & 32 else 0)
        if h.flags != fl: return f"{nm}: flags {h.flags} not {fl}"
        fd = {}
        if r["quality"] != "D": fd["DataQuality"] = r["quality"]
        tm = {}
        for q in r["blks"]:
            if q["num"] == 1001 and q["tq"]: tm["Quality"] = q["tq"]
        if r["btime"][4] == 60 and u.header.btime.second == 60: tm["LeapSecond"] = 1
        if r["btime"][4] == 60 and not any(q["num"] == 1001 for q in r["blks"]) and "LeapSecond" not in tm: return "leap second lost on reading"
        if tm: fd["Time"] = tm
        want = {"FDSN": fd} if fd else {}
        if (x.eh or {}) != want: return f"{nm}: extra headers {x.eh} not {want}"
        if r["n"]:
            try: v = [q.item() if hasattr(q, "item") else q for q in x.decompress()]
            except Exception as e: return f"{nm}: samples cannot be decoded: {type(e).__name__} {e}"
            if v != r["vals"]: return f"{nm}: samples {v[:6]} not {r['vals'][:6]}"
    import importlib, sys
    importlib.import_module("simplemseed.mseed2to3")
    if len(b) >= 64:
        k = r["n"] % 3
        want = first * (k + 1)
        err, ob = run_main(sys.modules["simplemseed.mseed2to3"].main, ["-2", "@in", "-3", "@out"] + (["-v"] if k and .001 < abs(rate) < 1e6 and 1000 < u.starttime().year < 9000 else []), {"in": bytes(b) * (k + 1)}, "out")
        if ob != want and reads(m, bytes(b)): return f"mseed2to3 command: {err or 'did not write the converted records in order'}"
    return None

# ------------------------------------------------------------------ C13
def c13gen(rng, i):
    k = ("v3", "v2", "v2n", "zero")[i % 4]
    rate = rng.choice((0.1, 1.0, 20.0, 40.0, 100.0, 3.0, 7.0, 1 / 3, 0.7, 1e-3, 1000.0, 250.0, 10 ** rng.uniform(-4, 4), rng.uniform(1, 300), 2, 5, 50))
    n = rng.choice((0, 1, 2, 3, 100, 4095, 65535, 10**6, 10**7 if k == "v3" else 60000, rng.randint(1, 65535)))
    if n / rate > 3e9: n = 5
    if k in ("v2", "v2n"): n = min(n, 65535)
    c = {"k": k, "rate": rate, "n": n, "how": rng.choice(("rate", "period", "neg", "pos", "raw")), "us": rng.randrange(10**6), "doy": rng.randint(1, 365), "y": rng.choice((1999, 2000, 2024, rng.randint(1900, 2050))), "bo": rng.randrange(2),
         "fm": gen_rate2(rng), "b100": rng.random() < .4}
    if k == "v3" and c["how"] == "raw": c["rate"] = rng.choice((-10.0, -0.5, -1e-3, -3.0, -100, -rng.uniform(1e-3, 1e4), rng.uniform(1e-3, 1e4), 5, -5))
    return c

def near(dt, base, exact):
    """exact: Fraction microseconds after base; within rounding to a microsecond"""
    return abs(Fraction(ref.dt_micros(dt) - base) - exact) <= Fraction(1)

@prop("C13", c13gen)
def c13(c):
    m = lib()
    k, rate, n = c["k"], c["rate"], c["n"]
    base = ref.micros(c["y"], c["doy"], 1, 2, 3, c["us"])
    if k == "zero":
        for enc, kind in ((0, "v3"), (-1, "v3"), (0, "v2"), (-1, "v2")):
            if kind == "v3":
                h = m.MSeed3Header(); h.encoding = enc; h.year = c["y"]; h.dayOfYear = c["doy"]
                if c["how"] in ("rate", "pos"): h.sampleRate = 0
                elif c["how"] == "period": h.samplePeriod = 0
                else: h.sampleRatePeriod = 0.0
                if enc == 0: rec = m.MSeed3Record(h, "FDSN:CO_BIRD_00_L_O_G", b"some text" if c["bo"] else None)
                else: rec = m.MSeed3Record(h, "FDSN:CO_BIRD_00_L_O_G", None)
                recs = [rec, m.unpackMSeed3Record(rec.pack())] + list(m.readMSeed3Records(io.BytesIO(bytes(rec.pack()))))
            else:
                st = datetime(c["y"], 1, 1, tzinfo=timezone.utc) + timedelta(days=c["doy"] - 1)
                rec = m.MiniseedRecord(m.MiniseedHeader("CO", "BIRD", "00", "LOG", st, 0, 0, encoding=enc, byteorder=c["bo"]), None)
                recs = [rec]
                if enc == 0: recs += [m.unpackMiniseedRecord(rec.pack())] + list(m.readMiniseed2Records(io.BytesIO(bytes(rec.pack()))))
            for r in recs:
                try: r.summary(); r.details(); str(r)
                except Exception as e: return f"{kind} rate 0: {type(e).__name__} {e}"
                if kind == "v3":
                    if r.header.sampleRate != 0: return "rate 0 changed"
                    try: r.endtime; r.header.samplePeriod
                    except Exception as e: return f"v3 rate 0 end time: {type(e).__name__} {e}"
                else:
                    try: r.endtime(); r.next_starttime()
                    except Exception as e: return f"v2 rate 0 end time: {type(e).__name__} {e}"
        return None
    if k == "v3":
        h = m.MSeed3Header(); h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond = c["y"], c["doy"], 1, 2, 3, c["us"] * 1000
        how = c["how"]
        fr = Fraction(rate)
        if how in ("rate", "pos"): h.sampleRate = rate
        elif how == "period": h.samplePeriod = 1.0 / rate; fr = 1 / Fraction(1.0 / rate)
        elif how == "neg": h.sampleRatePeriod = -1.0 / rate; fr = 1 / Fraction(1.0 / rate)
        else:
            h.sampleRatePeriod = rate
            if rate < 0: fr = 1 / Fraction(-rate)
        want_rp = {"rate": rate, "pos": rate, "period": -1.0 / rate, "neg": -1.0 / rate, "raw": rate}[how]
        if not approx(h.sampleRatePeriod, want_rp, 1e-15): return f"{how} {rate}: stored {h.sampleRatePeriod}"
        if not approx(h.sampleRate, float(fr), 1e-14): return f"{how} {rate}: rate {h.sampleRate}"
        if not approx(h.samplePeriod, float(1 / fr), 1e-14): return f"{how} {rate}: period {h.samplePeriod}"
        if not approx(h.sampleRate * h.samplePeriod, 1.0, 1e-14): return "rate and period are not reciprocal"
        h.numSamples = n
        if n < 1: return None
        want = (n - 1) / fr * 10**6
        if want > 2 * 10**15: return None
        if not 0 <= base + want < ref.micros(9999, 1, 0, 0, 0, 0): return None
        if not near(h.endtime, base, want): return f"end {h.endtime} rate {rate} n {n}"
        h.encoding = 3
        rec = m.MSeed3Record(h, "x", bytes(4 * min(n, 3)))
        if not near(rec.endtime, base, want): return "record end time"
        return None
    # v2
    if n < 1: return None
    st = datetime(c["y"], 1, 1, 1, 2, 3, c["us"], tzinfo=timezone.utc) + timedelta(days=c["doy"] - 1)
    f, mu = c["fm"]
    if k == "v2n":
        h = m.MiniseedHeader("CO", "BIRD", "00", "BHZ", st, n, 0, encoding=3, byteorder=c["bo"], sampRateFactor=f, sampRateMult=mu); fr = ref.ms2_rate(f, mu)
    else:
        if not 3.2e-5 <= rate <= 32764: return None
        h = m.MiniseedHeader("CO", "BIRD", "00", "BHZ", st, n, rate, encoding=3, byteorder=c["bo"]); fr = Fraction(rate)
    if c["b100"]: h.setSampleRate(rate); fr = Fraction(rate)
    if not approx(h.sampleRate, float(fr), 1e-14): return f"rate {h.sampleRate} not {float(fr)}"
    rec = m.MiniseedRecord(h, None)
    w = [(n - 1) / fr * 10**6, n / fr * 10**6]
    if w[1] > 2 * 10**15: return None
    if not 0 <= base + w[1] < ref.micros(9999, 1, 0, 0, 0, 0): return None
    if not near(rec.endtime(), base, w[0]): return f"v2 end {rec.endtime()} rate {float(fr)} n {n}"
    if not near(rec.next_starttime(), base, w[1]): return f"v2 next {rec.next_starttime()} rate {float(fr)} n {n}"
    return None
