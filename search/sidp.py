"""Search oracles for C14-C17."""
import math, re, string, sys
import ref
from common import prop, lib

BOUNDS = [5000.0, 1000.0, 250.0, 80.0, 10.0, 1.5, 1.0, 0.5, 0.1, 0.01, 0.001, 1e-4, 1e-5, 1e-6]

def gen_rate(rng):
    k = rng.randrange(6)
    b = rng.choice(BOUNDS)
    if k == 0: x = b
    elif k == 1: x = math.nextafter(b, rng.choice((0.0, math.inf)))
    elif k == 2: x = 10 ** rng.uniform(-9, 6)
    elif k == 3: x = b * rng.uniform(0.5, 2)
    elif k == 4: x = rng.choice((0, 0.0, -0.0, 5e-324, 1.7e308, 1e-310, 20, 40, 100, 1, 2, 10 ** 15, 6000, 5000, 1000, 250, 80, 10, 60, 600, 3600, 86400))
    else: x = rng.randint(1, 10000)
    if rng.random() < .35:
        if k < 4 and x != 0: x = rng.choice((1.0 / x, x))
        x = -x
    if isinstance(x, float) and x == int(x) and abs(x) < 1e15 and rng.random() < .3: x = int(x)
    return x

def gen_resp(rng):
    if rng.random() < .25: return None
    x = rng.choice((0.1, 10, 10.0, -10, -10.0, 0.01, 0, 0.0, 1, -1, 120, -120, -0.1, 0.2, -5, -9.5, -10.5, -100.0, 1e-300, -1e-300, math.nextafter(0.1, 0), math.nextafter(0.1, 1), math.nextafter(-10.0, 0), math.nextafter(-10.0, -20), rng.uniform(0, .3), -rng.uniform(5, 20)))
    return x

@prop("C14", lambda rng, i: {"rate": None if rng.random() < .02 else gen_rate(rng), "resp": gen_resp(rng), "how": rng.randrange(3)})
def c14(case):
    m = lib()
    r, lb = case["rate"], case["resp"]
    fr = None if r is None else float(r)
    want = ref.band(fr, None if lb is None else float(lb))
    try:
        if case["how"] == 0: got = m.bandCodeForRate(r, lb)
        elif case["how"] == 1: got = m.bandCodeForRate(sampRatePeriod=r, response_lb=lb)
        else: got = m.FDSNSourceId.createUnknown(r, response_lb=lb).bandCode
    except Exception as e: return f"rate {r!r} response {lb!r}: {type(e).__name__} {e}"
    if got != want: return f"rate {r!r} response {lb!r}: {got} expected {want}"
    try: info = sys.modules["simplemseed.fdsnsourceid"].bandCodeInfo(got)
    except Exception as e: return f"no description for {got}"
    if info["code"] != got: return "description of another band code"
    nums = [float(x) for x in re.findall(r"[0-9.]+", info["rate"])]
    if got not in "IL" and fr:
        hz = fr if fr > 0 else -1.0 / fr
        if got == "J": ok = hz >= nums[0]
        elif got == "Q": ok = hz < nums[0]
        else: ok = nums[0] <= hz < nums[1]
        if not ok: return f"{hz} Hz outside the published range of {got}: {info['rate']}"
    if info["response_lb"]:
        b = lb is not None and (float(lb) if lb >= 0 else -1.0 / lb) <= 0.1
        if b != info["response_lb"].startswith(">= 10"): return f"response {lb} against {got} {info['response_lb']}"
    return None

UPD = string.ascii_uppercase + string.digits
ODD = ["é", "日", "٣", "a", "z", " ", ".", ":", "-", "/", "\n", "\t", "FDSN:", "", "Ⅷ", "²", "０", "|", "\x00", "*"]

def code(rng, mx=8, odd=.15, alpha=UPD):
    n = rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9)) if rng.random() < .8 else rng.randrange(0, 13)
    s = "".join(rng.choice(alpha) for _ in range(n))
    if rng.random() < odd:
        k = rng.randrange(len(s) + 1)
        s = s[:k] + rng.choice(ODD) + s[k:]
    return s

def c15gen(rng, i):
    lvl = rng.choice((1, 2, 3, 6, 6))
    c = [code(rng, alpha=UPD + "-") for _ in range(6)]
    d = list(c)
    if rng.random() < .6:
        j = rng.randrange(6); d[j] = rng.choice((code(rng), d[j] + "A", d[j].lower(), d[j] + " ", ""))
    if rng.random() < .1: j = rng.randrange(5); d[j], d[j + 1] = d[j + 1], d[j]
    return {"lvl": lvl, "c": c, "lvl2": rng.choice((lvl, lvl, 1, 2, 3, 6)), "d": d, "bad": rng.random() < .25, "badk": rng.randrange(8), "nloc": rng.random() < .2, "viaobj": rng.random() < .4}

def mk(m, lvl, c, viaobj=False):
    n = m.NetworkSourceId(c[0]) if viaobj else c[0]
    if lvl == 1: return m.NetworkSourceId(c[0])
    if lvl == 2: return m.StationSourceId(n, c[1])
    if lvl == 3: return m.LocationSourceId(n, c[1], c[2])
    return m.FDSNSourceId(n, *c[1:])

CL = {1: "NetworkSourceId", 2: "StationSourceId", 3: "LocationSourceId", 6: "FDSNSourceId"}
ATTR = ["networkCode", "stationCode", "locationCode", "bandCode", "sourceCode", "subsourceCode"]

def same(s, lvl, c):
    return type(s).__name__ == CL[lvl] and all(getattr(s, ATTR[k]) == c[k] for k in range(lvl))

@prop("C15", c15gen)
def c15(case):
    m = lib()
    E = m.FDSNSourceIdException if hasattr(m, "FDSNSourceIdException") else __import__("simplemseed.fdsnsourceid", fromlist=["x"]).FDSNSourceIdException
    lvl, c = case["lvl"], case["c"]
    if case["bad"]:
        k = case["badk"]
        n = (4, 5, 7, 8, 12, 4, 0, 0)[k]
        if n: t = "FDSN:" + "_".join((c + c)[:n])
        else:
            body = "_".join(c[:lvl])
            t = ("" if k == 6 else "fdsn:") + body
            if t.startswith("FDSN:"): return None
        try: s = m.FDSNSourceId.parse(t)
        except E: return None
        except Exception as e: return f"{t!r}: {type(e).__name__} {e}"
        return f"{t!r} accepted as {type(s).__name__}"
    t = "FDSN:" + "_".join(c[:lvl])
    try: s = m.FDSNSourceId.parse(t)
    except Exception as e: return f"{t!r}: {type(e).__name__} {e}"
    if not same(s, lvl, c): return f"{t!r} parsed as {type(s).__name__} {vars(s)}"
    if str(s) != t: return f"{t!r} formats as {str(s)!r}"
    b = mk(m, lvl, c, case["viaobj"])
    if not (b == s) or b != s: return f"{t!r}: not equal to the identifier built from its codes"
    if str(b) != t: return f"built {t!r} formats as {str(b)!r}"
    o = mk(m, case["lvl2"], case["d"])
    want = case["lvl2"] == lvl and case["d"][:lvl] == c[:lvl]
    if (s == o) != want or (o == s) != want or (s != o) == want: return f"{t!r} == {str(o)!r} gives {s == o}"
    if s == t or s == None: return "equal to text"
    if lvl > 1:
        if not same(s.networkSourceId(), 1, c): return "network of " + t
    if lvl > 2:
        if not same(s.stationSourceId(), 2, c): return "station of " + t
    if lvl == 6:
        if not same(s.locationSourceId(), 3, c): return "location of " + t
    if lvl == 1 and not same(s.createStationSourceId(c[1]), 2, c): return "createStation"
    if lvl == 2 and not same(s.createLocationSourceId(c[2]), 3, c): return "createLocation"
    if lvl == 3 and not same(s.createFDSNSourceId(*c[3:]), 6, c): return "createFDSN"
    if case["nloc"] and lvl in (2, 3, 6):
        cc = list(c); cc[2] = ""
        n = c[:2] + [None] + c[3:]
        x = s.createLocationSourceId(None) if lvl == 2 else mk(m, lvl, n)
        ll = 3 if lvl == 2 else lvl
        if str(x) != "FDSN:" + "_".join(cc[:ll]): return f"absent location formats as {str(x)!r}"
        if not (m.FDSNSourceId.parse(str(x)) == x): return "absent location does not parse back"
        if lvl == 6 and str(x.locationSourceId()) != "FDSN:" + "_".join(cc[:3]): return "absent location of channel"
    if lvl == 6:
        nl = s.asNslc()
        if (nl.networkCode, nl.stationCode, nl.locationCode) != tuple(c[:3]): return "nslc codes"
    return None

def near(rng, good):
    """text near the pattern"""
    s = good
    r = rng.random()
    if r < .55: return s
    k = rng.randrange(len(s) + 1)
    if r < .8: return s[:k] + rng.choice(ODD + ["_", "--", "Z", "7"]) + s[k:]
    if r < .9: return s + rng.choice(("\n", "A", "0", "-"))
    return s[:k]

def rnd(rng, lo, hi, alpha): return "".join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))

def c16gen(rng, i):
    D = string.digits
    net = rng.choice((lambda: rnd(rng, 1, 8, UPD), lambda: rng.choice("0123456789XYZ") + rng.choice(UPD), lambda: rng.choice("0123456789XYZ") + rng.choice(UPD) + rnd(rng, 4, 4, D),
                      lambda: rnd(rng, 0, 5, UPD) + rnd(rng, 3, 5, D), lambda: rng.choice(("XX", "XX1994", "XX2001", "XD", "7D", "A1999", "1994", "W2020", "XXA", "XX199", "XXX1994")),
                      lambda: rng.choice("ABCW") + rng.choice(UPD) + rnd(rng, 0, 5, D)))()
    return {"c": [near(rng, net), near(rng, rnd(rng, 1, 8, UPD + "-")), near(rng, rng.choice((rnd(rng, 0, 8, UPD + "-"), "--", "-", "---", "00", ""))),
                  rng.choice(("B", "", "é", "bb")), near(rng, rnd(rng, 1, 12, UPD)), near(rng, rnd(rng, 0, 10, UPD))], "lvl": rng.choice((1, 1, 2, 3, 6, 6, 6))}

@prop("C16", c16gen)
def c16(case):
    m = lib()
    c = case["c"]
    n = m.NetworkSourceId(c[0])
    for nm, f in (("isSeedTempNet", ref.seed_temp), ("isTempNetHistorical", ref.hist_temp), ("isTempNetConvention", ref.conv_temp),
                  ("isTemporary", lambda x: ref.seed_temp(x) or ref.hist_temp(x) or ref.conv_temp(x))):
        g = getattr(n, nm)()
        if bool(g) != f(c[0]): return f"{nm}({c[0]!r}) is {g}"
    lvl = case["lvl"]
    ok = ref.net_valid(c[0])
    if lvl >= 2: ok = ok and ref.sta_valid(c[1])
    if lvl >= 3: ok = ok and ref.loc_valid(c[2])
    if lvl >= 6: ok = ok and ref.src_valid(c[4]) and ref.sub_valid(c[5])
    s = mk(m, lvl, c)
    g = s.validate()
    if bool(g[0]) != ok: return f"validate of level {lvl} {c[:lvl]!r} gives {g}"
    if not ok and not g[1]: return "no reason given"
    return None

def c17gen(rng, i):
    W = string.ascii_uppercase + string.digits
    net = rng.choice((lambda: rnd(rng, 1, 8, UPD), lambda: rng.choice("0123456789XYZ") + rng.choice(UPD), lambda: rng.choice(("XX", "XD", "7D", "Y1", "XX1994", "XD1994", "CO", "AX"))))()
    k = rng.randrange(4)
    if k == 0: ch = rnd(rng, 3, 3, W + "_" if rng.random() < .05 else W)
    elif k == 1: ch = rnd(rng, 1, 1, W) + "_" + rnd(rng, 1, rng.choice((1, 2, 6)), W) + "_" + rnd(rng, 0, rng.choice((1, 3, 6)), W)
    elif k == 2: ch = rnd(rng, 1, 1, W) + "_" + rnd(rng, 1, 1, W) + "_" + rnd(rng, 1, 1, W)
    else: ch = rng.choice(("", "B", "BH", "BHZZ", "B_HH", "BB_HH_Z", "_HH_Z", "B__Z", "B_HH_Z\n", " B_HH_Z", "B_HH_Z ", "B-HH-Z", "BHZ\n", "B_HH_Z_", "B_HH_Z_Q", "BH_Z_00", "B_H+_Z", "B.HH.Z"))
    y = rng.choice((None, None, 1994, 1880, 2100, 1879, 2101, "1994", "2024", "0001", "199", "20245", "٢٠٢٤", "2024\n", " 202", "abcd", "", 0, -5, 10000, rng.randint(1870, 2110), str(rng.randint(1000, 9999))))
    return {"n": net, "s": rnd(rng, 1, 8, UPD), "l": rng.choice(("", "00", rnd(rng, 0, 8, UPD))), "ch": ch, "y": y, "sep": rng.choice((".", ".", "|", "/", "::", "~")), "via": rng.randrange(3)}

def chan_parts(ch):
    """band, source, subsource or None (word characters, '_' only as separator in the generated cases)"""
    if len(ch) == 3: return ch[0], ch[1], ch[2]
    p = ch.split("_")
    w = set(string.ascii_letters + string.digits)
    if len(p) == 3 and len(p[0]) == 1 and len(p[1]) >= 1 and all(set(x) <= w for x in p): return tuple(p)
    if len(p) > 3: return "?"
    return None

@prop("C17", c17gen)
def c17(case):
    m = lib()
    from simplemseed.fdsnsourceid import FDSNSourceIdException as E
    n, s, l, ch, y = case["n"], case["s"], case["l"], case["ch"], case["y"]
    parts = chan_parts(ch)
    if parts == "?" or (len(ch) == 3 and "_" in ch): return None
    want_err = parts is None
    wn = n
    if ref.seed_temp(n) and y is not None:
        if isinstance(y, str):
            if not (len(y) == 4 and set(y) <= ref.DG): want_err = True
        elif not 1880 <= y <= 2100: want_err = True
        wn = f"{n}{y}"
    sep = case["sep"]
    try:
        if case["via"] == 0: sid = m.FDSNSourceId.fromNslc(n, s, l, ch, startYear=y) if y is not None else m.FDSNSourceId.fromNslc(n, s, l, ch)
        elif case["via"] == 1: sid = m.FDSNSourceId.parseNslc(sep.join((n, s, l, ch)), sep=sep, startYear=y)
        else:
            if sep != ".": sid = m.FDSNSourceId.parseNslc(sep.join((n, s, l, ch)), sep, y)
            else:
                if "." in ch: return None
                sid = m.FDSNSourceId.parseNslc(f"{n}.{s}.{l}.{ch}", startYear=y)
    except E as e:
        return None if want_err else f"{case}: refused {e}"
    except Exception as e: return f"{case}: {type(e).__name__} {e}"
    if sep in ch and case["via"]: return None
    if want_err: return f"{case}: accepted as {sid}"
    if (sid.networkCode, sid.stationCode, sid.locationCode, sid.bandCode, sid.sourceCode, sid.subsourceCode) != (wn, s, l, *parts):
        return f"{case}: {sid}"
    nl = sid.asNslc()
    b, so, su = parts
    wch = b + so + su if len(so) == 1 and len(su) == 1 else f"{b}_{so}_{su}"
    if (nl.networkCode, nl.stationCode, nl.locationCode, nl.channelCode) != (wn, s, l, wch): return f"{case}: back to {nl}"
    if sid.shortChannelCode() != wch: return f"{case}: short {sid.shortChannelCode()}"
    again = m.FDSNSourceId.fromNslc(nl.networkCode, nl.stationCode, nl.locationCode, nl.channelCode)
    if not (again == sid): return f"{case}: converting back gives {again}"
    return None
