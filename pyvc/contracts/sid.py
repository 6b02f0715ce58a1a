"""FDSN source identifiers: parse, format, hierarchy, validation, classification, conversion from and to NSLC."""
from vc import *
import z3
import libstr
from libstr import FStr, mkstr
from simplemseed import fdsnsourceid as fs
from simplemseed.fdsnsourceid import FDSNSourceId, NetworkSourceId, StationSourceId, LocationSourceId, NslcId, FDSNSourceIdException

CLS = {1: NetworkSourceId, 2: StationSourceId, 3: LocationSourceId, 6: FDSNSourceId}
ATTR = ["networkCode", "stationCode", "locationCode", "bandCode", "sourceCode", "subsourceCode"]
ASSUME = ["characters above U+2FFFF behave like other characters outside ASCII"]

def code(x, name, sepfree=True):
    s = sym_str(x, name)
    if sepfree: x.assume(z3.Not(z3.Contains(s.t, z3.StringVal("_"))))
    return s

def build(it, lvl, c): return it.call(CLS[lvl], list(c[:lvl]))

def joined(c): return mkstr(["FDSN:"] + [p for k, v in enumerate(c) for p in (["_"] if k else []) + [v]])

def same(x, o, lvl, c, name):
    x.prove(z3.BoolVal(isinstance(o, Obj) and o.cls is CLS[lvl]), f"{name}: level")
    for a, v in zip(ATTR, c[:lvl]): x.prove(eqv(x.it, o.get(a), v), f"{name}: {a}")

def text(m, v): return v if isinstance(v, str) else unesc(mval(m, v.t))
def unesc(s):
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k[1], 16)), s) if isinstance(s, str) else s

def case15(x, lvl, c, d=None, lvl2=None):
    def w(m):
        cc = [text(m, v) for v in c] + ["A"] * 6
        dd = [text(m, v) for v in d] + ["A"] * 6 if d else list(cc)
        return {"lvl": lvl, "c": cc[:6], "lvl2": lvl2 or lvl, "d": dd[:6], "bad": False, "badk": 0, "nloc": False, "viaobj": False}
    x.witness = w

# ---------------------------------------------------------------- C15
for n in range(1, 10):
    def u(x, it, n=n):
        x.fork_ifs = True; x.it = it
        def go():
            c = [code(x, f"code{k}") for k in range(n)]
            if n == 9:      # nine parts or more
                t = mkstr([joined(c), "_", sym_str(x, "rest")])
                it.split_rest = True
            else: t = joined(c)
            case15(x, n if n in CLS else 6, c)
            o = attempt(it, FDSNSourceId.parse, t)
            x.cover(f"parse of {n} parts")
            if n in CLS:
                if not o.ok: x.prove(False, f"FDSNSourceId.parse: text of {n} codes is accepted"); return
                same(x, o.v, n, c, f"FDSNSourceId.parse, {n} codes")
                s = it.call(str, [o.v])
                x.prove(eqv(it, s, t), f"parse and format of {n} codes give the text back")
            else:
                x.prove(z3.BoolVal(not o.ok and issubclass(o.v.cls, FDSNSourceIdException)), f"FDSNSourceId.parse: text of {n} parts is rejected")
        return go
    unit(f"fdsnsourceid.FDSNSourceId.parse, {n}{' or more' if n == 9 else ''} parts", "C15", assume=ASSUME)(u)

@unit("fdsnsourceid.FDSNSourceId.parse, no prefix", "C15", assume=ASSUME)
def u_noprefix(x, it):
    x.fork_ifs = True
    def go():
        t = sym_str(x, "text")
        x.assume(z3.Not(z3.PrefixOf(z3.StringVal("FDSN:"), t.t)))
        o = attempt(it, FDSNSourceId.parse, t)
        x.cover("parse without prefix")
        x.prove(z3.BoolVal(not o.ok and issubclass(o.v.cls, FDSNSourceIdException)), "FDSNSourceId.parse: text without the prefix is rejected")
    return go

@unit("source identifiers: format", "C15", assume=ASSUME)
def u_format(x, it):
    x.fork_ifs = True; x.it = it
    def go():
        lvl = (1, 2, 3, 6)[x.choose(4)]
        c = [code(x, f"code{k}") for k in range(lvl)]
        case15(x, lvl, c)
        o = build(it, lvl, c)
        same(x, o, lvl, c, f"{CLS[lvl].__name__}.__init__")
        x.prove(eqv(it, it.call(str, [o]), joined(c)), f"{CLS[lvl].__name__}.__str__: prefix and codes")
        if lvl > 1:      # network given as an identifier
            o2 = it.call(CLS[lvl], [it.call(NetworkSourceId, [c[0]])] + c[1:])
            same(x, o2, lvl, c, f"{CLS[lvl].__name__}.__init__ with a network identifier")
        if lvl >= 3:     # absent location
            o3 = it.call(CLS[lvl], c[:2] + [None] + c[3:])
            same(x, o3, lvl, c[:2] + [""] + c[3:], f"{CLS[lvl].__name__}.__init__ without location")
            x.prove(eqv(it, it.call(str, [o3]), joined(c[:2] + [""] + c[3:])), f"{CLS[lvl].__name__}.__str__: absent location is empty")
    return go

@unit("source identifiers: equality", "C15", assume=ASSUME + ["codes hold no separator"])
def u_eq(x, it):
    x.fork_ifs = True; x.it = it
    def go():
        L = (1, 2, 3, 6)
        l1, l2 = L[x.choose(4)], L[x.choose(4)]
        c = [code(x, f"code{k}") for k in range(l1)]
        d = [code(x, f"other{k}") for k in range(l2)]
        case15(x, l1, c, d, l2)
        a, b = build(it, l1, c), build(it, l2, d)
        r = eqv(it, a, b)
        want = z3.And(*[p.t == q.t for p, q in zip(c, d)]) if l1 == l2 else z3.BoolVal(False)
        x.prove(r == want, f"equality: exactly when level and codes are equal ({l1}, {l2})")
        for o in ("text", None, 5): x.prove(z3.Not(eqv(it, a, o)), f"equality: not equal to {type(o).__name__}")
    return go

@unit("source identifiers: hierarchy", "C15", assume=ASSUME)
def u_hier(x, it):
    x.fork_ifs = True; x.it = it
    def go():
        c = [code(x, f"code{k}") for k in range(6)]
        case15(x, 6, c)
        for lvl in (2, 3, 6):
            o = build(it, lvl, c)
            for l2, m in ((1, "networkSourceId"), (2, "stationSourceId"), (3, "locationSourceId")):
                if l2 < lvl: same(x, it.call(it.getattr(o, m)), l2, c, f"{CLS[lvl].__name__}.{m}")
        same(x, it.call(it.getattr(build(it, 1, c), "createStationSourceId"), [c[1]]), 2, c, "createStationSourceId")
        same(x, it.call(it.getattr(build(it, 2, c), "createLocationSourceId"), [c[2]]), 3, c, "createLocationSourceId")
        same(x, it.call(it.getattr(build(it, 2, c), "createLocationSourceId"), [None]), 3, c[:2] + [""], "createLocationSourceId without location")
        same(x, it.call(it.getattr(build(it, 3, c), "createFDSNSourceId"), c[3:]), 6, c, "createFDSNSourceId")
        x.cover("hierarchy")
    return go

# ---------------------------------------------------------------- C16
UP, DIG = z3.Range("A", "Z"), z3.Range("0", "9")
UPD, UPDD = z3.Union(UP, DIG), z3.Union(UP, DIG, z3.Re("-"))
XYZD = z3.Union(DIG, z3.Range("X", "Z"))
def inre(s, r): return z3.InRe(s.t, r)
NET = z3.Loop(UPD, 1, 8); STA = z3.Loop(UPDD, 1, 8); LOC = z3.Loop(UPDD, 0, 8)
YEAR4 = z3.Loop(DIG, 4, 4)
def seed_temp(t): return z3.And(z3.InRe(t, z3.Concat(XYZD, UPD)), t != z3.StringVal("XX"))
def hist_temp(t): return z3.And(z3.InRe(t, z3.Concat(XYZD, UPD, YEAR4)), z3.Not(z3.PrefixOf(z3.StringVal("XX"), t)))
def conv_temp(t): return z3.InRe(t, z3.Concat(z3.Loop(UPD, 1, 4), YEAR4))

def truth(it, v):
    t = it.truth(v)
    return z3.BoolVal(t) if isinstance(t, bool) else t

@unit("source identifiers: validate", "C16", assume=ASSUME, weight=3)
def u_validate(x, it):
    x.fork_ifs = True
    def go():
        lvl = (1, 2, 3, 6)[x.choose(4)]
        c = [sym_str(x, f"code{k}") for k in range(6)]
        x.witness = lambda m: {"c": [text(m, v) for v in c], "lvl": lvl}
        want = inre(c[0], NET)
        if lvl >= 2: want = z3.And(want, inre(c[1], STA))
        if lvl >= 3: want = z3.And(want, inre(c[2], LOC), c[2].t != z3.StringVal("--"))
        if lvl >= 6: want = z3.And(want, inre(c[4], z3.Plus(UPD)), inre(c[5], z3.Star(UPD)))
        o = attempt(it, it.getattr(build(it, lvl, c), "validate"))
        if not o.ok: x.prove(False, f"{CLS[lvl].__name__}.validate: no exception"); return
        v = it.lib.iter_values(it, o.v)
        x.cover(f"validate of level {lvl} gives {v[0]}")
        x.prove(truth(it, v[0]) == want, f"{CLS[lvl].__name__}.validate: accepts exactly the codes of the rules")
        if v[0] is False: x.prove(truth(it, v[1]), f"{CLS[lvl].__name__}.validate: gives a reason")
    return go

@unit("NetworkSourceId: classification", "C16", assume=ASSUME)
def u_class(x, it):
    x.fork_ifs = True
    def go():
        s = sym_str(x, "network")
        x.witness = lambda m: {"c": [text(m, s), "A", "", "B", "H", "Z"], "lvl": 1}
        n = build(it, 1, [s])
        nm, f = (("isSeedTempNet", seed_temp), ("isTempNetHistorical", hist_temp), ("isTempNetConvention", conv_temp),
                 ("isTemporary", lambda t: z3.Or(seed_temp(t), hist_temp(t), conv_temp(t))))[x.choose(4)]
        o = attempt(it, it.getattr(n, nm))
        if not o.ok: x.prove(False, f"{nm}: no exception"); return
        x.cover(f"{nm}")
        x.prove(truth(it, o.v) == f(s.t), f"NetworkSourceId.{nm}: exactly the documented pattern")
    return go

# ---------------------------------------------------------------- C17
def case17(x, **k):
    def w(m):
        d = {"n": "CO", "s": "BIRD", "l": "00", "ch": "BHZ", "y": None, "sep": ".", "via": 0}
        for a, v in k.items(): d[a] = text(m, v) if isinstance(v, (str, SS)) else mval(m, nterm(as_int(v))) if isinstance(v, SI) else v
        return d
    x.witness = w

@unit("fdsnsourceid.NetworkSourceId.__init__", "C17", assume=ASSUME)
def u_net(x, it):
    x.fork_ifs = True
    def go():
        s = sym_str(x, "network")
        k = x.choose(3)
        y = None if k == 0 else sym_str(x, "year") if k == 1 else sym_int(x, "year")
        case17(x, n=s, y=y)
        tmp = seed_temp(s.t)
        bad = z3.BoolVal(False) if k == 0 else z3.And(tmp, z3.Not(z3.InRe(y.t, YEAR4))) if k == 1 else z3.And(tmp, z3.Or(y.t < 1880, y.t > 2100))
        o = attempt(it, NetworkSourceId, s, y) if k else attempt(it, NetworkSourceId, s)
        x.cover(f"network with year kind {k} {'made' if o.ok else 'refused'}")
        if not o.ok:
            x.prove(bad, "NetworkSourceId: refuses only a bad start year of a SEED temporary network")
            x.prove(z3.BoolVal(issubclass(o.v.cls, FDSNSourceIdException)), "NetworkSourceId: refuses with FDSNSourceIdException"); return
        x.prove(z3.Not(bad), "NetworkSourceId: a bad start year of a SEED temporary network is refused")
        r = sterm(o.v.get("networkCode"))
        yt = z3.StringVal("") if k == 0 else y.t if k == 1 else z3.IntToStr(y.t)
        x.prove(r == z3.If(tmp, z3.Concat(s.t, yt), s.t), "NetworkSourceId: the year is appended exactly to SEED temporary network codes")
    return go

W = z3.Union(UP, z3.Range("a", "z"), DIG)
@unit("fdsnsourceid.FDSNSourceId.fromNslc", "C17", assume=["channel codes are ASCII text"], weight=3, timeout=3)
def u_from(x, it):
    x.fork_ifs = True; x.it = it
    libstr.ASCII_TEXT = True
    ascii = lambda s: x.assume(z3.InRe(s.t, z3.Star(z3.Range(chr(0), chr(127)))))
    def go():
        c = [sym_str(x, n) for n in ("network", "station", "location")]
        year = sym_str(x, "year") if x.choose(2) else None
        kind = x.choose(4)
        one = lambda n: sym_str(x, n)
        netid, calls = sym_str(x, "netid"), []
        def c_net(it, f, a, kw):
            calls.append((a[1:], kw)); a[0].set("networkCode", netid)
        it.contracts["fdsnsourceid.NetworkSourceId.__init__"] = c_net
        if kind == 0:       # three characters
            ch = one("channel"); ascii(ch); x.assume(z3.Length(ch.t) == 3)
            p = [SS(z3.SubString(ch.t, k, 1)) for k in range(3)]
        elif kind == 1:     # band_source_subsource
            p = [one(n) for n in ("band", "source", "subsource")]
            x.assume(z3.And(z3.InRe(p[0].t, W), z3.InRe(p[1].t, z3.Plus(W)), z3.InRe(p[2].t, z3.Star(W))))
            ch = SS(z3.Concat(p[0].t, z3.StringVal("_"), p[1].t, z3.StringVal("_"), p[2].t)); x.assume(z3.Length(ch.t) != 3)
        elif kind == 2:     # neither form, over word characters without separator or with another count of them
            ch = one("channel"); WU = z3.Union(W, z3.Re("_"))
            x.assume(z3.And(z3.Length(ch.t) != 3, z3.Not(z3.InRe(ch.t, z3.Concat(W, z3.Re("_"), z3.Plus(WU), z3.Re("_"), z3.Star(WU)))), z3.Not(z3.InRe(ch.t, z3.Concat(z3.Re("_"), z3.Re("_"), z3.Star(WU))))))
            ascii(ch)
        else:               # any other text
            ch = one("channel"); ascii(ch); x.assume(z3.Length(ch.t) != 3); p = None
        case17(x, n=c[0], s=c[1], l=c[2], ch=ch)
        passed, full = omitted(x, it, FDSNSourceId.fromNslc, [*c, ch, year], startYear=None)
        year = full[-1]
        o = attempt(it, FDSNSourceId.fromNslc, *passed)
        x.cover(f"fromNslc kind {kind}")
        if kind == 2:
            x.prove(z3.BoolVal(not o.ok and issubclass(o.v.cls, FDSNSourceIdException)), "fromNslc: a channel code of neither form is rejected"); return
        if not o.ok:
            if kind < 2: x.prove(False, "fromNslc: a channel code of three characters or three parts is accepted")
            else: x.prove(z3.BoolVal(issubclass(o.v.cls, FDSNSourceIdException)), "fromNslc: refuses with FDSNSourceIdException")
            return
        s = o.v
        x.prove(z3.BoolVal(len(calls) == 1 and {**dict(zip(("networkCode", "startYear"), calls[0][0])), **calls[0][1]} == {"networkCode": c[0], "startYear": year}), "fromNslc: the network is made of the network code and the start year")
        x.prove(z3.And(eqv(it, s.get("networkCode"), netid), eqv(it, s.get("stationCode"), c[1]), eqv(it, s.get("locationCode"), c[2])), "fromNslc: network, station and location codes")
        if kind < 2:
            for a, v in zip(ATTR[3:], p): x.prove(eqv(it, s.get(a), v), f"fromNslc: {a} ({'three characters' if kind == 0 else 'three parts'})")
        # and back
        sh = it.call(it.getattr(s, "shortChannelCode"))
        b = [sterm(s.get(a)) for a in ATTR[3:]]
        single = z3.And(*[z3.Length(t) == 1 for t in b])
        x.prove(z3.Or(sterm(sh) == ch.t, z3.And(single, sterm(sh) == z3.Concat(*b))), "fromNslc and shortChannelCode: the channel code comes back, three single characters in the short form")
    return go

@unit("fdsnsourceid.FDSNSourceId.asNslc", "C17 C15", assume=ASSUME)
def u_as(x, it):
    x.fork_ifs = True; x.it = it
    def go():
        c = [sym_str(x, f"code{k}") for k in range(6)]
        s = it.call(FDSNSourceId, c)
        single = z3.And(*[z3.Length(v.t) == 1 for v in c[3:]])
        x.witness = lambda m: {"lvl": 6, "c": [text(m, v) for v in c], "lvl2": 6, "d": [text(m, v) for v in c], "bad": False, "badk": 0, "nloc": False, "viaobj": False}
        sh = it.call(it.getattr(s, "shortChannelCode"))
        u = z3.StringVal("_")
        x.prove(sterm(sh) == z3.If(single, z3.Concat(*[v.t for v in c[3:]]), z3.Concat(c[3].t, u, c[4].t, u, c[5].t)), "shortChannelCode: short form exactly for three single characters")
        n = it.call(it.getattr(s, "asNslc"))
        x.prove(z3.BoolVal(isinstance(n, Obj) and n.cls is NslcId), "asNslc: an NslcId")
        for a, v in zip(ATTR[:3] + ["channelCode"], c[:3] + [sh]): x.prove(eqv(it, n.get(a), v), f"asNslc: {a}")
        x.prove(eqv(it, it.call(str, [n]), mkstr([c[0], "_", c[1], "_", c[2], "_", sh])), "NslcId.__str__")
    return go

@unit("fdsnsourceid.FDSNSourceId.parseNslc", "C17", assume=ASSUME + ["the codes given to parseNslc hold no character of the separator"])
def u_parse(x, it):
    x.fork_ifs = True; x.it = it
    def go():
        sepk = x.choose(2)
        c = [sym_str(x, n) for n in ("network", "station", "location", "channel", "extra")]
        n = x.choose(5) + 1
        sep = "." if sepk == 0 else sym_str(x, "separator")
        if sepk == 0:
            for v in c: x.assume(z3.Not(z3.Contains(v.t, z3.StringVal("."))))
        else:
            x.assume(z3.Length(sep.t) >= 1)
            for v in c: x.assume(z3.Not(z3.Contains(v.t, sep.t)))
            it.sep_disjoint = lambda p, s: any(p is v for v in c)
        year = sym_str(x, "year") if x.choose(2) else None
        t = mkstr([p for k, v in enumerate(c[:n]) for p in ([sep] if k else []) + [v]])
        calls, res = [], Obj(FDSNSourceId)
        def c_from(it, f, a, kw): calls.append({**dict(zip(("net", "sta", "loc", "channelCode", "startYear"), a)), **kw}); return res
        it.contracts["fdsnsourceid.FDSNSourceId.fromNslc"] = c_from
        passed, full = omitted(x, it, FDSNSourceId.parseNslc, [t, sep, year], startYear=None)
        year = full[-1]
        o = attempt(it, FDSNSourceId.parseNslc, t, **({"startYear": year} if len(passed) == 3 else {})) if sepk == 0 else attempt(it, FDSNSourceId.parseNslc, *passed)
        x.cover(f"parseNslc of {n} parts, separator kind {sepk}")
        if n < 4: x.prove(z3.BoolVal(not o.ok and issubclass(o.v.cls, FDSNSourceIdException)), "parseNslc: fewer than four parts are rejected"); return
        if n > 4: return
        if not o.ok: x.prove(False, "parseNslc: four parts are accepted"); return
        x.prove(z3.BoolVal(o.v is res and len(calls) == 1), "parseNslc: gives the identifier of fromNslc")
        if not calls: return
        g = calls[0]
        for k, v in zip(("net", "sta", "loc", "channelCode", "startYear"), c[:4] + [year]): x.prove(eqv(it, g.get(k), v), f"parseNslc: {k}")
    return go

@unit("mseed3.MSeed3Record.parseIdentifier", "C15", assume=ASSUME)
def u_recid(x, it):
    from simplemseed.mseed3 import MSeed3Record, Miniseed3Exception
    x.fork_ifs = True; x.it = it
    def go():
        nm = "MSeed3Record.parseIdentifier"
        if x.choose(2):
            sid = build(it, 6, [code(x, f"code{k}") for k in range(6)])
            o = attempt(it, MSeed3Record.parseIdentifier, Obj(MSeed3Record, identifier=sid))
            x.cover(f"{nm}: identifier object")
            x.prove(z3.BoolVal(o.ok and o.v is sid), f"{nm}: an identifier is given as it is"); return
        t = sym_str(x, "identifier")
        calls, res = [], Obj(FDSNSourceId)
        def c_parse(it, f, a, kw):
            calls.append(a[0] if a else kw.get("sid"))
            if x.choose(2): it.exc(FDSNSourceIdException, "parts")
            return res
        it.contracts["fdsnsourceid.FDSNSourceId.parse"] = c_parse
        o = attempt(it, MSeed3Record.parseIdentifier, Obj(MSeed3Record, identifier=t))
        pre = z3.PrefixOf(z3.StringVal("FDSN:"), t.t)
        x.cover(f"{nm}: {'accepts' if o.ok else o.v.cls.__name__}")
        if o.ok:
            x.prove(pre, f"{nm}: text without the prefix is rejected")
            x.prove(z3.BoolVal(o.v is res and len(calls) == 1) if len(calls) != 1 else z3.And(z3.BoolVal(o.v is res), eqv(it, calls[0], t)), f"{nm}: parses the text of the identifier")
        elif issubclass(o.v.cls, Miniseed3Exception): x.prove(z3.Not(pre), f"{nm}: text with the prefix is parsed")
        else: x.prove(z3.BoolVal(issubclass(o.v.cls, FDSNSourceIdException)), f"{nm}: fails with an identifier error only")
    return go

@unit("fdsnsourceid.NslcId equality", "C17", assume=ASSUME + ["codes hold no separator"])
def u_nslc_eq(x, it):
    from simplemseed.fdsnsourceid import NslcId
    x.fork_ifs = True; x.it = it
    def go():
        c = [code(x, f"code{k}") for k in range(4)]
        d = [code(x, f"other{k}") for k in range(4)]
        a, b = it.call(NslcId, list(c)), it.call(NslcId, list(d))
        for k, f in enumerate(("networkCode", "stationCode", "locationCode", "channelCode")): x.prove(eqv(it, a.a[f], c[k]), f"NslcId.__init__: {f}")
        x.prove(eqv(it, it.call(str, [a]), mkstr([p for k, v in enumerate(c) for p in (["_"] if k else []) + [v]])), "NslcId.__str__: the codes")
        x.prove(eqv(it, a, b) == z3.And(*[p.t == q.t for p, q in zip(c, d)]), "NslcId.__eq__: exactly when all codes are equal")
        for o in ("text", None, 5): x.prove(z3.Not(eqv(it, a, o)), f"NslcId.__eq__: not equal to {type(o).__name__}")
    return go
