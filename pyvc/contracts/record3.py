"""miniSEED3 records: unpack, pack, their composition, sizes, checksum, extra headers."""
from vc import *
import z3, struct, json
import libstr
import numpy as np
from libio import *
from simplemseed import mseed3, seedcodec
from simplemseed.fdsnsourceid import FDSNSourceId
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, Miniseed3Exception
from header3 import sym_header, LAYOUT, INTS, le, same_field

def setup(x, it):
    x.fork_ifs = True
    it.decoded = []; it.all_encodable = True
    it.contracts["mseed3.MSeed3Header.pack"] = header_pack
    return Crc(it)

def zeroed(seq):
    """record content with the checksum field zero"""
    z = z3.BitVecVal(0, 8)
    return Seq(seq.n, lambda i: z3.If(z3.And(nterm(i) >= 28, nterm(i) < 32), z, seq.get(i)))

def zmin(a, b): return z3.If(a <= b, a, b)

class Bytes:
    """a record in bytes: n bytes b, and what the layout says its parts are (as far as there are bytes).
    unpackMSeed3FixedHeader is replaced by its contract: it refuses exactly bytes whose header is not good, and
    returns a header of in-range fields whose values are those of the first 40 bytes (units of header3)"""
    def __init__(self, x, it, label="b"):
        self.x, self.it = x, it
        self.n = sym_int(x, f"{label} length", 0)
        self.b = sym_bytes(x, label, self.n.t)
        self.head_ok = x.fbool("good_header")
        x.assume(z3.Implies(self.head_ok, self.n.t >= 40))
        self.h = sym_header(x, it)
        self.f = f = {k: nterm(as_int(self.h.get(k))) for k, o, w in INTS}
        self.rate = self.h.get("sampleRatePeriod")
        n = self.n.t
        self.p1 = zmin(40 + f["identifierLength"], n)
        self.p2 = zmin(40 + f["identifierLength"] + f["extraHeadersLength"], n)
        self.p3 = zmin(40 + f["identifierLength"] + f["extraHeadersLength"] + f["dataLength"], n)
        it.contracts["mseed3.unpackMSeed3FixedHeader"] = self.unpack_header
    def unpack_header(self, it, f, args, kw):
        x = self.x
        g = lib.to_ba(args[0]).seq
        x.prove(z3.Or(nterm(g.n) >= 40, nterm(g.n) == self.n.t), "the header is unpacked from all of its bytes")
        x.forall(0, zmin(z3.IntVal(40), self.n.t), lambda i: g.get(i) == self.b.seq.get(i), "the header is unpacked from the start of the record")
        if not it.branch(boolv(self.head_ok)): it.exc(Miniseed3Exception, "header")
        return self.h
    def part(self, a, b): return seq_slice(self.b.seq, a, b)

def text_of(it, x, r, seq, name):
    """r is the text whose UTF-8 is seq"""
    if isinstance(r, str):
        e = r.encode()
        x.prove(z3.And(nterm(seq.n) == len(e), *[seq.get(i) == e[i] for i in range(len(e))]), name); return
    for q, s in it.decoded:
        if q is r or isinstance(r, SS) and q.t.eq(r.t):
            x.prove(nterm(s.n) == nterm(seq.n), name)
            x.forall(0, nterm(seq.n), lambda i: s.get(i) == seq.get(i), name)
            return
    x.prove(z3.BoolVal(False), name)

def same_bytes(x, b, seq, name):
    if not isinstance(b, BA): x.prove(z3.BoolVal(False), name); return
    x.prove(nterm(b.seq.n) == nterm(seq.n), name)
    x.forall(0, nterm(seq.n), lambda i: b.seq.get(i) == seq.get(i), name)

def check_read(x, it, rec, B, what):
    """rec is the record that the bytes B hold"""
    x.prove(z3.BoolVal(isinstance(rec, Obj) and rec.cls is MSeed3Record), f"{what}: a record")
    h = rec.get("header")
    for f, off, k in INTS:
        x.prove(nterm(as_int(h.get(f))) == B.f[f], f"{what}: header {f} is that of the bytes")
    x.prove(lib.float_bits(h.get("sampleRatePeriod")) == B.rate.bits, f"{what}: sample rate is that of the bytes")
    text_of(it, x, rec.get("identifier"), B.part(40, B.p1), f"{what}: identifier is the text after the fixed header")
    text_of(it, x, rec.get("_eh"), B.part(B.p1, B.p2), f"{what}: extra headers are the text after the identifier")
    same_bytes(x, rec.get("_data"), B.part(B.p2, B.p3), f"{what}: payload is the bytes after the extra headers")

@unit("mseed3.unpackMSeed3Record", "C07 C08 C09", assume=[CRC, UTF8])
def u_unpack(x, it):
    def go():
        crc = setup(x, it)
        check = (True, False, None)[x.choose(3)]
        B = Bytes(x, it)
        o = attempt(it, mseed3.unpackMSeed3Record, B.b, *([] if check is None else [check]))
        check = check is not False
        stored = B.f["crc"]
        x.cover(f"record unpack {'returns' if o.ok else 'refuses'}{' checking' if check else ''}")
        if check: good = crc.spec(x, zeroed(seq_slice(B.b.seq, 0, B.p3))) == stored
        if not o.ok:
            if o.v.cls is UnicodeDecodeError: x.cover("identifier or extra headers not UTF-8"); return
            x.prove(z3.BoolVal(o.v.cls is Miniseed3Exception), "unpackMSeed3Record: refuses with Miniseed3Exception")
            x.prove(z3.Not(z3.And(B.head_ok, good if check else z3.BoolVal(True))), "unpackMSeed3Record: a record with a good header and checksum is accepted")
            return
        x.prove(B.head_ok, "unpackMSeed3Record: a wrong or short header is refused")
        if check: x.prove(good, "unpackMSeed3Record: with checking on, a record is returned only if its stored checksum is the CRC-32C of the bytes read with the checksum field zero")
        check_read(x, it, o.v, B, "unpackMSeed3Record")
        same = attempt(it, MSeed3Record.getSize, o.v)
        f = B.f
        x.prove(nterm(as_int(same.v)) == 40 + f["identifierLength"] + f["extraHeadersLength"] + f["dataLength"], "getSize: fixed header plus the three lengths")
    return go

# ---------------------------------------------------------------- pack
ENCODED = "encode(data, encoding) gives a segment of the bytes of the data (contract of seedcodec.encode, C05)"

def head_bytes(h):
    """the 40 bytes of a header whose fields are in range (contract of MSeed3Header.pack)"""
    bs = [z3.BitVecVal(c, 8) for c in (77, 83, 3)] + [None] * 37
    for f, o, n in LAYOUT:
        v = h.get(f)
        t = lib.float_bits(v) if f == "sampleRatePeriod" else z3.Int2BV(nterm(as_int(v)), 8 * n)
        for k in range(n): bs[o + k] = z3.Extract(8 * k + 7, 8 * k, t)
    return bs

def head_range(h, skip=()):
    return z3.And(*[z3.And(nterm(as_int(h.get(f))) >= 0, nterm(as_int(h.get(f))) < (1 << (8 * n))) for f, o, n in INTS if f not in skip])

def header_pack(it, f, args, kw):
    h = args[0]
    if not core.X.branch(head_range(h)): it.exc(struct.error, "field out of range")
    return BA(CSeq(head_bytes(h)), True)

ALLKINDS = ("none", "empty text", "text", "dict", "list", "number")

class Rec:
    """a record with any header, identifier, extra headers and data"""
    def __init__(self, x, it, inrange, kinds=("none", "empty text", "text", "dict")):
        self.h = sym_header(x, it, inrange=inrange)
        self.idt = sym_str(x, "identifier")
        self.idkind = x.choose(2)
        if self.idkind:     # an FDSNSourceId: its text is that of str()
            ident = Obj(FDSNSourceId)
            it.contracts["fdsnsourceid.FDSNSourceId.__str__"] = lambda it, f, args, kw: self.idt
        else: ident = self.idt
        k = self.ehkind = kinds[x.choose(len(kinds))]
        self.content = x.fresh("extra_headers", JS)
        if k == "none": eh = None; self.eht = z3.StringVal("")
        elif k == "empty text": eh = ""; self.eht = z3.StringVal("")
        elif k == "text": eh = sym_str(x, "extraHeaders"); self.eht = eh.t; x.assume(JLOAD(eh.t) == self.content)
        elif k == "number": eh = JN(self.content); self.eht = JDUMP(self.content); x.assume(z3.And(JLOAD(self.eht) == self.content, JVALID(self.eht)))
        else: eh = (JV if k == "dict" else JA)(self.content); self.eht = json_text(self.content).t
        self.eh = eh
        k = x.choose(4); self.dkind = ("none", "bytes", "bytearray", "samples")[k]
        self.enc_fails = False
        if k == 0: d = None; self.data = CSeq([])
        else:
            b = sym_bytes(x, "payload", sym_int(x, "payload length", 0).t, mutable=k == 2)
            self.data = b.seq
            if k < 3: d = b
            else:
                d = PList(Seq(sym_int(x, "samples", 0).t, lambda i: 0))
                it.contracts["seedcodec.encode"] = self.encode
        self.d = d
        self.rec = Obj(MSeed3Record, header=self.h, identifier=ident, _eh=eh, _data=d)
        self.ident = ident
        self.it, self.x = it, x
        self.idb = self.utf8(self.idt.t); self.ehb = self.utf8(self.eht)
    def utf8(self, t):
        if z3.is_string_value(t): return CSeq(bv8s(t.as_string().encode()))
        return utf8(t)
    def encode(self, it, f, args, kw):
        x = self.x
        a = dict(zip(("data", "encoding", "littleEndian"), args)); a.update(kw)
        x.prove(z3.BoolVal(a["data"] is self.d), "pack: the samples encoded are those of the record")
        x.prove(eqv(it, a.get("encoding"), self.h.get("encoding")), "pack: samples are encoded as the header says")
        x.prove(z3.BoolVal(a.get("littleEndian", True) is True), "pack: samples are encoded little endian")
        if not core.X.branch(x.fbool("encodable")):
            self.enc_fails = True; it.exc(seedcodec.UnsupportedCompressionType, "encoding")
        return it.call(seedcodec.EncodedDataSegment, [self.h.get("encoding"), BA(self.data, False), intv(0), True])

def check_packed(x, it, R, o, what):
    h, b = R.h, o.v
    f = {k: nterm(as_int(h.get(k))) for k, _, _ in INTS}
    il, el, dl = nterm(R.idb.n), nterm(R.ehb.n), nterm(R.data.n)
    if not isinstance(b, BA): x.prove(z3.BoolVal(False), f"{what}: bytes"); return
    n = nterm(b.seq.n)
    x.prove(n == 40 + il + el + dl, f"{what}: size is the fixed header, identifier, extra headers and payload")
    x.prove(f["identifierLength"] == il, f"{what}: header identifier length is the number of identifier bytes")
    x.prove(f["extraHeadersLength"] == el, f"{what}: header extra headers length is the number of extra header bytes")
    x.prove(f["dataLength"] == dl, f"{what}: header data length is the number of payload bytes")
    for g in (MSeed3Record.getSize, ): x.prove(nterm(as_int(it.call(g, [R.rec]))) == n, f"{what}: getSize is the number of bytes")
    x.prove(nterm(as_int(it.call(MSeed3Header.recordSize, [h]))) == n, f"{what}: recordSize is the number of bytes")
    hb = head_bytes(h)
    for i in range(40): x.prove(b.seq.get(i) == hb[i], f"{what}: begins with the packed header")
    x.forall(40, 40 + il, lambda i: b.seq.get(i) == R.idb.get(i - 40), f"{what}: identifier bytes follow the header")
    x.forall(40 + il, 40 + il + el, lambda i: b.seq.get(i) == R.ehb.get(i - 40 - il), f"{what}: extra header bytes follow the identifier")
    x.forall(40 + il + el, n, lambda i: b.seq.get(i) == R.data.get(i - 40 - il - el), f"{what}: payload follows the extra headers")

def unchanged(x, R, before, what):
    for k in before:
        if k not in ("crc", "identifierLength", "extraHeadersLength", "dataLength"): x.prove(z3.BoolVal(R.h.a.get(k) is before[k]), f"{what}: header {k} stays")
    x.prove(z3.BoolVal(R.rec.get("header") is R.h and R.rec.get("_data") is R.d), f"{what}: payload stays")
    x.prove(z3.BoolVal(R.rec.get("_eh") is R.eh and (R.ehkind not in ("dict", "list", "number") or R.eh.content.eq(R.content))), f"{what}: extra headers stay")
    i = R.rec.get("identifier")
    x.prove(z3.BoolVal(i is R.ident or R.idkind == 1 and i is R.idt), f"{what}: identifier stays")

@unit("mseed3.MSeed3Record.pack", "C07 C08 C06 C21", assume=[CRC, UTF8, JSON, ENCODED])
def u_recpack(x, it):
    def go():
        crc = setup(x, it)
        R = Rec(x, it, False, ALLKINDS); h = R.h; before = dict(h.a)
        fits = head_range(h, ("crc", "identifierLength", "extraHeadersLength", "dataLength"))
        fits = z3.And(fits, nterm(R.idb.n) < 256, nterm(R.ehb.n) < 65536, nterm(R.data.n) < 1 << 32)
        o = attempt(it, MSeed3Record.pack, R.rec)
        unchanged(x, R, before, "MSeed3Record.pack")
        if not o.ok:
            if R.enc_fails: x.cover("samples that cannot be encoded"); return
            x.cover("record pack refuses")
            x.prove(z3.Not(fits), "MSeed3Record.pack: refuses only content that does not fit the header")
            return
        x.cover(f"record pack returns, data {R.dkind}, extra headers {R.ehkind}")
        x.prove(fits, "MSeed3Record.pack: content that does not fit the header is refused")
        check_packed(x, it, R, o, "MSeed3Record.pack")
        b = o.v
        c = crc.spec(x, zeroed(b.seq))
        x.prove(nterm(as_int(h.get("crc"))) == c, "MSeed3Record.pack: header crc is the CRC-32C of the record with the checksum field zero")
        for i in range(4): x.prove(b.seq.get(28 + i) == z3.Extract(8 * i + 7, 8 * i, z3.Int2BV(c, 32)), "MSeed3Record.pack: the checksum field holds the CRC-32C")
    return go

NAMES = ("clone", "unpack after pack", "unpack after pack, unchecked")
def round_unit(which):
    def u(x, it): return lambda: round_trip(x, it, which)
    unit(f"record3: {NAMES[which]}", "C07 C08", assume=[CRC, UTF8, JSON, ENCODED], weight=4)(u)
for _w in range(3): round_unit(_w)

def round_trip(x, it, which):
        crc = setup(x, it); crc.eager = True
        R = Rec(x, it, True); h = R.h
        x.assume(z3.And(nterm(R.idb.n) < 256, nterm(R.ehb.n) < 65536, nterm(R.data.n) < 1 << 32))
        known = [R.idt.t, R.eht]
        def dec(it, o, args, kw):
            for t, s in ((R.idt.t, R.idb), (R.eht, R.ehb)):
                if same_content(x, o.seq, s): return t.as_string() if z3.is_string_value(t) else SS(t)
            return None
        it.decode_hook = dec
        def unp(it, f, args, kw):
            # contract: unpacking the header bytes of h gives the fields of h
            g = lib.to_ba(args[0]).seq
            hb = head_bytes(h)
            x.prove(nterm(g.n) >= 40, "round trip: the header is unpacked from the record")
            for i in range(40): x.prove(g.get(i) == hb[i], "round trip: the header unpacked is the header packed")
            r = it.call(MSeed3Header)
            for k, _, _ in LAYOUT: r.set(k, h.get(k))
            return r
        it.contracts["mseed3.unpackMSeed3FixedHeader"] = unp
        if which == 0: o = attempt(it, MSeed3Record.clone, R.rec)
        else:
            p = attempt(it, MSeed3Record.pack, R.rec)
            if not p.ok:
                x.prove(z3.BoolVal(R.enc_fails), "round trip: a record that fits is packed"); return
            o = attempt(it, mseed3.unpackMSeed3Record, p.v, which == 1)
        nm = NAMES[which]
        if not o.ok:
            x.prove(z3.BoolVal(R.enc_fails), f"{nm}: a packed record is accepted"); return
        x.cover(f"{nm}, data {R.dkind}, extra headers {R.ehkind}")
        u = o.v; g = u.get("header")
        x.prove(z3.BoolVal(u is not R.rec and g is not h), f"{nm}: another record with its own header")
        for k, _, n in LAYOUT: same_field(x, h, g, k, n, f"{nm}: header {k} the same")
        x.prove(libstr.sterm(u.get("identifier")) == R.idt.t, f"{nm}: identifier the same")
        same_bytes(x, u.get("_data"), R.data, f"{nm}: payload the same")
        x.prove(z3.BoolVal(u.get("_data") is not R.d and isinstance(u.get("_data"), BA)), f"{nm}: payload not shared")
        if R.ehkind == "text":
            x.prove(libstr.sterm(u.get("_eh")) == R.eht, f"{nm}: extra headers text the same")
        else:
            e = it.call(MSeed3Record.eh.fget, [u])
            if R.ehkind == "dict": x.prove(z3.And(z3.BoolVal(isinstance(e, JV) and e is not R.eh), e.content == R.content) if isinstance(e, JV) else z3.BoolVal(False), f"{nm}: extra headers the same, in a dict of its own")
            else: x.prove(nterm(lib.length(it, e)) == 0, f"{nm}: no extra headers")

# ---------------------------------------------------------------- extra headers and samples of a record
@unit("mseed3.MSeed3Record.eh getter, setter, deleter, hasExtraHeaders", "C07 C21", assume=[JSON, UTF8])
def u_eh(x, it):
    def go():
        setup(x, it); it.json_kinds = True
        op = x.choose(4)
        R = Rec(x, it, True, ALLKINDS if op < 3 else ALLKINDS[:5]); h, rec = R.h, R.rec; before = dict(h.a)
        if op == 0:
            o = attempt(it, MSeed3Record.eh.fget, rec)
            x.cover(f"eh read from {R.ehkind} {'ok' if o.ok else 'refused'}")
            if not o.ok:
                x.prove(z3.And(z3.BoolVal(R.ehkind == "text" and o.v.cls is json.JSONDecodeError), z3.Not(JVALID(R.eht))), "eh: refuses only text that is not JSON"); return
            e = o.v
            if R.ehkind == "none": x.prove(z3.BoolVal(e is None), "eh: None without extra headers")
            elif R.ehkind == "empty text" or R.ehkind == "text" and isinstance(e, PDict): x.prove(z3.And(R.eht == z3.StringVal(""), nterm(lib.length(it, e)) == 0), "eh: empty for empty text")
            elif R.ehkind == "text": x.prove(same_json(e, JLOAD(R.eht)), "eh: the parsed text")
            else: x.prove(z3.BoolVal(e is R.eh), "eh: the dict of the record")
            if R.ehkind == "text" and (e is None or isinstance(e, (str, SS))):
                x.cover("extra headers that are a string or null")
                x.prove(z3.BoolVal(rec.get("_eh") is R.eh), "eh: text stays text where what it holds would not be packed as it was")
            elif e is not None: x.prove(z3.BoolVal(rec.get("_eh") is e), "eh: what is returned is kept, so that changes to it are written")
        elif op == 1:
            k = x.choose(5); c = x.fresh("new", JS)
            v = (None, sym_str(x, "newText"), JV(c), JA(c), JN(c))[k]
            it.call(MSeed3Record.eh.fset, [rec, v])
            x.cover(f"eh set to {('None', 'text', 'dict', 'list', 'number')[k]}")
            x.prove(z3.BoolVal(rec.get("_eh") is v and (k < 2 or v.content.eq(c))), "eh setter: the record has the extra headers given")
            n = h.get("extraHeadersLength")
            if k == 1: x.prove(z3.BoolVal(n is None) if n is None else nterm(as_int(n)) == ULEN(v.t), "eh setter: length is that of the text, or not known yet")
            if n is None: x.prove(z3.BoolVal(it.call(MSeed3Record.getSize, [rec]) is None), "getSize: None while a length is not known")
            elif k != 1: x.prove(z3.BoolVal(k == 0), "eh setter: length of a dict is not known yet")
            x.prove(z3.BoolVal(all(h.a[f] is before[f] for f in before if f != "extraHeadersLength")), "eh setter: other fields stay")
        elif op == 2:
            it.call(MSeed3Record.eh.fdel, [rec])
            x.prove(z3.BoolVal(rec.get("_eh") is None), "eh deleter: no extra headers")
            x.prove(nterm(as_int(h.get("extraHeadersLength"))) == 0, "eh deleter: length zero")
            x.prove(z3.BoolVal(all(h.a[f] is before[f] for f in before if f != "extraHeadersLength")), "eh deleter: other fields stay")
        else:
            if R.ehkind == "text":      # as written by json.dumps
                R.eht = json_text(R.content).t; rec.set("_eh", SS(R.eht))
            r = it.call(MSeed3Record.hasExtraHeaders, [rec]); r = z3.BoolVal(r) if isinstance(r, bool) else bterm(r)
            x.cover(f"hasExtraHeaders of {R.ehkind}")
            x.prove(r == (JLEN(R.content) > 0) if R.ehkind in ("text", "dict", "list") else r == False, "hasExtraHeaders: true when there is at least one")
        x.prove(z3.BoolVal(rec.get("_data") is R.d and rec.get("identifier") is R.ident), "eh: payload and identifier stay")
    return go

BYTYPE = {1: np.int16, 3: np.int32, 4: np.float32, 5: np.float64}
@unit("mseed3.MSeed3Record.decompress and decompressedRecord", "C07 C09 C10 C11 C03")
def u_decompress(x, it):
    def go():
        setup(x, it)
        op = x.choose(2); k = x.choose(5)
        h = sym_header(x, it); before = dict(h.a)
        enc, n = h.get("encoding"), h.get("numSamples")
        dt = None; given = None
        def fresh_arr(dt, n):
            A = z3.Function(f"samples{next(x.counter)}", z3.IntSort(), z3.BitVecSort(8 * np.dtype(dt).itemsize))
            return NArr(np.dtype(dt), Seq(nterm(as_int(n)), lambda i: A(nterm(i))))
        got = []
        if k == 0: d = None
        elif k == 1:
            dt = (np.int16, np.int32, np.float32, np.float64)[x.choose(4)]
            d = fresh_arr(dt, n if op else sym_int(x, "count", 0))
        elif k == 2:
            tc = "hifd"[x.choose(4)]; dt = BYTYPE[{"h": 1, "i": 3, "f": 4, "d": 5}[tc]]
            d = AArr(tc, np.dtype(dt).itemsize, fresh_arr(dt, n if op else sym_int(x, "count", 0)).seq)
        else: d = sym_bytes(x, "payload", sym_int(x, "payload length", 0).t, mutable=k == 4)
        def dec(it, f, args, kw):
            a = dict(zip(("compressionType", "dataBytes", "numSamples", "littleEndian"), args)); a.update(kw)
            x.prove(eqv(it, a["compressionType"], enc), "decompress: by the encoding of the header")
            x.prove(eqv(it, a["numSamples"], n), "decompress: the number of samples of the header")
            x.prove(z3.BoolVal(a["dataBytes"] is d), "decompress: the payload")
            le_ = a["littleEndian"]
            big = z3.Or(*[nterm(as_int(enc)) == e for e in (10, 11)])
            x.prove(z3.Implies(z3.Or(*[nterm(as_int(enc)) == e for e in (1, 3, 4, 5, 10, 11)]), (bterm(le_) if not isinstance(le_, bool) else z3.BoolVal(le_)) == z3.Not(big)), "decompress: primitive payload is little endian, Steim payload big endian")
            if not x.branch(x.fbool("decodable")): it.exc(seedcodec.UnsupportedCompressionType, "encoding")
            t = BYTYPE[(1, 3, 4, 5)[x.choose(4)]]
            # samples of their number, in the type of the encoding (C03, C05)
            x.assume(z3.Or(*[nterm(as_int(enc)) == e for e, v in ((1, np.int16), (3, np.int32), (4, np.float32), (5, np.float64), (10, np.int32), (11, np.int32)) if v is t]))
            r = fresh_arr(t, n); got.append((r, t))
            return r
        it.contracts["seedcodec.decompress"] = dec
        eh = JV(x.fresh("eh", JS)) if x.choose(2) else None
        rec = Obj(MSeed3Record, header=h, identifier=sym_str(x, "identifier"), _eh=eh, _data=d)
        o = attempt(it, (MSeed3Record.decompress, MSeed3Record.decompressedRecord)[op], rec)
        x.prove(z3.BoolVal(rec.get("_data") is d and rec.get("header") is h and all(h.a[f] is before[f] for f in before)), "decompress: leaves the record as it is")
        if k == 0:
            x.prove(z3.BoolVal(not o.ok and o.v.cls is seedcodec.UnsupportedCompressionType), "decompress: refuses a record without data"); return
        if not o.ok:
            x.prove(z3.BoolVal(k > 2 and not got and o.v.cls is seedcodec.UnsupportedCompressionType), "decompress: refuses only what the codec refuses"); return
        x.cover(f"{('decompress', 'decompressedRecord')[op]} of data kind {k}")
        src = got[0][0] if k > 2 else d
        if k > 2: dt = got[0][1]
        out = o.v if op == 0 else o.v.get("_data")
        if op == 1:
            nh = o.v.get("header")
            x.prove(z3.BoolVal(nh is not h and o.v is not rec), "decompressedRecord: another record")
            for f, _, w in LAYOUT:
                if f != "encoding": same_field(x, h, nh, f, w, f"decompressedRecord: header {f} the same")
            x.prove(eqv(it, nh.get("encoding"), {v: e for e, v in BYTYPE.items()}[dt]), "decompressedRecord: encoding is that of the samples")
            x.prove(libstr.sterm(o.v.get("identifier")) == libstr.sterm(rec.get("identifier")), "decompressedRecord: identifier the same")
            x.prove(z3.BoolVal(o.v.get("_eh") is eh or isinstance(o.v.get("_eh"), JV) and o.v.get("_eh").content.eq(eh.content)), "decompressedRecord: extra headers the same")
        if not isinstance(out, NArr): x.prove(z3.BoolVal(False), "decompress: a numpy array"); return
        x.prove(z3.And(z3.BoolVal(out.dt.type is dt), nterm(out.seq.n) == nterm(src.seq.n)), "decompress: all the samples, in their type")
        x.forall(0, nterm(src.seq.n), lambda i: out.seq.get(i) == src.seq.get(i), "decompress: the samples themselves")
    return go
