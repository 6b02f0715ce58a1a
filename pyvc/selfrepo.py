"""Functions of the library, run by CPython and by pyvc on random input (selftest.py). Wrappers keep to plain arguments and results."""
import struct
import numpy as np
from datetime import datetime, timedelta, timezone
from simplemseed import steim1, steim2, steimframeblock, seedcodec, mseed3, miniseed, fdsnsourceid
from simplemseed.seedcodec import BIG_ENDIAN, LITTLE_ENDIAN

def dec1(b, n, bias): return steim1.decodeSteim1(b, n, bias)
def dec2(b, n, bias): return steim2.decodeSteim2(b, n, bias)
def enc1(l): return bytes(steim1.encodeSteim1(l))
def enc2(l): return bytes(steim2.encodeSteim2(l))
def enc1a(l): return bytes(steim1.encodeSteim1(np.array(l, dtype=np.int32), 2, 3))
def minbits(d): return steim2.minBitsNeeded(d)
def bitsfor(l, n): return steim2.bitsForPack(l, n)
def get32(b, o, le): return steimframeblock.getInt32(b, o, le), steimframeblock.getInt16(b, o, le), steimframeblock.getUint32(b, o, le)
def prim(enc, b, n, le): return seedcodec.decompress(enc, b, n, le)
def header2(b, o):
    h = miniseed.unpackMiniseedHeader(b, o)
    return h.network, h.station, h.location, h.channel, h.numSamples, h.sampRateFactor, h.sampRateMult, h.actFlag, h.timeCorr, h.dataOffset, h.byteorder, h.sequence_number, h.btime.year, h.btime.yday, h.btime.tenthMilli
def blockette(b, o, d): return miniseed.unpackBlockette(b, 0, o, d)
def order2(b): return miniseed.unpackFixedHeaderGuessByteOrder(b).byteorder
def header3(b):
    h = mseed3.unpackMSeed3FixedHeader(b)
    return h.recordIndicator, h.formatVersion, h.flags, h.nanosecond, h.year, h.dayOfYear, h.hour, h.minute, h.second, h.encoding, h.sampleRatePeriod, h.numSamples, h.crc, h.publicationVersion, h.identifierLength, h.extraHeadersLength, h.dataLength
def pack3(b):
    h = mseed3.unpackMSeed3FixedHeader(b)
    return h.pack()
def time3(y, d, h, m, s, ns):
    q = mseed3.MSeed3Header()
    q.year, q.dayOfYear, q.hour, q.minute, q.second, q.nanosecond = y, d, h, m, s, ns
    return q.starttime
def settime3(t):
    q = mseed3.MSeed3Header(); q.starttime = t
    return q.year, q.dayOfYear, q.hour, q.minute, q.second, q.nanosecond
def btime2(t, n):
    h = miniseed.MiniseedHeader("CO", "BIRD", "00", "HHZ", t, n, 0)
    b = h.pack()
    return b[20:30], b[30:34], h.btime.year, h.btime.yday, h.btime.hour, h.btime.minute, h.btime.second, h.btime.tenthMilli
def sid_parse(s):
    f = fdsnsourceid.FDSNSourceId.parse(s)
    return f.networkCode, f.stationCode, f.locationCode, f.bandCode, f.sourceCode, f.subsourceCode
def sid_nslc(n, s, l, c): return str(fdsnsourceid.FDSNSourceId.fromNslc(n, s, l, c))
def net_temp(n):
    q = fdsnsourceid.NetworkSourceId(n)
    return q.isSeedTempNet(), q.isTempNetConvention(), q.isTempNetHistorical(), q.isTemporary()
def band(r): return fdsnsourceid.bandCodeForRate(r)
def band_p(p): return fdsnsourceid.bandCodeForRate(sampRatePeriod=p) if False else fdsnsourceid.bandCodeForRate(-p)
def rate3(v):
    h = mseed3.MSeed3Header(); h.sampleRatePeriod = v
    return h.sampleRate, h.samplePeriod
def names(e): return seedcodec.encodingName(e), seedcodec.isFloatCompression(e), seedcodec.isPrimitiveCompression(e), seedcodec.canDecompress(e)

def cases(rnd):
    R = rnd
    rb = lambda n: bytes(R.randrange(256) for _ in range(n))
    def frames1(k):
        out = []
        for _ in range(k):
            f = bytearray(rb(64)); c = R.getrandbits(30) if R.random() < 0.7 else int("01" * 15, 2); f[0:4] = struct.pack(">I", c); out.append(bytes(f))
        return b"".join(out)
    def good1(n):
        l = [R.randrange(-200, 200) * R.choice((1, 1, 300, 70000)) for _ in range(n)]
        return l
    def blk(kind):
        b = bytearray(rb(R.choice((8, 12, 16)))); b[0:2] = struct.pack(R.choice("<>") + "H", kind); return bytes(b)
    def head():
        o = R.choice("<>")
        return struct.pack(o + "6scc5s2s3s2sHHBBBxHHhhBBBBiHH", b"%06d" % R.randrange(10**6), b"D", b" ", R.choice((b"BIRD ", b"A    ")), b"00", b"HHZ", b"CO", R.randrange(1900, 2051), R.randrange(1, 366), R.randrange(24), R.randrange(60), R.randrange(60), R.randrange(10000), R.randrange(65536), R.randrange(-100, 100), R.randrange(-100, 100), R.randrange(256), R.randrange(256), R.randrange(256), R.randrange(256), R.randrange(-2**31, 2**31), R.randrange(65536), R.randrange(65536)), o
    heads = [head() for _ in range(8)]
    h3 = [b"MS\x03" + rb(37) for _ in range(6)] + [rb(40), rb(12)]
    ts = [datetime(R.randrange(1, 10000), R.randrange(1, 13), R.randrange(1, 29), R.randrange(24), R.randrange(60), R.randrange(60), R.randrange(10**6), timezone.utc) for _ in range(8)] + [datetime(2020, 1, 1, 3, 4, 5, 678901, timezone(timedelta(hours=5, minutes=30)))]
    sids = ["FDSN:CO_BIRD_00_H_H_Z", "FDSN:XA_S__B_H_1", "FDSN:CO", "FDSN:CO_BIRD", "XFDSN:CO_BIRD_00_H_H_Z", "FDSN:CO_BIRD_00_HHH_H_Z", "", "FDSN:____", "FDSN:A_B_C_D_E_F_G"]
    return [
        (enc1, [[good1(R.randrange(1, 9)) for _ in range(8)]], 8), (enc2, [[good1(R.randrange(1, 9)) for _ in range(8)]], 8), (enc1a, [[good1(R.randrange(1, 9)) for _ in range(5)]], 5),
        (dec1, [[frames1(1) for _ in range(4)] + [bytes(steim1.encodeSteim1(good1(9)).pack()) if hasattr(steim1.encodeSteim1([1]), "pack") else bytes(steim1.encodeSteim1(good1(9)))] * 1, [1, 3, 9], [0, 5]], 8),
        (dec2, [[frames1(1) for _ in range(3)] + [bytes(steim2.encodeSteim2(good1(9))) for _ in range(4)], [1, 3, 9], [0, 5]], 10),
        (minbits, [[R.randrange(-2**30, 2**30) >> R.randrange(30) for _ in range(12)]], 12), (bitsfor, [[[R.choice((4, 5, 6, 8, 10, 15, 30, 99)) for _ in range(7)] for _ in range(10)], [1, 2, 3, 4, 5, 6, 7]], 20),
        (get32, [[rb(8) for _ in range(3)], [0, 1, 4], [True, False]], 10),
        (prim, [[1, 3, 4, 5, 0, 30], [rb(16), rb(8)], [0, 1, 2, 4], [True, False]], 24),
        (header2, [[h for h, o in heads] + [rb(47)], ["<", ">"]], 16), (blockette, [[blk(k) for k in (100, 1000, 1001, 500, 200)], ["<", ">"], [8, 12]], 16),
        (order2, [[h for h, o in heads]], 8), (header3, [h3], 8), (pack3, [h3], 8),
        (time3, [[1900, 2016, 9999, 1, 2020], [1, 60, 365, 366], [0, 23], [0, 59], [0, 59, 60], [0, 999999999, 123456789, 1999]], 16), (settime3, [ts], 9), (btime2, [ts, [0, 5, 65535, 65536]], 9),
        (sid_parse, [sids], 9), (sid_nslc, [["CO", "XA"], ["BIRD", ""], ["00", "", "--"], ["HHZ", "H_H_Z", "LONG", "H"]], 12), (net_temp, [["XA", "CO", "XX2020", "Y1", "X", "", "ZZZ", "1A", "XA20"]], 9),
        (band, [[1.0, 0.5, 100.0, 80.0, 250.0, 1000.0, 10.0, 0.1, 0.001, 1e-7, 5000.0, 9.999999]], 12), (rate3, [[0.0, 1.0, -2.0, 100.0, -0.5]], 5), (names, [[0, 1, 3, 4, 5, 10, 11, 19, 77, 99]], 10),
    ]
