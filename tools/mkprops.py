#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept in one readable place)."""
import json, os
P=[]
S="src/simplemseed/"
def prop(id,title,statement,qtext,why,files,mech,over=("inputs",),state=None,observe=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Steim1 compression is lossless or refuses",
 "Encoding any non-empty one-dimensional series of integers with Steim1 and decoding the result returns exactly the same samples, for Python lists and every integer numpy width, for every bias (given to both sides), start offset and frame limit; with a frame limit, exactly the leading samples reported by the encoder come back. A series that cannot be represented (a value, or in a list a difference, outside 32 bits, floats, empty, more than one dimension, bad limit or offset) is refused with an error, never silently altered.",
 "every list of ints / 1-D integer ndarray of any length and dtype, every bias in int32, every offset, every frame limit >= 0",
 "The tests encode a handful of short ramps; the packing choice depends on every window of four consecutive differences, on wrap-around at 32 bits and on where the frame limit cuts, which is an unbounded input space.",
 ["steim1.py","steimframeblock.py","seedcodec.py"],
 [("encoder","encodeSteim1FrameBlock"),("decoder","decodeSteim1 / extractSteim1Samples"),("frame builder","SteimFrameBlock.addEncodedWord / setXsubN / pack")])
prop("C02","Steim2 compression is lossless or refuses",
 "Encoding any non-empty one-dimensional series of integers with Steim2 and decoding it returns exactly the same samples (with a frame limit, exactly the leading samples the encoder reports) whenever every sample fits 32 bits and every successive difference, including the first one from the bias, fits 30 bits. Any other series is either refused with an error or still decodes to exactly the same samples; it is never silently altered.",
 "every list of ints / 1-D integer ndarray of any length and dtype, every bias in int32, every frame limit >= 0",
 "Seven packings chosen from windows of up to seven differences with sign extension at seven widths; the tests sample a few of those windows and no numpy width other than int32.",
 ["steim2.py","steimframeblock.py","seedcodec.py"],
 [("encoder","encodeSteim2FrameBlock / minBitsNeeded / bitsForPack / steimPackWord"),("decoder","decodeSteim2 / extractSteim2Samples / extractDnibValues")])
prop("C03","Steim decoding follows the SEED definition on any frames",
 "For any sequence of 64-byte frames and any positive sample count, Steim1 and Steim2 decoding returns the first-sample constant followed by the running sum (modulo 2^32) of the differences that the SEED manual defines for each control code and sub-code, exactly as many samples as requested. If the length is not a multiple of 64, a control code or sub-code is undefined, or the frames hold fewer differences than requested, a codec error is raised instead of returning data.",
 "every byte string and every positive sample count, both decoders; words 0-2 of the first frame are always the control word and the two constants",
 "Decoders meet data from every datalogger in the world; tests decode a few frames produced by one or two encoders and so reach a sliver of the control words.",
 ["steim1.py","steim2.py","seedcodec.py"],
 [("word expansion","extractSteim1Samples / extractSteim2Samples / extractDnibValues"),("integration","decodeSteim1 / decodeSteim2")])
prop("C04","Steim encoder output conforms to the SEED frame layout",
 "Every encoded block is a whole number of 64-byte frames, never more than the frame limit, big-endian, with a control word whose code 0 is 00, with first and last sample constants in words 1 and 2 of the first frame (code 00) matching the first and last sample actually stored, and otherwise only control codes and sub-codes defined for that compression. The reported sample count equals the number of samples stored.",
 "every encodable series, offset, bias and frame limit, both compressions",
 "Other software must read the output; tests only check that the library's own decoder reads some outputs, which cannot detect a layout the standard forbids.",
 ["steim1.py","steim2.py","steimframeblock.py"],
 [("frame builder","SteimFrame / SteimFrameBlock"),("encoders","encodeSteim1FrameBlock / encodeSteim2FrameBlock")])
prop("C05","Primitive payload encode and decode are inverse, in both byte orders",
 "For 16-bit and 32-bit integer and 32-bit and 64-bit float payloads, encoding a series and decoding the bytes with the same count and byte order returns exactly the same values, and the bytes are the standard fixed-width representation in that byte order. Too few bytes for the requested count, an unsupported type, or an integer outside the range of its width is refused with an error instead of being returned or stored altered.",
 "every series of representable values, every length, both byte orders, every encoding code, every byte string and count",
 "Quantified over all values, counts and encodings; the tests use one small array per type.",
 ["seedcodec.py"],
 [("encode","encode / arrayTypecodeFromMSeed / mseed3EncodingFrom*"),("decode","decompress / EncodedDataSegment.decode")])
prop("C06","miniSEED3 fixed header layout is exact and invertible",
 "Packing a miniSEED3 fixed header gives the 40 bytes that the specification lays out for every field value, and unpacking those bytes gives the same field values back. A header with a wrong record indicator, a wrong format version or fewer than 40 bytes is rejected, and a field value that does not fit its width is refused rather than truncated.",
 "every value of every header field, every 40-byte string",
 "Eighteen fields with independent widths; tests look at a few real records where most fields are small or zero, so a swapped or narrowed field can pass.",
 ["mseed3.py"],
 [("layout","HEADER_PACK_FORMAT"),("pack","MSeed3Header.pack"),("unpack","unpackMSeed3FixedHeader"),("copy","MSeed3Header.clone")])
prop("C07","miniSEED3 record pack and unpack are inverse with true lengths",
 "Packing any record and unpacking the bytes gives a record with the same identifier, extra headers, header fields, payload and sample values, and cloning gives an equal, independent record. After packing, every length in the header, the reported record size and the byte count agree with each other and with the identifier, extra-header and payload bytes in that order after the fixed header.",
 "every identifier (including non-ASCII), extra headers as none, text or mapping, payload as bytes, list or array of every supported type, including empty",
 "Lengths count encoded bytes, not characters, and several representations of headers and data exist; the tests use a few fixed combinations.",
 ["mseed3.py"],
 [("pack","MSeed3Record.pack / encodedDataBytes / getSize / recordSize"),("unpack","unpackMSeed3Record"),("clone","MSeed3Record.clone"),("extra headers","MSeed3Record.eh")])
prop("C08","miniSEED3 checksum protects every byte of the record",
 "A packed record carries the CRC-32C of the whole record computed with the checksum field as zero, and both ways of reading records accept it. With checking on, a record whose stored checksum differs from the CRC-32C of the bytes actually read - whatever the damage, including truncation - is rejected with an error and never returned as data.",
 "every record and every modification of any of its bytes, both readers",
 "One wrong range or skipped section leaves bytes unprotected only for particular damage positions; the tests corrupt nothing.",
 ["mseed3.py"],
 [("write","MSeed3Record.pack"),("read","unpackMSeed3Record / readMSeed3Records")],over=("inputs","fault_sequences"))
prop("C09","miniSEED3 stream reading returns exactly the records in the stream",
 "Reading a stream of concatenated miniSEED3 records yields one record per record in the stream, in order, each equal to reading that record alone, and stops cleanly at the end. With an identifier filter exactly the records whose identifier matches the pattern are yielded, in order, regardless of what the skipped records contain.",
 "every finite sequence of records with any section lengths, every filter pattern",
 "Needs any number of records with any mix of header, extra-header and payload sizes and match outcomes; the tests read two small files.",
 ["mseed3.py"],
 [("reader","readMSeed3Records")],over=("inputs","histories"))
prop("C10","Merging miniSEED3 records never loses, mixes or reorders samples",
 "Two neighbouring records are merged only if identifier, sample rate, encoding and publication version are equal, the encoding is primitive and the second starts after the end of the first and less than half a sample later than the expected next sample time; the merged record starts at the first one's start and holds all samples of the first followed by all of the second. Otherwise both are passed through unchanged. Merged stream reading yields, in stream order, the same samples under the same identifiers as unmerged reading, and the mseed3merge command writes exactly those records, once each and in that order.",
 "every pair of records and every stream of records whose payload holds at least their samples, including non-mergeable encodings in between and after filtering",
 "Whether a merge is wrong depends on pairs of header values and on histories of what is pending; the tests merge one contiguous series.",
 ["mseed3.py","mseed3merge.py"],
 [("compatibility","areCompatible"),("merge","mseed3merge"),("stream","readMSeed3Records merge=True"),("command","mseed3merge.main")],over=("inputs","histories"))
prop("C11","A constructed miniSEED3 record is consistent and never narrows data",
 "Creating a record from a list, array, numpy array, bytes, encoded segment or nothing sets encoding and sample count from the data when they are unset and rejects a header that disagrees with the data. The samples read back from the record always equal the samples supplied, in either byte order of the source (a list of floats is rounded to the float width of its encoding); data that cannot be stored exactly is refused rather than wrapped or truncated.",
 "every kind and element width of data, every value, every header encoding and count",
 "Integer narrowing and byte order only show for particular element types and values that no test uses.",
 ["mseed3.py","seedcodec.py"],
 [("construction","MSeed3Record._internal_set_data"),("decode","MSeed3Record.decompress / decompressedRecord")])
prop("C12","miniSEED3 start time set and get agree to the microsecond in UTC",
 "Setting the start time from an aware date-time, a naive one (taken as UTC) or ISO text stores the UTC year, day of year, hour, minute, second and nanosecond, and reading it back gives the same instant in UTC, for every year, leap day and time zone. Any valid stored fields, including nanoseconds not a multiple of 1000 and a leap second 60, read as the instant they denote, cut to the microsecond.",
 "every date-time in years 1..9999, every UTC offset, every valid combination of stored fields",
 "Day-of-year and UTC shifting only go wrong at year ends, leap years and offsets; tests use two or three dates.",
 ["mseed3.py"],
 [("setter and getter","MSeed3Header.starttime")])
prop("C13","Sample rate, sample period and end time are consistent",
 "A non-negative stored rate/period value is the rate in hertz and a negative one is minus the period in seconds, whichever way it is set; rate and period are reciprocal, the end time of a record is its start plus (samples - 1) periods to the microsecond, and in format version 2 the next expected time is one period after that, also for long records. Records with rate zero (no time series) can still be listed and printed without failing.",
 "every finite non-zero rate or period value, zero, every sample count, both formats",
 "A sign or off-by-one mistake shows only for periods longer than a second or single-sample records, which the tests do not print.",
 ["mseed3.py","miniseed.py"],
 [("v3","MSeed3Header.sampleRate / samplePeriod / endtime"),("v2","MiniseedRecord.endtime / next_starttime / MiniseedHeader.setSampleRate")])
prop("C14","Band code calculation is total and follows the published table",
 "For every finite sample rate or (negative) period and every response lower bound, given as hertz or negative period or absent, exactly the band code whose published rate range and response range contain them is returned; none is ever missing. A missing or zero rate gives I, above 0.5 and up to one hertz gives L, 5000 hertz gives J, and a response bound of exactly ten seconds counts as broadband.",
 "every finite float, and int within float range, for both arguments, and None",
 "The table is a partition of the real line; tests probe a dozen points, none on most boundaries.",
 ["fdsnsourceid.py"],
 [("band code","bandCodeForRate"),("published table","bandcode.json via bandCodeInfo")])
prop("C15","Source identifier parsing and formatting are inverse",
 "Parsing the text of any network, station, location or channel source identifier gives an identifier of that level with the same codes, and formatting it gives the text back; identifiers are equal exactly when level and codes are. Text without the prefix or with a number of parts that is not one of the four levels is rejected, and the enclosing network, station and location of an identifier carry its codes, with an absent location formatted as empty.",
 "all codes (any characters except the separator), all strings for rejection",
 "Quantified over all strings; tests parse a few well-known identifiers.",
 ["fdsnsourceid.py"],
 [("parse","FDSNSourceId.parse"),("format","__str__ of the four identifier classes"),("hierarchy","locationSourceId / stationSourceId / networkSourceId / create*SourceId")])
prop("C16","Identifier validation and network classification match the rules",
 "Validation accepts an identifier exactly when network is 1-8 of A-Z 0-9, station 1-8 of A-Z 0-9 dash, location 0-8 of A-Z 0-9 dash but not '--', source non-empty and source and subsource A-Z 0-9, and each level agrees with the levels it contains. Network classification (SEED temporary, historical mapping with year, naming convention with year, test network excluded) holds exactly for the documented ASCII patterns.",
 "all strings, including non-ASCII digits and letters, for every code",
 "A pattern accepts an infinite set; tests try about twenty strings, all ASCII.",
 ["fdsnsourceid.py"],
 [("patterns","TEMP_NET_* / *_VALID"),("validate","validate of the four identifier classes"),("classification","NetworkSourceId.isSeedTempNet / isTempNetHistorical / isTempNetConvention / isTemporary")])
prop("C17","Old-style channel names convert to source identifiers and back",
 "Converting network, station, location and a three-character or separated channel code to a source identifier and back gives the same codes (band codes of one character; a separated code of three single characters comes back in its short form), through both the four-argument and the separator text form. The start year is appended exactly to SEED temporary network codes, where text that is not four digits or a number outside 1880-2100 is refused; channel codes of neither form are rejected.",
 "all codes of letters and digits (subsource may be empty), years as int or text, every separator that occurs in no code",
 "Quantified over all code strings and years; tests use a few channels.",
 ["fdsnsourceid.py"],
 [("from NSLC","FDSNSourceId.fromNslc / parseNslc"),("to NSLC","asNslc / shortChannelCode"),("year","NetworkSourceId.__init__")])
prop("C18","miniSEED2 record write and read round trip",
 "Writing any miniSEED2 record whose codes fit the format and reading it back gives the same codes, quality, sequence number, start time (to the stored precision), sample count, sample rate (to the precision of factor and multiplier), flags, time correction, blockettes and samples (a last unknown blockette may gain padding), in both byte orders, and writing that again gives the same bytes. The written record is always exactly the declared record length; content that does not fit is refused rather than making a longer or damaged record.",
 "all header field values within format widths, all supported payloads, record lengths and blockette lists",
 "Many fixed-width fields in two byte orders; tests check a few fields of default headers in one order.",
 ["miniseed.py"],
 [("write","MiniseedHeader.pack / packBTime / calcSeedMultipilerFactor / MiniseedRecord.pack / packB*"),("read","unpackMiniseedHeader / readMiniseed2Records / unpackBlockette*")])
prop("C19","miniSEED2 stream reading decodes every well-formed record",
 "Reading a stream of miniSEED2 records in either byte order yields one record per record in the stream, in order, with the header fields, blockettes (rate, data format, timing, and unknown ones kept verbatim) and payload bytes that the SEED layout defines, for any record lengths and blockette chain. The actual sample rate, encoding, byte order and microseconds given by blockettes override the fixed header, and with an identifier filter exactly the matching records are yielded.",
 "every sequence of well-formed records: byte order, record length exponent, blockette count, order and size, data offset, rate factor/multiplier signs; years 1900-2050",
 "Positions in the stream depend on the whole history of lengths read so far and on blockette chains; the tests read two files from one producer.",
 ["miniseed.py"],
 [("reader","readMiniseed2Records"),("blockettes","unpackBlockette / unpackBlockette100 / unpackBlockette1000 / unpackBlockette1001"),("byte order","unpackFixedHeaderGuessByteOrder"),("rate","MiniseedHeader.__init__")],over=("inputs","histories"))
prop("C20","Conversion from miniSEED2 to miniSEED3 preserves the record",
 "Converting a miniSEED2 record gives a miniSEED3 record with the same start instant (including blockette microseconds), sample rate, sample count and decoded samples whatever the source byte order and encoding, and the source identifier built from its codes. The calibration, time-questionable and clock-locked flag bits map to their defined miniSEED3 bits, and a quality other than D, a non-zero timing quality and a leap second are kept as extra headers. The mseed2to3 command converts every record of its input file, writing each once and in order.",
 "every miniSEED2 record: byte order, encoding, flags, timing blockettes, rates, dates",
 "Conversion errors depend on particular flag bits, byte order and microsecond values; one test converts one file.",
 ["mseed2to3.py","miniseed.py","mseed3.py"],
 [("convert","mseed2to3"),("command","mseed2to3.main")],over=("inputs","histories"))
prop("C21","Editing extra headers changes only the requested headers",
 "Setting extra headers at a pointer (or replacing all) in files writes back every record of each file in order, changing only the extra headers of the first matching record or, for the all form, of every matching record; payload, identifier and other header values stay identical and every written record still checks. Assigning, replacing or deleting a record's extra headers is reflected exactly when it is packed and read back.",
 "every file content, filter, pointer, JSON value, single or all form",
 "Which records are touched depends on the sequence of matches across files; the tests do not run the editing tool at all.",
 ["mseed3details.py","mseed3.py"],
 [("edit tool","do_set_eh"),("query tool","do_get_eh"),("record headers","MSeed3Record.eh / hasExtraHeaders")],over=("inputs","histories"))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
