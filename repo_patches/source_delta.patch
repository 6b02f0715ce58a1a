From d95c7136e08bc44c66f1141e86804a3908843be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 01/51] fix: codec errors are raised as codec exceptions, not
 TypeError from str + int

---
 src/simplemseed/seedcodec.py | 2 +-
 src/simplemseed/steim1.py    | 4 ++--
 src/simplemseed/steim2.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index 5eecf7c..ecf82c0 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -244,7 +244,7 @@ def encode(data, encoding=None, littleEndian=True):
             encoding = mseed3EncodingFromArrayTypecode(data.typecode, data.itemsize)
         else:
             raise UnsupportedCompressionType(
-                "Unable to guess encoding for data, encoding is " + encoding
+                f"Unable to guess encoding for data, encoding is {encoding}"
             )
     try:
         compCode = arrayTypecodeFromMSeed(encoding)
diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index cf44750..6342364 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -211,11 +211,11 @@ def encodeSteim1FrameBlock(
         raise SteimException("number of frames is a negative value")
 
     if offset < 0:
-        raise SteimException("Offset cannot be negatuve: " + offset)
+        raise SteimException(f"Offset cannot be negatuve: {offset}")
 
     if offset >= len(samples):
         raise SteimException(
-            "Offset bigger than samples array: " + offset + " >= " + len(samples)
+            f"Offset bigger than samples array: {offset} >= {len(samples)}"
         )
 
     # check if numpy array
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index edfc702..b608584 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -426,7 +426,7 @@ def encodeSteim2FrameBlock(
             nibble = 2
         else:
             raise SteimException(
-                "Unable to encode " + nbits + " bit difference in Steim2 format"
+                f"Unable to encode {nbits} bit difference in Steim2 format"
             )
 
         word = steimPackWord(diff, nbits, ndiff, bitmask, submask)
-- 
2.43.0


From ae9257fccc7e98de9c62b57eac89275bfbd67673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 02/51] fix: Steim encoders convert every integer numpy array
 to int32 and refuse values below -2^31

---
 src/simplemseed/steim1.py | 8 ++++----
 src/simplemseed/steim2.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 6342364..b17973c 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -224,10 +224,10 @@ def encodeSteim1FrameBlock(
             raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
         if np.issubdtype(samples.dtype, np.floating):
             raise SteimException(f"Cannot steim1 compress floating point numpy array: {samples.dtype}")
-        if np.issubdtype(samples.dtype, np.integer) and \
-                not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
+        if np.issubdtype(samples.dtype, np.integer) and samples.dtype != np.int32:
+            # differences must be taken as 32 bit ints, narrower or unsigned types wrap
+            if np.max(samples) > np.iinfo(np.int32).max or np.min(samples) < np.iinfo(np.int32).min:
+                raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)} cannot fit into 32 bit integer")
             samples = samples.astype(np.int32)
     elif isinstance(samples[0], float):
         raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index b608584..a6c70a9 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -326,10 +326,10 @@ def encodeSteim2FrameBlock(
             raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
         if np.issubdtype(samples.dtype, np.floating):
             raise SteimException(f"Cannot steim2 compress floating point numpy array: {samples.dtype}")
-        if np.issubdtype(samples.dtype, np.integer) and \
-                not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
+        if np.issubdtype(samples.dtype, np.integer) and samples.dtype != np.int32:
+            # differences must be taken as 32 bit ints, narrower or unsigned types wrap
+            if np.max(samples) > np.iinfo(np.int32).max or np.min(samples) < np.iinfo(np.int32).min:
+                raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)} cannot fit into 32 bit integer")
             samples = samples.astype(np.int32)
     if isinstance(samples[0], float):
         raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
-- 
2.43.0


From 236a30ca91b7ebc2c923694980a6fcdabed60e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 03/51] fix: mseed3 record refuses int64 data below -2^31
 instead of wrapping it, accepts empty int64 array

---
 src/simplemseed/mseed3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f160ab2..dd1a4f2 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -362,8 +362,9 @@ class MSeed3Record:
             # special case for int64
             if np.issubdtype(data.dtype, np.integer) and \
                     not np.can_cast(data.dtype, np.int32, casting="safe"):
-                if abs(np.max(data)) > np.iinfo(np.int32).max:
-                    raise Miniseed3Exception(f"max value of numpy array, {np.max(data)} cannot fit into 32 bit integer")
+                if len(data) > 0 and \
+                        (np.max(data) > np.iinfo(np.int32).max or np.min(data) < np.iinfo(np.int32).min):
+                    raise Miniseed3Exception(f"values of numpy array, {np.min(data)} to {np.max(data)} cannot fit into 32 bit integer")
                 data = data.astype(np.int32)
 
             encoding = mseed3EncodingFromNumpyDT(data.dtype)
-- 
2.43.0


From bd5e6379d55ea51fa8bdd6f8c06d5181059dc22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 04/51] fix: Steim1 decode of a frame whose control word does
 not start with 00 raises CodecException, not OverflowError

---
 src/simplemseed/steim1.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index b17973c..9d97eec 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -119,7 +119,11 @@ def extractSteim1Samples(
     offset: int,
 ) -> list:
     # get nibbles
-    nibbles = np.int32(getUint32(dataBytes, offset, False))
+    nibbles = getUint32(dataBytes, offset, False)
+    headNib = (nibbles >> 30) & 0x03
+    if headNib != 0:
+        raise CodecException(f"nibble bytes must start with 00, but was {headNib:02b}")
+    nibbles = np.int32(nibbles)
     currNibble = np.int32(0)
     temp = []  # 4 samples * 16 longwords, can't be more than 64
 
-- 
2.43.0


From 162c01b156b9e5706e787ef7debcc70413efb5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:17 +0000
Subject: [PATCH 05/51] fix: Steim decode skips unused words of the first frame
 and never indexes past its differences

---
 src/simplemseed/steim1.py | 20 ++++++++++----------
 src/simplemseed/steim2.py | 21 +++++++++++----------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 9d97eec..7d95435 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -75,13 +75,12 @@ def decodeSteim1(
             #  end = tempSamples[2]    # X(n) is byte 2 for frame 0
             firstData = 3  # d(0) is byte 3 for frame 0
 
-            # if bias was zero, then we want the first sample to be X(0) constant
-            if bias == 0:
-                lastValue = start - tempSamples[3]  # X(-1) = X(0) - d(0)
-
         for j in range(firstData, len(tempSamples)):
             if current >= numSamples:
                 break
+            # if bias was zero, then we want the first sample to be X(0) constant
+            if bias == 0 and current == 0:
+                lastValue = start - tempSamples[j]  # X(-1) = X(0) - d(0)
             samples[current] = lastValue + tempSamples[j]  # X(n) = X(n-1) + d(n)
 
             lastValue = samples[current]
@@ -143,12 +142,13 @@ def extractSteim1Samples(
         # It would seem that the W(0) word is swap-checked, though, which is confusing...
         # maybe it has to do with the reference to high-order bits for c(0)
         # switch (currNibble):
-        if currNibble == 0:
-            #  ("0 means header info")
-            # only include header info if offset is 0
-            if offset == 0:
-                temp.append(getInt32(dataBytes, offset + i * 4, False))
-                currNum += 1
+        if offset == 0 and i < 3:
+            # W0, X(0) and X(n) are header info, only in first frame
+            temp.append(getInt32(dataBytes, offset + i * 4, False))
+            currNum += 1
+        elif currNibble == 0:
+            #  ("0 means no data in this word")
+            pass
         elif currNibble == 1:
             #  ("1 means 4 one byte differences")
 
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index a6c70a9..73e792a 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -103,13 +103,12 @@ def decodeSteim2(
             # end = tempSamples[2]    # X(n) is byte 2 for frame 0
             firstData = 3  # d(0) is byte 3 for frame 0
 
-            # if bias was zero, then we want the first sample to be X(0) constant
-            if bias == 0:
-                lastValue = start - tempSamples[3]  # X(-1) = X(0) - d(0)
-
         for j in range(firstData, len(tempSamples)):
             if current >= numSamples:
                 break
+            # if bias was zero, then we want the first sample to be X(0) constant
+            if bias == 0 and current == 0:
+                lastValue = start - tempSamples[j]  # X(-1) = X(0) - d(0)
             samples[current] = lastValue + tempSamples[j]  # X(n) = X(n-1) + d(n)
 
             lastValue = samples[current]
@@ -169,12 +168,14 @@ def extractSteim2Samples(
         currNibble = (nibbles >> (30 - i * 2)) & 0x03
 
         # switch (currNibble):
-        if currNibble == 0:
-            # "0 means header info"
-            # only include header info if offset is 0
-            if offset == 0:
-                temp[currNum] = getInt32(dataBytes, offset + i * 4, False)
-                currNum += 1
+        if offset == 0 and i < 3:
+            # W0, X(0) and X(n) are header info, only in first frame
+            temp[currNum] = getInt32(dataBytes, offset + i * 4, False)
+            currNum += 1
+
+        elif currNibble == 0:
+            # "0 means no data in this word"
+            pass
 
         elif currNibble == 1:
 
-- 
2.43.0


From c70bc9a781c47cb0f2366a133e91af096ea077cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 06/51] fix: Steim encoders refuse a list with any float
 sample, not only the first

---
 src/simplemseed/steim1.py | 4 ++--
 src/simplemseed/steim2.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 7d95435..11025db 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -233,8 +233,8 @@ def encodeSteim1FrameBlock(
             if np.max(samples) > np.iinfo(np.int32).max or np.min(samples) < np.iinfo(np.int32).min:
                 raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)} cannot fit into 32 bit integer")
             samples = samples.astype(np.int32)
-    elif isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
+    elif any(isinstance(s, (float, np.floating)) for s in samples):
+        raise SteimException("Cannot steim1 compress floating point list, contains float samples")
 
     # all encoding will be contained within a frame block
     # Steim encoding 1
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index 73e792a..0049273 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -332,8 +332,8 @@ def encodeSteim2FrameBlock(
             if np.max(samples) > np.iinfo(np.int32).max or np.min(samples) < np.iinfo(np.int32).min:
                 raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)} cannot fit into 32 bit integer")
             samples = samples.astype(np.int32)
-    if isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
+    elif any(isinstance(s, (float, np.floating)) for s in samples):
+        raise SteimException("Cannot steim2 compress floating point list, contains float samples")
 
     # all encoding will be contained within a frame block
     # Steim encoding 2
-- 
2.43.0


From 99dd271086529389b095984e12d3062e19cf0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:45 +0000
Subject: [PATCH 07/51] fix: merge compares the sample rates of both records,
 not the second with itself

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index dd1a4f2..4e7603a 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -818,7 +818,7 @@ def areCompatible(ms3a: MSeed3Record, ms3b: MSeed3Record, timeTolFactor=0.5) ->
     """
     out = True
     out = out and ms3a.identifier == ms3b.identifier
-    out = out and ms3b.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
+    out = out and ms3a.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
     out = out and ms3a.header.encoding == ms3b.header.encoding
     out = out and ms3a.header.publicationVersion == ms3b.header.publicationVersion
     out = out and ms3a.endtime < ms3b.starttime
-- 
2.43.0


From c73f686df281e787fffc4898f5cdf1a3be416210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:48 +0000
Subject: [PATCH 08/51] fix: record can still be packed after deleting its
 extra headers

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 4e7603a..dbeeddf 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -417,7 +417,7 @@ class MSeed3Record:
 
     @eh.deleter
     def eh(self):
-        del self._eh
+        self._eh = None
         self.header.extraHeadersLength = 0
 
     def parseIdentifier(self) -> FDSNSourceId:
-- 
2.43.0


From c34a613267af571b9772b84988a48c670256fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 09/51] fix: sample period, end time and summary of a mseed3
 record without sample rate do not divide by zero

---
 src/simplemseed/mseed3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index dbeeddf..eb466fe 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -179,7 +179,9 @@ class MSeed3Header:
 
     @property
     def samplePeriod(self):
-        """ Sampling as a period, number of seconds between samples."""
+        """ Sampling as a period, number of seconds between samples. Zero if no rate."""
+        if self.sampleRatePeriod == 0:
+            return 0
         return (
             -1 * self.sampleRatePeriod
             if self.sampleRatePeriod < 0
-- 
2.43.0


From e882792b4e5ded81b1c252087cd68649d75a627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:54 +0000
Subject: [PATCH 10/51] fix: start time with leap second 60 can be read in both
 formats

---
 src/simplemseed/miniseed.py | 3 +--
 src/simplemseed/mseed3.py   | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 639fb8b..38ed10f 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -256,10 +256,9 @@ class MiniseedHeader:
                 1,
                 hour=self.btime.hour,
                 minute=self.btime.minute,
-                second=self.btime.second,
                 microsecond=100 * self.btime.tenthMilli,
                 tzinfo=timezone.utc,
-            ) + timedelta(days=self.btime.yday - 1)
+            ) + timedelta(days=self.btime.yday - 1, seconds=self.btime.second)
         else:
             raise MiniseedException(
                 f"unknown type of starttime {type(starttime)}"
diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index eb466fe..6fbe7d4 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -239,12 +239,11 @@ class MSeed3Header:
             1,
             hour=self.hour,
             minute=self.minute,
-            second=self.second,
             microsecond=int(self.nanosecond / 1000),
             tzinfo=timezone.utc,
         )
-        # start Jan 1, so shift by dayOfYear minus 1
-        doyMinusOne = timedelta(days=self.dayOfYear - 1)
+        # start Jan 1, so shift by dayOfYear minus 1, second may be 60 in a leap second
+        doyMinusOne = timedelta(days=self.dayOfYear - 1, seconds=self.second)
         return st + doyMinusOne
 
     @starttime.setter
-- 
2.43.0


From 6aad9fe7979a43a7961f9e40d2d45ec675cb0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:57 +0000
Subject: [PATCH 11/51] fix: merged reading yields the pending record before a
 record that cannot be merged, keeping stream order

---
 src/simplemseed/mseed3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 6fbe7d4..2ed3e83 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -799,6 +799,10 @@ def readMSeed3Records(
                 else:
                     prev = mlist[0]
             else:
+                if prev is not None:
+                    # keep stream order, pending merge comes before this record
+                    yield prev
+                    prev = None
                 yield ms3
         else:
             # failed match, can skip ahead to next record
-- 
2.43.0


From ea263ec1c87520b6459b3d8054c036cc80b54f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 12/51] fix: record size is known for a record with an empty
 data payload

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 2ed3e83..cbb080b 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -508,7 +508,7 @@ class MSeed3Record:
         if (
             self.header.identifierLength is not None
             and self.header.extraHeadersLength is not None
-            and self.header.dataLength
+            and self.header.dataLength is not None
         ):
             return (
                 FIXED_HEADER_SIZE
-- 
2.43.0


From 57c8f9968a4b077a57d4926445cec876750c025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 13/51] fix: big endian primitive encoded segment is byte
 swapped for a mseed3 record, not stored as is

---
 src/simplemseed/mseed3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index cbb080b..f71a894 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -10,6 +10,7 @@ import crc32c
 
 from .seedcodec import (
     canDecompress,
+    isPrimitiveCompression,
     decompress,
     encode,
     STEIM1,
@@ -343,7 +344,11 @@ class MSeed3Record:
             encoding = 0
             numSamples = 0
         elif isinstance(data, EncodedDataSegment):
-            self._data = data.dataBytes
+            if isPrimitiveCompression(data.compressionType) and not data.littleEndian:
+                # primitive payload must be little endian in mseed3
+                self._data = data.decode()
+            else:
+                self._data = data.dataBytes
             encoding = data.compressionType
             numSamples = data.numSamples
         elif isinstance(data, (bytes, bytearray)):
-- 
2.43.0


From 6a6a827372833814300c10ff62a21cfdb73f5f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 14/51] fix: mseed3 record refuses a list that its encoding
 would truncate instead of altering the samples

---
 src/simplemseed/mseed3.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f71a894..59d2c06 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -13,6 +13,8 @@ from .seedcodec import (
     isPrimitiveCompression,
     decompress,
     encode,
+    SHORT,
+    INTEGER,
     STEIM1,
     STEIM2,
     STEIM3,
@@ -384,6 +386,11 @@ class MSeed3Record:
             else:
                 encoding = self.header.encoding
             self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            # floats can round to width of encoding, but never to integer and integers must be exact
+            asGiven = np.array(data)
+            if (encoding in (SHORT, INTEGER) or not np.issubdtype(asGiven.dtype, np.floating)) and \
+                    not np.array_equal(self._data, asGiven):
+                raise Miniseed3Exception(f"list of data cannot be represented in encoding {encoding}")
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
         else:
-- 
2.43.0


From 7afb3395d75d04e9251c7aba0ab4f3276c1d1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 15/51] fix: miniseed2 sample rate factor and multiplier are
 read as signed

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 38ed10f..32eec3c 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -572,7 +572,7 @@ def unpackMiniseedHeader(recordBytes, endianChar=">"):
         timeCorr,
         dataOffset,
         blocketteOffset,
-    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHHHBBBBiHH", recordBytes[0:48])
+    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHhhBBBBiHH", recordBytes[0:48])
     if endianChar == ">":
         byteorder = BIG_ENDIAN
     else:
-- 
2.43.0


From f826c682da379522ddbecb0705f13b8e58acb968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:37 +0000
Subject: [PATCH 16/51] fix: miniseed2 header pack writes quality, flags and
 time correction

---
 src/simplemseed/miniseed.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 32eec3c..a1f5c40 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -162,7 +162,7 @@ class MiniseedHeader:
             header,
             0,
             seq,
-            b"D",
+            self.dataquality.ljust(1).encode("UTF-8"),
             b" ",
             sta,
             loc,
@@ -182,6 +182,16 @@ class MiniseedHeader:
             tempsampRateFactor,
             tempsampRateMult,
         )
+        struct.pack_into(
+            self.endianChar + "BBBBi",
+            header,
+            36,
+            self.actFlag,
+            self.ioFlag,
+            self.qualFlag,
+            self.numBlockettes,
+            self.timeCorr,
+        )
         return header
 
     def calcSeedMultipilerFactor(self):
-- 
2.43.0


From c5bdf51acb43ec82a2c7bff205ee3bdc347175d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 17/51] fix: miniseed2 blockette 100 sample rate is a 32 bit
 float, created blockettes 100 and 1001 have their own number

---
 src/simplemseed/miniseed.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index a1f5c40..81fc6f7 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -444,18 +444,18 @@ class MiniseedRecord:
 
     def packB100(self, recordBytes, offset, b):
         struct.pack_into(
-            self.header.endianChar + "HHixxxx",
+            self.header.endianChar + "HHfxxxx",
             recordBytes,
             offset,
             b.blocketteNum,
             b.nextOffset,
             b.sampleRate,
         )
-        return offset + 8
+        return offset + 12
 
     def createB100(self):
         return Blockette100(
-            1000,
+            100,
             0,
             self.header.sampleRate,
         )
@@ -498,7 +498,7 @@ class MiniseedRecord:
     def createB1001(self):
         microseconds = self.starttime().microsecond % 100
         return Blockette1001(
-            1000,
+            1001,
             0,
             0,  # time quality
             microseconds,  # microseconds
@@ -642,7 +642,7 @@ def unpackBlockette(recordBytes, offset, endianChar, dataOffset):
 def unpackBlockette100(recordBytes, offset, endianChar):
     """named Tuple of blocketteNum, nextOffset, sample rate"""
     blocketteNum, nextOffset, sampRate = struct.unpack(
-        endianChar + "HHixxxx", recordBytes[offset : offset + 12]
+        endianChar + "HHfxxxx", recordBytes[offset : offset + 12]
     )
     return Blockette100(blocketteNum, nextOffset, sampRate)
 
-- 
2.43.0


From 832c90d6088c0a632e19192f86d5766d116c0f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:42 +0000
Subject: [PATCH 18/51] fix: miniseed2 header is written in the byte order its
 blockette 1000 declares

---
 src/simplemseed/miniseed.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 81fc6f7..1af7363 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -93,11 +93,6 @@ class MiniseedHeader:
         self.numSamples = numSamples  # Number of samples in record */
         self.encoding = encoding  # Data encoding format */
         self.byteorder = byteorder  # Original/Final byte order of record */
-        if self.byteorder == 1:
-            self.endianChar = ">"
-        else:
-            self.endianChar = "<"
-
         self.sampRateFactor = sampRateFactor
         self.sampRateMult = sampRateMult
         if sampleRate == 0 and not (sampRateFactor == 0 and sampRateMult == 0):
@@ -135,6 +130,11 @@ class MiniseedHeader:
         self.recordLengthExp = 9  # default to 512
         self.recordLength = 2**self.recordLengthExp
 
+    @property
+    def endianChar(self):
+        """ struct byte order character, follows byteorder. """
+        return ">" if self.byteorder == BIG_ENDIAN else "<"
+
     def codes(self, sep="."):
         return "{n}{sep}{s}{sep}{l}{sep}{c}".format(
             sep=sep,
-- 
2.43.0


From 64d572f7b1e22eefe86a0192222f2df525010c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 19/51] fix: miniseed2 record that does not fit its record
 length is refused

---
 src/simplemseed/miniseed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 1af7363..1dc9e32 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -418,6 +418,10 @@ class MiniseedRecord:
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
         else:
             self.packData(recordBytes, offset, self._data)
+        if len(recordBytes) != self.header.recordLength:
+            raise MiniseedException(
+                f"not enough bytes in record to fit blockettes and data: {len(recordBytes)} > {self.header.recordLength}"
+            )
         return recordBytes
 
     def packBlockette(self, recordBytes, offset, b):
-- 
2.43.0


From 2906a87e16330b2a27f3282e37e8417152ba4533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 20/51] fix: miniseed2 pack links the blockettes it writes, not
 the offsets they were read from

---
 src/simplemseed/miniseed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 1dc9e32..b6cbb1e 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -408,8 +408,12 @@ class MiniseedRecord:
             # make sure we have a b1000 to be valid miniseed
             self.blockettes.insert(0, self.createB1000())
         recordBytes[39] = len(self.blockettes)
-        for b in self.blockettes:
+        for i, b in enumerate(self.blockettes):
+            bOffset = offset
             offset = self.packBlockette(recordBytes, offset, b)
+            # blockettes are packed one after another, so offset in b may be stale
+            nextOffset = offset if i < len(self.blockettes) - 1 else 0
+            struct.pack_into(self.header.endianChar + "H", recordBytes, bOffset + 2, nextOffset)
         # set offset to data in header
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
-- 
2.43.0


From e1a4e386e64955a6979df0e85f66333155921ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:53 +0000
Subject: [PATCH 21/51] fix: miniseed2 start time does not drift when a record
 with blockette 1001 is written again

---
 src/simplemseed/miniseed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index b6cbb1e..32bb554 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -397,6 +397,11 @@ class MiniseedRecord:
         recordBytes = bytearray(self.header.recordLength)
         recordBytes[0:48] = self.header.pack()
 
+        # blockette 1001 microseconds are added to header time on read
+        microseconds = sum(b.microseconds for b in self.blockettes if b.blocketteNum == 1001)
+        if microseconds != 0:
+            self.header.packBTime(recordBytes, self.starttime() - timedelta(microseconds=microseconds))
+
         offset = 48
         struct.pack_into(self.header.endianChar + "H", recordBytes, 46, offset)
         hasB1000 = False
-- 
2.43.0


From e625829468448afd0202992f41d6fe2d4d148172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:55 +0000
Subject: [PATCH 22/51] fix: miniseed2 compressed record can still be packed
 after its data was decompressed

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 32bb554..801da9b 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -423,7 +423,7 @@ class MiniseedRecord:
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
-        if self.encodedDataBytes is not None and self._data is None:
+        if self.encodedDataBytes is not None:
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
         else:
             self.packData(recordBytes, offset, self._data)
-- 
2.43.0


From d78dcea89be57168b4c50b26cd013d070340ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 23/51] fix: miniseed2 zero rate factor, multiplier or
 blockette 100 rate does not divide by zero

---
 src/simplemseed/miniseed.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 801da9b..7f3ce3c 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -95,7 +95,7 @@ class MiniseedHeader:
         self.byteorder = byteorder  # Original/Final byte order of record */
         self.sampRateFactor = sampRateFactor
         self.sampRateMult = sampRateMult
-        if sampleRate == 0 and not (sampRateFactor == 0 and sampRateMult == 0):
+        if sampleRate == 0 and not (sampRateFactor == 0 or sampRateMult == 0):
             # calc sampleRate from sampRateFactor and sampRateMult
             if sampRateFactor > 0:
                 if sampRateMult > 0:
@@ -235,9 +235,12 @@ class MiniseedHeader:
 
     def setSampleRate(self, sampleRate):
         self.sampleRate = sampleRate
-        self.sampPeriod = timedelta(
-            microseconds=MICRO / self.sampleRate
-        )  # Nominal sample period (Sec) */
+        if self.sampleRate == 0:
+            self.sampPeriod = timedelta(microseconds=0)
+        else:
+            self.sampPeriod = timedelta(
+                microseconds=MICRO / self.sampleRate
+            )  # Nominal sample period (Sec) */
 
     def setStartTime(self, starttime):
         if type(starttime).__name__ == "str":
-- 
2.43.0


From 66ef2ed425f1def16ed94ef1c6064ba75896376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 24/51] fix: miniseed2 sample rate outside the range of factor
 and multiplier is refused instead of written as zero

---
 src/simplemseed/miniseed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 7f3ce3c..96a7034 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -217,6 +217,10 @@ class MiniseedHeader:
             # don't get too close to the max for a short
             factor = min(factor, SHORT_MAX_VALUE - 2)
             divisor = round(-1 * factor * self.sampleRate)
+        if self.sampleRate != 0 and (factor == 0 or divisor == 0):
+            raise MiniseedException(
+                f"sample rate cannot be represented by factor and multiplier: {self.sampleRate}"
+            )
         return factor, divisor
 
     def packBTime(self, header, time):
-- 
2.43.0


From 0d752b9f2651888227f6be0036b0772d850f8d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 25/51] fix: miniseed2 reader finds first blockette by its
 offset and does not read past a short record without data

---
 src/simplemseed/miniseed.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 96a7034..a2109a9 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -747,6 +747,9 @@ def readMiniseed2Records(fileptr, matchsid=None):
         if header.numBlockettes > 0:
             blocketteNextOffset = header.blocketteOffset
             prevBOffset = blocketteNextOffset
+            if blocketteNextOffset > numRecBytesRead:
+                # first blockette might not be directly after fixed header
+                numRecBytesRead += len(fileptr.read(blocketteNextOffset - numRecBytesRead))
             while blocketteNextOffset > 0 and len(blockettes) < header.numBlockettes:
                 try:
                     blocketteFourBytes = fileptr.read(4)
@@ -761,6 +764,9 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         numBytesToRead = blocketteNextOffset-prevBOffset-4
                     elif header.dataOffset > prevBOffset:
                         numBytesToRead = header.dataOffset-prevBOffset-4
+                    elif _blocketteNum == 1000:
+                        # record length not known yet
+                        numBytesToRead = B1000_SIZE-4
                     else:
                         numBytesToRead = header.recordLength-prevBOffset-4
                     blocketteBytes = blocketteFourBytes + fileptr.read(numBytesToRead)
-- 
2.43.0


From 4ed1b690048fa6e5a9871e43aa8bfa7337282e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 26/51] fix: miniseed2 reader keeps leap second in btime when
 blockette 1001 adds microseconds

---
 src/simplemseed/miniseed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index a2109a9..56ff54d 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -787,9 +787,13 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     elif type(b).__name__ == "Blockette100":
                         header.setSampleRate(b.sampleRate)
                     elif type(b).__name__ == "Blockette1001":
+                        btime = header.btime
                         header.setStartTime(
                             header.starttime + timedelta(microseconds=b.microseconds)
                         )
+                        if btime.second == 60 and header.btime.second == 0:
+                            # keep leap second
+                            header.btime = btime._replace(tenthMilli=header.btime.tenthMilli)
                     prevBOffset += len(blocketteBytes)
                     numRecBytesRead += len(blocketteBytes)
                 except struct.error as e:
-- 
2.43.0


From 37bcfcd1cdbcedd2513f51aa0ae314a4cc4d6c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:09 +0000
Subject: [PATCH 27/51] fix: miniseed2 record refuses a list that its encoding
 would truncate instead of altering the samples

---
 src/simplemseed/miniseed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 56ff54d..0c5a9d3 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -345,6 +345,11 @@ class MiniseedRecord:
             else:
                 encoding = self.header.encoding
             self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            # floats can round to width of encoding, but never to integer and integers must be exact
+            asGiven = np.array(data)
+            if (encoding in (ENC_SHORT, ENC_INT) or not np.issubdtype(asGiven.dtype, np.floating)) and \
+                    not np.array_equal(self._data, asGiven):
+                raise MiniseedException(f"list of data cannot be represented in encoding {encoding}")
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
             byteorder = LITTLE_ENDIAN if sys.byteorder == "little" else BIG_ENDIAN
-- 
2.43.0


From 60da91aa5a4c84023c5281ce2055c93f12b8c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 28/51] fix: mseed2to3 maps calibration, time questionable and
 clock locked flag bits to their mseed3 bits

---
 src/simplemseed/mseed2to3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 0ea4919..2f90813 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -19,7 +19,8 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
 
     ms2H = ms2.header
     ms3Header.flags = (
-        (ms2H.actFlag & 1) * 2 + (ms2H.ioFlag & 64) * 4 + (ms2H.qualFlag & 16) * 8
+        # calibration, time tag questionable, clock locked
+        (ms2H.actFlag & 1) | ((ms2H.qualFlag & 128) >> 6) | ((ms2H.ioFlag & 32) >> 3)
     )
     ms3Header.publicationVersion = 0
 
-- 
2.43.0


From 2108ce64c9e2d53e9a57e3a1f6014ea55fab8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 29/51] fix: mseed2to3 keeps the values of big endian primitive
 data and converts records without data

---
 src/simplemseed/mseed2to3.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 2f90813..3945eb4 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -6,7 +6,7 @@ import sys
 from .mseed3 import MSeed3Record, MSeed3Header, UNKNOWN_PUBLICATION_VERSION
 from .miniseed import MiniseedRecord, MiniseedException, readMiniseed2Records
 from .fdsnsourceid import FDSNSourceId
-from .seedcodec import isPrimitiveCompression, BIG_ENDIAN
+from .seedcodec import isPrimitiveCompression, mseed3EncodingFromNumpyDT, BIG_ENDIAN, DWWSSN
 from .version import VERSION
 
 
@@ -52,14 +52,19 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     ms3Header.encoding = b1000.encoding
     ms3Header.publicationVersion = UNKNOWN_PUBLICATION_VERSION
     if ms2.encodedDataBytes is not None:
-        if isPrimitiveCompression(b1000.encoding) and ms2H.byteorder == BIG_ENDIAN:
+        if (isPrimitiveCompression(b1000.encoding) or b1000.encoding == DWWSSN) \
+                and ms2H.byteorder == BIG_ENDIAN and ms2H.numSamples > 0:
             # need to decompress to byte swap primitive array
-            data = ms2.decompressed().byteswap()
+            data = ms2.decompressed()
+            ms3Header.encoding = mseed3EncodingFromNumpyDT(data.dtype)
         else:
             ms3Header.dataLength = len(ms2.encodedDataBytes)
             data = ms2.encodedDataBytes
     else:
         data = ms2.decompressed()
+        if data is None:
+            # no data in record, keep encoding
+            data = bytes(0)
     identifier = FDSNSourceId.fromNslc(
         ms2H.network, ms2H.station, ms2H.location, ms2H.channel
     )
-- 
2.43.0


From f5ae2e5d33418906d8fb93c821df1d78891fbe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 30/51] fix: mseed2to3 start time has the microseconds of
 blockette 1001 exactly once

---
 src/simplemseed/mseed2to3.py | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 3945eb4..224bec0 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -29,7 +29,8 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     ms3Header.hour = ms2H.btime.hour
     ms3Header.minute = ms2H.btime.minute
     ms3Header.second = ms2H.btime.second
-    ms3Header.nanosecond = ms2H.btime.tenthMilli * 100000
+    # start time already includes blockette 1001 microseconds
+    ms3Header.nanosecond = ms2.starttime().microsecond * 1000
     if ms2.header.sampleRate == 0:
         ms3Header.sampleRatePeriod = 0
     else:
@@ -74,7 +75,6 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     if ms2H.dataquality != 0 and ms2H.dataquality != "D":
         fdsnExtras["DataQuality"] = ms2H.dataquality
         ms3Extras["FDSN"] = fdsnExtras
-    nanos = 0
     for b in ms2.blockettes:
         if b.blocketteNum == 100:
             ms3Header.sampleRatePeriod = b.sampleRate
@@ -82,31 +82,12 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
             if "Time" not in fdsnExtras:
                 fdsnExtras["Time"] = {}
             fdsnExtras["Time"]["Quality"] = b.timeQuality
-            nanos = 1000 * b.microseconds
 
     if ms2H.btime.second == 60:
         if "Time" not in fdsnExtras:
             fdsnExtras["Time"] = {}
         fdsnExtras["Time"]["LeapSecond"] = 1
 
-    ms3Header.nanosecond += nanos
-    if ms3Header.nanosecond < 0:
-        ms3Header.second -= 1
-        ms3Header.nanosecond += 1000000000
-        if ms3Header.second < 0:
-            # might be wrong for leap seconds
-            ms3Header.second += 60
-            ms3Header.minute -= 1
-            if ms3Header.minute < 0:
-                ms3Header.minute += 60
-                ms3Header.hour -= 1
-                if ms3Header.hour < 0:
-                    ms3Header.hour += 24
-                    ms3Header.dayOfYear = -1
-                    if ms3Header.dayOfYear < 0:
-                        # wrong for leap years
-                        ms3Header.year -= 1
-                        ms3Header.dayOfYear += 365 if ms3Header.year % 4 != 0 else 366
     if len(fdsnExtras) > 0:
         ms3Extras["FDSN"] = fdsnExtras
     if len(ms3Extras) == 0:
-- 
2.43.0


From d1e4132b5617b8d8b2bbc8f3fd6c7418262ee516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 31/51] fix: source id patterns accept only ASCII digits

---
 src/simplemseed/fdsnsourceid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index d214a5e..3289b46 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -14,29 +14,29 @@ from .version import VERSION
 
 
 
-TEMP_NET_SEED = re.compile(r"[\dXYZ][A-Z\d]")
+TEMP_NET_SEED = re.compile(r"[\dXYZ][A-Z\d]", re.ASCII)
 """
 Older SEED style temp networks, like XD. Starts with XYZ or a digit.
 """
 
-TEMP_NET_MAPPING = re.compile(r"[\dXYZ][A-Z\d]\d{4}")
+TEMP_NET_MAPPING = re.compile(r"[\dXYZ][A-Z\d]\d{4}", re.ASCII)
 """
 Mapping of older SEED style temp networks to include start year,
 like XD maps to XD1994. Starts with XYZ or a digit and ends with 4 digit year.
 """
 
-TEMP_NET_CONVENTION = re.compile(r"[A-Z\d]{1,4}\d{4}")
+TEMP_NET_CONVENTION = re.compile(r"[A-Z\d]{1,4}\d{4}", re.ASCII)
 """
 Network codes for temporary networks convention, ends with 4 digit year.
 """
 
-NET_VALID = re.compile(r"[A-Z\d]{1,8}")
+NET_VALID = re.compile(r"[A-Z\d]{1,8}", re.ASCII)
 "Regular expression for network code"
-STATION_VALID = re.compile(r"[A-Z\d-]{1,8}")
+STATION_VALID = re.compile(r"[A-Z\d-]{1,8}", re.ASCII)
 "Regular expression for station code"
-LOCATION_VALID = re.compile(r"[A-Z\d-]{0,8}")
+LOCATION_VALID = re.compile(r"[A-Z\d-]{0,8}", re.ASCII)
 "Regular expression for location code"
-SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z\d]+") # current spec has no length restrictions
+SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z\d]+", re.ASCII) # current spec has no length restrictions
 "Regular expression for source and subsource codes"
 
 FDSN_PREFIX = "FDSN:"
-- 
2.43.0


From 18d23a38ebc572cbd2de78df210739c7f776b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 32/51] fix: response lower bound of exactly 10 seconds is
 broadband as in band code table

---
 src/simplemseed/fdsnsourceid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 3289b46..7dcac38 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -560,19 +560,19 @@ def bandCodeForRate(
     if sampRate >= 5000:
         return "J"
     if 1000 <= sampRate < 5000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "F"
         return "G"
     if 250 <= sampRate < 1000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "C"
         return "D"
     if 80 <= sampRate < 250:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "H"
         return "E"
     if 10 <= sampRate < 80:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "B"
         return "S"
     if 1 < sampRate < 10:
-- 
2.43.0


From 96ab5dc9c6e03d325fdb8ce2c1d724f1da106b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 33/51] fix: channel source id without location is formatted
 with empty location, not None

---
 src/simplemseed/fdsnsourceid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 7dcac38..452332b 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -148,6 +148,8 @@ class FDSNSourceId:
             self.networkCode = networkCode.networkCode
         else:
             self.networkCode = networkCode
+        if locationCode is None:
+            locationCode = ""
         self.stationCode = stationCode
         self.locationCode = locationCode
         self.bandCode = bandCode
-- 
2.43.0


From d017cc9d688dab0c618b94f65501e315ce141555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 34/51] fix: channel code with trailing characters after
 subsource is rejected instead of cut

---
 src/simplemseed/fdsnsourceid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 452332b..a5f245c 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -234,7 +234,7 @@ class FDSNSourceId:
             subsource = channelCode[2]
         else:
             b_s_ss = r"(\w)_(\w+)_(\w*)"
-            match = re.match(b_s_ss, channelCode)
+            match = re.fullmatch(b_s_ss, channelCode)
             if match:
                 band = match[1]
                 source = match[2]
-- 
2.43.0


From f97d9a7b6fa6af0e2c444119ffa5dd2b785fc37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 35/51] fix: network start year as text must be four digits

---
 src/simplemseed/fdsnsourceid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index a5f245c..c19b547 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -343,7 +343,7 @@ class NetworkSourceId:
         self.networkCode = networkCode
         if self.isSeedTempNet() and startYear is not None:
             if isinstance(startYear, str):
-                if len(startYear) != 4:
+                if not re.fullmatch("[0-9]{4}", startYear):
                     raise FDSNSourceIdException(f"Start year for network be 4 digit year, {startYear}")
             elif isinstance(startYear, int):
                 if startYear<1880 or 2100<startYear:
-- 
2.43.0


From 7147bce29ca0952c2ccf22806923115b695ec1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:34 +0000
Subject: [PATCH 36/51] fix: setting extra headers with match keeps the records
 that do not match

---
 src/simplemseed/mseed3details.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 27616a5..cc2de70 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -4,6 +4,7 @@ import argparse
 from datetime import datetime
 import json
 import os
+import re
 import sys
 from jsonpointer import set_pointer, JsonPointer, JsonPointerException
 from .mseed3 import readMSeed3Records
@@ -107,6 +108,7 @@ def do_get_eh(
 
 def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=False):
     looking = True
+    matchPat = re.compile(matchsid) if matchsid is not None else None
     setjson = json.loads(setval)
     now = datetime.utcnow().strftime("%Y%m%dT%H%M%S.%f")
     # empty or "/" mean replace all extra headers
@@ -115,8 +117,10 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
         tmpfile = f"{ms3file}_tmp{now}"
         with open(tmpfile, "wb") as fp:
             with open(ms3file, "rb") as inms3file:
-                for ms3 in readMSeed3Records(inms3file, matchsid=matchsid):
-                    if looking or setall:
+                for ms3 in readMSeed3Records(inms3file):
+                    # records that do not match must be kept in file, unchanged
+                    matched = matchPat is None or matchPat.search(ms3.identifier) is not None
+                    if matched and (looking or setall):
                         looking = False
                         # only set in first record
                         if usePointer:
-- 
2.43.0


From 0d6b93e693e67b82acf24d21edb9fcce9bff2a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:38 +0000
Subject: [PATCH 37/51] fix: replacing all extra headers takes effect

---
 src/simplemseed/mseed3details.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index cc2de70..6475432 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -127,7 +127,7 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
                             ehptr = set_pointer(ms3.eh, setptr, setjson)
                         else:
                             # replace all
-                            ehptr = setjson
+                            ms3.eh = ehptr = setjson
                         if verbose:
                             print(ms3.summary())
                             print(f"  {json.dumps(ehptr)}")
-- 
2.43.0


From dca17ced3568eaa598f18d883ca2cc51413642da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 38/51] fix: merge takes only the sample bytes of a padded
 payload

---
 src/simplemseed/mseed3.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 59d2c06..30d7d5d 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -42,6 +42,9 @@ MS_FORMAT_VERSION_3 = 3
 UNKNOWN_PUBLICATION_VERSION = 0
 """const for unknown data version, 0 """
 
+PRIMITIVE_SAMPLE_BYTES = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8}
+"""const bytes per sample for primitive encodings, only these are mergable."""
+
 CRC_OFFSET = 28
 """const for offset to crc in record, 28"""
 
@@ -870,15 +873,22 @@ def mseed3merge(ms3a: MSeed3Record, ms3b: MSeed3Record) -> list[MSeed3Record]:
     elif ms3a is None and ms3b is None:
         # maybe should raise instead???
         out = [None]
-    elif ms3a.header.encoding == 0 or ms3a.header.encoding > 5:
+    elif ms3a.header.encoding not in PRIMITIVE_SAMPLE_BYTES:
         # only primitve encoding currently are mergable
         pass
     elif areCompatible(ms3a, ms3b):
         header = ms3a.header.clone()
         header.numSamples += ms3b.header.numSamples
         encodedDataBytes = bytearray()
-        encodedDataBytes.extend(ms3a.encodedDataBytes())
-        encodedDataBytes.extend(ms3b.encodedDataBytes())
+        for ms3 in (ms3a, ms3b):
+            # payload may be padded, as when converted from miniseed2
+            numBytes = ms3.header.numSamples * PRIMITIVE_SAMPLE_BYTES[ms3.header.encoding]
+            dataBytes = ms3.encodedDataBytes()[:numBytes]
+            if len(dataBytes) != numBytes:
+                raise Miniseed3Exception(
+                    f"Not enough bytes for {ms3.header.numSamples} samples: {len(dataBytes)}"
+                )
+            encodedDataBytes.extend(dataBytes)
         if ms3a.hasExtraHeaders():
             eh = json.loads(json.dumps(ms3a.eh))
         else:
-- 
2.43.0


From 3291b32e46916f6690dd999994d6e2297b96d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 39/51] fix: miniseed2 end time does not accumulate the
 rounding of the sample period

---
 src/simplemseed/miniseed.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 0c5a9d3..ee6ce22 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -397,10 +397,16 @@ class MiniseedRecord:
         return self.header.starttime
 
     def endtime(self):
-        return self.starttime() + self.header.sampPeriod * (self.header.numSamples - 1)
+        return self._sampleTime(self.header.numSamples - 1)
 
     def next_starttime(self):
-        return self.starttime() + self.header.sampPeriod * (self.header.numSamples)
+        return self._sampleTime(self.header.numSamples)
+
+    def _sampleTime(self, index):
+        # sampPeriod is rounded to microseconds, so multiplying it would accumulate the rounding
+        if self.header.sampleRate == 0:
+            return self.starttime()
+        return self.starttime() + timedelta(seconds=index / self.header.sampleRate)
 
     def clone(self):
         return unpackMiniseedRecord(self.pack())
-- 
2.43.0


From b6c9b282cfdbb95d5f77bdb97707425e49a9592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 40/51] fix: Steim encoders refuse a list with a sample outside
 32 bits instead of wrapping it

---
 src/simplemseed/steim1.py | 2 ++
 src/simplemseed/steim2.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 11025db..9a65baf 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -235,6 +235,8 @@ def encodeSteim1FrameBlock(
             samples = samples.astype(np.int32)
     elif any(isinstance(s, (float, np.floating)) for s in samples):
         raise SteimException("Cannot steim1 compress floating point list, contains float samples")
+    elif max(samples) > np.iinfo(np.int32).max or min(samples) < np.iinfo(np.int32).min:
+        raise SteimException(f"values of list, {min(samples)} to {max(samples)} cannot fit into 32 bit integer")
 
     # all encoding will be contained within a frame block
     # Steim encoding 1
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index 0049273..b95781e 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -334,6 +334,8 @@ def encodeSteim2FrameBlock(
             samples = samples.astype(np.int32)
     elif any(isinstance(s, (float, np.floating)) for s in samples):
         raise SteimException("Cannot steim2 compress floating point list, contains float samples")
+    elif max(samples) > np.iinfo(np.int32).max or min(samples) < np.iinfo(np.int32).min:
+        raise SteimException(f"values of list, {min(samples)} to {max(samples)} cannot fit into 32 bit integer")
 
     # all encoding will be contained within a frame block
     # Steim encoding 2
-- 
2.43.0


From 63a8b84cb724d14ba97c50d3824ab91a6017a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 41/51] fix: miniseed2 codes too long for the header are
 refused instead of cut

---
 src/simplemseed/miniseed.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index ee6ce22..65b2061 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -152,11 +152,11 @@ class MiniseedHeader:
 
     def pack(self):
         header = bytearray(48)
-        net = self.network.ljust(2).encode("UTF-8")
-        sta = self.station.ljust(5).encode("UTF-8")
-        loc = self.location.ljust(2).encode("UTF-8")
-        chan = self.channel.ljust(3).encode("UTF-8")
-        seq = ("%06d" % self.sequence_number).encode("UTF-8")
+        net = self._fixedWidth(self.network, 2)
+        sta = self._fixedWidth(self.station, 5)
+        loc = self._fixedWidth(self.location, 2)
+        chan = self._fixedWidth(self.channel, 3)
+        seq = self._fixedWidth("%06d" % self.sequence_number, 6)
         struct.pack_into(
             self.endianChar + "6scc5s2s3s2s",
             header,
@@ -194,6 +194,12 @@ class MiniseedHeader:
         )
         return header
 
+    def _fixedWidth(self, text, width):
+        encoded = text.ljust(width).encode("UTF-8")
+        if len(encoded) > width:
+            raise MiniseedException(f"does not fit in {width} bytes of header: {text}")
+        return encoded
+
     def calcSeedMultipilerFactor(self):
         SHORT_MIN_VALUE = -1 * math.pow(2, 15)
         SHORT_MAX_VALUE = math.pow(2, 15) - 1
-- 
2.43.0


From 4c20be12e9d344acf4e56576e3884bbb121bb4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 42/51] fix: miniseed2 blockette with only type and next offset
 does not swallow the rest

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 65b2061..e39a8bc 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -777,7 +777,7 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         raise MiniseedException(
                             f"blockette larger than miniseed record: {blocketteNextOffset:d} {header.recordLength:d}"
                         )
-                    if blocketteNextOffset > prevBOffset+4:
+                    if blocketteNextOffset >= prevBOffset+4:
                         numBytesToRead = blocketteNextOffset-prevBOffset-4
                     elif header.dataOffset > prevBOffset:
                         numBytesToRead = header.dataOffset-prevBOffset-4
-- 
2.43.0


From d4c1243d036dfdd0dd3b171664674f2840cdaae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 43/51] fix: miniseed2 steim payload starts at a multiple of 64
 bytes so it can be read back

---
 src/simplemseed/miniseed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index e39a8bc..1f29ad9 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -444,8 +444,9 @@ class MiniseedRecord:
             nextOffset = offset if i < len(self.blockettes) - 1 else 0
             struct.pack_into(self.header.endianChar + "H", recordBytes, bOffset + 2, nextOffset)
         # set offset to data in header
-        if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
-            offset = 64
+        if self.header.encoding in (STEIM1, STEIM2):
+            # steim frames start at, and fill up to, a multiple of 64 bytes
+            offset = (offset + 63) // 64 * 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
         if self.encodedDataBytes is not None:
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
-- 
2.43.0


From 00750e6e5cd66501eca94019198ceab7d4c66bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:47 +0000
Subject: [PATCH 44/51] fix: Steim encoding of a list of narrow or unsigned
 numpy integers does not wrap differences

---
 src/simplemseed/steim1.py | 4 ++++
 src/simplemseed/steim2.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 9a65baf..38d2d36 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -1,4 +1,5 @@
 
+import operator
 import struct
 from typing import Union
 
@@ -237,6 +238,9 @@ def encodeSteim1FrameBlock(
         raise SteimException("Cannot steim1 compress floating point list, contains float samples")
     elif max(samples) > np.iinfo(np.int32).max or min(samples) < np.iinfo(np.int32).min:
         raise SteimException(f"values of list, {min(samples)} to {max(samples)} cannot fit into 32 bit integer")
+    else:
+        # differences of narrow or unsigned numpy scalars wrap
+        samples = [operator.index(s) for s in samples]
 
     # all encoding will be contained within a frame block
     # Steim encoding 1
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index b95781e..4250178 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -1,4 +1,5 @@
 
+import operator
 import struct
 from typing import Union
 import numpy as np
@@ -336,6 +337,9 @@ def encodeSteim2FrameBlock(
         raise SteimException("Cannot steim2 compress floating point list, contains float samples")
     elif max(samples) > np.iinfo(np.int32).max or min(samples) < np.iinfo(np.int32).min:
         raise SteimException(f"values of list, {min(samples)} to {max(samples)} cannot fit into 32 bit integer")
+    else:
+        # differences of narrow or unsigned numpy scalars wrap
+        samples = [operator.index(s) for s in samples]
 
     # all encoding will be contained within a frame block
     # Steim encoding 2
-- 
2.43.0


From 819125343362960683a08f6331b0d4df1eab5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 45/51] fix: integers in a list are compared exactly with the
 floats they are stored as

---
 src/simplemseed/miniseed.py  |  5 ++---
 src/simplemseed/mseed3.py    |  5 ++---
 src/simplemseed/seedcodec.py | 15 +++++++++++++++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 1f29ad9..9386c25 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -18,6 +18,7 @@ from .seedcodec import (
     mseed3EncodingFromArrayTypecode,
     mseed3EncodingFromNumpyDT,
     EncodedDataSegment,
+    isStoredExactly,
     numpyDTFromMseed3Encoding,
     BIG_ENDIAN,
     LITTLE_ENDIAN,
@@ -352,9 +353,7 @@ class MiniseedRecord:
                 encoding = self.header.encoding
             self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
             # floats can round to width of encoding, but never to integer and integers must be exact
-            asGiven = np.array(data)
-            if (encoding in (ENC_SHORT, ENC_INT) or not np.issubdtype(asGiven.dtype, np.floating)) and \
-                    not np.array_equal(self._data, asGiven):
+            if not isStoredExactly(data, self._data, roundFloats=encoding not in (ENC_SHORT, ENC_INT)):
                 raise MiniseedException(f"list of data cannot be represented in encoding {encoding}")
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 30d7d5d..9383288 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -21,6 +21,7 @@ from .seedcodec import (
     EncodedDataSegment,
     mseed3EncodingFromArrayTypecode,
     mseed3EncodingFromNumpyDT,
+    isStoredExactly,
     numpyDTFromMseed3Encoding,
     UnsupportedCompressionType,
     BIG_ENDIAN,
@@ -390,9 +391,7 @@ class MSeed3Record:
                 encoding = self.header.encoding
             self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
             # floats can round to width of encoding, but never to integer and integers must be exact
-            asGiven = np.array(data)
-            if (encoding in (SHORT, INTEGER) or not np.issubdtype(asGiven.dtype, np.floating)) and \
-                    not np.array_equal(self._data, asGiven):
+            if not isStoredExactly(data, self._data, roundFloats=encoding not in (SHORT, INTEGER)):
                 raise Miniseed3Exception(f"list of data cannot be represented in encoding {encoding}")
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index ecf82c0..87655b1 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -224,6 +224,21 @@ def numpyDTFromMseed3Encoding(encoding: int):
     )
 
 
+def isStoredExactly(data: list, stored: np.ndarray, roundFloats: bool) -> bool:
+    """
+    True if all values in the list are equal to those stored in the array.
+
+    Optionally floats may differ, as they are rounded to the width of the array.
+    Compares as python values, numpy converts large integers to float to compare.
+    """
+    for given, value in zip(data, stored.tolist()):
+        if isinstance(given, np.generic):
+            given = given.item()
+        if given != value and not (roundFloats and isinstance(given, float)):
+            return False
+    return True
+
+
 def encode(data, encoding=None, littleEndian=True):
     """
     Encode the given numpy.ndarray or array.array into bytes.
-- 
2.43.0


From d23777c99d245bb8a5d725a910e7c0c6913ce0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 46/51] fix: refuse a nested list as data of a miniSEED3 record

---
 src/simplemseed/mseed3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 9383288..bfde736 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -390,6 +390,8 @@ class MSeed3Record:
             else:
                 encoding = self.header.encoding
             self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            if len(np.shape(self._data)) != 1:
+                raise Miniseed3Exception(f"list of data not one dimensional: {np.shape(self._data)}")
             # floats can round to width of encoding, but never to integer and integers must be exact
             if not isStoredExactly(data, self._data, roundFloats=encoding not in (SHORT, INTEGER)):
                 raise Miniseed3Exception(f"list of data cannot be represented in encoding {encoding}")
-- 
2.43.0


From a929d19555f264dbce13b9613d6ed7df0a8c6232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 47/51] fix: extra headers that are not a json object are kept
 when packed

---
 src/simplemseed/mseed3.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index bfde736..a8c95bb 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -419,7 +419,11 @@ class MSeed3Record:
         """ Extra headers, from json."""
         if self._eh is not None and isinstance(self._eh, str):
             if len(self._eh) > 0:
-                self._eh = json.loads(self._eh)
+                ehJson = json.loads(self._eh)
+                if ehJson is None or isinstance(ehJson, str):
+                    # keep json text, as packing would not give it back
+                    return ehJson
+                self._eh = ehJson
             else:
                 self._eh = {}
         return self._eh
@@ -505,7 +509,7 @@ class MSeed3Record:
         """ True if record contains extra headers, ie json is not empty."""
         if self._eh is None:
             return False
-        if isinstance(self._eh, dict) and len(self._eh) > 0:
+        if isinstance(self._eh, (dict, list)) and len(self._eh) > 0:
             return True
         if isinstance(self._eh, str) and len(self._eh) > 2:
             return True
@@ -556,12 +560,10 @@ class MSeed3Record:
         self.header.identifierLength = len(identifierBytes)
         if self._eh is None:
             extraHeadersStr = ""
-        elif isinstance(self._eh, dict):
-            extraHeadersStr = json.dumps(self._eh)
         elif isinstance(self._eh, str):
             extraHeadersStr = self._eh
         else:
-            extraHeadersStr = ""
+            extraHeadersStr = json.dumps(self._eh)
         extraHeadersBytes = extraHeadersStr.encode("UTF-8")
         self.header.extraHeadersLength = len(extraHeadersBytes)
         if self._data is None:
-- 
2.43.0


From 81401fe3db4b87ae8d95430872d26500a4c4592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 48/51] fix: setting all extra headers refuses json that is not
 an object

---
 src/simplemseed/mseed3details.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 6475432..b511ef2 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -7,7 +7,7 @@ import os
 import re
 import sys
 from jsonpointer import set_pointer, JsonPointer, JsonPointerException
-from .mseed3 import readMSeed3Records
+from .mseed3 import readMSeed3Records, Miniseed3Exception
 from .version import VERSION
 
 
@@ -113,6 +113,8 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     now = datetime.utcnow().strftime("%Y%m%dT%H%M%S.%f")
     # empty or "/" mean replace all extra headers
     usePointer = len(setptr) > 1
+    if not usePointer and not (setjson is None or isinstance(setjson, dict)):
+        raise Miniseed3Exception(f"extra headers must be a json object: {setval}")
     for ms3file in ms3files:
         tmpfile = f"{ms3file}_tmp{now}"
         with open(tmpfile, "wb") as fp:
-- 
2.43.0


From 1cc237123cb1c5f30231830eb81542d8863a8997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 49/51] fix: tenths of milliseconds of BTime are those of the
 start in UTC, also for zones with a sub-second offset

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 9386c25..be536f6 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -270,7 +270,7 @@ class MiniseedHeader:
                 tt.tm_hour,
                 tt.tm_min,
                 tt.tm_sec,
-                int(starttime.microsecond / 100),
+                int(self.starttime.microsecond / 100),
             )
         elif type(starttime).__name__ == "BTime":
             self.btime = starttime
-- 
2.43.0


From 96b315113af86909817e13d58370797099eb9ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 50/51] fix: refuse miniSEED2 record without data whose
 blockettes do not fit with MiniseedException

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index be536f6..7a74a61 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -551,7 +551,7 @@ class MiniseedRecord:
             ).dataBytes
         if len(recordBytes) < offset + len(dataBytes):
             raise MiniseedException(
-                f"not enough bytes in record to fit data: byte:{len(recordBytes):d} offset: {offset:d} len(data): {len(data):d}  enc:{self.header.encoding:d}"
+                f"not enough bytes in record to fit data: byte:{len(recordBytes):d} offset: {offset:d} len(data): {len(dataBytes):d}  enc:{self.header.encoding:d}"
             )
         recordBytes[offset : offset + len(dataBytes)] = dataBytes
 
-- 
2.43.0


From 2659bfe2ea954e1aecee61c70eff98d0662374ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 51/51] fix: mseed2to3 command failed on option version, which
 argparse never sets

---
 src/simplemseed/mseed2to3.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 224bec0..d8cb3ad 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -132,9 +132,6 @@ def do_parseargs():
 def main():
 
     args = do_parseargs()
-    if args.version:
-        print(f"mseed2to3 Version {VERSION}")
-        return 0
     bytesWritten = 0
     with args.ms2 as inms2:
         with args.ms3 as outms3:
-- 
2.43.0

