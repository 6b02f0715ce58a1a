#!/usr/bin/env python3
"""writes known-findings.txt from the fix commits in /repo and the map below"""
import subprocess, json
P = """d95c713 C03
ae9257f C01
236a30c C11
bd5e637 C03
162c01b C03
c70bc9a C01
99dd271 C10
c73f686 C21
c34a613 C13
e882792 C12
6aad9fe C10
ea263ec C07
57c8f99 C11
6a6a827 C11
7afb339 C18
f826c68 C18
c5bdf51 C18
832c90d C18
64d572f C18
2906a87 C18
e1a4e38 C18
e625829 C18
d78dcea C13
66ef2ed C18
0d752b9 C19
4ed1b69 C19
37bcfcd C18
60da91a C20
2108ce6 C20
f5ae2e5 C20
d1e4132 C16
18d23a3 C14
96ab5dc C15
d017cc9 C17
f97d9a7 C17
7147bce C21
0d6b93e C21
dca17ce C10
3291b32 C13
b6c9b28 C01
63a8b84 C18
4c20be1 C19
d4c1243 C18
00750e6 C01
8191253 C11
d23777c C11
a929d19 C21
81401fe C21
1cc2371 C18
96b3151 C18
2659bfe C20
"""
log = dict(l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--abbrev=7", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines())
out = ["# genuine defects of crotwell/simplemseed found by this verification work.",
 "# 'known:' entries are still there (recorded, not repaired); 'fixed:' entries are repaired and suppress nothing.",
 'known: property=C19 key="blockette 1001 microseconds read unsigned" case={"recs": [{"net": "SX", "sta": "JSC", "loc": "00", "chan": "LOQ", "byteorder": 0, "exp": 12, "seq": 0, "quality": "R", "btime": [2023, 60, 23, 27, 5, 0], "act": 128, "io": 1, "qual": 0, "corr": -1, "enc": 4, "factor": -1, "mult": 5, "n": 0, "vals": [], "dataOffset": 128, "blks": [{"num": 1001, "tq": 192, "us": -1, "fc": 214}, {"num": 1000}]}], "pat": null, "tail": 0} :: the signed microseconds byte of blockette 1001 is read as unsigned: a stored -1 (0xFF) reads as +255 us, so the start time is 256 us late. tests/test_mseed2.py asserts the unsigned reading, so it cannot be repaired with the existing tests unedited.']
for l in P.splitlines():
    h, p = l.split()
    out.append(f"fixed: property={p} {h} {log[h][5:]}")
open("/verif/known-findings.txt", "w").write("\n".join(out) + "\n")
