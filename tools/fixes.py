#!/usr/bin/env python3
"""python3 tools/fixes.py: rewrites the fixed: part of known_findings.txt from /repo's fix: commits."""
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "ce200db": "P30", "b20c0e2": "P30", "a337c32": "P30", "9da2d85": "P30", "411dd05": "P31", "66ce5f2": "P30", "d4a5178": "P30", "0661782": "P38", "323e90d": "P38", "d41125a": "P30", "1a9f7f7": "P30", "93a8fc2": "P40", "051907f": "P38", "c848db3": "P18",
 "a52b6d3": "P25", "cdcabfc": "P25", "8870e1e": "P19", "259f41f": "P29",
 "e345b2d": "P33", "eb0f3dd": "P41", "0c20b0d": "P41", "9b5b51c": "P39", "e9d6a0b": "P16",
 "99945bf": "P24", "e6ee490": "P24", "7ecc637": "P24", "ae06079": "P24", "a593430": "P24", "2be58e4": "P24",
 "e619cb2": "P28", "93c7b3a": "P28", "f0dcc6e": "P28", "4104b9f": "P28", "d3eca7a": "P25", "9f98d2d": "P27", "130475f": "P28", "780e357": "P28",
 "d0fc1fd": "P23", "a78d79d": "P23", "34c1820": "P23", "8bfc66b": "P25",
 "4526cf8": "P23",
 "ac3403e": "P07", "cf567a3": "P05", "785a64f": "P04", "b043e63": "P08", "8ddbdb9": "P04", "119e326": "P17", "e3df197": "P01",
 "9d1be03": "P02", "39130dd": "P02", "3d9427e": "P03", "11962f0": "P10", "9953af2": "P10", "0fcc5c1": "P15", "08554a5": "P14",
 "4fd7464": "P14", "9123910": "P16", "69cf7c7": "P16", "f5c62d8": "P15", "3cc1840": "P30", "b9d03ad": "P30", "75041d2": "P31",
 "6d6dfdb": "P31", "360f3f2": "P30", "68624dd": "P01", "9ef4993": "P03", "8127ed3": "P03", "e660d2c": "P03", "42223f9": "P02",
 "6f7c91d": "P27", "e138fa7": "P27", "45fe725": "P36", "b3c602b": "P20", "032ffb1": "P24", "af39762": "P13", "090567c": "P20",
 "31b8aee": "P06", "8ecf59f": "P06", "dbc96d3": "P06", "ed7ccd1": "P09", "b9212f1": "P13", "7179b63": "P11", "4e85609": "P17",
 "ecd97f6": "P19", "250915d": "P19",
 "b83af06": "P21", "c5288d0": "P21",
 "07b4529": "P22",
 "75a4dc7": "P16", "7f3c349": "P15", "9b32c73": "P01", "aad6096": "P03", "b20282d": "P02", "fec26ff": "P03",
 "15b2a09": "P43", "cc968ee": "P43", "1b10c52": "P43", "769fb71": "P43", "419a2ad": "P43", "c4d7efe": "P42", "99d8e74": "P42", "2a40b6f": "P16", "a01d297": "P42", "b2c916a": "P43", "ef3d23b": "P25",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
p = os.path.join(ROOT, "known_findings.txt")
keep = [l for l in open(p).read().splitlines() if not l.startswith("fixed: ")] if os.path.exists(p) else []
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        if h not in MAP:
            print("unmapped", l)
        else:
            out.append("fixed: property=%s %s %s" % (MAP[h], h, s[5:]))
open(p, "w").write("\n".join(keep + out) + "\n")
