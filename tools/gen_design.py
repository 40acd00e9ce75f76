#!/usr/bin/env python3
"""Replaces the bounds table in DESIGN.md (between the markers) by what bounds.py says."""
import os, re, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from bounds import B
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
t = "".join("* **%s** quick: %s.  \n  thorough: %s.\n" % (k, v[0], v[1]) for k, v in sorted(B.items()))
s = re.sub(r"(<!-- bounds -->\n).*(<!-- end bounds -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
import json, glob
r = ["| seed | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    r.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m.get("caught_by", m["property"]), m["needs"].replace("|", "/").replace("\n", " ")))
t = "\n".join(r) + "\n"
s = re.sub(r"(<!-- seeds -->\n).*(<!-- end seeds -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, "w").write(s)
