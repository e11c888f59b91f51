#!/usr/bin/env python3
"""Dev tool: rewrite the 'fixed:' lines of known_findings.txt from /repo's log."""
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("must not alias the slices", "F02"), ("reorder literals", "F02"), ("constraints < 0 as contradiction", "E01"),
       ("given encoder configuration", "E02"), ("numeric variable names", "P01"), ("incomplete input", "P02"),
       ("do not fit into an integer", "P02"), ("malformed lines", "I01"), ("constraint < 0 must be", "P01"),
       ("zero coefficients", "E02"), ("CNF conversion state", "N02"), ("AIG of negated", "N01"),
       ("cardinality network", "E01"), ("repeated variables", "E01")]
EXTRA = os.path.join(ROOT, "tools", "fixmap.txt")   # "substring|ID" per line
if os.path.exists(EXTRA):
    MAP += [tuple(l.rstrip("\n").rsplit("|", 1)) for l in open(EXTRA) if "|" in l]
fn = os.path.join(ROOT, "known_findings.txt")
keep = [l for l in open(fn) if not l.startswith("fixed:")]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: ") or any(s in x for x in log if " Revert " in x): continue
    ids = [i for k, i in MAP if k in s]
    if len(ids) != 1: print("UNMAPPED", l, ids); continue
    out.append("fixed: property=%s %s %s\n" % (ids[0], h, s[5:]))
open(fn, "w").write("".join(keep + out))
