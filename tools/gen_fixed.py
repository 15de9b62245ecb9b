#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from /repo's fix commits (maintenance tool, not used by any check)."""
import subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = "P06 P01 P18 P02 P03 P07 P14 P15 P14 P16 P16 P16 P16 P08 P09 P25 P25 P25 P25 P25 P25 P25 P19 P05 P05 P02 P17 P01 P21 P18 P22 P22 P22 P22 P22 P22 P22 P23 P21 P25 P25 P25".split()
extra = os.path.join(here, "tools/fixed_props.txt")
if os.path.exists(extra):
    props += open(extra).read().split()
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "1e3058a..HEAD"], capture_output=True, text=True).stdout.splitlines()
log = [l for l in log if " fix: " in l]
f = os.path.join(here, "known_findings.txt")
keep = [l for l in open(f).read().splitlines() if not l.startswith("fixed:")]
assert len(log) == len(props), (len(log), len(props))
for p, l in zip(props, log):
    h, s = l.split(" fix: ", 1)
    keep.append(f"fixed: property={p} {h} {s}")
open(f, "w").write("\n".join(keep) + "\n")
