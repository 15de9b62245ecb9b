#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the exploration rules in the harness sources, tools/costs.json (measured
numbers of explored states), tools/design_notes.json, known_findings.txt and seeded/*/meta.json + tools/detected.json."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(here, p)).read()
src = "".join(open(f).read() for f in glob.glob(os.path.join(here, "harness/src/*.rs")))
costs = json.loads(rd("tools/costs.json")); notes = json.loads(rd("tools/design_notes.json")); det = json.loads(rd("tools/detected.json"))
out = [rd("tools/design_head.md").rstrip(), "", "## 4. The properties", ""]
for l in rd("properties.jsonl").splitlines():
    d = json.loads(l); i = d["id"]
    rule = re.search(i + r'_RULE: &str = "((?:[^"\\]|\\.)*)"', src).group(1)
    ass = re.search(i + r'_ASSUME: &\[&str\] = &\[(.*?)\];', src, re.S).group(1)
    ass = re.findall(r'"((?:[^"\\]|\\.)*)"', ass)
    out += [f"### {i} — {d['title']}", "", d["statement"], "",
            f"*Explored (exhaustively):* {rule}", ""]
    if i in notes:
        out += [f"*Oracle and reach:* {notes[i]}", ""]
    out += ["*Bounds and assumptions:* " + "; ".join(ass) + ".", ""]
    c = costs.get(i, {})
    out += ["*Cost:* " + "; ".join(f"{t}: {c[t]['states']} states, {c[t]['transitions']} transitions, {c[t]['traces']} executions replayed or compared, {c[t]['wall']} s on 8 cores" for t in ("quick", "thorough") if t in c) + ".", ""]
out += ["## 5. Defects found in posidonius", "", "### Repaired (one `fix:` commit each in /repo)", ""]
for l in rd("known_findings.txt").splitlines():
    if l.startswith("fixed:"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l); out.append(f"- {m[1]} `{m[2]}` {m[3]}")
out += ["", "### Recorded, not repaired (known_findings.txt)", ""]
for l in rd("known_findings.txt").splitlines():
    if l.startswith("finding:"):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l); out.append(f"- {m[1]} `{m[2]}`: {m[3]}")
out += ["", "## 6. Planted bugs and the checks that catch them", "", "| bug | property | what it breaks | needs | caught by (quick) |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {det.get(i, 'not run')} |")
out += ["", rd("tools/design_tail.md").rstrip(), ""]
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
