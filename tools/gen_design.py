#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_table.py (needs evidence of a quick run), known_findings.json, design_tail.md, seeded/*/meta.json and seed_notes.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
r = lambda p: open(p).read()
table = subprocess.check_output([sys.executable, "tools/design_table.py"], text=True)
F = {}
for f in json.load(open("known_findings.json"))["findings"]:
    F.setdefault(f["commit"], [f["what"], []])[1].append(f["property"])
find = f"## Genuine defects found and repaired ({len(F)} `fix:` commits, `known_findings.json`)\n\n"
find += "".join(f"* `{c}` ({', '.join(ps)}) {w}\n" for c, (w, ps) in F.items()) + "\nThere are no unrepaired known findings.\n"
notes = json.load(open("tools/seed_notes.json"))
seeds = "| planted bug | caught by | needs |\n|---|---|---|\n"
for i in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{i}/meta.json"))
    n = f" ({notes[i]})" if i in notes else ""
    seeds += f"| {i} | {m['property']}{n} | {m['needs']} |\n"
open("DESIGN.md", "w").write(r("tools/design_head.md") + table + r("tools/design_tail.md").replace("@FINDINGS@\n", find + "\n").replace("@SEEDS@\n", seeds))
