"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
s = open(V + "/DESIGN.md").read()
rows = "".join(f"| {k} | {', '.join(v)} |\n" for k, v in sorted(by.items()))
s = re.sub(r"(\| check \| planted bugs it catches \|\n\|---\|---\|\n)(\|.*\n)+", lambda m: m.group(1) + rows, s)
n = sum(l.startswith("fixed:") for l in open(V + "/known-findings.txt"))
s = re.sub(r"lines: \d+ of", f"lines: {n} of", s)
open(V + "/DESIGN.md", "w").write(s)
