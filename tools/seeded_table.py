#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from results of tools/sweep (lines "bug check exit N ...")."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) > 3 and w[2] == "exit":
            got.setdefault(w[0], {})[w[1]] = w[3]  # later results replace earlier ones
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    r = got.get(b, {})
    by = ", ".join(sorted(k for k, v in r.items() if v == "1")) or ("not yet run" if not r else "**missed**")
    rows.append(f"| {b} | {j['needs']} | {by} |")
t = "<!-- seeded -->\n| planted bug | needs | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeded -->"
d = open(V + "/DESIGN.md").read()
d = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: t, d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
print(sum("**missed**" in r for r in rows), "missed,", sum("not yet" in r for r in rows), "not run, of", len(rows))
