#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
the logs that tools/seeded.sh left in build/."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it does | caught by |", "|---|---|---|---|"]
old = {}
text = open(root + "/DESIGN.md").read()
for m in re.finditer(r"^\| `(\w+)` \|.*\| ([^|]*) \|$", text, re.M):
    old[m[1]] = m[2]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    log = f"{root}/build/seeded.{d}.log"
    by = old.get(d, "?")
    if os.path.exists(log):
        t = open(log, errors="replace").read()
        s = re.findall(r"^\[[^\]]*\] (\S+)\s+\d+ records,\s+\d+ exercise the property, ([1-9]\d*) rejected", t, re.M)
        if s:
            by = "%s: %s" % (m["property"], ", ".join("`%s`" % x[0] for x in s))
        elif "VIOLATION" in t:
            by = m["property"]
        else:
            by = "**not caught**"
    what = (m["needs"].strip() + ": " + m["what_it_breaks"].strip()).split("\n")[0].replace("|", "/")
    rows.append(f"| `{d}` | {m['property']} | {what} | {by} |")
a, b = "<!-- seeds -->", "<!-- /seeds -->"
text = re.sub(re.escape(a) + r".*" + re.escape(b), lambda _: a + "\n" + "\n".join(rows) + "\n" + b, text, flags=re.S)
open(root + "/DESIGN.md", "w").write(text)
print(len(rows) - 2, "planted bugs;", sum("?" == r.split("|")[-2].strip() for r in rows), "unknown")
