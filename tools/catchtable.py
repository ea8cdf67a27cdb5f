"""Put the table of planted bugs into DESIGN.md, from seeded/*/meta.json and a log of `seedkit.py try` (later lines win)."""
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STORE = os.path.join(ROOT, "tools", "caught.json")
caught = json.load(open(STORE)) if os.path.exists(STORE) else {}
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(c\d\d-\S+) ", l)
        if m:
            for c, v in re.findall(r"(C\d\d) exit \d (CAUGHT|MISSED)", l):
                caught.setdefault(m.group(1), {})[c] = v
rows = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    r = caught.get(i, {})
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"),
                                       ", ".join("%s%s" % (c, "" if v == "CAUGHT" else " (missed)") for c, v in sorted(r.items())) or "untried"))
caught = {k: v for k, v in caught.items() if os.path.isdir(os.path.join(ROOT, "seeded", k))}
json.dump(caught, open(STORE, "w"), indent=0, sort_keys=True)
t = "<!-- table -->\n| change | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- end -->"
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = s.replace("@@TABLE@@", "<!-- table --><!-- end -->")
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
print(len(rows), "rows", sum("untried" in r for r in rows), "untried", sum("missed" in r for r in rows), "missed")
