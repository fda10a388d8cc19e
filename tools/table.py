"""Rewrite the planted-bug table of DESIGN.md from seeded/*/meta.json and the log of `seed.py catch` (one line per bug)."""
import json, os, re, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for f in sys.argv[1:]:
    for line in open(f):
        m = re.match(r"(\S+) (C\d\d):(CAUGHT|missed)", line)
        if m:
            log[m.group(1)] = (m.group(2), m.group(3))
rows = []
for b in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", b, "meta.json")))
    p, r = log.get(b, (m["property"], "not run"))
    rows.append((m["property"], b, m["needs"].replace("|", "/"), p if r == "CAUGHT" else r))
out = "\n".join(["| property | bug | needs | caught by |", "|---|---|---|---|"] + ["| %s | %s | %s | %s |" % r for r in sorted(rows)])
n = sum(r[3].startswith("C") for r in rows)
head = f"""## Planted bugs

{len(rows)} in `seeded/`, each confirmed (applies, builds, passes the stable tests, demonstration fails with it and passes
without it); {n} of them are caught by the quick check of their own property (`tools/seed.py catch`, seed 1).

"""
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
open(p, "w").write(s[: s.index("## Planted bugs")] + head + out + "\n")
print(len(rows), n, [r[1] for r in rows if not r[3].startswith("C")])
