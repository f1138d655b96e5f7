"""Prints the table of planted changes (markdown) from seeded/*/meta.json and
a log of tools/seeds.py given as argument."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in open(sys.argv[1]):
    p = l.split()
    if " | " in l and p[1].startswith("C"):
        got[p[0]] = ("caught" if " CAUGHT " in l else "missed",
                     l.split(" | ", 1)[1].strip())
print("| change | check | result | first report |\n|---|---|---|---|")
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s))
    r = got.get(s, ("not run", ""))
    print("| %s | %s | %s | %s |" % (s, m["property"], r[0], r[1]))
