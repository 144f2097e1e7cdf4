"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# bugs that the checks missed when they were planted, and what was strengthened
NOTES = {
 "C02-whitespace": "missed at first: form feeds and vertical tabs added to the fillers",
 "C13-rest": "caught by one case at first: paths at rest before a late shock added",
 "C05-function-deps": "missed at first: functions in definitions added",
 "C09-large": "missed at first: systems of up to 16 unknowns added (unions)",
 "C16-copy-default": "missed at first: copies added to the routes by which a model is obtained",
 "C28-middle": "missed at first: intruders at every position",
 "C30-grid-transposed": "missed at first: positions of panels are read from the figure",
 "C31-shift-sign": "missed at first: replacements inside periods added",
 "C31-local-target": "missed at first: layouts that split a statement at any token",
}
rows = ["| bug | caught by | needs | note |", "|---|---|---|---|"]
for p in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(p)); i = os.path.basename(os.path.dirname(p))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], NOTES.get(i, "")))
d = os.path.join(ROOT, "DESIGN.md"); s = open(d).read()
head = s[:s.index("## Planted bugs and what catches them")]
open(d, "w").write(head + """## Planted bugs and what catches them

Each was confirmed to build, to pass the stable tests and to fail its own demonstration only with
the patch. `caught by` is the check of the property it breaks; all are caught at the quick tier. The
table is written by tools/mkseeded.py.

""" + "\n".join(rows) + "\n")
