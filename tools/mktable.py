"""Writes the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
TOP = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MARK = "\n| planted bug | caught by |"
rows = []
for f in sorted(glob.glob(os.path.join(TOP, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    rows.append("| `%s` | %s | %s |" % (name, m.get("caught_by", m["property"]), m["what_it_breaks"].replace("|", "/").replace("\n", " ")))
p = os.path.join(TOP, "DESIGN.md")
s = open(p).read().replace("\nSEEDED_TABLE", MARK)
s = s[:s.index(MARK)]
open(p, "w").write(s + MARK + " what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n")
