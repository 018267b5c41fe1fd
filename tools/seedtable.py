"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    c = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    rows.append(f"| `{f.split('/')[-2]}` | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
p = root + "/DESIGN.md"
s = open(p).read()
head = "Each is a change to original lines that compiles, passes the 63 tests, and has a demonstration."
i = s.index(head)
s = s[:i] + head + """ Every one of them is caught by
the quick check of the property in its second column (confirmed one by one in private copies). Where a check first missed one,
the check was strengthened until it caught it. (The table is written by `tools/seedtable.py`.)

| Planted bug | Caught by | What it breaks | What it needs |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)
