"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (for the author only)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], m["what_it_breaks"].replace("|", "\\|")))
p = here + "/DESIGN.md"
s = open(p).read()
head = "## Planted bugs and what catches them\n"
table = head + """
Each is caught by the quick check of the property in the second column (verified with seeds 1 and others).

| seeded/ | Caught by | Breaks |
|-|-|-|
""" + "\n".join(rows) + "\n"
if head in s:
    a = s.index(head)
    b = s.find("\n## ", a + 5)
    s = s[:a] + table + (s[b:] if b >= 0 else "")
else:
    s = s.rstrip("\n") + "\n\n" + table
open(p, "w").write(s)
