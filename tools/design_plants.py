"""Fill the list of planted bugs into DESIGN.md."""
import glob
import json
import os
import re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | caught by | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} "
                f"| {m['what_it_breaks']} (needs: {m['needs']}) |")
p = root + "/DESIGN.md"
s = open(p).read()
mark = "<!-- plants -->\n"
block = mark + "\n".join(rows) + "\n" + mark
if mark in s:
    a, _, b = s.split(mark)
    s = a + block + b
else:
    s = s.replace("PLANTS\n", block)
open(p, "w").write(s)
