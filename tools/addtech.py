"""addtech.py ID "text": add or replace a technique entry."""
import re, sys
p = "/verif/tools/technique.py"
s = open(p).read()
ns = {"TECH": {}}
exec(s, ns)
i = s.index("TECH.update({")
ns["TECH"][sys.argv[1]] = sys.argv[2]
body = "TECH.update({\n" + "".join(
    f"    {k!r}: {v!r},\n" for k, v in sorted(ns["TECH"].items())) + "})\n"
open(p, "w").write(s[:i] + body)
