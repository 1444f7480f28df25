"""Write the table of planted bugs (section 7 of DESIGN.md) from seeded/*/meta.json and a log of tools/bugtest.sh."""
import json
import os
import re
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = open(sys.argv[1]).read() if len(sys.argv) > 1 else ""
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, b)))
    got = re.search(r"^%s \(.*check: VIOLATION" % re.escape(b), log, re.M)
    needs = " ".join(str(m["needs"]).split())
    needs = needs if len(needs) < 130 else needs[:needs.rfind(" ", 0, 127)] + " ..."
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], needs.replace("|", "/"), m["property"] if not log or got else "?"))
text = "\n".join(rows)
p = here + "/DESIGN.md"
s = open(p).read()
a = s.index("## 7. Planted bugs")
a = s.index("\n", a) + 1
e = s.find("\n## ", a)
s = s[:a] + "\n" + text + "\n" + (s[e:] if e > 0 else "")
open(p, "w").write(s)
print(text)
