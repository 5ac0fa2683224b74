#!/usr/bin/env python3
# Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json (not used by any check).
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | reported by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    det = m.get("detected_by", m["property"])
    rows.append("| %s | %s | %s |" % (i, det, m["needs"].replace("|", "/")))
d = open(here + "/DESIGN.md").read()
d = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", d, flags=re.S)
open(here + "/DESIGN.md", "w").write(d)
