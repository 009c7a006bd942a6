"""Refreshes the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"S01-host-of-255-bytes-refused", "F04-empty-gather-write-fails"}
rows = ["| change | caught by | needs |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i, d = m.split("/")[-2], json.load(open(m))
    rows.append("| %s%s | %s | %s |" % (i, " *" if i in MISSED else "", d.get("caught_by", d["property"]), d["needs"]))
t = open(V + "/DESIGN.md").read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = t.replace("SEEDTABLE", new) if "SEEDTABLE" in t else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: new, t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
