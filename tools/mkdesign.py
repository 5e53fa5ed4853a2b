"""Writes DESIGN.md: the prose below, the list of repairs from
known_findings.json, and the table of planted changes from
tools/catches.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prose = open(V + "/tools/design.md").read()
F = json.load(open(V + "/known_findings.json"))["findings"]
fixes = "\n".join("- %s" % f["what"].replace("fixed: property=", "") for f in F if f["status"] == "fixed")
known = "\n".join("- %s: %s" % (f["property"], f["what"]) for f in F if f["status"] == "known") or "None."
c = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
rows = []
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s))
    rows.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"], c.get(s, "not run yet")))
table = "| id | property | breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows)
open(V + "/DESIGN.md", "w").write(prose.replace("@FIXES@", fixes).replace("@KNOWN@", known).replace("@SEEDS@", table).replace("@MUT@", open(V + "/tools/mutations.md").read() if os.path.exists(V + "/tools/mutations.md") else ""))
