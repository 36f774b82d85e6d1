"""Rewrites the generated end of DESIGN.md."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by dev/design.py"
s = open(R + "/DESIGN.md").read()
i = s.index(MARK)
head = s[:s.index("\n", i) + 1]
k = json.load(open(R + "/known-findings.json"))
o = ["", "## Defects found", "", "Repaired (each by one `fix:` commit in /repo; the check named reported it and reports it again without the repair):", ""]
for f in k["fixed"]:
    w = f.split(" ", 3)
    o.append("* %s %s - %s" % (w[1].split("=")[1], w[2], w[3]))
o += ["", "Known, not repaired:", ""]
for f in k["findings"]:
    o.append("* %s - %s" % (f["property"], f["what"]))
o += ["", "## Seeded changes", "", "Each was written from the property and the code, passes the existing tests and needs something specific to show.", "",
      "| change | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d))
    o.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
open(R + "/DESIGN.md", "w").write(head + "\n".join(o) + "\n")
