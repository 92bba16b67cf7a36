"""Rewrites the tables of findings and planted bugs in DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
doc = open(root + "/DESIGN.md").read()


def table(head, rows):
    global doc
    at = doc.index(head)
    end = re.compile(r"\n(?!\|)").search(doc, at).start()
    doc = doc[:at] + head + "|" + "---|" * (head.count("|") - 1) + "\n" + "\n".join(rows) + doc[end:]


rows = []
for f in json.load(open(root + "/known_findings.json"))["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    rows.append("| %s | %s | %s |" % (m[2], m[1], m[3].replace("|", "\\|")))
table("| commit | property | what failed |\n", rows)
rows = []
for s in sorted(os.listdir(root + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (root, s)))
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], m["what_it_breaks"]))
table("| id | caught by | needs | breaks |\n", rows)
open(root + "/DESIGN.md", "w").write(doc)
