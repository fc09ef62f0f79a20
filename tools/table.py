"""Writes the table of planted bugs into DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (
        os.path.basename(os.path.dirname(d)), m["property"],
        m["needs"].replace("|", "/")))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
start, end = "<!-- planted -->", "<!-- /planted -->"
table = "%s\n%s\n%s" % (start, "\n".join(rows), end)
if "SEEDED_TABLE" in text:
    text = text.replace("SEEDED_TABLE", table)
else:
    a, b = text.index(start), text.index(end) + len(end)
    text = text[:a] + table + text[b:]
open(path, "w").write(text)
