"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the logs of plant.sh (LOGS). Bugs
whose log isn't there keep the suites they had."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOGS = os.environ.get("LOGS", "/tmp/w/tmp")
path = os.path.join(V, "DESIGN.md")
text = open(path).read()
a, e = text.index("<!-- seeded -->\n"), text.index("<!-- /seeded -->")
had = dict(re.findall(r"^\| (C\w+) \|.*\| ([^|]*) \|$", text[a:e], re.M))
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    log = os.path.join(LOGS, i + ".check")
    by = had.get(i, "?")
    if os.path.exists(log):
        s = re.findall(r"^VIOLATION property=.*/(C\d\d\.\w+)\.([DRS])\.json", open(log).read(), re.M)
        by = ", ".join(dict.fromkeys(x + ("(S)" if f == "S" else "") for x, f in s)) or "NOT CAUGHT"
    rows.append("| %s | %s | %s | %s |\n" % (i, m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."), by))
text = text[:a] + "<!-- seeded -->\n| id | what breaks | what it takes | caught by |\n|----|-------------|---------------|-----------|\n" + "".join(rows) + text[e:]
open(path, "w").write(text)
print(len(rows), sum("NOT CAUGHT" in r for r in rows))
