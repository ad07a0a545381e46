"""seedtable.py LOG: the table of planted bugs in DESIGN.md from seedtry's output."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = open(sys.argv[1]).read()
rows = []
for sid in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, sid)))
    hit = re.search(r"^%s (.*?)check exit (\d)" % re.escape(sid), log, re.M | re.S)
    rows.append("| %s | %s | %s | %s |" % (sid, m["needs"], m["what_it_breaks"], "?" if not hit else {"1": m["property"], "0": "missed"}[hit.group(2)]))
p = V + "/DESIGN.md"
s = open(p).read()
table = "<!-- seedtable -->\n| change | needs | breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seedtable -->"
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", table)
else:
    s = re.sub(r"<!-- seedtable -->.*?<!-- /seedtable -->", lambda _: table, s, flags=re.S)
open(p, "w").write(s)
print(len(rows), sum("?" in r[-5:] for r in rows))
