"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
rows = []
for p in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(p))
    what, needs = (re.sub(r"\s+", " ", m[k]).replace("|", "/") for k in ("what_it_breaks", "needs"))
    rows.append((m["property"], "| `%s` | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], what, needs)))
body = "\n".join(r for _, r in sorted(rows))
d = open("/verif/DESIGN.md").read()
head = "<!-- bugs -->\n"
tail = "<!-- /bugs -->"
i, j = d.index(head) + len(head), d.index(tail)
open("/verif/DESIGN.md", "w").write(d[:i] + "| change | caught by | what it breaks | needs |\n|---|---|---|---|\n" + body + "\n" + d[j:])
