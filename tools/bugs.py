"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json
and tools/caught.json (which checks were seen to report each)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append((m["property"], "| %s | %s | %s | %s |" % (
        m["property"], d, " ".join(m["what_it_breaks"].split()).replace("|", "/"), ", ".join(caught.get(d, ["not run"])))))
rows.sort()
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
b, e = "<!-- BEGIN BUGS -->\n", "<!-- END BUGS -->"
i, j = s.index(b) + len(b), s.index(e)
open(p, "w").write(s[:i] + "| Property | Change (seeded/) | What it breaks | Reported by |\n|---|---|---|---|\n" +
                   "\n".join(r for _, r in rows) + "\n" + s[j:])
