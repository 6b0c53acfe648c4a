"""Regenerates the per-property part of DESIGN.md from engine/meta.py and the
case lists (between the BEGIN/END markers)."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))
import meta, props
out = []
for k, v in meta.P.items():
    q, t = len(props.cases(k, "quick")), len(props.cases(k, "thorough"))
    out.append("### %s. %s\n\n%s\n\n- Quantified over: %s. %s\n- Bounds: %s.\n- Outside: %s.\n- Cases: %d quick, %d thorough.%s\n" % (
                   k, v["title"], v["statement"], v["text"],
                   v["why"], v["bounds"], v["outside"], q, t,
                   "".join("\n- Assumes: %s." % a for a in v["assumptions"])))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
b, e = "<!-- BEGIN PROPERTIES -->\n", "<!-- END PROPERTIES -->"
i, j = s.index(b) + len(b), s.index(e)
open(p, "w").write(s[:i] + "\n".join(out) + s[j:])
