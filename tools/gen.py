#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from engine/meta.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))
import meta
NA = getattr(meta, "NA", {})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for k, p in meta.P.items():
        assert len(p["title"]) <= 80, (k, len(p["title"]))
        f.write(json.dumps({
            "id": k, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": meta.M[m][0], "where": meta.M[m][1]} for m in p["mech"]],
                        "observe_at": p["observe"] or ["public API of the crates, called through the harness crates"],
                        "hook_needed": None}}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3-vt engine/setup.py",
    "checks": [{
        "property": k,
        "quick_cmd": "python3-vt engine/run.py %s --tier quick" % k,
        "thorough_cmd": "python3-vt engine/run.py %s --tier thorough" % k,
        "technique": "symbolic execution of the compiled LLVM IR, SMT (z3) equivalence against a reference model, native replay",
        "level": "model_checking",
        "level_note": meta.LVL + " Bounds: " + p["bounds"] + ". Outside: " + p["outside"] + ".",
    } for k, p in meta.P.items() if k not in NA],
    "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
    "notes": "No hooks in /repo: the harness crates under harness/ use the public API only.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
