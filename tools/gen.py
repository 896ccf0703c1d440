#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note,
         technique="property-based testing (stateful, model oracle, shrinking)",
         claimed=True, reason=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, level_note=level_note,
                  technique=technique, claimed=claimed, reason=reason))


exec(open(os.path.join(V, "tools", "properties.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [
                {"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 -c \"import shutil; assert shutil.which('ninja') and shutil.which('g++')\"",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 run.py {p['id']} quick",
        "thorough_cmd": f"python3 run.py {p['id']} thorough",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["level_note"],
    } for p in P if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]}
                       for p in P if not p["claimed"]],
    "notes": "run.py builds the harness of a property with /repo's sources and "
             "runs it; see DESIGN.md. No hooks are needed in /repo.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
