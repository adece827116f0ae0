#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json (single source for ids, statements, levels)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, level="exploration", technique="", note="", claim=True, reason=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe or [], state=state or [], level=level, technique=technique, note=note, claim=claim, reason=reason))
exec(open(os.path.join(HERE, "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]: a["observe_at"] = p["observe"]
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []; na = []
import re
REG = set(re.findall(r'id: "(C\d+)"', open(os.path.join(V, "mc/src/registry.rs")).read()))
for p in P:
    if p["id"] in REG:
        checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["reason"] or "not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the harness uses only the crate's public API and the serialised form of its messages", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One harness crate (mc/), path dependency on /repo, rebuilt by every check. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
