#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, technique=None, observe=None, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
        why=" ".join(why.split()), files=files, mech=mech, note=" ".join(note.split()), technique=technique, observe=observe, hook=hook, state=state))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
assert len({p["id"] for p in P}) == len(P)
checks_src = open(os.path.join(ROOT, "mc/src/checks/mod.rs")).read()
claimed = set(re.findall(r'^\s*"([A-Z]\d\d)" =>', checks_src, re.M))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        a["observe_at"] = p["observe"] or ["the Verilog the compiler writes", "compiler diagnostics"]
        a["hook_needed"] = p["hook"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash mc/b.sh",
  "hooks": HOOKS,
  "checks": [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
     "technique": p["technique"] or TECH, "level": "model_checking", "level_note": p["note"]} for p in P if p["id"] in claimed],
  "not_applicable": [{"property": p["id"], "reason": NOT_YET.get(p["id"], "no check built for it yet")} for p in P if p["id"] not in claimed],
  "notes": "One engine (mc/, Rust) built from /repo's working tree by every check; see DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
import sys
print(len(P), "properties", len(m["checks"]), "claimed", file=sys.stderr)
