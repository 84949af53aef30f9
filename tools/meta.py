#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "libdiskpp/include/diskpp/"

# id, title, statement, over, quantifier text, why tests cannot settle it, files, mechanisms, observe_at
P = []
def prop(id, title, statement, over, q, why, files, mech, observe, rule=None, variants=None, flags=None, assumptions=None, done=False, technique=None, note=None, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, observe=observe,
                  rule=rule, variants=variants, flags=flags, assumptions=assumptions, done=done, technique=technique, note=note, kw=kw))

exec(open(os.path.join(V, "tools", "props_src.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
            "anchors": {"files": [x if x.startswith(("lib", "apps")) else I + x for x in p["files"]],
                        "mechanism": [{"name": n, "where": w if w.startswith("lib") else I + w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 -m py_compile check.py && g++ --version >/dev/null && test -f /repo/libdiskpp/include/diskpp/mesh/mesh.hpp",
       "checks": [], "not_applicable": []}
cfg = {}
for p in P:
    if p["done"]:
        man["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"] or "property-based testing: generated inputs against an explicit oracle, tape shrinking",
            "level": "exploration", "level_note": p["note"] or "Generated-input search; no absence claim beyond the cases reported in the evidence."})
        c = {}
        if p["rule"]: c["rule"] = p["rule"]
        if p["variants"]: c["variants"] = p["variants"]
        if p["flags"]: c["flags"] = p["flags"]
        if p["assumptions"]: c["assumptions"] = p["assumptions"]
        c.update(p["kw"])
        cfg[p["id"]] = c
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["note"] or "check not built yet"})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump(cfg, open(os.path.join(V, "harness", "props.json"), "w"), indent=1)
