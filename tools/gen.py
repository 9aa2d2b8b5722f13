#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROPS = []
def prop(id, title, statement, over, quant, tests, files, mech, state=(), observe=(), level_note="", technique=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files,
                      mech=mech, state=state, observe=observe, note=level_note, technique=technique))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"],
                         "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                         "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                         "observe_at": list(p["observe"]), "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
man = {"version": 1,
       "setup_cmd": "bash setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in PROPS],
       "not_applicable": [],
       "notes": "No hooks in /repo: the checks link the unmodified crates against drop-in async-std and spin crates (virtual network, clock and scheduler) through [patch.crates-io] of the harness."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
