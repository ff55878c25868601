"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/mkmeta.py)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, observe=observe))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        anchors = {"files": p["files"], "mechanism": [{"name": p["mechanism"], "where": p["files"][0]}], "hook_needed": None}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": anchors}, ensure_ascii=False) + "\n")

checks, na = [], []
for p in P:
    if not glob.glob(os.path.join(V, "mc", p["id"].lower() + "_*.py")):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    cmd = f"python3 run.py {p['id']} --tier "
    checks.append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking",
                   "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "Explicit-state / bounded-exhaustive model checking of the real Python code; no hooks in /repo are needed. "
                    "Source of this file: tools/mkmeta.py and tools/props.py."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
