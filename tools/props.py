#!/usr/bin/env python3
"""Single source of truth: writes ../properties.jsonl and ../MANIFEST.json.
Each entry: id -> title, statement, over, qtext, why, files, mechanism, observe, technique, note, [na reason]"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, technique, note, level="model_checking", na=None, hook=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, technique=technique, note=note, level=level, na=na, hook=hook, observe=observe or []))
I = "include/bss-util/"
exec(open(os.path.join(HERE, "props_data.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=[p["over"]] if isinstance(p["over"], str) else p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=p["hook"]))) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"])); continue
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
            thorough_cmd="python3 run.py %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
            technique=p["technique"], level=p["level"], level_note=p["note"]))
    man = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
        hooks=dict(guard="BSS_MODEL_CHECK", enable="the harness builds pass -DBSS_MODEL_CHECK (see run.py)",
                   source_commits=HOOK_COMMITS),
        notes="All checks: bounded exhaustive exploration of the real code built from /repo (see DESIGN.md).")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
main()
