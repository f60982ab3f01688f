#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run after editing."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, crate, title, statement, over, text, why, files, mechanism, technique, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, crate=crate, technique=technique, note=note, line=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None))))

exec(open(os.path.join(ROOT, "tools", "list.py")).read())

P.sort(key=lambda p: p["line"]["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["line"]) + "\n")
checks = [dict(property=p["line"]["id"], quick_cmd=f"./run.sh {p['crate']} {p['line']['id']}",
               thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['crate']} {p['line']['id']}",
               technique=p["technique"], level="exploration", level_note=p["note"]) for p in P if p["crate"]]
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="No change to /repo is needed: the checks use public items, or compile a source file of /repo as a module of the harness.", source_commits=[]),
         checks=checks, not_applicable=NA,
         notes="Replay a violation: ./run.sh CRATE PROPERTY replay FILE. The crate of each check is in its quick_cmd.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
