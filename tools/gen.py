#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

S = "src/sync/"; F = "src/future/"; C = "src/common/"
P = []
def prop(id, title, statement, over, text, why, files, mech, claimed=True, technique=None, note=None, state=None, observe=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  claimed=claimed, technique=technique, note=note, state=state or [], observe=observe or [], level=level))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], state=p["state"],
                              mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p["observe"], hook_needed=None))
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if p["claimed"]:
        checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"env VERIF_TIER=thorough ./check.sh {p['id']}",
                           evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"],
                           level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["note"]))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none (no hook was needed)", enable="The harness crate depends on /repo by path and uses its public API only; the clock, futex and sleep calls are interposed in the harness binary.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check is `mvh check <id>` of /verif/harness (see DESIGN.md). VERIF_SEED selects the cases, VERIF_TIER=thorough multiplies their number. A failing case is shrunk and written to /verif/replays; `harness/target/x86_64-unknown-linux-gnu/debug/mvh replay <file>` runs it again. There are no hooks in /repo; the commits there are fixes, listed in known-findings.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
