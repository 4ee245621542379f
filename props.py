#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
N = []          # not applicable: (id, reason)


def prop(id, title, statement, over, qtext, why, files, mech, tech, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, qtext=" ".join(qtext.split()),
                  why=" ".join(why.split()), files=files, mech=mech, tech=tech, note=" ".join(note.split()), observe=observe, state=state))


import propdefs  # noqa: E402
propdefs.define(prop, N)

with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py build",
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py check " + p["id"], "thorough_cmd": "env VERIF_TIER=thorough python3 run.py check " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": "exploration", "level_note": p["note"]}
                for p in sorted(P, key=lambda p: p["id"])],
     "not_applicable": [{"property": i, "reason": r} for i, r in N],
     "notes": "Every check is generated-input search against an explicit oracle (see DESIGN.md). ForestDB, which the sandbox does not have, "
              "is replaced by the stand-in in shim/. No hooks in /repo: internals are reached with -fno-access-control and link-time wrapping."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties")
