#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list of properties below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "src/resonanceReconstruction/"
S = R + "rmatrix/src/"
L = R + "rmatrix/legacy/"
COMMON_NOTE = ("Behaviours of the Quint specification are generated by its simulator and every step is replayed on the "
               "code compiled from /repo's working tree; the specification's own invariants are checked on the same "
               "behaviours. Holds for what was explored, not for all inputs. ")
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, module, note="", observe=""):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, module=module, note=note, observe=observe))


exec(open(os.path.join(ROOT, "tools", "list.py")).read())

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": p["mechanism"], "where": p["files"][0]}]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "quint --version && python3 -m py_compile check.py lib/harness.py lib/campaigns.py",
     "hooks": {"guard": "none", "enable": "the checks need no hooks: drivers in /verif/drivers call the library's public "
               "functions and classes", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": "Quint specification (spec/%s.qnt) simulated, its traces replayed on the code" % p["module"],
                 "level": "model_checking", "level_note": COMMON_NOTE + p["note"]} for p in P],
     "not_applicable": NOT_APPLICABLE,
     "notes": "Known findings are listed in known_findings.json. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
