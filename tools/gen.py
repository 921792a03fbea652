#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from spec.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import PROPS, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, man, na = [], {}, [], []
for p in PROPS:
    a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]])
    if p.get("observe_at"):
        a["observe_at"] = p["observe_at"]
    props.append(dict(id=p["id"], title=p["title"], statement=p["statement"],
                      quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a))
    if "na" in p:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    c = p["check"]
    checks[p["id"]] = dict(pkg=c["pkg"], test=c.get("test", "Test" + p["id"]), level=c.get("level", "exploration"),
                           **{k: c[k] for k in ("race", "binary", "binary_race", "runs", "runs_thorough", "limit", "limit_thorough", "assumptions") if k in c})
    man.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                    thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
                    evidence_file="evidence/%s.json" % p["id"], technique=c["technique"],
                    level=c.get("level", "exploration"), level_note=c["note"]))
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), (p["id"], f)
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(V, "checks.json"), "w") as f:
    json.dump(checks, f, indent=1)
    f.write("\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=man, not_applicable=na, notes=NOTES), f, indent=1)
    f.write("\n")
print(len(props), "properties,", len(man), "checks")
