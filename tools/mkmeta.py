#!/opt/venv/bin/python
"""regenerates properties.jsonl and MANIFEST.json from the table below (run by hand, not by checks)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pyqcstrc/"
BOTH = lambda *m: [S + p + "/" + x + ".py" for x in m for p in ("ico2", "dode2")]
ICO = lambda *m: [S + "ico2/" + x + ".py" for x in m]
DODE = lambda *m: [S + "dode2/" + x + ".py" for x in m]
P = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), technique="", note="", level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
NA = globals().get("NOT_APPLICABLE", [])
have = [p for p in P if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))]
man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": "./run.py %s quick" % p["id"],
                   "thorough_cmd": "./run.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in have],
       "not_applicable": [{"property": a, "reason": b} for a, b in NA]}
miss = [p["id"] for p in P if p not in have and p["id"] not in [a for a, _ in NA]]
assert not miss, miss
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
