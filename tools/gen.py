#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def p(id, title, statement, over, text, why, files, mech, technique, note, thorough=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, thorough=thorough))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=None, note=None))
    NA.append((id, reason))


exec(open(os.path.join(V, "tools", "properties.py"), encoding="utf-8").read())


def main():
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    P.sort(key=lambda x: x["id"])
    with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps({
                "id": x["id"], "title": x["title"], "statement": x["statement"],
                "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]},
            }) + "\n")
    checks = []
    for x in P:
        if x["technique"] is None:
            continue
        c = {"property": x["id"], "quick_cmd": f"python3 check.py {x['id']}",
             "thorough_cmd": f"python3 check.py {x['id']} --thorough",
             "technique": x["technique"], "level": "other", "level_note": x["note"]}
        checks.append(c)
    man = {"version": 1, "setup_cmd": "python3 check.py --self-test", "checks": checks,
           "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NA)]}
    with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
