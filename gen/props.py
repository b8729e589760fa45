#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, na=na, state=state, observe=observe))


from props_list import fill  # noqa: E402
fill(prop)


def main():
    from sa.registry import CHECKS
    checks = []
    na = []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(d) + "\n")
            for fl in p["files"]:
                assert os.path.exists(os.path.join("/repo", fl)), (p["id"], fl)
            if p["na"]:
                assert p["id"] not in CHECKS, p["id"]
                na.append({"property": p["id"], "reason": p["na"]})
            else:
                assert p["id"] in CHECKS, p["id"]
                checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                               "thorough_cmd": "./check.sh %s thorough" % p["id"], "technique": p["technique"],
                               "level": "other", "level_note": p["note"]})
    assert len({p["id"] for p in P}) == len(P)
    missing = set(CHECKS) - {p["id"] for p in P}
    assert not missing, missing
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks are static analyses of /repo's current source: tool/extract.cpp (clang 18 LibTooling) lowers the "
                  "sources to CFGs, sa/ decides the rules. See DESIGN.md. Known and fixed defects: known-findings.txt."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d properties, %d checks, %d not applicable" % (len(P), len(checks), len(na)))


if __name__ == "__main__":
    main()
