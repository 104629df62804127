"""The catalogue of properties; writes properties.jsonl and MANIFEST.json."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None, technique=None, note=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = state
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique or "path-sensitive dataflow / abstract interpretation over compiler MIR", note))


def na(id, reason):
    NA.append((id, reason))


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            assert re.match("^[A-Z][0-9]{2,3}$", d["id"]) and len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    nas = {i for i, _ in NA}
    NOTE = ("Decided on the MIR of the current source, for all paths of the named entry points; trusted: the MIR models of std/Solana/SPL calls "
            "(vf/models.py), the frozen contract tables, and that unsupported constructs are reported as violations.")
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
         "checks": [{"property": d["id"], "quick_cmd": "./check %s quick" % d["id"], "thorough_cmd": "./check %s thorough" % d["id"],
                     "technique": t, "level": "other", "level_note": n or NOTE} for d, t, n in P if d["id"] not in nas],
         "not_applicable": [{"property": i, "reason": r} for i, r in NA]}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(m["checks"]), "checks", len(NA), "not applicable")
