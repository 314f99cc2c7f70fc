#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=None, na=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech, claim=claim, na=na, note=note))


CBN, CPD, MB, CID_, MAC, RG, GP = (
    "pycid/core/" + f + ".py" for f in ("causal_bayesian_network", "cpd", "macid_base", "cid", "macid", "relevance_graph", "get_paths")
)
AN, RN, GA = "pycid/analyze/", "pycid/random/", "pycid/export/gambit.py"
SUM = "abstract interpretation to function summaries, compared with reference summaries"
EFF = "interprocedural alias and effect analysis"
LINT = "dedicated dataflow and call-graph rules"
TRUST = (
    "Trusts the abstract interpreter's model of the Python subset used, the meaning given to networkx, pgmpy and numpy calls, and "
    "the reference definitions in specs/. Entries the interpreter cannot decide are listed as undecided in the evidence and raise no alarm."
)

exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import ast, sys; assert sys.version_info >= (3, 10)\"",
    "checks": [
        {
            "property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": p["claim"], "level": "other",
            "level_note": (p["note"] + " " + TRUST).strip(),
        }
        for p in P if p["claim"]
    ],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(P), "properties", len(m["checks"]), "claimed")
