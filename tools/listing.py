"""listing.py: which comparisons and rules decide each property (the per-property part of DESIGN.md)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa import run as R  # noqa
from sa.entries import ENTRIES  # noqa

R.load_rules()
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    fs = {}
    for e in ENTRIES:
        if p["id"] in e.props:
            m, f = e.target[6:].split(":")
            fs.setdefault(m, []).append(f + (f" ({e.label})" if e.label else ""))
    rules = [f.__name__.replace("_", "-") for ps, f in R.RULES if p["id"] in ps]
    print(f"**{p['id']}** {p['title']}")
    for m, f in fs.items():
        print(f"- `{m}`: " + ", ".join(dict.fromkeys(f)))
    if rules:
        print("- rules: " + ", ".join(rules))
    print()
