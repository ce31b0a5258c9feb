#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "harness"))
from registry import PROPS
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("TLC checks the specification module(s) exhaustively within the constants of the .cfg files, and every scenario "
        "(emitted by TLC or by a seeded generator) is replayed on the real code and its recorded trace is evaluated by TLC "
        "against the same specification. Trusted: the driver's projection of results, the decoding of numbers, TLC.")
m = dict(version=1, setup_cmd="sh ./setup.sh", checks=[], not_applicable=[])
for p in props:
    c = PROPS.get(p["id"])
    if c is None:
        m["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"],
                            thorough_cmd="./check %s --tier thorough" % p["id"],
                            technique="TLA+ specification (%s) model-checked with TLC; traces of the real code validated by TLC" % c["trace"],
                            level="model_checking", level_note=c.get("note", "") + NOTE))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
