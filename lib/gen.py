#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (what is claimed is what checks.py has)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import checks, props
ids = [p["id"] for p in props.P]
assert len(set(ids)) == len(ids)
for p in props.P:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
na = {i: r for i, r in props.NA.items()}
for i in ids:
    assert (i in checks.PROPS) != (i in na), i
with open(V + "/properties.jsonl", "w") as f:
    for p in props.P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./run --setup", checks=[
    dict(property=i, quick_cmd=f"./run {i} --tier quick", thorough_cmd=f"./run {i} --tier thorough", evidence_file=f"evidence/{i}.json",
         technique="symbolic execution of the compiled LLVM IR, decided by SMT (Z3, cvc5)", level="model_checking",
         level_note="Bounded: " + checks.PROPS[i]["bounds"] + ". Outside: " + checks.PROPS[i]["outside"] + ".")
    for i in ids if i in checks.PROPS],
    not_applicable=[dict(property=i, reason=r) for i, r in na.items()])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
