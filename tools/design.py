#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the property table, the docstrings of the laws and design_tail.md"""
import ast
import json
import os
import sys

T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
out = [open(os.path.join(T, "design_head.md")).read()]
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    if p["id"] not in man:
        continue
    src = open(os.path.join(V, "checks", p["id"].lower() + ".py")).read()
    tree = ast.parse(src)
    docs = {n.name: ast.get_docstring(n) for n in tree.body if isinstance(n, ast.FunctionDef)}
    out.append(f"*Oracle and bounds:* {man[p['id']]['level_note']} ({man[p['id']]['technique']}).\n")
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Law":
            fn = n.args[2].id if isinstance(n.args[2], ast.Name) else ""
            count = ast.literal_eval(n.args[3])
            doc = " ".join((docs.get(fn) or "").split())
            out.append(f"* `{ast.literal_eval(n.args[0])}` ({count} cases in quick): {doc}")
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "ASSUMPTIONS":
            out.append("\n*Assumes:* " + "; ".join(ast.literal_eval(n.value)) + ".")
    out.append("")
tail = os.path.join(T, "design_tail.md")
if os.path.exists(tail):
    out.append(open(tail).read())
found = os.path.join(T, "detected.json")
if os.path.exists(found):
    out.append("\n| planted bug | property | needs | caught by law |\n|---|---|---|---|")
    for bug, r in json.load(open(found)).items():
        meta = json.load(open(os.path.join(V, "seeded", bug, "meta.json")))
        laws = ", ".join(r["laws"]) or "**missed**"
        out.append(f"| {bug} | {r['property']} | {meta['needs']} | {laws} |")
    out.append("")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
