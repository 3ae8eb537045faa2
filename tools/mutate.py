#!/usr/bin/env python3
"""Systematic small changes to zoidberg, to find what no check notices.

mutate.py MODULE[:FUNCTION,...] [--every N] [--offset K] [--jobs J] [--out FILE]

Each mutant (one changed operator, constant, comparison, condition or removed statement)
is made in a scratch copy of /repo, and the checks mapped to the function are run until one
reports a violation.  Survivors are printed with their source line; they are either
equivalent, outside of the properties, or a gap to close.  A development tool: no check uses it.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

SRC = os.environ.get("MUTATE_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "fieldtracer": {"FieldTracer.": "C01 C18", "FieldTracerReversible": "C02", "trace_poincare": "C03", "CachingFieldTracer": "C04",
                    "FieldTracerWeb": "C31", "FusionSCTracer": "C31", "EMC3FieldTracer": "C34", "": "C31 C01"},
    "field": {"MagneticField": "C05 C18", "Slab": "C06", "CurvedSlab": "C06", "StraightStellarator": "C06", "RotatingEllipse": "C06",
              "Screwpinch": "C06", "DommaschkPotentials": "C07", "GEQDSK": "C08", "VMEC": "C09", "W7X": "C31", "EMC3": "C34", "": "C06 C07 C31 C05"},
    "boundary": {"": "C10 C08"},
    "poloidal_grid": {"RectangularPoloidalGrid": "C11", "StructuredPoloidalGrid.metric": "C13", "StructuredPoloidalGrid": "C12 C13", "grid_": "C14", "": "C11 C12"},
    "grid": {"": "C15 C25"},
    "rzline": {"RZline": "C16 C17", "line_from": "C17", "": "C16 C17"},
    "zoidberg": {"make_maps": "C18 C20 C19", "parallel_slice": "C18 C24", "get_metric": "C25 C26", "update_metric": "C25 C24", "MapWriter.add_dagp": "C28 C27",
                 "MapWriter": "C24 C25 C26 C28", "write_maps": "C24 C25", "upscale": "C32", "make_surfaces": "", "": ""},
    "weights": {"": "C22 C21 C23"},
    "stencil_dagp_fv": {"": "C27 C28"},
    "diff": {"": "C29 C20"},
    "smooth": {"": "C30"},
    "spectralline": {"": "C33"},
    "plot": {"": "C35"},
    "progress": {"": "C36"},
}


def props_of(mod, fn):
    best = max((k for k in MAP[mod] if fn.startswith(k)), key=len, default=None)
    return MAP[mod][best].split() if best is not None else []


class Finder(ast.NodeVisitor):
    def __init__(self, src, cls_sep="."):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.stack = []
        self.out = []  # (function, line, start, end, new)
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l.encode()))
        self.b = src.encode()

    def pos(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset)

    def text(self, node):
        a, b = self.pos(node)
        return self.b[a:b].decode()

    def add(self, node, new):
        if len(self.stack) == 0:
            return
        a, b = self.pos(node)
        self.out.append((".".join(self.stack), node.lineno, a, b, new))

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            pass
        self.stack.pop()

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        t = self.text(n)
        if "plt." in t or "print(" in t or "log(" in t:
            return
        self.add(n, "pass")
        self.generic_visit(n)

    def visit_Raise(self, n):
        return

    def visit_Assert(self, n):
        return

    def visit_If(self, n):
        t = self.text(n.test)
        if "show" in t or "plot" in t or "quiet" in t or "tqdm" in t or t == "0" or "__main__" in t:
            return
        self.add(n.test, f"not ({t})")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass")
        swap = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
        if type(n.op) in swap:
            self.add(n, f"{self.text(n.target)} {swap[type(n.op)]}= {self.text(n.value)}")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        swap = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "+", ast.FloorDiv: "/"}
        if type(n.op) in swap and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, f"(({self.text(n.left)}) {swap[type(n.op)]} ({self.text(n.right)}))")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            self.add(n, f"({self.text(n.operand)})")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            swap = {ast.Lt: [">", "<="], ast.LtE: [">", "<"], ast.Gt: ["<", ">="], ast.GtE: ["<", ">"], ast.Eq: ["!="], ast.NotEq: ["=="]}
            for o in swap.get(type(n.ops[0]), []):
                self.add(n, f"(({self.text(n.left)}) {o} ({self.text(n.comparators[0])}))")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + o.join(f"({self.text(v)})" for v in n.values) + ")")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value))
        elif isinstance(n.value, int):
            self.add(n, f"({n.value + 1})")
            if n.value > 1:
                self.add(n, f"({n.value - 1})")
        elif isinstance(n.value, float):
            self.add(n, repr(n.value * 1.01 if n.value else 0.01))

    def visit_Call(self, n):
        t = self.text(n.func)
        sw = {"np.amax": "np.amin", "np.amin": "np.amax", "np.max": "np.min", "np.min": "np.max", "np.floor": "np.ceil", "np.abs": "np.asarray", "abs": "float",
              "np.cos": "np.sin", "np.sin": "np.cos", "np.any": "np.all", "np.all": "np.any", "np.remainder": "np.fmod", "min": "max", "max": "min"}
        if t in sw:
            self.add(n.func, sw[t])
        for k in n.keywords:
            if k.arg and k.arg not in ("desc", "dtype", "total"):
                a, b = self.pos(k)
                # drop the keyword
                pass
        self.generic_visit(n)

    def visit_JoinedStr(self, n):
        return


def mutants(mod):
    src = open(f"{SRC}/zoidberg/{mod}.py").read()
    f = Finder(src)
    f.visit(ast.parse(src))
    seen, res = set(), []
    for m in f.out:
        if m[2:] in seen:
            continue
        seen.add(m[2:])
        res.append(m)
    return src, res


def run(mod, src, m, verif, nproc):
    fn, line, a, b, new = m
    work = tempfile.mkdtemp(prefix="mut_")
    try:
        copy = os.path.join(work, "repo")
        os.makedirs(copy)
        shutil.copytree(f"{SRC}/zoidberg", os.path.join(copy, "zoidberg"), ignore=shutil.ignore_patterns("__pycache__"))
        bs = src.encode()
        out = bs[:a] + new.encode() + bs[b:]
        try:
            compile(out, "x", "exec")
        except SyntaxError:
            return m, "SYNTAX", ""
        open(os.path.join(copy, "zoidberg", f"{mod}.py"), "wb").write(out)
        env = dict(os.environ, VERIF_REPO_DEV=copy, VERIF_NPROC=str(nproc), VERIF_HANG="60", TMPDIR=work)
        last = "-"
        for p in props_of(mod, fn):
            r = subprocess.run(["python3", os.path.join(verif, "run.py"), "--property", p, "--tier", "quick"], cwd=verif, env=env,
                               capture_output=True, text=True)
            if r.returncode == 1:
                law = [l for l in r.stdout.splitlines() if l.startswith("# law")]
                return m, "CAUGHT " + p, law[0][:100] if law else ""
            if r.returncode != 0:
                last = f"exit {r.returncode} from {p}: {(r.stdout + r.stderr)[-200:]}"
        return m, "SURVIVED", last
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("targets", nargs="+")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--nproc", type=int, default=2)
    ap.add_argument("--count", action="store_true")
    ap.add_argument("--skip", help="results of an earlier run")
    ap.add_argument("--out", default="/tmp/mutants.jsonl")
    a = ap.parse_args()
    verif = tempfile.mkdtemp(prefix="mutverif_")
    todo = []
    done = set()
    if a.skip:
        done = {(m[0], m[1], m[3], m[4]) for m in map(json.loads, open(a.skip))}
    for t in a.targets:
        mod, _, fns = t.partition(":")
        src, ms = mutants(mod)
        if fns:
            ms = [m for m in ms if any(m[0].startswith(f) for f in fns.split(","))]
        ms = [m for m in ms if props_of(mod, m[0])]
        ms = [m for m in ms if (mod, m[0], src.encode()[m[2]:m[3]].decode(), m[4]) not in done]
        todo += [(mod, src, m) for m in ms[a.offset::a.every]]
    print(len(todo), "mutants", flush=True)
    if a.count:
        return
    try:
        for d in ("checks", "vlib"):
            shutil.copytree(os.path.join(HERE, d), os.path.join(verif, d), ignore=shutil.ignore_patterns("__pycache__"))
        for f in ("run.py", "known_findings.json"):
            shutil.copy(os.path.join(HERE, f), verif)
        n = {}
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as log:
            futs = {ex.submit(run, mod, src, m, verif, a.nproc): (mod, src) for mod, src, m in todo}
            for f in concurrent.futures.as_completed(futs):
                mod, src = futs[f]
                m, st, info = f.result()
                n[st.split()[0]] = n.get(st.split()[0], 0) + 1
                old = src.encode()[m[2]:m[3]].decode()
                log.write(json.dumps([mod, m[0], m[1], old, m[4], st, info]) + "\n")
                log.flush()
                if st == "SURVIVED":
                    print(f"{mod}:{m[1]} {m[0]}: {old!r} -> {m[4]!r}  {info}", flush=True)
        print(n)
    finally:
        shutil.rmtree(verif, ignore_errors=True)


main()
