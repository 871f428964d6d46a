"""mutation runs: python3 tools/mutate.py OUT N FILE:PROP[,PROP] ...   (scratch copies /tmp/mr*, /tmp/mv*)

Makes up to N single-place changes per file in a scratch copy of /repo, runs the quick checks of the given
properties until one reports a violation, and writes one line per change: KILLED/SURVIVED, place, change."""
import ast
import copy
import json
import os
import random
import subprocess
import sys

SLOT = os.environ.get("SLOT", "0")
R, V = f"/tmp/mr{SLOT}", f"/tmp/mv{SLOT}"
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}


def sites(tree):
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name in ("__ascii__", "__rich_tree__", "_block_title", "__repr__", "_repr_html_"):
            for m in ast.walk(n):
                doc.add(id(m))      # looks only
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
        if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr) or (isinstance(n, ast.Call) and "logger" in ast.dump(n.func)):
            for m in ast.walk(n):
                doc.add(id(m))
        if isinstance(n, (ast.arg, ast.AnnAssign)) and n.annotation is not None:
            for m in ast.walk(n.annotation):
                doc.add(id(m))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            for m in ast.walk(n.returns):
                doc.add(id(m))
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((i, "cmp"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((i, "bin"))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "bool"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((i, "un"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, float)) and n.value is not None:
            out.append((i, "const"))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out.append((i, "neg"))
        elif isinstance(n, ast.Call):
            if n.keywords:
                out.append((i, "kw"))
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not (isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "getattr", "hasattr", "zip", "issubclass")):
                out.append((i, "swap"))
            if isinstance(n.func, ast.Name) and n.func.id in ("reversed", "sorted", "abs", "list", "tuple", "set", "deepcopy") and len(n.args) == 1:
                out.append((i, "unwrap"))
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            out.append((i, "drop"))
        elif isinstance(n, ast.Continue):
            out.append((i, "brk"))
    return out


def mutate(tree, site, rnd):
    t = copy.deepcopy(tree)
    i, kind = site
    n = list(ast.walk(t))[i]
    before = ast.unparse(n)[:90]
    repl = None
    if kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "un":
        repl = n.operand
    elif kind == "const":
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1 if isinstance(n.value, int) else n.value * 1.5 + 0.1
    elif kind == "neg":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "kw":
        del n.keywords[rnd.randrange(len(n.keywords))]
    elif kind == "swap":
        n.args.reverse()
    elif kind == "unwrap":
        repl = n.args[0]
    elif kind == "drop":
        repl = ast.Pass()
    elif kind == "brk":
        repl = ast.Break()
    if repl is not None:
        class T(ast.NodeTransformer):
            def visit(self, x):
                if x is n:
                    return ast.copy_location(repl, x)
                return self.generic_visit(x)
        t = T().visit(t)
        after = ast.unparse(repl)[:90]
    else:
        after = ast.unparse(n)[:90]
    ast.fix_missing_locations(t)
    return t, getattr(n, "lineno", 0), before, after


def main():
    out, k = sys.argv[1], int(sys.argv[2])
    subprocess.run(["rsync", "-a", "--delete", "/repo/", R + "/"], check=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "seeded", "/verif/", V + "/"], check=True)
    for spec in sys.argv[3:]:
        f, props = spec.split(":")
        p = os.path.join(R, "qadence", f)
        src = open(p).read()
        tree = ast.parse(src)
        ss = sites(tree)
        rnd = random.Random(int(os.environ.get("MSEED", "1")))
        rnd.shuffle(ss)
        for s in ss[:k]:
            t, line, before, after = mutate(tree, s, rnd)
            open(p, "w").write(ast.unparse(t))
            res, why = "SURVIVED", ""
            imp = subprocess.run(["bash", "-c", f". /opt/vp/env.sh; PYTHONPATH={R} /opt/venv/bin/python -W ignore -c 'import qadence'"], capture_output=True)
            if imp.returncode:
                res, why = "IMPORT", ""
            else:
                for pr in props.split(","):
                    try:
                        r = subprocess.run(["bash", V + "/run.sh", pr], env={**os.environ, "VERIF_REPO": R, "VERIF_FAILFAST": "1", "VERIF_TIER": "quick"}, capture_output=True, text=True, timeout=600)
                    except subprocess.TimeoutExpired:
                        res, why = "KILLED", pr + " timeout"
                        break
                    if r.returncode:
                        res, why = "KILLED", pr + " " + next((x for x in r.stdout.splitlines() if x.startswith("FAILFAST")), f"rc={r.returncode}")[:120]
                        break
            with open(out, "a") as o:
                o.write(f"{res}\t{f}:{line}\t{s[1]}\t{before!r} -> {after!r}\t{props if res == 'SURVIVED' else why}\n")
        open(p, "w").write(src)


main()
