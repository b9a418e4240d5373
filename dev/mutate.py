#!/usr/bin/env python3
"""Development aid (not a registered check): mutate functions of simpeg in memory and
count which mutants the named check reports.

  python3 dev/mutate.py C01 'simpeg/electromagnetics/.*/simulation.py' '.*Deriv.*' [max]
"""
import ast
import copy
import importlib
import io
import contextlib
import multiprocessing as mp
import os
import random
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import check as chk  # noqa: E402
from sa import project as prj  # noqa: E402
from sa.report import load_known  # noqa: E402


class OverProject(prj.Project):
    def __init__(self, overrides):
        self.overrides = overrides
        super().__init__()

    def _load(self):
        import builtins

        real = builtins.open
        ov = self.overrides

        def fake(path, *a, **k):
            if path in ov:
                return io.StringIO(ov[path])
            return real(path, *a, **k)

        prj.open = fake
        try:
            super()._load()
        finally:
            prj.open = real


def mutants(fn):
    """yield (description, mutator(node_copy)) for a function node; addressed by walk index"""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Attribute) and n.attr == "T":
            yield i, "dropT"
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, (ast.Add, ast.Sub)):
                yield i, "flip"
                yield i, "dropR"
                yield i, "dropL"
            if isinstance(n.op, (ast.Mult, ast.MatMult)):
                yield i, "dropL"
            if isinstance(n.op, ast.Div):
                yield i, "todiv"
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield i, "unneg"
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield i, "augflip"
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            yield i, "cmpflip"
        if isinstance(n, ast.If):
            yield i, "ifneg"
        if isinstance(n, ast.keyword) and n.arg == "adjoint":
            yield i, "adjconst"
        if isinstance(n, ast.Call):
            for k, a in enumerate(n.args):
                if isinstance(a, ast.Name) and a.id == "adjoint":
                    yield i, f"adjarg{k}"
        if isinstance(n, ast.Attribute) and re.match(r"^(Me|Mf|Mn|Mcc)[A-Z]", n.attr):
            yield i, "mass"
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield i, "const"
        if isinstance(n, ast.Constant) and isinstance(n.value, complex):
            yield i, "conj"


def apply(fn, i, kind):
    nodes = list(ast.walk(fn))
    n = nodes[i]

    def repl(new):
        for m in ast.walk(fn):
            for f, v in ast.iter_fields(m):
                if v is n:
                    setattr(m, f, new)
                elif isinstance(v, list):
                    for k, x in enumerate(v):
                        if x is n:
                            v[k] = new

    if kind == "dropT":
        repl(n.value)
    elif kind == "flip":
        n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
    elif kind == "dropR":
        repl(n.left)
    elif kind == "dropL":
        repl(n.right)
    elif kind == "todiv":
        n.op = ast.Mult()
    elif kind == "unneg":
        repl(n.operand)
    elif kind == "augflip":
        n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
    elif kind == "cmpflip":
        t = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        n.ops = [t[type(n.ops[0])]()]
    elif kind == "ifneg":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "adjconst":
        n.value = ast.Constant(False)
    elif kind.startswith("adjarg"):
        n.args[int(kind[6:])] = ast.Constant(False)
    elif kind == "mass":
        n.attr = ("Mf" if n.attr.startswith("Me") else "Me") + n.attr[2 if n.attr[1] != "c" else 3:]
    elif kind == "const":
        n.value = n.value + 1
    elif kind == "conj":
        n.value = n.value.conjugate()
    ast.fix_missing_locations(fn)


PIDS = []


def work(job):
    path, qual, i, kind, lineno = job
    src = open(path).read()
    tree = ast.parse(src)
    fn = find(tree, qual)
    apply(fn, i, kind)
    try:
        new = ast.unparse(tree)
    except Exception as e:
        return (job, "err", str(e))
    return (job,) + judge({path: new})


def judge(over):
    known = load_known()
    hits = []
    try:
        p = OverProject(over)
        for pid in PIDS:
            mod = importlib.import_module(chk.MODULES[pid])
            with contextlib.redirect_stdout(io.StringIO()):
                rep = mod.run(p, "quick")
            for o in rep.obs:
                if o.status == "bad" and (pid, o.key) not in known:
                    hits.append((pid, o.key))
    except Exception as e:  # noqa
        return ("crash", repr(e))
    return ("killed" if hits else "alive", hits[:2])


def find(tree, qual):
    cur = tree
    for part in qual.split("."):
        base, _, k = part.partition("#")
        cands = [n for n in ast.iter_child_nodes(cur) if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == base]
        cur = cands[int(k or 0)]
    return cur


def functions(tree):
    def rec(node, pre):
        seen = {}
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.ClassDef, ast.FunctionDef)):
                k = seen.get(n.name, 0)
                seen[n.name] = k + 1
                q = pre + n.name + (f"#{k}" if k else "")
                if isinstance(n, ast.FunctionDef):
                    yield q, n
                else:
                    yield from rec(n, q + ".")

    yield from rec(tree, "")


def strip_doc(fn):
    return fn


def main():
    global PIDS
    PIDS = sys.argv[1].split(",")
    fre, qre = re.compile(sys.argv[2]), re.compile(sys.argv[3])
    mx = int(sys.argv[4]) if len(sys.argv) > 4 else 200
    jobs = []
    for dp, dn, fns in os.walk(os.path.join(prj.REPO, "simpeg")):
        for f in sorted(fns):
            path = os.path.join(dp, f)
            if not f.endswith(".py") or not fre.search(os.path.relpath(path, prj.REPO)):
                continue
            tree = ast.parse(open(path).read())
            for q, fn in functions(tree):
                if qre.search(q):
                    for i, kind in mutants(fn):
                        ln = getattr(list(ast.walk(fn))[i], "lineno", fn.lineno)
                        jobs.append((path, q, i, kind, ln))
    random.Random(7).shuffle(jobs)
    total = len(jobs)
    jobs = jobs[:mx]
    with mp.Pool(8) as pool:
        res = pool.map(work, jobs, chunksize=1)
    tally = {}
    for j, st, d in res:
        tally[st] = tally.get(st, 0) + 1
    for j, st, d in sorted(res, key=lambda r: (r[0][0], r[0][4])):
        if st != "killed":
            print(st, os.path.relpath(j[0], prj.REPO), j[4], j[1], j[3], d if st != "alive" else "")
    print(total, "mutants;", tally)


if __name__ == "__main__":
    main()
