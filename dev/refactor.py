#!/usr/bin/env python3
"""dev/refactor.py [T1,T2,...] [PIDS]: apply behaviour-preserving rewrites to a
scratch copy of simpeg's source and run the checks on it; they must stay quiet.
Each rewrite is applied everywhere it is applicable at once."""
import ast, os, shutil, subprocess, sys, copy, tempfile
SRC = os.environ.get("VERIF_REPO", "/repo") + "/simpeg"
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def is_gen(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False

def jitted(fn):
    return any("jit" in ast.unparse(d) or "njit" in ast.unparse(d) for d in fn.decorator_list)

class TempRet(ast.NodeTransformer):
    "return e -> _out = e; return _out"
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)): return n
        return [ast.Assign([ast.Name("_out", ast.Store())], n.value, lineno=n.lineno), ast.Return(ast.Name("_out", ast.Load()))]
    def visit_Lambda(self, n): return n

class InvertIf(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            t = n.test
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In, ast.NotIn):
                m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}
                t2 = ast.Compare(t.left, [m[type(t.ops[0])]()], t.comparators)
            elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): t2 = t.operand
            else: t2 = ast.UnaryOp(ast.Not(), t)
            return ast.If(t2, n.orelse, n.body)
        return n

class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(i, ast.parse("_unused = None").body[0])
        return n

class SwapAdd(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add):
            for x in ast.walk(n):
                if isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str): return n
            s = ast.unparse(n)
            if any(w in s for w in ("str(", "list", "name", "format", "Map", "reg", "phi", "objfct", "Zero", "Identity", "_s", "title", "kwargs", "key", "msg", "out", "src", "path", "uncert", "loc", "args", "dir", "file", "fname")): return n
            return ast.BinOp(n.right, ast.Add(), n.left)
        return n

class EarlyRet(ast.NodeTransformer):
    "if c: ...return  REST  -> if c: ...return else: REST"
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return,)) and i + 1 < len(b):
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if not is_gen(n): n.body = self.block(n.body)
        return n

class FlattenElse(ast.NodeTransformer):
    "if c: ..return else: REST -> if c: ..return; REST"
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        out = []
        for s in n.body:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], ast.Return):
                out.extend(s.orelse); s.orelse = []
        n.body = out
        return n

class Hoist(ast.NodeTransformer):
    "x = f(a)*g(b) -> _h1 = f(a); x = _h1*g(b)  at statement level (left operand first: order kept)"
    def __init__(self): self.k = 0
    def do(self, n):
        e = n.value
        pre = []
        if isinstance(e, ast.BinOp) and not isinstance(e.left, (ast.Name, ast.Constant)):
            self.k += 1
            nm = f"_h{self.k}"
            pre.append(ast.Assign([ast.Name(nm, ast.Store())], e.left, lineno=0))
            e.left = ast.Name(nm, ast.Load())
        elif isinstance(e, ast.Call) and e.args and not isinstance(e.args[0], (ast.Name, ast.Constant, ast.Starred, ast.GeneratorExp)) and isinstance(e.func, (ast.Name, ast.Attribute)) and not (isinstance(e.func, ast.Name) and e.func.id == "super"):
            self.k += 1
            nm = f"_h{self.k}"
            pre.append(ast.Assign([ast.Name(nm, ast.Store())], e.args[0], lineno=0))
            e.args[0] = ast.Name(nm, ast.Load())
        return pre + [n]
    def visit_Assign(self, n):
        return self.do(n) if getattr(self, "infn", 0) else n
    def visit_Return(self, n):
        return self.do(n) if n.value is not None else n
    def visit_FunctionDef(self, n):
        if jitted(n): return n
        self.infn = getattr(self, "infn", 0) + 1
        self.generic_visit(n)
        self.infn -= 1
        return n
    def visit_ClassDef(self, n):
        o = getattr(self, "infn", 0); self.infn = 0
        self.generic_visit(n); self.infn = o
        return n

class Extract(ast.NodeTransformer):
    "method body -> helper method with the same parameters"
    def visit_ClassDef(self, c):
        self.generic_visit(c)
        new = []
        for f in c.body:
            new.append(f)
            if not isinstance(f, ast.FunctionDef) or f.name.startswith("__") and f.name != "__call__": continue
            if any(not (isinstance(d, ast.Name) and d.id == "property") and not (isinstance(d, ast.Attribute) and d.attr == "setter") for d in f.decorator_list): continue
            a = f.args
            if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or not a.args or a.args[0].arg != "self": continue
            src = ast.unparse(f)
            if "super(" in src or is_gen(f) or "__" in src.replace("__init__", ""): continue
            suffix = "set" if any(isinstance(d, ast.Attribute) for d in f.decorator_list) else "impl"
            nm = f"_{c.name.lower()}_{f.name}_{suffix}"
            h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x.arg) for x in a.args], None, [], [], None, []), [s for s in f.body], [], None, None, type_params=[])
            doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
            call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args[1:]], [])
            f.body = doc + [ast.Return(call)]
            new.append(h)
        c.body = new
        return c

class CompToLoop(ast.NodeTransformer):
    "x = [e for t in it] -> x = []; for t in it: x.append(e)"
    def visit_Assign(self, n):
        if not getattr(self, "infn", 0): return n
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1:
            g = n.value.generators[0]
            nm = n.targets[0].id
            if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(n.value)): return n
            b = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [n.value.elt], []))]
            for c in reversed(g.ifs): b = [ast.If(c, b, [])]
            return [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load()), lineno=0), ast.For(g.target, g.iter, b, [], lineno=0)]
        return n
    visit_FunctionDef = Hoist.visit_FunctionDef
    visit_ClassDef = Hoist.visit_ClassDef

class Rename(ast.NodeTransformer):
    "rename plain local variables"
    def visit_FunctionDef(self, n):
        if jitted(n) or any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.ClassDef)) for b in n.body for x in ast.walk(b)):
            self.generic_visit(n); return n
        if "locals()" in ast.unparse(n) or "eval(" in ast.unparse(n): return n
        par = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        if n.args.vararg: par.add(n.args.vararg.arg)
        if n.args.kwarg: par.add(n.args.kwarg.arg)
        loc = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - par
        loc -= {a.asname or a.name.split(".")[0] for b in n.body for x in ast.walk(b) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in loc: x.id = x.id + "_r"
        return n

class ReverseMethods(ast.NodeTransformer):
    def visit_ClassDef(self, c):
        fns = [f for f in c.body if isinstance(f, ast.FunctionDef) and not f.decorator_list]
        used = {x.id for f in c.body if not isinstance(f, ast.FunctionDef) for x in ast.walk(f) if isinstance(x, ast.Name)}
        used |= {x.id for f in c.body if isinstance(f, ast.FunctionDef) for d in f.decorator_list for x in ast.walk(d) if isinstance(x, ast.Name)}
        names = [f.name for f in fns]
        if len(set(names)) != len(names) or used & set(names): return c
        if any(isinstance(f, ast.FunctionDef) and f.decorator_list and f.name in names for f in c.body): return c
        rest = [s for s in c.body if s not in fns]
        c.body = rest + fns[::-1]
        return c

class IfExpToIf(ast.NodeTransformer):
    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            return ast.If(n.value.test, [ast.Return(n.value.body)], [ast.Return(n.value.orelse)])
        return n
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body, lineno=0)], [ast.Assign(copy.deepcopy(n.targets), n.value.orelse, lineno=0)])
        return n

class SelfAlias(ast.NodeTransformer):
    "mesh = self.mesh at the top when used twice or more (not assigned)"
    def visit_FunctionDef(self, n):
        if is_gen(n) or jitted(n) or not n.args.args or n.args.args[0].arg != "self" or n.name == "__init__": return n
        for attr in ("mesh", "survey"):
            uses = [x for b in n.body for x in ast.walk(b) if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) and x.value.id == "self"]
            if len(uses) >= 2 and all(isinstance(u.ctx, ast.Load) for u in uses) and not any(isinstance(x, ast.Name) and x.id == attr for b in n.body for x in ast.walk(b)) and all(a.arg != attr for a in n.args.args) and not any(isinstance(x, (ast.Lambda, ast.FunctionDef)) for b in n.body for x in ast.walk(b)):
                # only when first top-level statement touches it (so no behaviour change)
                i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
                if i < len(n.body) and not isinstance(n.body[i], (ast.If, ast.For, ast.While, ast.Try, ast.With)) and any(u in list(ast.walk(n.body[i])) for u in uses):
                    class S(ast.NodeTransformer):
                        def visit_Attribute(s, x):
                            s.generic_visit(x)
                            if x.attr == attr and isinstance(x.value, ast.Name) and x.value.id == "self": return ast.Name(attr, ast.Load())
                            return x
                    n.body = [S().visit(b) for b in n.body]
                    n.body.insert(i, ast.parse(f"{attr} = self.{attr}").body[0])
        return n

class AugExpand(ast.NodeTransformer):
    "name += e  ->  name = name + e for plain local names (fresh accumulators only)"
    def visit_FunctionDef(self, n):
        par = {a.arg for a in n.args.args}
        class A(ast.NodeTransformer):
            def visit_AugAssign(s, x):
                if isinstance(x.target, ast.Name) and x.target.id not in par and isinstance(x.op, (ast.Add, ast.Sub)):
                    return ast.Assign([ast.Name(x.target.id, ast.Store())], ast.BinOp(ast.Name(x.target.id, ast.Load()), x.op, x.value), lineno=0)
                return x
        n.body = [A().visit(b) for b in n.body]
        return n

class TestVar(ast.NodeTransformer):
    "if cond: -> _c = cond; if _c: (only the first test of an if chain)"
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                out.append(ast.Assign([ast.Name("_cnd", ast.Store())], s.test, lineno=0))
                s.test = ast.Name("_cnd", ast.Load())
            out.append(s)
        return out
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if not jitted(n): n.body = self.block(n.body)
        return n

class Kwargify(ast.NodeTransformer):
    "adjoint-style positional/keyword changes: f(a, v=v) unchanged; a*b -> a@b not done"
    pass

class NestIf(ast.NodeTransformer):
    "if a and b: X  ->  if a:\n if b: X   (no else)"
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            v = n.test.values
            return ast.If(v[0], [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), n.body, [])], [])
        return n

class EnumToRange(ast.NodeTransformer):
    "for i, x in enumerate(xs): -> for i in range(len(xs)): x = xs[i]   (xs a name or attribute chain)"
    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "enumerate" and len(c.args) == 1 and not c.keywords and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name):
            x = c.args[0]
            if not (isinstance(x, ast.Attribute) and x.attr in ("source_list", "receiver_list")): return n
            i = n.target.elts[0].id
            b = ast.Assign([n.target.elts[1]], ast.Subscript(copy.deepcopy(x), ast.Name(i, ast.Load()), ast.Load()), lineno=0)
            return ast.For(n.target.elts[0], ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [x], [])], []), [b] + n.body, n.orelse, lineno=0)
        return n

class UnZip(ast.NodeTransformer):
    "for a, b in zip(A, B) -> for _i, a in enumerate(A): b = B[_i] for plain names"
    pass

class Decompose(ast.NodeTransformer):
    "split products: r = a*b*c -> t = b*c ; r = a*t   when op is @ or * on three factors"
    def visit_Return(self, n):
        e = n.value
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.MatMult,)) and isinstance(e.left, ast.BinOp) and isinstance(e.left.op, ast.MatMult):
            t = ast.BinOp(e.left.right, e.op, e.right)
            return [ast.Assign([ast.Name("_q", ast.Store())], t, lineno=0), ast.Return(ast.BinOp(e.left.left, e.op, ast.Name("_q", ast.Load())))]
        return n

T = {k: v for k, v in globals().items() if isinstance(v, type) and issubclass(v, ast.NodeTransformer) and v not in (ast.NodeTransformer, Kwargify, UnZip)}

def apply(names, dst):
    shutil.copytree(SRC, dst + "/simpeg", ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    n = 0
    for d, _, fs in os.walk(dst + "/simpeg"):
        for f in fs:
            if not f.endswith(".py"): continue
            p = os.path.join(d, f)
            t = ast.parse(open(p).read())
            b = ast.dump(t)
            for nm in names:
                t = ast.fix_missing_locations(T[nm]().visit(t))
            if ast.dump(t) != b:
                n += 1
                open(p, "w").write(ast.unparse(t) + "\n")
                compile(open(p).read(), p, "exec")
    return n

if __name__ == "__main__":
    names = sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] != "all" else list(T)
    pids = sys.argv[2].split(",") if len(sys.argv) > 2 else []
    for nm in names:
        dst = tempfile.mkdtemp(prefix="refac_")
        k = apply(nm.split("+"), dst)
        r = subprocess.run([sys.executable, R + "/check.py"] + pids, env=dict(os.environ, VERIF_REPO=dst), capture_output=True, text=True)
        print("==", nm, "files", k, "rc", r.returncode)
        o = r.stdout
        print(o[:6000] if r.returncode else "\n".join(l for l in o.splitlines() if "obligations" in l))
        if r.stderr: print(r.stderr[-2000:])
        shutil.rmtree(dst)
