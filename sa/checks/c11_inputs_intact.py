"""Arrays and containers handed in by the caller are not changed in place."""

import ast
import re

from ..effects import View, const_str, summary
from ..project import ClassInfo, External, FuncInfo, dotted_of
from ..reach import Reach
from ..report import Report

RULES = {
    "argument": "no public function or method stores into, augments in place, or calls a mutating method on an object that may be (a view of) one of its "
    "arguments, directly or in a function it hands it to",
    "kept": "an array that another object or a cached property / accessor keeps is not changed in place through a local name",
    "held": "an array or container received as an argument and kept on the object without a copy is not changed in place later",
}

VIEW_METHODS = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "diagonal"}
VIEW_ATTRS = {"T", "real", "imag", "flat", "data"}
VIEW_FUNCS = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "squeeze", "ravel", "reshape", "transpose", "asfarray", "ascontiguousarray", "asfortranarray", "broadcast_to", "moveaxis", "swapaxes", "expand_dims", "real", "imag"}
MUT_METHODS = {"sort", "fill", "resize", "put", "itemset", "partition", "append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "reverse", "setdiag", "eliminate_zeros", "sum_duplicates", "sort_indices", "add", "discard", "setfield", "byteswap"}
MUT_FUNCS = {"put": 0, "copyto": 0, "fill_diagonal": 0, "place": 0, "putmask": 0, "shuffle": 0, "put_along_axis": 0}
UFUNC2 = {"add", "subtract", "multiply", "divide", "true_divide", "power", "maximum", "minimum", "matmul", "dot", "hypot", "arctan2"}
UFUNC1 = {"exp", "log", "sqrt", "abs", "absolute", "negative", "square", "sin", "cos", "conjugate", "conj", "sign"}


def scalar_hint(fi, name):
    t = doc_type(fi, name)
    if t is not None:
        return t == "scalar"
    if int_use(fi, name):
        return True
    d = fi.defaults().get(name)
    if isinstance(d, ast.Constant) and d.value is not None:
        return True
    if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
        return True
    for a in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs:
        if a.arg == name and a.annotation is not None:
            s = ast.unparse(a.annotation)
            if any(t in s for t in ("float", "int", "str", "bool")) and not any(t in s for t in ("rray", "ist", "Dict", "dict", "Sequence", "Iterable")):
                return True
    return False


def doc_type(fi, name):
    """what the docstrings say the parameter is: 'scalar', 'array' or None"""
    docs = [ast.get_docstring(fi.node) or ""]
    if fi.name == "__init__" and fi.cls is not None:
        docs.append(ast.get_docstring(fi.cls.node) or "")
    for d in docs:
        m = re.search(r"^\s*" + re.escape(name) + r"\s*:\s*(.+)$", d, re.M) or re.search(r":param\s+(\S.*?)\s+" + re.escape(name) + r"\s*:", d)
        if m:
            t = m.group(1)
            if re.search(r"arr|ndarray|list|vector|matrix|dict|sequence|iterable|tuple|\(\s*(n|\*|\d)", t, re.I):
                return "array"
            if re.search(r"\b(float|int|integer|str|string|bool|scalar|number|callable|function)\b", t, re.I):
                return "scalar"
    return None


def int_use(fi, name):
    """the parameter is used as one number: inside int(...), range(...) or an ordering comparison with a literal"""
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Call) and dotted_of(x.func) in ("int", "float", "range"):
            if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)):
                return True
    return False


KNOWN_ARRAYS = {"locations", "dobs", "dclean", "standard_deviation", "uncertainty", "relative_error", "noise_floor", "model", "times", "frequencies",
                "reference_model", "weights", "objfcts", "multipliers", "source_list", "receiver_list", "sigma", "rho", "mu", "mui", "J", "G", "W"}


def array_like(p, fi, chain):
    """is the value behind this attribute chain / accessor call an array (rather than a number)?"""
    last = chain.split(".")[-1]
    if last.endswith("()"):
        return not re.match(r"get_?n[A-Z_]", last)
    if re.match(r"_?n[A-Z_]|dim$", last):
        return False
    if ".mesh." in chain or chain.startswith("mesh."):
        return True
    if last in KNOWN_ARRAYS:
        return True
    if chain.count(".") == 1 and fi.cls is not None:
        r = p.lookup(fi.cls, last)
        if r is not None and r[0] == "prop":
            g = r[1].get("get")
            d = (ast.get_docstring(g.node) or "") if g is not None else ""
            return bool(re.search(r"ndarray|numpy\.array|scipy\.sparse|csr_matrix", d))
    return False


class Alias:
    """aliasing of one function's locals with its parameters"""

    def __init__(self, ck, fi):
        self.ck, self.fi = ck, fi
        c = ck.p.__dict__.setdefault("_reach", {})
        if fi.node not in c:
            c[fi.node] = Reach(fi.node)
        self.r = c[fi.node]
        self.s = summary(ck.p, fi)
        self.memo = {}

    def of(self, e, depth=0):
        """{(root, how)}: root is a parameter name or 'self.<attr>'; how in same / view / elem"""
        if e is None or depth > 12:
            return frozenset()
        k = id(e)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = frozenset()
        r = frozenset(self._of(e, depth))
        self.memo[k] = r
        return r

    def _of(self, e, depth):
        out = set()
        if isinstance(e, ast.Name):
            if e.id in self.s.me:
                return out
            for d in self.r.reaching(e):
                if d.param:
                    out.add((d.name, "same"))
                elif d.kind == "assign":
                    for x in d.exprs:
                        out |= self.of(x, depth + 1)
                elif d.kind == "for":
                    for x in d.exprs:
                        out |= {(a, "elem") for a, _ in self.iter_roots(x, depth + 1)}
        elif isinstance(e, ast.Attribute):
            if self.s.is_self(e.value):
                out.add(("self." + e.attr, "same"))
                r = self.ck.p.lookup(self.fi.cls, e.attr) if self.fi.cls is not None else None
                if r is not None and r[0] == "prop" and not e.attr.startswith("_"):
                    out.add(("kept." + ast.unparse(e), "same"))
            elif e.attr not in VIEW_ATTRS and self.rooted(e.value):
                out.add(("kept." + ast.unparse(e), "same"))
            elif e.attr in VIEW_ATTRS:
                out |= {(a, "view" if h != "elem" else "elem") for a, h in self.of(e.value, depth + 1)}
        elif isinstance(e, ast.Subscript):
            how = "view" if self.basic(e.slice) else "elem"
            out |= {(a, how if h != "elem" else "elem") for a, h in self.of(e.value, depth + 1)}
        elif isinstance(e, ast.IfExp):
            out |= self.of(e.body, depth + 1) | self.of(e.orelse, depth + 1)
        elif isinstance(e, ast.BoolOp):
            for v in e.values:
                out |= self.of(v, depth + 1)
        elif isinstance(e, ast.NamedExpr):
            out |= self.of(e.value, depth + 1)
        elif isinstance(e, ast.Call):
            out |= self.call(e, depth)
        return out

    def rooted(self, e):
        """an attribute chain starting at an object (not at a module or class)"""
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and (e.id in self.s.me or bool(self.r.by_name.get(e.id)))

    def iter_roots(self, e, depth):
        if isinstance(e, ast.Call):
            f = dotted_of(e.func)
            if f in ("enumerate", "zip", "reversed", "sorted", "list", "iter"):
                out = set()
                for a in e.args:
                    out |= self.iter_roots(a, depth + 1)
                return out
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("values", "items"):
                return self.of(e.func.value, depth)
        return self.of(e, depth)

    @staticmethod
    def basic(s):
        if isinstance(s, ast.Slice):
            return True
        if isinstance(s, ast.Tuple):
            return any(isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value in (None, Ellipsis) for x in s.elts) and all(
                isinstance(x, (ast.Slice, ast.Constant, ast.UnaryOp)) for x in s.elts
            )
        return isinstance(s, ast.Constant) and s.value in (None, Ellipsis) and s.value is not False

    def call(self, e, depth):
        f = e.func
        d = dotted_of(f)
        out = set()
        if isinstance(f, ast.Attribute):
            if f.attr in VIEW_METHODS:
                return {(a, "view" if h != "elem" else "elem") for a, h in self.of(f.value, depth + 1)}
            if f.attr == "astype" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                return self.of(f.value, depth + 1)
            if f.attr in ("get", "pop") and e.args:
                return {(a, "elem") for a, h in self.of(f.value, depth + 1)}
        ext = self.ck.external(self.fi, f)
        if ext is not None and ext.split(".")[0] in ("numpy", "np"):
            n = ext.split(".")[-1]
            if n in VIEW_FUNCS and e.args:
                return {(a, "view" if h != "elem" else "elem") for a, h in self.of(e.args[0], depth + 1)}
            if n == "array" and e.args and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value in (False, None) for k in e.keywords):
                return self.of(e.args[0], depth + 1)
            return out
        for g, off in self.ck.callees(self.fi, e):
            al = self.ck.returns(g)
            for q, a in self.ck.bind(g, e, off):
                if q in al:
                    out |= {(x, al[q] if h == "same" else h) for x, h in self.of(a, depth + 1)}
            for q, h in al.items():
                if q.startswith("kept."):
                    out.add(("kept." + ast.unparse(f) + "()", h))
        return out


class Check:
    def __init__(self, p):
        self.p = p
        self.al, self.ret, self.mut = {}, {}, {}
        self.busy = set()
        self.over, self.by_method = {}, {}
        for c in p.classes.values():
            for n in c.methods:
                self.by_method.setdefault(n, []).append(c)

    def alias(self, fi):
        if fi.node not in self.al:
            self.al[fi.node] = Alias(self, fi)
        return self.al[fi.node]

    def external(self, fi, f):
        d = dotted_of(f)
        if not d:
            return None
        top = d.split(".")[0]
        if top in fi.all_params():
            return None
        r = self.p.resolve_dotted(fi.module, d)
        if isinstance(r, External):
            return r.dotted
        return None

    def callees(self, fi, call):
        """[(FuncInfo, number of leading parameters not given at the call)]"""
        f = call.func
        s = summary(self.p, fi)
        if isinstance(f, ast.Attribute) and fi.cls is not None and s.is_self(f.value):
            r = self.p.lookup(fi.cls, f.attr)
            out = []
            if r is not None and r[0] == "method":
                out.append(r[1])
            out += [g for g in self.overrides(fi.cls, f.attr) if g not in out]
            return [(g, 0 if g.kind == "static" else 1) for g in out]
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and dotted_of(f.value.func) == "super" and fi.cls is not None:
            r = self.p.lookup(fi.cls, f.attr, after=fi.cls)
            if r is not None and r[0] == "method":
                return [(r[1], 1)]
            return []
        d = dotted_of(f)
        if d and d.split(".")[0] not in fi.all_params():
            try:
                r = self.p.resolve_dotted(fi.module, d)
            except Exception:
                r = None
            if isinstance(r, FuncInfo):
                return [(r, 0)]
            if isinstance(r, ClassInfo):
                k = self.p.lookup(r, "__init__")
                if k is not None and k[0] == "method":
                    return [(k[1], 1)]
        return []

    def overrides(self, cls, name):
        """implementations in subclasses (the receiver may be any of them)"""
        k = (cls.full, name)
        if k not in self.over:
            self.over[k] = [c.methods[name] for c in self.by_method.get(name, ()) if c is not cls and self.p.is_subclass(c, cls.full)]
        return self.over[k]

    def bind(self, g, call, off):
        ps = g.params()[off:]
        out = []
        for q, a in zip(ps, call.args):
            if isinstance(a, ast.Starred):
                break
            out.append((q, a))
        for k in call.keywords:
            if k.arg:
                out.append((k.arg, k.value))
        return out

    def returns(self, g):
        """{param: how} returned values may alias"""
        if g.node in self.ret:
            return self.ret[g.node]
        self.ret[g.node] = {}
        if g.cls is not None and g.name == "__init__":
            return {}
        al = self.alias(g)
        out = {}
        for x in own_nodes(g.node):
            if isinstance(x, ast.Return) and x.value is not None:
                vs = x.value.elts if isinstance(x.value, ast.Tuple) else [x.value]
                if isinstance(x.value, ast.Tuple):
                    continue
                for v in vs:
                    for a, h in al.of(v):
                        if a.startswith("self."):
                            out.setdefault("kept." + a[5:], h)
                        else:
                            out.setdefault(a, h)
        self.ret[g.node] = out
        return out

    def mutates(self, g):
        """{root: (node, how, path)} for parameters and self attributes changed in place"""
        if g.node in self.mut:
            return self.mut[g.node]
        self.mut[g.node] = {}
        if any("jit" in ast.unparse(d) or "guvectorize" in ast.unparse(d) for d in g.node.decorator_list):
            jit = True
        al = self.alias(g)
        out = {}

        def hit(e, node, how, path=(), aug=False):
            for a, h in al.of(e):
                if aug and h == "elem":
                    continue
                if a.startswith("kept."):
                    if isinstance(e, ast.Name) and h != "elem":
                        out.setdefault(a, (node, how, path))
                    continue
                out.setdefault(a, (node, how, path))

        for x in own_nodes(g.node):
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]
                for t in ts:
                    for y in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        if isinstance(y, ast.Subscript):
                            hit(y.value, x, f"`{ast.unparse(y)[:50]}` is assigned")
                        elif isinstance(y, ast.Attribute) and y.attr in VIEW_ATTRS - {"T"}:
                            hit(y.value, x, f"`{ast.unparse(y)[:50]}` is assigned")
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute) and al.s.is_self(x.target.value) and not immutable(x.value):
                out.setdefault("self." + x.target.attr, (x, f"`{ast.unparse(x)[:50]}` works in place", ()))
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and not immutable(x.value):
                # the definitions reaching the statement itself
                y = ast.Name(x.target.id, ast.Load())
                ds = al.r.before(x)
                for d in ds:
                    if d.param:
                        if not scalar_hint(g, d.name):
                            out.setdefault(d.name, (x, f"`{ast.unparse(x)[:50]}` works in place", ()))
                    elif d.kind == "assign":
                        for e in d.exprs:
                            for a, h in al.of(e):
                                if h == "elem" or a.startswith("self."):
                                    continue
                                if a in g.all_params() and scalar_hint(g, a):
                                    continue
                                if a.startswith("kept.") and not array_like(self.p, g, a[5:]):
                                    continue
                                out.setdefault(a, (x, f"`{ast.unparse(x)[:50]}` works in place", ()))
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and x.func.attr in MUT_METHODS:
                    v = x.func.value
                    if x.func.attr == "fill" and len(x.args) != 1:
                        pass  # matplotlib's fill(x, y)
                    elif not (isinstance(v, ast.Name) and self.p.resolve_name(g.module, v.id) is not None and not al.of(v)):
                        hit(v, x, f"`{ast.unparse(x)[:50]}`")
                ext = self.external(g, x.func)
                n = ext.split(".")[-1] if ext else None
                if ext and ext.split(".")[0] in ("numpy", "random", "np"):
                    if n in MUT_FUNCS and x.args:
                        hit(x.args[0], x, f"`{ast.unparse(x)[:50]}`")
                    if n in UFUNC2 and len(x.args) > 2:
                        hit(x.args[2], x, f"`{ast.unparse(x)[:50]}`")
                    if n in UFUNC1 and len(x.args) > 1:
                        hit(x.args[1], x, f"`{ast.unparse(x)[:50]}`")
                    for k in x.keywords:
                        if k.arg == "out":
                            hit(k.value, x, f"`{ast.unparse(x)[:50]}`")
                for h, off in self.callees(g, x):
                    if h.node is g.node:
                        continue
                    mu = self.mutates(h)
                    for q, a in self.bind(h, x, off):
                        if q in mu:
                            hit(a, x, mu[q][1], (h.qual,) + mu[q][2])
        self.mut[g.node] = out
        return out


def immutable(e):
    """adding this to a value shows the value is a str or a tuple"""
    return isinstance(e, (ast.Tuple, ast.JoinedStr)) or isinstance(e, ast.Constant) and isinstance(e.value, (str, bytes))


def own_nodes(fn):
    """nodes of the function including nested functions' bodies"""
    for b in fn.body:
        yield from ast.walk(b)


def run(p, tier):
    rep = Report("C11", RULES)
    ck = Check(p)
    fs = list(p.functions)
    for c in p.classes.values():
        fs += list(c.methods.values())
        for n, d in c.props.items():
            fs += [g for g in d.values() if isinstance(g, FuncInfo)]
    seen = set()
    for fi in sorted(fs, key=lambda f: (f.module.name, f.node.lineno)):
        if fi.node in seen:
            continue
        seen.add(fi.node)
        if any("jit" in ast.unparse(d) or "guvectorize" in ast.unparse(d) for d in fi.node.decorator_list):
            continue
        mu = ck.mutates(fi)
        private = fi.name.startswith("_") and not fi.name.startswith("__") or fi.cls is not None and fi.cls.name.startswith("_")
        kept = {a: v for a, v in mu.items() if a.startswith("kept.") and not (a.endswith("()") and re.match(r"kept\.self\._", a))}
        for a, (node, how, path) in sorted(kept.items()):
            rep.bad("kept", f"{fi.key}:{a[5:]}", f"{fi.module.rel()}:{node.lineno} {fi.qual}",
                    f"the array kept behind `{a[5:]}` is changed in place: {how}" + (f" in {' -> '.join(path)}" if path else ""))
        if not kept:
            rep.ok("kept", fi.key, fi.where)
        bad = {a: v for a, v in mu.items() if not a.startswith(("self.", "kept."))}
        va = fi.node.args.kwarg.arg if fi.node.args.kwarg else None
        bad.pop(va, None)
        if private or fi.name in ("__setitem__", "__new__"):
            continue
        if not bad:
            rep.ok("argument", fi.key, fi.where, f"{len(fi.all_params())} parameters")
        for a, (node, how, path) in sorted(bad.items()):
            rep.bad("argument", f"{fi.key}:{a}", f"{fi.module.rel()}:{node.lineno} {fi.qual}",
                    f"argument `{a}` is changed in place: {how}" + (f" in {' -> '.join(path)}" if path else ""))
    rep.note("functions", len(seen))
    held(p, ck, rep)
    return rep


# ---------------------------------------------------------------- arrays kept on the object

def held(p, ck, rep):
    for c in sorted(p.classes.values(), key=lambda c: c.full):
        v = View(p, c)
        ms = v.methods()
        hold = {}
        for (name, slot), fi in ms.items():
            if slot == "get":
                continue
            al = ck.alias(fi)
            for x in own_nodes(fi.node):
                if not isinstance(x, ast.Assign):
                    continue
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and al.s.is_self(t.value):
                        for a, h in al.of(x.value):
                            if not a.startswith("self.") and not scalar_hint(fi, a) and (slot == "set" or name == "__init__" or not name.startswith("_")):
                                hold.setdefault(t.attr, (fi, a))
        # through properties: self.x = param runs the setter, the getter returns the kept one
        same = {}
        for (name, slot), fi in ms.items():
            if slot == "get":
                al = ck.alias(fi)
                for x in own_nodes(fi.node):
                    if isinstance(x, ast.Return) and x.value is not None:
                        for a, h in al.of(x.value):
                            if a.startswith("self."):
                                same.setdefault(name, set()).add(a[5:])
        real = {}
        for a, w in hold.items():
            r = p.lookup(c, a)
            if r is not None and r[0] == "prop":
                continue  # its setter decides what is kept
            real[a] = w
        n = 0
        for (name, slot), fi in ms.items():
            if fi.cls is not c:
                continue
            mu = ck.mutates(fi)
            for root, (node, how, path) in mu.items():
                if not root.startswith("self."):
                    continue
                at = root[5:]
                todo, got = [at], set()
                while todo:
                    y = todo.pop()
                    if y in got:
                        continue
                    got.add(y)
                    todo += list(same.get(y, ()))
                hit = [y for y in sorted(got) if y in real]
                n += 1
                if hit:
                    g, a = real[hit[0]]
                    rep.bad("held", f"{c.full}.{hit[0]}:{fi.name}", f"{fi.module.rel()}:{node.lineno} {fi.qual}",
                            f"self.{hit[0]} is the caller's own `{a}` (kept by {g.qual}) and is changed in place: {how}" + (f" in {' -> '.join(path)}" if path else ""))
        rep.ok("held", c.full, c.module.rel(), f"{len(real)} attributes keep an argument, {n} in-place changes of attributes")
