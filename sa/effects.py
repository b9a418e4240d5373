"""Attribute effect summaries: what a method reads, writes and deletes on self,
resolved through the class hierarchy (calls, properties, super())."""

import ast

from .project import ClassInfo, FuncInfo, dotted_of
from .reach import Reach


def const_str(n):
    return n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None


def template(n):
    """f"_Me_{arg}" -> '_Me_{}' ; plain string -> itself"""
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.JoinedStr):
        return "".join(v.value if isinstance(v, ast.Constant) else "{}" for v in n.values)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = template(n.left), template(n.right)
        return (a if a is not None else "{}") + (b if b is not None else "{}")
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format":
        a = template(n.func.value)
        if a is not None:
            import re

            return re.sub(r"\{[^}]*\}", "{}", a)
    return None


class Summary:
    """flow-insensitive summary of one function body"""

    def __init__(self, fi):
        self.fi = fi
        self.reads = {}  # attr -> first node
        self.writes = {}  # attr -> [nodes]
        self.deletes = {}
        self.supers = set()
        self.passes_self = []
        node = fi.node
        a = node.args.posonlyargs + node.args.args
        me = a[0].arg if a and fi.cls is not None and fi.kind != "static" else None
        self.me = {me} if me else set()
        if me:
            for x in ast.walk(node):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in self.me:
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            self.me.add(t.id)
        for x in ast.walk(node):
            self.visit(x)

    def is_self(self, n):
        return isinstance(n, ast.Name) and n.id in self.me

    def visit(self, x):
        if isinstance(x, ast.Attribute):
            if self.is_self(x.value):
                if isinstance(x.ctx, ast.Load):
                    self.reads.setdefault(x.attr, x)
                elif isinstance(x.ctx, ast.Store):
                    self.writes.setdefault(x.attr, []).append(x)
                else:
                    self.deletes.setdefault(x.attr, []).append(x)
            elif isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "super":
                self.supers.add(x.attr)
        elif isinstance(x, ast.Call):
            f = dotted_of(x.func)
            if f in ("getattr", "hasattr", "setattr", "delattr") and x.args and self.is_self(x.args[0]) and len(x.args) > 1:
                s = const_str(x.args[1])
                if s is not None:
                    if f in ("getattr", "hasattr"):
                        self.reads.setdefault(s, x)
                    elif f == "setattr":
                        self.writes.setdefault(s, []).append(x)
                    else:
                        self.deletes.setdefault(s, []).append(x)
            for a in list(x.args) + [k.value for k in x.keywords]:
                if self.is_self(a) and f not in ("getattr", "hasattr", "setattr", "delattr", "super", "isinstance", "type"):
                    self.passes_self.append(x)
        elif isinstance(x, ast.AugAssign):
            t = x.target
            if isinstance(t, ast.Attribute) and self.is_self(t.value):
                self.reads.setdefault(t.attr, t)


def summary(p, fi):
    c = getattr(p, "_summ", None)
    if c is None:
        c = p._summ = {}
    if fi.node not in c:
        c[fi.node] = Summary(fi)
    return c[fi.node]


class View:
    """one dynamic class"""

    def __init__(self, p, cls):
        self.p, self.cls = p, cls
        self._cl = {}

    def lookup(self, name):
        return self.p.lookup(self.cls, name)

    def functions_of(self, name, after=None, slots=("get",)):
        """functions run when self.<name> is read / called"""
        r = self.p.lookup(self.cls, name, after=after) if after is not None else self.p.lookup(self.cls, name)
        if r is None:
            return []
        if r[0] == "method":
            return [r[1]]
        if r[0] == "prop":
            out = []
            for s in slots:
                g = r[1].get(s)
                if g is None and after is None:
                    g = self.p.prop_slot(self.cls, name, s)
                if g is not None:
                    out.append(g)
            return out
        return []

    def methods(self):
        """every FuncInfo reachable as a member of this class: {(name, slot): fi}"""
        out = {}
        for k in self.p.mro(self.cls):
            if not isinstance(k, ClassInfo):
                continue
            for n, fi in k.methods.items():
                out.setdefault((n, "method"), fi)
            for n, d in k.props.items():
                for s, fi in d.items():
                    if isinstance(fi, FuncInfo):
                        out.setdefault((n, s), fi)
        return out

    def reads(self, fi, stop=frozenset()):
        """transitive attribute reads of fi on self (names), through calls, properties and super()"""
        key = (fi.node, stop)
        if key in self._cl:
            return self._cl[key]
        out = {}
        seen = set()
        todo = [(fi, (fi.qual,))]
        while todo:
            f, path = todo.pop()
            if f.node in seen:
                continue
            seen.add(f.node)
            s = summary(self.p, f)
            for n in s.reads:
                if n not in out:
                    out[n] = path
                if n in stop:
                    continue
                for g in self.functions_of(n):
                    todo.append((g, path + (g.qual,)))
            for n in s.supers:
                for g in self.functions_of(n, after=f.cls):
                    todo.append((g, path + (g.qual,)))
        self._cl[key] = out
        return out

    def writes(self, fi, slots=("get",)):
        out = {}
        seen = set()
        todo = [fi]
        while todo:
            f = todo.pop()
            if f.node in seen:
                continue
            seen.add(f.node)
            s = summary(self.p, f)
            for d in (s.writes, s.deletes):
                for n in d:
                    out.setdefault(n, f)
                    for g in self.functions_of(n, slots=("set",)):
                        todo.append(g)
            for n in s.reads:
                todo.extend(self.functions_of(n))
            for n in s.supers:
                todo.extend(self.functions_of(n, after=f.cls))
        return out


def phys_props(p, cls):
    """{value name: (map name, deriv name)} declared with props.Invertible / PhysicalProperty in the hierarchy"""
    out = {}
    for k in p.mro(cls):
        if not isinstance(k, ClassInfo):
            continue
        for st in k.node.body:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and (dotted_of(st.value.func) or "").split(".")[-1] == "Invertible":
                t = st.targets[0]
                if isinstance(t, ast.Tuple) and len(t.elts) == 3:
                    n = [e.id for e in t.elts if isinstance(e, ast.Name)]
                    if len(n) == 3:
                        out.setdefault(n[0], (n[1], n[2]))
    return out


# ------------------------------------------------------------------ local slices

class Slicer:
    """backward slice inside one function: which self attributes and parameters an expression is computed from
    (reaching definitions; data dependence only)"""

    def __init__(self, p, fi):
        self.s = summary(p, fi)
        self.fi = fi
        self.params = set(fi.all_params()) - self.s.me
        c = getattr(p, "_reach", None)
        if c is None:
            c = p._reach = {}
        if fi.node not in c:
            c[fi.node] = Reach(fi.node)
        self.r = c[fi.node]

    def slice(self, exprs):
        """(attribute names read on self, parameter names, super names)"""
        reads, params, supers = {}, set(), set()
        todo = list(exprs)
        done, seen = set(), set()
        while todo:
            e = todo.pop()
            if id(e) in done:
                continue
            done.add(id(e))
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    if x.id in self.s.me:
                        continue
                    for d in self.r.reaching(x):
                        if d in seen:
                            continue
                        seen.add(d)
                        if d.param:
                            params.add(d.name)
                        todo.extend(d.exprs)
                elif isinstance(x, ast.Attribute) and self.s.is_self(x.value) and isinstance(x.ctx, ast.Load):
                    reads.setdefault(x.attr, x)
                elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Call) and dotted_of(x.value.func) == "super":
                    supers.add(x.attr)
                elif isinstance(x, ast.Call) and dotted_of(x.func) == "getattr" and len(x.args) > 1 and self.s.is_self(x.args[0]):
                    n = const_str(x.args[1])
                    if n:
                        reads.setdefault(n, x)
        return reads, params, supers


def attr_writes(p, fi):
    """[(attr, value expressions, node)] for every store to self.attr (also self.attr[..] = v, self.attr.append(v),
    setattr(self, 'attr', v))"""
    s = summary(p, fi)
    out = []

    def base_attr(t):
        while isinstance(t, (ast.Subscript,)):
            t = t.value
        if isinstance(t, ast.Attribute) and s.is_self(t.value):
            return t.attr
        return None

    for x in ast.walk(fi.node):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                for e in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                    a = base_attr(e)
                    if a:
                        out.append((a, [x.value], x))
        elif isinstance(x, (ast.AugAssign, ast.AnnAssign)) and x.value is not None:
            a = base_attr(x.target)
            if a:
                out.append((a, [x.value], x))
        elif isinstance(x, ast.Call):
            if dotted_of(x.func) == "setattr" and len(x.args) == 3 and s.is_self(x.args[0]) and const_str(x.args[1]):
                out.append((const_str(x.args[1]), [x.args[2]], x))
            elif isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "insert", "update", "add"):
                a = base_attr(x.func.value)
                if a:
                    out.append((a, list(x.args), x))
    return out


def value_deps(view, fi, exprs):
    """names of self attributes the value is computed from (transitively), and parameters of fi used"""
    sl = Slicer(view.p, fi)
    reads, params, supers = sl.slice(exprs)
    out = set(reads)
    for n in reads:
        for g in view.functions_of(n):
            out |= set(view.reads(g))
    for n in supers:
        for g in view.functions_of(n, after=fi.cls):
            out |= set(view.reads(g))
    return out, params
