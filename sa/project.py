"""Front end: parse every module under <repo>/simpeg, resolve imports, classes,
method resolution order, properties and decorator generated members.

Nothing of the analysed code is imported or executed; everything is derived
from ``ast`` trees of the current working tree."""

import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class Module:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.is_pkg = is_pkg
        self.bindings = {}  # name -> list of ('import', mod) | ('from', mod, name) | ('def', node) | ('class', ClassInfo) | ('assign', expr)
        self.star = []

    def rel(self):
        return os.path.relpath(self.path, REPO)

    def __repr__(self):
        return f"<Module {self.name}>"


class ClassInfo:
    def __init__(self, module, node, qual):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = qual
        self.methods = {}  # name -> FuncInfo (plain methods, class/static methods)
        self.props = {}  # name -> dict(get=,set=,del=)
        self.attrs = {}  # class level assignment name -> expr
        self.tuple_attrs = {}  # name -> (index, expr) for a, b, c = f(...)
        self.class_stmts = []
        self._mro = None
        self.base_exprs = node.bases

    @property
    def full(self):
        return self.module.name + "." + self.qual

    def __repr__(self):
        return f"<Class {self.full}>"


class FuncInfo:
    def __init__(self, module, cls, node, kind="method"):
        self.module = module
        self.cls = cls
        self.node = node
        self.name = node.name
        self.kind = kind  # function, method, getter, setter, deleter, static, classmethod

    @property
    def qual(self):
        if self.cls is not None:
            suffix = {"getter": "", "setter": ".setter", "deleter": ".deleter"}.get(
                self.kind, ""
            )
            return f"{self.cls.qual}.{self.name}{suffix}"
        return self.name

    @property
    def where(self):
        return f"{self.module.rel()}:{self.node.lineno} {self.qual}"

    @property
    def key(self):
        return f"{self.module.rel()}::{self.qual}"

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            r.append(a.vararg.arg)
        if a.kwarg:
            r.append(a.kwarg.arg)
        return r

    def defaults(self):
        """param name -> default expr"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    def __repr__(self):
        return f"<Func {self.where}>"


class External:
    """A name that lives outside simpeg (numpy, scipy, discretize ...)."""

    def __init__(self, dotted):
        self.dotted = dotted

    def __repr__(self):
        return f"<Ext {self.dotted}>"

    def __eq__(self, o):
        return isinstance(o, External) and o.dotted == self.dotted

    def __hash__(self):
        return hash(self.dotted)


def dotted_of(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


class Project:
    def __init__(self, repo=None, package="simpeg"):
        self.repo = repo or REPO
        self.package = package
        self.modules = {}
        self.classes = {}  # full name -> ClassInfo
        self.functions = []  # all FuncInfo
        self.parse_errors = []
        self._load()

    # -- loading ---------------------------------------------------------
    def _load(self):
        root = os.path.join(self.repo, self.package)
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    self.parse_errors.append((rel, str(e)))
                    continue
                self.modules[name] = Module(name, path, tree, src, is_pkg)
        for m in self.modules.values():
            self._bind_module(m)

    def _bind_module(self, m):
        self._bind_body(m, m.tree.body)

    def _bind_body(self, m, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.bindings.setdefault(a.asname, []).append(("import", a.name))
                    else:
                        top = a.name.split(".")[0]
                        m.bindings.setdefault(top, []).append(("import", top))
            elif isinstance(st, ast.ImportFrom):
                mod = self._abs_import(m, st)
                for a in st.names:
                    if a.name == "*":
                        m.star.append(mod)
                    else:
                        m.bindings.setdefault(a.asname or a.name, []).append(
                            ("from", mod, a.name)
                        )
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(m, None, st, "function")
                self.functions.append(fi)
                m.bindings.setdefault(st.name, []).append(("def", fi))
            elif isinstance(st, ast.ClassDef):
                ci = self._bind_class(m, st, st.name)
                m.bindings.setdefault(st.name, []).append(("class", ci))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.bindings.setdefault(t.id, []).append(("assign", st.value))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.bindings.setdefault(e.id, []).append(
                                    ("unpack", i, st.value)
                                )
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.bindings.setdefault(st.target.id, []).append(
                        ("assign", st.value)
                    )
            elif isinstance(st, ast.If):
                self._bind_body(m, st.body)
                self._bind_body(m, st.orelse)
            elif isinstance(st, ast.Try):
                self._bind_body(m, st.body)
                for h in st.handlers:
                    self._bind_body(m, h.body)
                self._bind_body(m, st.orelse)
                self._bind_body(m, st.finalbody)
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                self._bind_body(m, st.body)

    def _abs_import(self, m, st):
        if st.level == 0:
            return st.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[: len(parts) - (st.level - 1)]
        if st.module:
            parts = parts + st.module.split(".")
        return ".".join(parts)

    def _bind_class(self, m, node, qual):
        ci = ClassInfo(m, node, qual)
        self.classes[ci.full] = ci

        def visit(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    kind = "method"
                    prop = None
                    for d in st.decorator_list:
                        dn = dotted_of(d) or (
                            dotted_of(d.func) if isinstance(d, ast.Call) else ""
                        ) or ""
                        last = dn.split(".")[-1]
                        if last in ("property", "cached_property"):
                            kind = "getter"
                            prop = st.name
                        elif last == "setter":
                            kind = "setter"
                            prop = st.name
                        elif last == "deleter":
                            kind = "deleter"
                            prop = st.name
                        elif last == "staticmethod":
                            kind = "static"
                        elif last == "classmethod":
                            kind = "classmethod"
                    fi = FuncInfo(m, ci, st, kind)
                    self.functions.append(fi)
                    if prop:
                        slot = {"getter": "get", "setter": "set", "deleter": "del"}[
                            kind
                        ]
                        # ``@Base.prop.setter`` copies the base property
                        d = ci.props.setdefault(st.name, {})
                        if kind != "getter" and not d:
                            for dd in st.decorator_list:
                                dn = dotted_of(dd)
                                if dn and dn.count(".") >= 2:
                                    d["copy_of"] = dn.rsplit(".", 1)[0]
                        d[slot] = fi
                    else:
                        ci.methods[st.name] = fi
                        ci.props.pop(st.name, None)
                elif isinstance(st, ast.ClassDef):
                    self._bind_class(m, st, qual + "." + st.name)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            ci.attrs[t.id] = st.value
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for i, e in enumerate(t.elts):
                                if isinstance(e, ast.Name):
                                    ci.tuple_attrs[e.id] = (i, st.value)
                elif isinstance(st, ast.AnnAssign):
                    if isinstance(st.target, ast.Name) and st.value is not None:
                        ci.attrs[st.target.id] = st.value
                elif isinstance(st, ast.If):
                    visit(st.body)
                    visit(st.orelse)
                elif isinstance(st, ast.Expr):
                    ci.class_stmts.append(st.value)

        visit(node.body)
        return ci

    # -- resolution ------------------------------------------------------
    def resolve_name(self, module, name, _seen=None):
        """Resolve a module level name to ClassInfo, FuncInfo, Module, External,
        ('expr', module, node) or None."""
        _seen = _seen or set()
        if (module.name, name) in _seen:
            return None
        _seen.add((module.name, name))
        for b in reversed(module.bindings.get(name, [])):
            if b[0] == "class":
                return b[1]
            if b[0] == "def":
                return b[1]
            if b[0] == "import":
                if b[1] in self.modules:
                    return self.modules[b[1]]
                if b[1].split(".")[0] == self.package:
                    continue
                return External(b[1])
            if b[0] == "from":
                r = self._resolve_from(b[1], b[2], _seen)
                if r is not None:
                    return r
            if b[0] == "assign":
                # alias assignments resolve through
                d = dotted_of(b[1])
                if d and d != name:
                    r = self.resolve_dotted(module, d, _seen)
                    if r is not None:
                        return r
                if (
                    isinstance(b[1], ast.Constant)
                    and b[1].value is None
                    and len(module.bindings[name]) > 1
                ):
                    continue
                return ("expr", module, b[1])
            if b[0] == "unpack":
                return ("unpack", module, b[1], b[2])
        for s in module.star:
            if s in self.modules:
                r = self.resolve_name(self.modules[s], name, _seen)
                if r is not None:
                    return r
        return None

    def _resolve_from(self, mod, name, _seen):
        if mod in self.modules:
            r = self.resolve_name(self.modules[mod], name, _seen)
            if r is not None:
                return r
            sub = mod + "." + name
            if sub in self.modules:
                return self.modules[sub]
            return None
        if mod.split(".")[0] == self.package:
            return None
        return External((mod + "." if mod else "") + name)

    def resolve_dotted(self, module, dotted, _seen=None):
        parts = dotted.split(".")
        cur = self.resolve_name(module, parts[0], _seen)
        for p in parts[1:]:
            if cur is None:
                return None
            if isinstance(cur, Module):
                nxt = self.resolve_name(cur, p)
                if nxt is None and cur.name + "." + p in self.modules:
                    nxt = self.modules[cur.name + "." + p]
                cur = nxt
            elif isinstance(cur, External):
                cur = External(cur.dotted + "." + p)
            elif isinstance(cur, ClassInfo):
                r = self.lookup(cur, p)
                if r is None:
                    return None
                cur = r[1]
            else:
                return None
        return cur

    def bases(self, ci):
        out = []
        for b in ci.base_exprs:
            d = dotted_of(b)
            r = self.resolve_dotted(ci.module, d) if d else None
            if isinstance(r, ClassInfo):
                out.append(r)
            else:
                out.append(r if r is not None else External(d or "?"))
        return out

    def mro(self, ci, _stack=()):
        if ci._mro is not None:
            return ci._mro
        if ci in _stack:
            return [ci]
        seqs = []
        bs = self.bases(ci)
        for b in bs:
            if isinstance(b, ClassInfo):
                seqs.append(list(self.mro(b, _stack + (ci,))))
            else:
                seqs.append([b])
        seqs.append(list(bs))
        res = [ci]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            res.append(c)
            seqs = [[x for x in s if x != c] for s in seqs]
            seqs = [s for s in seqs if s]
        ci._mro = res
        return res

    def lookup(self, ci, name, after=None):
        """(kind, entity, definingclass) for attribute ``name`` on class ``ci``.
        kinds: method, prop, attr, tuple_attr"""
        started = after is None
        for c in self.mro(ci):
            if not started:
                if c is after:
                    started = True
                continue
            if not isinstance(c, ClassInfo):
                continue
            if name in c.methods:
                return ("method", c.methods[name], c)
            if name in c.props:
                return ("prop", c.props[name], c)
            if name in c.attrs:
                return ("attr", c.attrs[name], c)
            if name in c.tuple_attrs:
                return ("tuple_attr", c.tuple_attrs[name], c)
        return None

    def prop_slot(self, ci, name, slot):
        """FuncInfo for property getter/setter/deleter honouring overriding
        and ``@Base.prop.setter`` copies."""
        r = self.lookup(ci, name)
        if r is None or r[0] != "prop":
            return None
        d = r[1]
        if slot in d:
            return d[slot]
        if "copy_of" in d:
            dn = d["copy_of"].split(".")
            base = self.resolve_dotted(r[2].module, ".".join(dn[:-1]))
            if isinstance(base, ClassInfo):
                return self.prop_slot(base, dn[-1], slot)
        return None

    def all_members(self, ci):
        names = set()
        for c in self.mro(ci):
            if isinstance(c, ClassInfo):
                names |= set(c.methods) | set(c.props) | set(c.attrs) | set(
                    c.tuple_attrs
                )
        return names

    def is_subclass(self, ci, full):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and (c.full == full or c.name == full):
                return True
        return False

    def subclasses(self, full):
        return [
            c for c in self.classes.values() if self.is_subclass(c, full)
        ]

    def cls(self, full):
        return self.classes.get(full)

    def func(self, modname, qual):
        """FuncInfo by module and qualified name (Class.method or function)."""
        m = self.modules.get(modname)
        if m is None:
            return None
        if "." in qual:
            c, n = qual.rsplit(".", 1)
            ci = self.classes.get(modname + "." + c)
            if ci is None:
                return None
            r = self.lookup(ci, n)
            if r is None:
                return None
            if r[0] == "method":
                return r[1]
            if r[0] == "prop":
                return r[1].get("get")
            return None
        r = self.resolve_name(m, qual)
        return r if isinstance(r, FuncInfo) else None
