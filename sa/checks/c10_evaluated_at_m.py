"""Methods that are given a model evaluate at that model; kept results are reused only for the arguments they were computed for."""

import ast

from ..effects import Slicer, View, attr_writes, const_str, phys_props, summary
from ..masses import mass_members, mass_property
from ..paths import TooMany, Walker
from ..project import ClassInfo, dotted_of
from ..report import Report
from .c09_model_caches import LINEARISED, ListEval, Unknown, hasmodel

RULES = {
    "at-model": "in every public method of a simulation that takes a model m, no path on which m is given reads the model, a physical "
    "property, a property mass matrix or derivative, or a kept model-dependent value before the simulation's model has been set to m",
    "keyed": "a value that a method computes from its arguments (other than the model) and keeps on the object is returned only after a "
    "test involving those arguments, so that a later call with other arguments is not answered with the old value",
}
PARAM = "m"


def model_attrs(p, v, mm):
    ph = phys_props(p, v.cls)
    out = {"model", "_model"} | set(ph) | {d for _, d in ph.values()} | mm
    maps = {m for m, _ in ph.values()}
    if any(p.is_subclass(v.cls, x) for x in LINEARISED):
        # linearised about fixed background properties: only the chargeability model counts
        bg = {"sigma", "rho", "mu", "mui"}
        out -= bg | {ph[x][1] for x in bg if x in ph} | {x for x in mm if (mass_property(x) or ("", ""))[1] in bg}
        out |= {"_pred"}
        return out
    try:
        out |= set(ListEval(v, maps, maps).prop("_delete_on_model_update"))
    except Unknown:
        pass
    return out


def super_after(ck, fi, call):
    """the class after which super(...) looks"""
    if call.args:
        nm = (dotted_of(call.args[0]) or "").split(".")[-1]
        for k in ck.p.mro(ck.v.cls):
            if isinstance(k, ClassInfo) and k.name == nm:
                return k
    return fi.cls


class W(Walker):
    def __init__(self, ck, fi, mp):
        super().__init__(fi)
        self.ck, self.mp = ck, mp
        a = fi.params()
        self.me = a[0] if a else None

    # -- helpers
    def is_self(self, n):
        return isinstance(n, ast.Name) and n.id == self.me

    def is_m(self, e):
        return e is not None and any(isinstance(x, ast.Name) and x.id == self.mp for x in ast.walk(e))

    def done(self, st):
        return any(e[0] == "set" for e in st.events)

    def nomodel(self, st):
        """the path on which no model was given"""
        for t, q in st.conds:
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == self.mp:
                c = t.comparators[0]
                if isinstance(c, ast.Constant) and c.value is None and (isinstance(t.ops[0], (ast.Is, ast.Eq)) == q):
                    return True
        return False

    def use(self, st, what, node, path=()):
        if self.done(st) or self.nomodel(st) or any(e[0] == "use" for e in st.events):
            return st
        return st.ev("use", what, node, path)

    def assign(self, t, v, node, st):
        if isinstance(t, ast.Attribute) and self.is_self(t.value):
            if t.attr == "model" and self.is_m(v):
                return st.ev("set", "model")
            if t.attr == "model" and self.nomodel(st):
                return st
        return st

    def visit(self, n, st):
        ck = self.ck
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and self.is_self(n.value):
            r = ck.v.lookup(n.attr)
            if r is not None and r[0] == "method":
                return st
            if n.attr in ck.attrs:
                return self.use(st, n.attr, n)
            fs = ck.v.functions_of(n.attr)
            for g in fs:
                hit = ck.reads_model(g)
                if hit:
                    return self.use(st, f"{n.attr} (through {hit})", n)
            return st
        if isinstance(n, ast.Call):
            d = dotted_of(n.func)
            if d in ("getattr",) and len(n.args) > 1 and self.is_self(n.args[0]):
                s = const_str(n.args[1])
                if s in ck.attrs:
                    return self.use(st, s, n)
                return st
            if d == "setattr" and len(n.args) == 3 and self.is_self(n.args[0]) and const_str(n.args[1]) == "model" and self.is_m(n.args[2]):
                return st.ev("set", "model")
            gs, after = [], None
            if isinstance(n.func, ast.Attribute):
                if self.is_self(n.func.value):
                    gs = ck.v.functions_of(n.func.attr)
                    r = ck.v.lookup(n.func.attr)
                    if r is not None and r[0] != "method":
                        return st
                elif isinstance(n.func.value, ast.Call) and dotted_of(n.func.value.func) == "super":
                    gs = ck.v.functions_of(n.func.attr, after=super_after(ck, self.fi, n.func.value))
                elif n.args and self.is_self(n.args[0]) and isinstance(n.func.value, ast.Name) and n.func.value.id[:1].isupper():
                    # Base.method(self, ...)
                    for k in ck.p.mro(ck.v.cls):
                        if isinstance(k, ClassInfo) and k.name == n.func.value.id and n.func.attr in k.methods:
                            gs = [k.methods[n.func.attr]]
                            n = ast.Call(n.func, n.args[1:], n.keywords)
                            break
            if not gs and isinstance(n.func, ast.Attribute) and self.is_self(n.func.value) and any(self.is_m(a) for a in n.args):
                return st.ev("set", "unknown:" + n.func.attr)  # abstract: left to the subclass that defines it
            for g in gs:
                par = g.params()[1:] if g.kind != "static" else g.params()
                got = None
                for q, a in list(zip(par, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                    if q is not None and self.is_m(a):
                        got = q
                        break
                if got is not None:
                    res = ck.summarise(g, got)
                    if res is None:
                        return st
                    bad, sets = res
                    if bad:
                        st = self.use(st, bad[0], n, (g.qual,) + bad[1])
                    if sets:
                        st = st.ev("set", g.qual)
                else:
                    hit = ck.reads_model(g)
                    if hit:
                        st = self.use(st, f"{g.name}() (reads {hit})", n)
        return st


class Check:
    def __init__(self, p, cls, mm):
        self.p = p
        self.v = View(p, cls)
        self.attrs = model_attrs(p, self.v, mm)
        self.memo = {}
        self.rm = {}
        self.busy = set()

    def reads_model(self, g):
        if g.node not in self.rm:
            self.rm[g.node] = None
            rd = self.v.reads(g)
            hit = sorted(set(rd) & self.attrs)
            self.rm[g.node] = hit[0] if hit else None
        return self.rm[g.node]

    def summarise(self, g, mp):
        """((attr, path, conds, node) or None, sets on every path) ; None if unknown"""
        key = (g.node, mp)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return (None, False)
        self.busy.add(key)
        try:
            res = W(self, g, mp).run()
        except TooMany:
            self.busy.discard(key)
            self.memo[key] = None
            return None
        self.busy.discard(key)
        bad = None
        sets = True
        w = W(self, g, mp)
        for r in res:
            if r.stop == "raise":
                continue
            u = [e for e in r.events if e[0] == "use"]
            if u and bad is None:
                e = u[0]
                bad = (e[1], e[3], r.conds, e[2], g)
            if not w.done(r) and not w.nomodel(r):
                sets = False
        self.memo[key] = (bad, sets)
        return self.memo[key]


def run(p, tier):
    rep = Report("C10", RULES)
    HM = hasmodel(p)
    mm = mass_members(p)
    seen = {}
    nc = 0
    for c in sorted(p.classes.values(), key=lambda c: c.full):
        if not p.is_subclass(c, HM.full):
            continue
        nc += 1
        ck = Check(p, c, mm)
        for (name, slot), fi in sorted(ck.v.methods().items()):
            if slot != "method" or name.startswith("_") or PARAM not in fi.params():
                continue
            key = f"{fi.cls.full}.{name}"
            r = ck.summarise(fi, PARAM)
            if r is None:
                rep.und("at-model", f"{c.full}.{name}", fi.where, "too many paths")
                continue
            if r[0] is None:
                rep.ok("at-model", f"{c.full}.{name}", fi.where, "sets the model" if r[1] else "reads nothing model-dependent")
            elif key not in seen:
                seen[key] = 1
                what, path, conds, node, g = r[0]
                cs = " and ".join(("" if q else "not ") + ast.unparse(t)[:60] for t, q in conds)
                rep.bad("at-model", key, f"{g.module.rel()}:{getattr(node, 'lineno', fi.node.lineno)} {fi.qual}",
                        f"in {c.full}, {' -> '.join((name,) + path)} reads {what} before the model is set to `m`" + (f" (path: {cs})" if cs else ""))
    rep.note("classes with a model", nc)
    check_keyed(p, rep)
    return rep


# ---------------------------------------------------------------- memo keys

FREE = {"m", "model"}  # the model is handled by the delete list


def check_keyed(p, rep):
    n = 0
    hm = hasmodel(p).full
    for c in sorted(p.classes.values(), key=lambda c: c.full):
        v = View(p, c)
        members = list(c.methods.values()) + [g for d in c.props.values() for s, g in d.items() if s == "get" and g is not None]
        for fi in members:
            if len(fi.params()) < 2 or fi.name.startswith("__"):
                continue
            s = summary(p, fi)
            ws = attr_writes(p, fi)
            if not ws:
                continue
            sl = Slicer(p, fi)
            for a, ex, node in ws:
                tests = memo_tests(fi, s, a, node)
                if not tests:
                    continue
                n += 1
                rd, ps, _ = sl.slice(ex)
                if a in rd:
                    continue  # an update of the kept value, not a memo
                keys = list(tests)
                for x in ast.walk(fi.node):
                    if isinstance(x, ast.Subscript) and attr_of(x.value, s) == a:
                        keys.append(x.slice)
                _, ks, _ = sl.slice(keys)
                miss = ps - ks - FREE - ({"f"} if p.is_subclass(c, hm) else set())  # a simulation's fields are those of its model
                key = f"{fi.cls.full}.{fi.name}:{a}"
                if miss:
                    rep.bad("keyed", key, f"{fi.module.rel()}:{node.lineno} {fi.qual}",
                            f"self.{a} keeps a value computed from argument(s) {sorted(miss)} and is reused by a later call without comparing them")
                else:
                    rep.ok("keyed", key, fi.where, f"value depends on {sorted(ps)}")
    rep.note("memo writes", n)


def attr_of(e, s):
    while isinstance(e, ast.Subscript):
        e = e.value
    if isinstance(e, ast.Attribute) and s.is_self(e.value):
        return e.attr
    return None


def memo_tests(fi, s, a, node):
    """tests that ask whether self.a already holds a value, on which the method's reuse of self.a depends"""
    out = []
    loc = {}
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            loc.setdefault(x.targets[0].id, []).append(x.value)

    def asks(t, depth=0):
        for y in ast.walk(t):
            if isinstance(y, ast.Attribute) and s.is_self(y.value) and y.attr == a:
                return True
            if isinstance(y, ast.Call) and dotted_of(y.func) in ("getattr", "hasattr") and len(y.args) > 1 and s.is_self(y.args[0]) and const_str(y.args[1]) == a:
                return True
            if isinstance(y, ast.Name) and depth < 3 and any(asks(e, depth + 1) for e in loc.get(y.id, ())):
                return True
        return False

    def presence(t, depth=0):
        """some conjunct / disjunct of t asks whether the attribute is there at all"""
        if isinstance(t, ast.BoolOp):
            return any(presence(v, depth) for v in t.values)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return presence(t.operand, depth)
        if isinstance(t, ast.Compare):
            if len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                return asks(t)
            return False
        if isinstance(t, ast.Name) and t.id in loc and depth < 4:
            return any(presence(e, depth + 1) for e in loc[t.id])
        return asks(t)

    for x in ast.walk(fi.node):
        if isinstance(x, (ast.If, ast.While)) and presence(x.test):
            inside = any(y is node for b in x.body + x.orelse for y in ast.walk(b))
            leaves = any(isinstance(y, ast.Return) for b in x.body for y in ast.walk(b)) and x.lineno < node.lineno
            if inside or leaves:
                out.append(x.test)
    return out
