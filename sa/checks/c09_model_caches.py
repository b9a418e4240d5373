"""State computed from the model is discarded when the model changes."""

import ast

from ..effects import Slicer, View, attr_writes, const_str, phys_props, summary, template, value_deps
from ..paths import TooMany, Walker, subst
from ..masses import PREFIX, decorated_props, mass_members, mass_property
from ..project import ClassInfo, dotted_of
from ..report import Report

RULES = {
    "registered": "every attribute in which a simulation keeps a value computed from the model (through the model, a physical "
    "property with a mapping, its derivative, or a property mass matrix) and that is read again later is in the set of "
    "attributes deleted on a model change, for every mapping that can make the property depend on the model",
    "mass": "every attribute in which a property mass matrix (or its inverse or derivative factors) is kept is in the clear "
    "list generated for that property",
    "setter": "assigning the model deletes everything in the delete list unless the new model is identical or exactly equal to "
    "the old one, and the stored model is the value assigned",
    "reassign": "assigning a physical property value discards the mass matrices computed from the old value",
    "nested": "a simulation made of other simulations hands them the mapped new model whenever its own model was updated",
}

# Values that look model-dependent to the dependency analysis but are not, confirmed by reading the code.
EXEMPT = {
    ("simpeg.potential_fields.gravity.simulation.Simulation3DIntegral", "_G"): "linear kernel; only the dtype of the density is consulted",
    ("simpeg.potential_fields.gravity.simulation.Simulation3DIntegral", "_gtg_diagonal"): "diag(G'WG) of the linear kernel",
    ("simpeg.potential_fields.magnetics.simulation.Simulation3DIntegral", "_G"): "linear kernel",
}
# classes whose sensitivity is, by their definition, linearised about fixed background properties
LINEARISED = (
    "simpeg.electromagnetics.static.induced_polarization.simulation.BaseIPSimulation",
)
BACKGROUND = ("_Jmatrix", "_f", "Ainv", "_gtgdiag", "_scale")  # of those: DC background quantities
FLAGS = {  # configuration under which the obligation is stated
    "fix_Jmatrix": False,  # documented user option: freeze the sensitivity
    "storeJ": True,
    "is_amplitude_data": True,
}
LINEAR_BY_DESIGN = {"is_linear": False}


class Unknown(Exception):
    pass


def hasmodel(p):
    return next(c for c in p.classes.values() if c.name == "HasModel" and c.module.name.endswith("props"))


def reciprocals(p, cls):
    """pairs of properties declared reciprocal"""
    out = set()
    for k in p.mro(cls):
        if not isinstance(k, ClassInfo):
            continue
        for c in k.class_stmts:
            if isinstance(c, ast.Call) and (dotted_of(c.func) or "").split(".")[-1] == "Reciprocal":
                n = [a.id for a in c.args if isinstance(a, ast.Name)]
                if len(n) == 2:
                    out.add(frozenset(n))
    return out


class ListEval:
    """names in the delete list, per scenario (set of active maps)"""

    def __init__(self, view, active, maps):
        self.v, self.active, self.maps = view, active, maps
        self.soft = False

    def prop(self, name, after=None, depth=0):
        fs = self.v.functions_of(name, after=after)
        if depth > 12:
            raise Unknown("recursion")
        if not fs:
            if name.startswith("_clear_on_") and name.endswith("_update"):
                return self.generated(name[len("_clear_on_"):-len("_update")])
            raise Unknown(name)
        r = self.block(fs[0].node.body, fs[0], {}, depth)
        return r if r is not None else frozenset()

    def generated(self, prop):
        arg = prop[0].upper() + prop[1:].lower()
        t = clear_templates(self.v.p)
        if t is None:
            raise Unknown("generated clear list")
        return frozenset(x.replace("{}", arg) for x in t)

    def block(self, body, fi, env, depth):
        for i, st in enumerate(body):
            if isinstance(st, ast.Expr):
                c = st.value
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
                    n = c.func.value.id
                    if n in env and c.func.attr in ("append", "extend"):
                        v = self.expr(c.args[0], fi, env, depth)
                        env[n] = env[n] | (v if isinstance(v, frozenset) else frozenset([v]))
                        continue
                if isinstance(c, ast.Constant):
                    continue
                raise Unknown(ast.unparse(st)[:60])
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                t = st.targets[0] if isinstance(st, ast.Assign) else st.target
                if not isinstance(t, ast.Name):
                    raise Unknown("store")
                if st.value is None:
                    continue
                try:
                    env[t.id] = self.expr(st.value, fi, env, depth)
                except Unknown:
                    env[t.id] = ("node", st.value)
            elif isinstance(st, ast.AugAssign):
                if not isinstance(st.target, ast.Name):
                    raise Unknown("store")
                env[st.target.id] = self.expr(ast.BinOp(ast.Name(st.target.id, ast.Load()), st.op, st.value), fi, env, depth)
            elif isinstance(st, ast.Return):
                return self.expr(st.value, fi, env, depth)
            elif isinstance(st, ast.If):
                b = self.test(st.test, fi, env)
                rest = body[i + 1:]
                if b is None:
                    self.soft = True
                    a = self.block(st.body + rest, fi, dict(env), depth)
                    c = self.block(st.orelse + rest, fi, dict(env), depth)
                    return (a or frozenset()) | (c or frozenset())
                return self.block((st.body if b else st.orelse) + rest, fi, env, depth)
            elif isinstance(st, ast.For):
                # for x in (consts): list.append(x)
                it = self.expr(st.iter, fi, env, depth)
                if not isinstance(st.target, ast.Name):
                    raise Unknown("for")
                for x in sorted(it):
                    e2 = env
                    e2[st.target.id] = x
                    r = self.block(st.body, fi, e2, depth)
                    if r is not None:
                        return r
            elif isinstance(st, (ast.Pass, ast.Import, ast.ImportFrom)):
                continue
            else:
                raise Unknown(type(st).__name__)
        return None

    def expr(self, e, fi, env, depth):
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = frozenset()
            for x in e.elts:
                v = self.expr(x.value if isinstance(x, ast.Starred) else x, fi, env, depth)
                out |= v if isinstance(v, frozenset) else frozenset([v])
            return out
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name) and e.id in env:
            v = env[e.id]
            if isinstance(v, tuple) and v and v[0] == "node":
                raise Unknown(e.id)
            return v
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.BitOr)):
            a, b = self.expr(e.left, fi, env, depth), self.expr(e.right, fi, env, depth)
            if isinstance(a, frozenset) and isinstance(b, frozenset):
                return a | b
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Call) and dotted_of(e.value.func) == "super":
                return self.prop(e.attr, after=fi.cls, depth=depth + 1)
            if summary(self.v.p, fi).is_self(e.value):
                return self.prop(e.attr, depth=depth + 1)
        if isinstance(e, ast.Call):
            f = dotted_of(e.func)
            if f in ("list", "set", "tuple", "sorted") and len(e.args) == 1:
                return self.expr(e.args[0], fi, env, depth)
            if f in ("list", "set") and not e.args:
                return frozenset()
            if isinstance(e.func, ast.Attribute) and e.func.attr == "copy":
                return self.expr(e.func.value, fi, env, depth)
            if isinstance(e.func, ast.Attribute) and summary(self.v.p, fi).is_self(e.func.value) and not e.args:
                return self.prop(e.func.attr, depth=depth + 1)
        if isinstance(e, ast.IfExp):
            b = self.test(e.test, fi, env)
            if b is None:
                self.soft = True
                return self.expr(e.body, fi, env, depth) | self.expr(e.orelse, fi, env, depth)
            return self.expr(e.body if b else e.orelse, fi, env, depth)
        if isinstance(e, ast.ListComp) and len(e.generators) == 1 and isinstance(e.elt, ast.Name):
            return self.expr(e.generators[0].iter, fi, env, depth)
        raise Unknown(ast.unparse(e)[:60])

    def test(self, t, fi, env):
        if isinstance(t, ast.Name) and isinstance(env.get(t.id), tuple) and env[t.id][0] == "node":
            return self.test(env[t.id][1], fi, env)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            b = self.test(t.operand, fi, env)
            return None if b is None else not b
        if isinstance(t, ast.BoolOp):
            bs = [self.test(x, fi, env) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in bs else None if None in bs else True
            return True if True in bs else None if None in bs else False
        s = summary(self.v.p, fi)
        if isinstance(t, ast.Attribute) and s.is_self(t.value):
            if t.attr in FLAGS:
                return FLAGS[t.attr]
            return None
        if isinstance(t, ast.Attribute) and t.attr in LINEAR_BY_DESIGN:
            return LINEAR_BY_DESIGN[t.attr]
        if isinstance(t, ast.Call) and dotted_of(t.func) == "hasattr":
            return True
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r = t.left, t.comparators[0]
            if isinstance(r, ast.Constant):
                nm = l.attr if isinstance(l, ast.Attribute) and s.is_self(l.value) else None
                if nm is None and isinstance(l, ast.Call) and dotted_of(l.func) == "getattr":
                    nm = const_str(l.args[1])
                if nm is not None and r.value is None:
                    neg = isinstance(t.ops[0], (ast.IsNot, ast.NotEq))
                    if nm in self.maps:
                        return (nm in self.active) == neg
                    return neg  # the kept value exists
                if nm in FLAGS and isinstance(r.value, bool):
                    eq = isinstance(t.ops[0], (ast.Is, ast.Eq))
                    return (FLAGS[nm] == r.value) == eq
        return None


def decorator_fn(p):
    for f in p.functions:
        if f.name == "with_property_mass_matrices" and f.cls is None:
            return f
    return None


def clear_templates(p):
    """templates in the generated clear list (by following what the list property returns)"""
    f = decorator_fn(p)
    if f is None:
        return None
    out = None
    for x in ast.walk(f.node):
        if isinstance(x, ast.FunctionDef) and "clear_on" in x.name:
            out = set()
            inner = {id(z) for y in ast.walk(x) if isinstance(y, (ast.JoinedStr, ast.BinOp, ast.Call)) for z in ast.walk(y) if z is not y}
            for y in ast.walk(x):
                if id(y) in inner and not isinstance(y, ast.JoinedStr):
                    continue
                t = template(y) if isinstance(y, (ast.JoinedStr, ast.Constant, ast.BinOp, ast.Call)) else None
                if t and t.startswith("_"):
                    out.add(t)
    return out


def stash_templates(p):
    """{template: node} of attributes in which the generated members keep values: setattr(self, name, value)"""
    f = decorator_fn(p)
    out = {}
    if f is None:
        return out
    for fn in ast.walk(f.node):
        if not isinstance(fn, ast.FunctionDef) or fn is f.node:
            continue
        loc = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                loc.setdefault(x.targets[0].id, []).append(x.value)
        me = fn.args.args[0].arg if fn.args.args else None
        if any(isinstance(x, ast.FunctionDef) and x is not fn for x in ast.walk(fn)):
            continue  # the decorator itself
        for x in ast.walk(fn):
            if isinstance(x, ast.Call) and dotted_of(x.func) == "setattr" and len(x.args) == 3 and isinstance(x.args[0], ast.Name) and x.args[0].id == me:
                a = x.args[1]
                es = loc.get(a.id, [a]) if isinstance(a, ast.Name) else [a]
                for e in es:
                    t = template(e)
                    if t is not None:
                        out.setdefault(t, (fn, x))
    return out


def run(p, tier):
    rep = Report("C09", RULES)
    HM = hasmodel(p)
    check_mass(p, rep)
    check_setter(p, rep, HM)
    check_reassign(p, rep)
    check_nested(p, rep, HM)
    mm = mass_members(p)
    seen = set()
    n = 0
    for c in sorted(p.classes.values(), key=lambda c: c.full):
        if not p.is_subclass(c, HM.full):
            continue
        n += 1
        check_class(p, rep, c, mm, seen)
    rep.note("classes with a model", n)
    return rep


def model_writes(p, v, ph, mm):
    """[(fi, attr, deps, node)] for attributes that keep model-dependent values"""
    seeds = {"model", "_model"} | set(ph) | {d for _, d in ph.values()} | mm
    out = []
    own = set()  # members run by the model setter: they refresh, on every assignment
    todo = [f for f in [v.p.prop_slot(v.cls, "model", "set")] if f is not None]
    while todo:
        f = todo.pop()
        if f.node in own:
            continue
        own.add(f.node)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and summary(p, f).is_self(x.func.value):
                todo.extend(v.functions_of(x.func.attr))
    for (name, slot), fi in sorted(v.methods().items()):
        if fi.node in own:
            continue
        if slot in ("set", "del") or name in ("__init__", "__setattr__", "model"):
            continue
        if slot == "get" and any((dotted_of(d) or "").endswith("cached_property") for d in fi.node.decorator_list):
            rets = [x.value for x in ast.walk(fi.node) if isinstance(x, ast.Return) and x.value is not None]
            deps, params = value_deps(v, fi, rets)
            d = deps & seeds
            if d:
                out.append((fi, name, d, fi.node))
        for a, ex, node in attr_writes(p, fi):
            if a in ("model", "_model", "survey", "mesh") or all(isinstance(e, ast.Constant) for e in ex):
                continue
            deps, params = value_deps(v, fi, ex)
            d = deps & seeds
            if params & {"m", "f"}:
                d = d | {"model"}
            if d:
                out.append((fi, a, d, node))
    return out


def read_later(p, v, attr):
    """some member reads the attribute before (re)computing it in the same activation"""
    for (name, slot), fi in v.methods().items():
        s = summary(p, fi)
        if attr not in s.reads:
            continue
        first_write = min((n.lineno for n in s.writes.get(attr, [])), default=None)
        first_read = min(
            (x.lineno for x in ast.walk(fi.node)
             if (isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Load))
             or (isinstance(x, ast.Call) and dotted_of(x.func) in ("getattr", "hasattr") and len(x.args) > 1 and const_str(x.args[1]) == attr)),
            default=None,
        )
        if first_read is None:
            continue
        if first_write is None or first_read < first_write:
            return fi
    return None


def pinned_maps(p, c):
    """mappings a constructor in the hierarchy fixes to None"""
    out = set()
    for k in p.mro(c):
        if isinstance(k, ClassInfo) and "__init__" in k.methods:
            fi = k.methods["__init__"]
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__init__":
                    out |= {a.arg for a in x.keywords if a.arg and a.arg.endswith("Map") and isinstance(a.value, ast.Constant) and a.value.value is None}
    return out


def check_class(p, rep, c, mm, seen):
    v = View(p, c)
    ph = phys_props(p, c)
    pin = pinned_maps(p, c)
    rec = reciprocals(p, c)
    maps = {m for m, _ in ph.values()}
    lin = any(p.is_subclass(c, x) for x in LINEARISED)
    w = {}
    for fi, a, d, node in model_writes(p, v, ph, mm):
        w.setdefault(a, [set(), fi, node])[0].update(d)
    if not w:
        return
    for a, (deps, fi, node) in sorted(w.items()):
        if any((k.full, a) in EXEMPT for k in p.mro(c) if isinstance(k, ClassInfo)):
            continue
        rd = v_read = read_later(p, v, a)
        if rd is None and a not in {n for (n, s) in v.methods() if s == "get"}:
            continue
        # scenarios: exactly one mapping active
        scen = []
        for x, (mp, dv) in sorted(ph.items()):
            if mp in pin:
                continue
            group = {x} | {y for r in rec if x in r for y in r}
            names = set(group) | {ph[g][1] for g in group if g in ph}
            names |= {m for m in mm if (mass_property(m) or ("", ""))[1] in group}
            if lin and (x not in ("eta", "tau", "taui", "c") or a in BACKGROUND or "taui" not in ph and a != "_pred"):
                continue
            if deps & names or (deps & {"model", "_model"} and not (deps - {"model", "_model"})):
                scen.append((mp, deps & names))
        if not ph or (not scen and deps <= {"model", "_model"}):
            scen = [(None, deps)]
        if lin and scen == [(None, deps)]:
            continue
        for mp, why in scen:
            key = f"{c.full}.{a}:{mp or 'model'}"
            sig = (fi.key, a, mp, tuple(sorted(why)))
            act = {mp} if mp else set()
            for r in rec:  # the mapping of a reciprocal property is derived from its partner's
                if any(y in ph and ph[y][0] == mp for y in r):
                    act |= {ph[y][0] for y in r if y in ph}
            ev = ListEval(v, act, maps)
            try:
                names = ev.prop("_delete_on_model_update")
            except Unknown as e:
                rep.und("registered", key, fi.where, f"delete list not evaluated: {e}")
                continue
            if a in names:
                rep.ok("registered", key, fi.where, f"depends on {sorted(why)[:4]}")
                continue
            owner = next((k.full for k in p.mro(c) if isinstance(k, ClassInfo) and fi.cls is not None and k.full == fi.cls.full), c.full)
            fkey = f"{fi.cls.full if fi.cls is not None else fi.key}.{a}:{mp or 'model'}"
            if fkey in seen:
                continue
            seen.add(fkey)
            rep.bad(
                "registered", fkey, f"{fi.module.rel()}:{node.lineno} {fi.qual}",
                f"in {c.full}, self.{a} keeps a value computed from {sorted(why) or sorted(deps)[:4]} and is read again in {rd.qual if rd else a}, "
                f"but it is not deleted when the model changes with {mp or 'a model'} active (deleted: {sorted(names)})",
            )


def check_mass(p, rep):
    f = decorator_fn(p)
    if f is None:
        rep.und("mass", "with_property_mass_matrices", "", "decorator not found")
        return
    cl = clear_templates(p)
    st = stash_templates(p)
    rep.note("generated mass-matrix caches", len(st))
    if cl is None:
        rep.und("mass", "clear list", f.where, "generated clear list not found")
        return
    for t, (fn, x) in sorted(st.items()):
        if t in cl:
            rep.ok("mass", t, f"{f.module.rel()}:{x.lineno}")
        else:
            rep.bad("mass", f"with_property_mass_matrices:{t}", f"{f.module.rel()}:{x.lineno} {fn.name}",
                    f"attribute {t} keeps a value of the property's mass matrix but is not in the generated clear list {sorted(cl)}")


# ---------------------------------------------------------------- setter

EQ_OK = ("array_equal", "array_equiv")


def self_inline(p, v, fi, stack):
    """helper calls on self, module functions and super() that the path walker follows"""

    def f(call, st):
        fn = call.func
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id in ("self",) or (isinstance(fn.value, ast.Name) and fn.value.id in stack[0].params()[:1]):
                gs = v.functions_of(fn.attr)
                r = v.lookup(fn.attr)
                if gs and r and r[0] == "method" and len(gs) == 1:
                    return gs[0]
            if isinstance(fn.value, ast.Call) and dotted_of(fn.value.func) == "super":
                gs = v.functions_of(fn.attr, after=stack[-1].cls)
                if gs and len(gs) == 1:
                    return gs[0]
        return None

    return f


class SetterWalk(Walker):
    def __init__(self, p, v, fi):
        super().__init__(fi)
        self.p, self.v = p, v
        self._inl = self_inline(p, v, fi, self.stack)

    def inline(self, call, st):
        # Base.model.fset(self, value)
        d = dotted_of(call.func) or ""
        if d.endswith(".model.fset") or d.endswith(".model.__set__"):
            r = self.p.resolve(self.fi.module, d.rsplit(".", 2)[0]) if hasattr(self.p, "resolve") else None
            g = None
            name = d.split(".")[-3]
            for k in self.p.mro(self.v.cls):
                if isinstance(k, ClassInfo) and k.name == name:
                    g = self.p.prop_slot(k, "model", "set")
            return g
        return self._inl(call, st)

    def lists(self, e, st):
        e = subst(e, st.env)
        return any(isinstance(x, ast.Attribute) and x.attr == "_delete_on_model_update" for x in ast.walk(e))

    def enter_for(self, node, st):
        if not self.lists(node.iter, st):
            return None
        for x in ast.walk(node):
            if isinstance(x, ast.Call) and (
                dotted_of(x.func) in ("delattr", "setattr") or isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "__delattr__")
            ):
                return [st.ev("delete", node.lineno)]
        return None

    def visit(self, node, st):
        if isinstance(node, (ast.ListComp, ast.GeneratorExp)):
            if self.lists(node.generators[0].iter, st) and any(isinstance(x, ast.Call) and dotted_of(x.func) == "delattr" for x in ast.walk(node)):
                return st.ev("delete", node.lineno)
        return st

    def assign(self, t, v, node, st):
        if isinstance(t, ast.Attribute) and t.attr == "_model":
            return st.ev("store", ast.unparse(v) if v is not None else "?", v)
        if isinstance(t, ast.Attribute) and t.attr == "model":
            return st.ev("handover", ast.unparse(t), v)
        return st

    def decide(self, v, st):
        # a delete loop over an empty list is no delete; keep both sides of everything else
        return None


def check_setter(p, rep, HM):
    """every path of the model setter that stores a new value has discarded the listed attributes, unless the path
    established that the new value is the old one"""
    todo = [HM] + [c for c in sorted(p.classes.values(), key=lambda c: c.full) if c is not HM and p.is_subclass(c, HM.full) and "model" in c.props]
    for c in todo:
        for slot in ("set",):
            fi = c.props.get("model", {}).get(slot)
            if fi is None:
                continue
            v = View(p, c)
            val = fi.params()[1]
            base = f"{c.name}.model.setter"
            try:
                res = SetterWalk(p, v, fi).run()
            except TooMany:
                rep.und("setter", base, fi.where, "too many paths")
                continue
            done = [r for r in res if r.stop != "raise"]
            bad = None
            n = 0
            for r in done:
                n += 1
                stores = [e for e in r.events if e[0] == "store"]
                if not stores:
                    bad = ("not-stored", "the assigned model is not stored", r)
                    break
                x = stores[-1][2]
                if x is None or not any(isinstance(y, ast.Name) and y.id == val for y in ast.walk(x)) and not (
                    isinstance(x, ast.Constant) and x.value is None and any(is_none(t, q, val) for t, q in r.conds)
                ):
                    bad = ("other-value", f"stored model `{stores[-1][1]}` is not the assigned value", r)
                    break
                if any(e[0] == "delete" for e in r.events):
                    continue
                if not any(same_value(t, q) for t, q in r.conds):
                    bad = ("kept", "cached values survive the assignment of a different model", r)
                    break
            if not done:
                bad = ("never", "no path stores the model", res[0])
            if bad:
                why = " and ".join(("" if q else "not ") + ast.unparse(t) for t, q in bad[2].conds)
                rep.bad("setter", f"{c.full}.model.setter:{bad[0]}", fi.where, f"{bad[1]} when {why or 'always'}")
            else:
                rep.ok("setter", f"{c.full}.model.setter", fi.where, f"{n} paths")
                rep.note("setter paths", n)


def is_none(t, q, val):
    return (
        isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == val
        and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None
        and isinstance(t.ops[0], ast.Is) == q
    )


def same_value(t, q):
    """the atom implies that the new model is (exactly equal to) the old one"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        if isinstance(t.comparators[0], ast.Constant):
            return False
        if isinstance(t.ops[0], ast.Is) and q or isinstance(t.ops[0], ast.IsNot) and not q:
            return True
        return False
    if isinstance(t, ast.Call):
        f = (dotted_of(t.func) or "").split(".")[-1]
        if f in EQ_OK and q:
            return True
        if f == "all" and q and isinstance(t.func, ast.Attribute):
            tgt = t.args[0] if t.args and dotted_of(t.func.value) in ("np", "numpy") else t.func.value
            return isinstance(tgt, ast.Compare) and isinstance(tgt.ops[0], ast.Eq)
        if f == "any" and not q:
            tgt = t.args[0] if t.args and dotted_of(t.func.value) in ("np", "numpy") else t.func.value
            return isinstance(tgt, ast.Compare) and isinstance(tgt.ops[0], ast.NotEq)
    return False


def exits(body, kind):
    return bool(body) and isinstance(body[-1], kind)


# ---------------------------------------------------------------- direct assignment of a property

def check_reassign(p, rep):
    for c, prop in decorated_props(p):
        v = View(p, c)
        sa = v.lookup("__setattr__")
        key = f"{c.full}.{prop}"
        if not sa or sa[0] != "method":
            rep.bad("reassign", key, f"{c.module.rel()}:{c.node.lineno} {c.name}", f"assigning {prop} does not discard its mass matrices")
            continue
        ok = False
        und = None
        for fi in chain(v, sa[1]):
            r = clears_on(p, v, fi, prop)
            if r is True:
                ok = True
            elif r is None:
                und = fi
        if ok:
            rep.ok("reassign", key, sa[1].where)
        elif und is not None:
            rep.und("reassign", key, und.where, "shape of __setattr__ not recognised")
        else:
            rep.bad("reassign", key, sa[1].where, f"assigning {prop} does not discard the mass matrices computed from the old value")


def chain(v, fi):
    out = [fi]
    while True:
        s = summary(v.p, out[-1])
        if "__setattr__" in s.supers:
            g = v.functions_of("__setattr__", after=out[-1].cls)
            if g and g[0] not in out:
                out.append(g[0])
                continue
        return out


def strings_in(e, fi, p):
    loc = {}
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
            loc[x.targets[0].id] = x.value
    if isinstance(e, ast.Name) and e.id in loc:
        e = loc[e.id]
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)) and all(const_str(x) is not None for x in e.elts):
        return {x.value for x in e.elts}
    if const_str(e) is not None:
        return {e.value}
    return None


def clears_on(p, v, fi, prop):
    """True: deletes self._clear_on_<prop>_update when name == prop; False: does not; None: unknown"""
    name = fi.params()[1] if len(fi.params()) > 1 else None

    def guarded(test):
        if isinstance(test, ast.Name):
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == test.id:
                    return guarded(x.value)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id == name:
            s = strings_in(test.comparators[0], fi, p)
            if s is not None:
                if isinstance(test.ops[0], (ast.In, ast.Eq)):
                    return prop in s
                if isinstance(test.ops[0], (ast.NotIn, ast.NotEq)):
                    return prop not in s
        if isinstance(test, ast.BoolOp):
            bs = [guarded(x) for x in test.values]
            if isinstance(test.op, ast.Or):
                return True if True in bs else None if None in bs else False
            return False if False in bs else None if None in bs else True
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            b = guarded(test.operand)
            return None if b is None else not b
        return None

    found = [False]
    unknown = [False]

    def clears(st):
        return any(
            isinstance(x, ast.Call) and (dotted_of(x.func) or "").split(".")[-1] in ("delattr", "__delattr__", "pop") for x in ast.walk(st)
        )

    def mentions(node):
        txt = ast.unparse(node)
        return f"_clear_on_{prop}_update" in txt

    def walk(body):
        for st in body:
            if isinstance(st, ast.If):
                g = guarded(st.test)
                if g is True:
                    walk(st.body)
                    if exits(st.body, ast.Return):
                        return
                elif g is False:
                    walk(st.orelse)
                    if exits(st.orelse, ast.Return) and st.orelse:
                        return
                else:
                    if mentions(st):
                        unknown[0] = True
            elif isinstance(st, ast.For):
                src = st.iter
                if isinstance(src, ast.Name):
                    for x in ast.walk(fi.node):
                        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == src.id:
                            src = x.value
                if clears(st):
                    if mentions(src):
                        found[0] = True
                    elif "_clear_on" not in ast.unparse(src):
                        unknown[0] = True
            elif isinstance(st, ast.Return):
                walk_calls(st)
                return
            else:
                walk_calls(st)

    def walk_calls(st):
        for x in ast.walk(st):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and summary(p, fi).is_self(x.func.value):
                for g in v.functions_of(x.func.attr):
                    r = clears_on(p, v, g, prop) if name in g.params() else (True if mentions(g.node) and clears(g.node) else False)
                    if r:
                        found[0] = True
                    elif r is None:
                        unknown[0] = True

    walk(fi.node.body)
    if found[0]:
        return True
    return None if unknown[0] else False


# ---------------------------------------------------------------- nested simulations

def check_nested(p, rep, HM):
    for c in sorted(p.classes.values(), key=lambda c: c.full):
        if not p.is_subclass(c, HM.full) or "model" not in c.props or c is HM:
            continue
        s = c.props["model"].get("set")
        if s is None:
            continue
        key = f"{c.full}.model.setter"
        base = None
        for x in ast.walk(s.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "fset":
                base = x.targets[0].id if isinstance(x.targets[0], ast.Name) else None
        nested_sets = [
            x for x in ast.walk(s.node)
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == "model"
            and not summary(p, s).is_self(x.value)
        ]
        sends = [x for x in ast.walk(s.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                 and any(isinstance(y, ast.Attribute) and y.attr in ("_model", "model", "_m_as_future") or isinstance(y, ast.Name) and y.id in s.params()[1:]
                         for a in x.args for y in ast.walk(a)) and x.func.attr != "fset"]
        if not nested_sets and not sends:
            rep.bad("nested", key, s.where, "the sub-simulations are not given the new model")
        else:
            rep.ok("nested", key, s.where, f"{len(nested_sets) + len(sends)} hand-over sites")
