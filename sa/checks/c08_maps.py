"""Mappings: deriv is the derivative of the transform, for vectors and as a matrix; inverse undoes the transform."""

import ast
import itertools
import os

from ..compare import compatible, norm_decisions
from ..einterp import EInterp
from ..inst import N, Du, Inst, Shape, Und, num_, same, vals
from ..interp import NONE, Const, Tup
from ..kinds import of_attr
from ..project import ClassInfo
from ..report import Report
from ..terms import Atom, Lin

RULES = {
    "deriv": "for every mapping class and every combination of its options, the matrix returned by deriv(m) applied to a "
    "vector is the directional derivative of the transform",
    "deriv-v": "deriv(m, v) is deriv(m) applied to v",
    "inverse": "the inverse of the transform of a model is the model",
    "deriv-inverse": "where the transform is computed by iteration and has a closed-form inverse, the derivative at the "
    "inverse of u is the inverse of the derivative of the inverse at u",
}
MA = Atom("name", ("m",), kind="V")
VA = Atom("input", ("v",), kind="V")
M, V = Lin.atom(MA), Lin.atom(VA)
SEEDS = 3


SHAPES = {1: (12,), 2: (3, 4), 3: (2, 3, 2)}
ORDERS = {2: 9, 3: (1, 4)}
NPTS = 4


def make_setup(c, dim):
    def setup(it, sv):
        mesh = it.getattr(sv, "mesh")
        if dim is not None:
            it.heap[(mesh, "dim")] = Lin.num(dim)
        if c.name in ("ComboMap", "SumMap"):
            ms = [Atom("name", ("map%d" % i,)) for i in range(3)]
            it.maps.update(ms)
            it.heap[(sv, "maps")] = Tup([Lin.atom(a) for a in ms], "list")
        it.heap[(sv, "npts")] = Lin.num(NPTS)
        it.sizes["pts"] = NPTS
        it.sizes["_pts"] = NPTS

    return setup


def self_attr(a):
    if a.head == "attr" and isinstance(a.args[0], Lin):
        b = a.args[0].single_atom()
        if b is not None and b.head == "name" and b.args[0] == "self":
            return a.args[1]
    return None


def clean(v):
    return isinstance(v, Lin) and v.single_atom() is not None and "?(" not in repr(v) and len(repr(v)) < 4000


def attr_terms(p, c):
    """[{attribute: term}] from the constructor and the property setters, one per distinct outcome"""
    outs = []
    r = p.lookup(c, "__init__")
    if r and r[0] == "method":
        fi = r[1]
        it = EInterp(p)

        def go(it):
            sv = it.self_atom(c)
            kw = {q: Lin.atom(Atom("name", (q,))) for q in fi.params() if q not in ("self", "kwargs", "args")}
            it.call_method(c, "__init__", [], kw, selfv=sv, fi=fi)
            return Tup([Tup([Const(k[1]), v]) for k, v in it.heap.items() if k[0] == sv])

        try:
            for d, k, v in it.explore(go, max_paths=48):
                if k == "ok":
                    e = {x.items[0].v: x.items[1] for x in v.items if clean(x.items[1]) and x.items[0].v not in ("mesh", "_nP", "_uuid", "nC")}
                    if e not in outs:
                        outs.append(e)
        except Exception:
            if os.environ.get("VERIF_DEBUG"):
                raise
    outs = outs or [{}]
    best = max(len(e) for e in outs)
    outs = [e for e in outs if len(e) == best][:6]
    for name in sorted({n for k in p.mro(c) if isinstance(k, ClassInfo) for n in k.props}):
        fi = p.prop_slot(c, name, "set")
        if fi is None or of_attr(p, c, name) == "B":
            continue
        it = EInterp(p)

        def go(it):
            sv = it.self_atom(c)
            it.call_method(c, name, [Lin.atom(Atom("name", (name,)))], {}, selfv=sv, fi=fi)
            return it.heap.get((sv, "_" + name), NONE)

        try:
            vs = {v for d, k, v in it.explore(go, max_paths=16) if k == "ok" and clean(v)}
        except Exception:
            continue
        vs = [v for v in vs if v.single_atom().head == "e" and v.single_atom().args[0] == "set"]
        if len(vs) == 1:
            for e in outs:
                e[name] = vs[0]
    return outs


def make_hook(p, c, dim, kf, env, size=None):
    def hook(inst, a):
        n = self_attr(a)
        if n is not None:
            if n == "nP" and size:
                return Du(size[0])
            if n == "order" and dim in ORDERS:
                o = ORDERS[dim]
                return [Du(x) for x in o] if isinstance(o, tuple) else Du(o)
            t = env.get(n) if kf(a) != "B" else None
            if t is not None and t.single_atom() is not None and not (t.single_atom().head == "name" and t.single_atom().args[0] == n):
                return inst.ev(t)
        if a.head == "attr" and a.args[1] in ("shape_cells", "vnC") and dim in SHAPES:
            return [Du(x) for x in SHAPES[dim]]
        if a.head == "attr" and a.args[1] == "dim" and dim is not None:
            return Du(dim)
        if a.head == "name" and a not in (MA,) and a.args[0] in env and env[a.args[0]] == Lin.atom(a):
            at = Atom("attr", (Lin.atom(Atom("name", ("self",))), a.args[0]))
            return inst.atom(at) if kf(at) else None
        return None

    return hook


def paths(p, c, name, args, setup=None, opaque=()):
    r = p.lookup(c, name)
    if not r or r[0] != "method":
        return None, None
    fi = r[1]
    it = EInterp(p, opaque=opaque)

    def go(it):
        sv = it.self_atom(c)
        if setup:
            setup(it, sv)
        return it.call_method(c, name, list(args), {}, selfv=sv, fi=fi)

    return fi, it.explore(go, max_paths=128)


def iterative(p, c):
    """the transform (or a routine of the class it calls) is a loop that is left by a test"""
    todo, seen = ["_transform"], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        r = p.lookup(c, n)
        if not r or r[0] != "method":
            continue
        for x in ast.walk(r[1].node):
            if isinstance(x, ast.While) or isinstance(x, ast.For) and any(isinstance(y, (ast.Return, ast.Break)) for y in ast.walk(x)):
                return True
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                todo.append(x.attr)
    return False


def run_iterative(p, rep, c, kf):
    st = make_setup(c, None)
    short = c.name
    fD, D = paths(p, c, "deriv", [M, NONE], st, opaque=("_transform",))
    fV, W = paths(p, c, "deriv", [M, V], st, opaque=("_transform",))
    fI, I = paths(p, c, "inverse", [M], st)
    D, W, I = good(D), good(W), good(I)
    it = EInterp(p)

    def point(seed, inv, terms):
        i0 = Inst(seed, {}, kindf=kf)
        u = [i0.rnd("u", j) for j in range(N)]
        w = [i0.rnd("w", j) - 0.5 for j in range(N)]
        i0.env = {MA: [Du(a, b) for a, b in zip(u, w)]}
        phi = num_(i0.ev(inv))

        def hook(inst, a):
            if a.head == "call" and "_transform" in repr(a)[:40]:
                return [Du(x) for x in u]
            return None

        i1 = Inst(seed, {}, kindf=kf, hook=hook)
        i1.env = {MA: [Du(x.a) for x in phi], VA: [Du(x.b) for x in phi]}
        out = {}
        for k, t in terms.items():
            x = i1.ev(t)
            out[k] = i1.mat(x, i1.env[VA]) if k == "D" else x
        return out, w

    for di, inv in I:
        for name, fi, paths_, key in (("D", fD, D, "deriv"), ("Dv", fV, W, "deriv(v)")):
            for dd, x in paths_:
                if not compatible(di, dd):
                    continue
                ds = {**di, **dd}
                try:
                    bad = None
                    for s in range(1, SEEDS + 1):
                        out, w = point(s, it.as_lin(inv), {name: it.as_lin(x)})
                        a = vals(out[name], "a")
                        if not same(a, [complex(y) for y in w]):
                            bad = bad or diff_text(a, [complex(y) for y in w])
                    put(rep, "deriv-inverse", f"{short}.{key}", fi, "ne" if bad else "eq", bad or "", ds)
                except (Und, ZeroDivisionError, OverflowError, ValueError) as e:
                    put(rep, "deriv-inverse", f"{short}.{key}", fi, "und", str(e), ds)


def usable(d):
    for k, v in d.items():
        if k[0] == "lt" and v and k[1] == Lin.num(1) and "ndim" in repr(k[2]):
            return False
    return True


class Kinds:
    def __init__(self, p, c):
        self.p, self.c = p, c
        self.memo = {}

    def __call__(self, a):
        if a not in self.memo:
            self.memo[a] = self.find(a)
        return self.memo[a]

    def find(self, a):
        if a.head == "attr" and isinstance(a.args[0], Lin):
            b = a.args[0].single_atom()
            if b is not None and b.head == "name" and b.args[0] == "self":
                k = of_attr(self.p, self.c, a.args[1])
                return k
            if a.args[1] in ("cell_volumes",):
                return "V"
        return None


def model_len(p, c, mk, setup, dec):
    it = EInterp(p)

    def go(it):
        sv = it.self_atom(c)
        setup(it, sv)
        g = p.prop_slot(c, "nP", "get")
        return it.call_method(c, "nP", [], {}, selfv=sv, fi=g) if g is not None else it.getattr(sv, "nP")

    try:
        for d, k, v in it.explore(go, max_paths=16):
            if k == "ok" and compatible(d, dec):
                l = it.as_lin(v)
                if l.const() is not None:
                    return int(l.const().real)
                if "str" in repr(v)[:4]:
                    continue
                try:
                    x = mk().ev(l)
                except Und:
                    continue
                if isinstance(x, Du) and abs(x.a.real - round(x.a.real)) < 1e-9 and 0 < x.a.real < 40:
                    return int(round(x.a.real))
    except Exception:
        pass
    return N


def evaluate(terms, kf, seed, kinds, n, hook):
    """values of the terms at one point"""
    i = Inst(seed, {}, kinds=kinds, kindf=kf, hook=hook)
    m0 = [i.rnd("m", j) for j in range(n)]
    v0 = [i.rnd("v", j) - 0.5 for j in range(n)]
    i.env = {MA: [Du(a, b) for a, b in zip(m0, v0)], VA: [Du(b) for b in v0]}
    out = {}
    for k, t in terms.items():
        try:
            x = i.ev(t)
            if k == "D":
                x = i.mat(x, [Du(b) for b in v0])
            out[k] = x
        except (ZeroDivisionError, OverflowError, ValueError, IndexError, TypeError, RecursionError) as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            raise Und(f"{k}: {type(e).__name__} {e}")
        except Und as e:
            raise type(e)(f"{k}: {e}")
    return out, i


def decide(kf, terms, test, n, hook):
    """'eq'/'ne'/'und' for test(values) under the kinds of the unknown leaves"""
    unk = {}
    try:
        _, i = evaluate(terms, kf, 0, {}, n, hook)
        unk = i.unk
    except Und as e:
        # collect unknown leaves with a lenient pass
        i = Inst(0, {}, kindf=kf, hook=hook)
        i.env = {MA: [Du(i.rnd("m", j), 1) for j in range(n)], VA: [Du(i.rnd("v", j)) for j in range(n)]}
        for t in terms.values():
            try:
                i.ev(t)
            except Exception:
                pass
        unk = i.unk
        why = str(e)
    else:
        why = ""
    unk = sorted(unk, key=repr)
    dom = ["IB" if a.head == "name" and a.args[0].startswith("ind") else "VSM" for a in unk]
    if len(unk) > 5:
        return "und", f"{len(unk)} leaves of unknown kind"
    best = None
    for combo in itertools.product(*dom):
        kinds = dict(zip(unk, combo))
        try:
            res = []
            for s in range(1, SEEDS + 1):
                vs, i = evaluate(terms, kf, s, kinds, n, hook)
                res.append(test(vs))
            if all(r is None for r in res):
                return "eq", ",".join(f"{k!r}:{v}" for k, v in kinds.items())
            best = best or next(r for r in res if r is not None)
        except Und as e:
            why = why or str(e)
    if best is not None:
        return "ne", best
    return "und", why


def t_deriv(vs):
    a, b = vals(vs["T"], "b"), vals(vs["D"], "a")
    if len(b) == 1 and len(a) > 1:
        raise Shape("shape of the derivative")
    return None if same(a, b) else diff_text(a, b)


def t_dv(vs):
    a, b = vals(vs["D"], "a"), vals(vs["Dv"], "a")
    return None if same(a, b) else diff_text(a, b)


def t_inv(vs):
    a, b = vals(vs["I"], "a"), vals(vs["m"], "a")
    return None if same(a, b) else diff_text(a, b)


def diff_text(a, b):
    if len(a) != len(b):
        return f"lengths {len(a)} and {len(b)}"
    for i, (x, y) in enumerate(zip(a, b)):
        if abs(x - y) > 1e-7 * max(1, abs(x), abs(y)):
            return f"component {i}: {x:.5g} against {y:.5g}"
    return ""


def dtext(d):
    return ", ".join(f"{k}={v}" for k, v in d.items())[:160]


def run_class(p, rep, c):
    kf = Kinds(p, c)
    if iterative(p, c):
        return run_iterative(p, rep, c, kf)
    fT, T0 = paths(p, c, "_transform", [M], make_setup(c, None))
    fD, D0 = paths(p, c, "deriv", [M, NONE], make_setup(c, None))
    if T0 is None or D0 is None:
        return
    txt = repr(T0) + repr(D0)
    dims = (1, 2, 3) if "mesh.dim" in txt else (3,) if "vnC" in txt or "shape_cells" in txt else (None,)
    if c.name == "Surject2Dto3D":
        dims = (3,)
    envs = attr_terms(p, c)
    for dim in dims:
        run_dim(p, rep, c, kf, dim, envs)


def good(res):
    return [(norm_decisions(d), v) for d, k, v in res or () if k == "ok" and usable(d)]


def run_dim(p, rep, c, kf, dim, envs):
    st = make_setup(c, dim)
    short = c.name
    try:
        fT, T = paths(p, c, "_transform", [M], st)
        fD, D = paths(p, c, "deriv", [M, NONE], st)
        fV, W = paths(p, c, "deriv", [M, V], st)
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            raise
        rep.und("deriv", f"{short}.deriv", "", str(e)[:100])
        return
    T, D, W = good(T), good(D), good(W)
    it = EInterp(p)

    def dec(rule, key, fi, terms, test, ds):
        if any("phi(" in repr(t) for t in terms.values()):
            return put(rep, rule, key, fi, "und", "value of a loop with a condition", ds)
        worst = None
        for env in envs:
            size = []
            hook = make_hook(p, c, dim, kf, env, size)
            n = model_len(p, c, lambda: Inst(0, {}, kindf=kf, hook=hook), st, ds)
            size.append(n)
            r, why = decide(kf, terms, test, n, hook)
            if worst is None or r == "ne" and worst[0] != "ne" or r == "eq" and worst[0] == "und":
                worst = (r, why)
        put(rep, rule, key, fi, *worst, {**({"dim": dim} if dim else {}), **ds})

    for dt, t in T:
        for dd, x in D:
            if compatible(dt, dd):
                dec("deriv", f"{short}.deriv", fD, {"T": it.as_lin(t), "D": it.as_lin(x)}, t_deriv, {**dt, **dd})
    for dd, x in D:
        for dw, w in W:
            if compatible(dd, dw):
                dec("deriv-v", f"{short}.deriv(v)", fV, {"D": it.as_lin(x), "Dv": it.as_lin(w)}, t_dv, {**dd, **dw})
    for dt, t in T:
        try:
            fI, I = paths(p, c, "inverse", [it.as_lin(t)], st)
        except Exception as e:
            rep.und("inverse", f"{short}.inverse", "", str(e)[:100])
            continue
        for di, x in good(I):
            if compatible(dt, di):
                dec("inverse", f"{short}.inverse", fI, {"I": it.as_lin(x), "m": M}, t_inv, {**dt, **di})


def put(rep, rule, key, fi, r, why, d):
    where = f"{fi.module.rel()}:{fi.node.lineno}"
    if r == "eq":
        rep.ok(rule, key, where, dtext(d))
    elif r == "ne":
        rep.bad(rule, key, where, f"{why} [{dtext(d)}]")
    else:
        rep.und(rule, key, where, f"{why} [{dtext(d)}]")


def run(p, tier="quick"):
    rep = Report("C08", RULES)
    base = p.cls("simpeg.maps._base.IdentityMap")
    cs = [c for c in p.classes.values() if base in p.mro(c)]
    for c in cs:
        rep.note("mapping classes", 1)
        run_class(p, rep, c)
    return rep
