"""Objective functions: deriv is the gradient of the value, deriv2 its derivative, with and without a vector."""

import os

from ..compare import compatible, norm_decisions
from ..einterp import EInterp, is_node, node
from ..inst import A2, IV, N, Du, Inst, Op, Shape, Und, a2op, diag, num_, same, vals
from ..interp import NONE, Const, Fn, Tup
from ..kinds import of_attr
from ..project import ClassInfo
from ..report import Report
from ..terms import Atom, Lin
from .c08_maps import diff_text, dtext, put

RULES = {
    "gradient": "deriv(m) is the gradient of the value returned by the objective function, for every option under which both return",
    "hessian": "deriv2(m, v) is the derivative of deriv(m) along v (with the derivative of mappings and of predicted data held fixed, the "
    "Gauss-Newton Hessian)",
    "hessian-v": "deriv2(m, v) is deriv2(m) applied to v",
    "symmetric": "deriv2(m) is symmetric (also where it is an approximation)",
    "problem": "the inverse problem's function value, gradient and Hessian product are those of dmisfit + beta * reg, with the fields of "
    "the term they belong to",
}
MA = Atom("name", ("m",), kind="V")
VA = Atom("input", ("v",), kind="V")
M, V = Lin.atom(MA), Lin.atom(VA)
SEEDS = 3
VECTORS = {"vol", "dobs", "reference_model", "ref_dir", "cell_volumes"}
MATRICES = {"cell_gradient", "average_face_to_cell", "_G", "_Av", "_X", "W", "average_cell_to_face"}
SYMM = {"get_face_inner_product", "get_edge_inner_product", "get_face_inner_product_surface"}


class OInterp(EInterp):
    """objective functions of other objects are 1/2 |y|^2 of an unknown mapping y; predicted data are an unknown mapping"""

    def parts(self, at):
        return at is not None and at.head == "name" and at.args[0].startswith("term")

    def fkey(self, kwargs):
        f = kwargs.get("f", NONE)
        return "" if f == NONE else repr(f)

    def term(self, at, what, args, kwargs):
        if set(kwargs) - {"f", "v"} or not args:
            return None
        m = self.as_lin(args[0])
        mp = Lin.atom(Atom("name", (at.args[0] + "|" + self.fkey(kwargs),)))
        y, D = node("mapply", mp, m), node("mderiv", mp, m)
        if what == "value" and len(args) == 1:
            return node("*", Lin.num(0.5), node("@", y, y))
        if what == "deriv" and len(args) == 1:
            return node("@", node("T", D), y)
        if what == "deriv2":
            v = kwargs.get("v", args[1] if len(args) > 1 else NONE)
            if v == NONE:
                return node("@", node("T", D), D)
            return node("@", node("T", D), node("@", D, self.as_lin(v)))
        return None

    def call_attr(self, base, name, args, kwargs):
        at = base.single_atom() if isinstance(base, Lin) else None
        if self.parts(at) and name in ("deriv", "deriv2"):
            return self.term(at, name, args, kwargs)
        if at is not None and at.head == "attr" and at.args[1] == "simulation" and args:
            m = self.as_lin(args[0])
            fl = [args[2:3] if "vec" in name else args[1:2], [kwargs["f"]] if "f" in kwargs else []]
            f = [x for l in fl for x in l if x != NONE]
            ok = all(isinstance(x, Lin) and self.is_fields(x, base, m) for x in f)
            if ok and name == "dpred":
                return node("mapply", base, m)
            if ok and name in ("Jvec", "Jvec_approx", "Jtvec", "Jtvec_approx") and len(args) > 1 and args[1] != NONE:
                D = node("mderiv", base, m)
                return node("@", node("T", D) if "t" in name[:2] else D, self.as_lin(args[1]))
        return super().call_attr(base, name, args, kwargs)

    def is_fields(self, x, sim, m):
        at = x.single_atom()
        if at is None or at.head == "name" and at.args[0] == "f":
            return at is not None
        if at.head == "call" and isinstance(at.args[0], Lin) and len(at.args) >= 2 and at.args[1] == m:
            c = at.args[0].single_atom()
            return c is not None and c.head == "attr" and c.args[1] == "fields" and c.args[0] == sim
        return False

    def call_term(self, f, args, kwargs):
        at = f.single_atom()
        if self.parts(at):
            r = self.term(at, "value", args, kwargs)
            if r is not None:
                return r
        return super().call_term(f, args, kwargs)

    def call_external(self, d, args, kwargs):
        if d.endswith("LinearOperator"):
            fn = kwargs.get("matvec", args[1] if len(args) > 1 else None)
            if isinstance(fn, Fn):
                return node("lop", self.as_lin(self.call(fn, [V], {})))
        return super().call_external(d, args, kwargs)


class OInst(Inst):
    def node(self, a):
        return super().node(a)


def self_attr(a):
    if a.head == "attr" and isinstance(a.args[0], Lin):
        b = a.args[0].single_atom()
        if b is not None and b.head == "name" and b.args[0] == "self":
            return a.args[1]
    return None


def symmetric_term(l):
    """structurally symmetric: diagonals and palindromic products"""

    def flat(t):
        at = is_node(t)
        if at is not None and at.args[0] in ("@", "*"):
            return flat(at.args[1]) + flat(at.args[2])
        return [t]

    def tr(t):
        at = is_node(t)
        if at is not None and at.args[0] == "T":
            return at.args[1]
        if at is not None and at.args[0] in ("diag", "eye"):
            return t
        b = t.single_atom() if isinstance(t, Lin) else None
        if b is not None and b.head == "call" and isinstance(b.args[0], Lin):
            c = b.args[0].single_atom()
            if c is not None and c.head == "attr" and c.args[1] in SYMM:
                return t
        return node("T", t)

    fs = flat(l)
    return [tr(t) for t in reversed(fs)] == fs


def setup(c, combo, wires):
    def go(it, sv):
        it.wires = {"wire_map": wires, "wiresmap": wires}
        if c.name == "PGIsmallness":
            ms = [Atom("name", ("map%d" % i,)) for i in range(wires)]
            it.maps.update(ms)
            it.heap[(sv, "maplist")] = Tup([Lin.atom(a) for a in ms], "list")
            wm = it.getattr(sv, "wiresmap")
            it.heap[(wm, "maps")] = Tup([Tup([Const("w%d" % i), Lin.atom(Atom("name", ("wire%d" % i,)))]) for i in range(wires)], "list")
            gm = it.getattr(sv, "gmm")
            it.heap[(gm, "n_components")] = Lin.num(2)
            it.heap[(sv, "non_linear_relationships")] = Const(False)
            it.heap[(sv, "reference_model")] = Lin.atom(Atom("attr", (sv, "reference_model")))
            it.heap[(sv, "approx_eval")] = Const(True)
            it.heap[(sv, "approx_gradient")] = Const(True)
            it.heap[(sv, "approx_hessian")] = Const(True)
        it.heap[(sv, "n_comp")] = Lin.num(3)
        if combo:
            it.heap[(sv, "objfcts")] = Tup([Lin.atom(Atom("name", ("term%d" % i,))) for i in range(3)], "list")
            it.heap[(sv, "multipliers")] = Tup([Lin.atom(Atom("name", ("mult%d" % i,))) for i in range(3)], "list")

    return go


def explore(p, c, name, args, st, kwargs=None, opaque=()):
    r = p.lookup(c, name)
    if not r or r[0] != "method":
        return None, []
    fi = r[1]
    it = OInterp(p, opaque=opaque)

    def go(it):
        sv = it.self_atom(c)
        st(it, sv)
        return it.call_method(c, name, list(args), dict(kwargs or {}), selfv=sv, fi=fi)

    return fi, it.explore(go, max_paths=128)


def w_kind(p, c):
    """'Sym' when the getter of W gives a symmetric matrix on every path and users cannot assign another one"""
    if p.prop_slot(c, "W", "set") is not None:
        return "M"
    g = p.prop_slot(c, "W", "get")
    if g is None:
        return "M"
    it = OInterp(p)

    def go(it):
        sv = it.self_atom(c)
        it.heap[(sv, "_W")] = NONE
        return it.call_method(c, "W", [], {}, selfv=sv, fi=g)

    try:
        vs = [it.as_lin(v) for d, k, v in it.explore(go, max_paths=32) if k == "ok"]
    except Exception:
        return "M"
    if vs and all(is_node(v, "diag") for v in vs):
        return "D"
    return "Sym" if vs and all(symmetric_term(v) for v in vs) else "M"


def make_inst(seed, c, ds, kW, linear, nmap, n):
    zero = {k[1] if isinstance(k[1], Lin) else None for k, v in ds.items() if k[0] == "eq" and v and len(k) > 2 and isinstance(k[2], Lin) and k[2].const() == 0}
    zero |= {k[2] for k, v in ds.items() if k[0] == "eq" and v and len(k) > 2 and isinstance(k[1], Lin) and k[1].const() == 0 and isinstance(k[2], Lin)}

    cov = next((k[2].v for k, v in ds.items() if k[0] == "eq" and v and "covariance_type" in repr(k[1]) and isinstance(k[2], Const)), "full")

    def spd(i, *key):
        a, b, d = [Du(i.rnd("precision", *key, j)) for j in range(3)]
        return A2([[a, b], [b, d]])

    def precision(i, j):
        if cov == "tied":
            return spd(i)
        if cov == "spherical":
            return Du(i.rnd("precision", j))
        if cov == "diag":
            return [Du(i.rnd("precision", j, q)) for q in range(2)]
        return spd(i, j)

    def gmm(i, a):
        """Gaussian mixture: precisions per class, class of each cell"""
        if a.head == "call" and repr(a.args[0]) == "self.compute_quasi_geology_model":
            return IV([int(i.fixed("class", j) > 0.5) for j in range(N)])
        if a.head == "attr" and repr(a) == "self.gmm.precisions_" and cov == "tied":
            return precision(i, 0)
        if a.head != "e":
            return None
        if a.args[0] == "idx":
            b, k = a.args[1], a.args[2]
            if repr(b) == "self.gmm.precisions_" and isinstance(k, Lin) and cov != "tied":
                if k.const() is not None:
                    return precision(i, int(k.const().real))
                return ("stack", [precision(i, j) for j in i.ev(k)])
            if repr(b) == "e(idx, self.gmm.precisions_, (None,::,::))":
                return ("stack", [precision(i, 0)] * N)
            if isinstance(k, tuple) and len(k) == 3 and isinstance(b, Lin) and isinstance(s_ := i.ev(b), tuple) and s_[0] == "stack":
                r, q = i.int(k[1]), i.int(k[2])
                return [x.r[r][q] for x in s_[1]]
        if a.args[0] == "x" and a.args[1] == "numpy.einsum" and a.args[2][0] == Const("ijk,ik->ij"):
            P, r = i.ev(a.args[2][1]), i.ev(a.args[2][2])
            if isinstance(P, tuple) and isinstance(r, A2):
                return A2([a2op(x).mv(y) for x, y in zip(P[1], r.r)])
        return None

    def hook(i, a):
        if i.pointwise and (r := gmm(i, a)) is not None:
            return r
        if Lin.atom(a) in zero:
            return Du(0)
        n_ = a.args[1] if a.head == "attr" else None
        s = self_attr(a)
        if s == "n_comp":
            return Du(3)
        if s == "W":
            return diag([Du(i.rnd("W", j)) for j in range(nW)]) if kW == "D" else i.rop(("W",), kW == "Sym")
        t = repr(a)
        if "cell_gradient" in t[:90] and a.head == "call" and ".sign" in t[:120]:
            return i.rop(("stencil",), False)
        if s == "cell_gradient":
            S = i.rop(("stencil",), False)
            d = [i.rnd("distance", j) for j in range(N)]
            return Op(lambda x: [Du(y.a / e, y.b / e) for y, e in zip(S.mv(x), d)], lambda x: S.tv([Du(y.a / e, y.b / e) for y, e in zip(x, d)]))
        if "cell_distances" in t and a.head in ("call", "getattr", "attr"):
            return [Du(i.rnd("distance", j)) for j in range(N)]
        if s == "eps":
            return Du(i.rnd("eps"))
        if n_ in VECTORS:
            return [Du(i.rnd(t, j)) for j in range(n if n_ == "reference_model" else N)]
        if n_ in MATRICES:
            return i.rop((t,), False)
        return None

    def kf(a):
        s = self_attr(a)
        if s == "coefficients":
            return "V"
        if a.head == "name" and a.args[0].startswith("mult"):
            return "S"
        if a.head == "attr" and a.args[1] in ("beta",):
            return "S"
        return None

    i = OInst(seed, {}, kindf=kf, hook=hook)
    i.linear, i.nmap = linear, nmap
    i.pointwise = c.name == "PGIsmallness"
    nW = n if i.pointwise else N
    m0 = [i.rnd("m", j) for j in range(n)]
    v0 = [i.rnd("v", j) - 0.5 for j in range(n)]
    i.env = {MA: [Du(a, b) for a, b in zip(m0, v0)], VA: [Du(b) for b in v0]}
    return i, v0


def decide(mk, test):
    why = None
    for s in range(1, SEEDS + 1):
        try:
            i, v0 = mk(s)
            w = test(i, v0)
            if i.unk:
                return "und", "leaf of unknown kind: " + repr(sorted(i.unk, key=repr)[0])[:80]
        except (Und, ZeroDivisionError, OverflowError, ValueError, IndexError, TypeError, RecursionError) as e:
            if os.environ.get("VERIF_DEBUG") and not isinstance(e, Und):
                raise
            return "und", f"{type(e).__name__} {e}"[:160]
        why = why or w
    return ("ne", why) if why else ("eq", "")


def good(it, res):
    out = []
    for d, k, v in res:
        if k == "ok" and isinstance(v, Lin) or k == "ok" and isinstance(v, (Const, Tup)) and v != NONE:
            out.append((norm_decisions(d), it.as_lin(v)))
    return out


def dot(x, v):
    x = num_(x) if isinstance(x, list) else [x]
    if len(x) != len(v):
        if len(x) == 1 and x[0].a == 0:
            return 0
        raise Shape("length of the gradient")
    return sum(a.a * b for a, b in zip(x, v))


def t_gradient(F, G):
    def t(i, v0):
        f, g = i.ev(F), i.ev(G)
        f = i.num(f)
        d = dot(g, v0)
        return None if same([f.b], [d]) else f"the value changes by {f.b:.6g}, the gradient gives {d:.6g}"

    return t


def t_hess(G, H):
    def t(i, v0):
        g, h = i.ev(G), i.ev(H)
        if isinstance(h, Op):
            h = h.mv([Du(x) for x in v0])
        a, b = vals(g, "b"), vals(h, "a")
        if len(b) == 1 and b[0] == 0:
            b = [0] * len(a)
        if len(a) == 1 and a[0] == 0:
            a = [0] * len(b)
        return None if same(a, b) else diff_text(a, b)

    return t


def t_hv(H, Hv):
    def t(i, v0):
        h = i.ev(H)
        h = i.mat(h, [Du(x) for x in v0]) if not isinstance(h, Du) else h
        a, b = vals(h, "a"), vals(i.ev(Hv), "a")
        return None if same(a, b) else diff_text(a, b)

    return t


def t_sym(H):
    def t(i, v0):
        h = i.ev(H)
        if isinstance(h, Du):
            return None
        h = i.op(h)
        x = [Du(y) for y in v0]
        a, b = vals(h.mv(x), "a"), vals(h.tv(x), "a")
        return None if same(a, b) else diff_text(a, b)

    return t


def approx(d):
    return any("approx_hessian" in repr(k) and v for k, v in d.items())


def run_class(p, rep, c):
    names = {k.name for k in p.mro(c) if isinstance(k, ClassInfo)}
    combo = "ComboObjectiveFunction" in names
    fs = [p.lookup(c, n) for n in ("__call__", "deriv", "deriv2")]
    if not all(f and f[0] == "method" for f in fs):
        return
    if combo and c.name != "ComboObjectiveFunction":
        base = p.cls("simpeg.objective_function.ComboObjectiveFunction")
        if all(p.lookup(base, n)[1] is f[1] for n, f in zip(("__call__", "deriv", "deriv2", "__getitem__", "__len__"), fs + [p.lookup(c, "__getitem__"), p.lookup(c, "__len__")])):
            rep.note("combinations with the inherited value and derivatives", 1)
            return
    wires = 3 if c.name == "JointTotalVariation" else 2
    st = setup(c, combo, wires)
    it = OInterp(p)
    kW = w_kind(p, c)
    amp = "BaseAmplitude" in names
    nmap, linear = (3 * N, True) if amp else (N, False)
    n = wires * N if "BaseSimilarityMeasure" in names or c.name == "PGIsmallness" else N
    kws = [{}, {"f": Tup([Lin.atom(Atom("name", ("f%d" % i,))) for i in range(3)], "list")}] if combo else [{}]
    for kw in kws:
        try:
            fF, F = explore(p, c, "__call__", [M], st, kw)
            fG, G = explore(p, c, "deriv", [M], st, kw)
            fH, H = explore(p, c, "deriv2", [M, NONE], st, kw)
            fV, Hv = explore(p, c, "deriv2", [M, V], st, kw)
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            rep.und("gradient", f"{c.name}", "", str(e)[:100])
            return
        F, G, H, Hv = [good(it, x) for x in (F, G, H, Hv)]
        s = c.name + (" with fields" if kw else "")

        def mk(ds):
            return lambda seed: make_inst(seed, c, ds, kW, linear, nmap, n)

        for df, f in F:
            for dg, g in G:
                if compatible(df, dg):
                    ds = {**df, **dg}
                    put(rep, "gradient", f"{s}.deriv", fG, *decide(mk(ds), t_gradient(f, g)), ds)
        for dg, g in G:
            for dh, h in Hv:
                if compatible(dg, dh) and not approx({**dg, **dh}):
                    ds = {**dg, **dh}
                    put(rep, "hessian", f"{s}.deriv2(v)", fV, *decide(mk(ds), t_hess(g, h)), ds)
        for dh, h in H:
            for dv, hv in Hv:
                if compatible(dh, dv):
                    ds = {**dh, **dv}
                    put(rep, "hessian-v", f"{s}.deriv2(v)", fV, *decide(mk(ds), t_hv(h, hv)), ds)
            put(rep, "symmetric", f"{s}.deriv2", fH, *decide(mk(dh), t_sym(h)), dh)


def run_problem(p, rep):
    c = p.cls("simpeg.inverse_problem.BaseInvProblem")
    if c is None:
        return
    terms = [Lin.atom(Atom("name", ("term%d" % i,))) for i in range(3)]
    D, R = Lin.atom(Atom("name", ("term_dmisfit",))), Lin.atom(Atom("name", ("term_reg",)))

    def st(it, sv):
        it.heap[(sv, "dmisfit")] = D
        it.heap[(sv, "reg")] = R
        it.heap[(D, "objfcts")] = Tup(terms, "list")
        it.heap[(sv, "warmstart")] = Tup([], "list")
        it.heap[(sv, "_warmstart")] = Tup([], "list")

    it = OInterp(p)
    try:
        fi, E = explore(p, c, "evalFunction", [M, Const(True), Const(True)], st, opaque=("getFields", "get_dpred"))
        fg, A = explore(p, c, "getFields", [M], st)
        fd, B = explore(p, c, "get_dpred", [M, Tup([Lin.atom(Atom("name", ("f%d" % i,))) for i in range(3)], "list")], st)
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            raise
        rep.und("problem", "BaseInvProblem", "", str(e)[:100])
        return
    beta = Lin.atom(Atom("attr", (Lin.atom(Atom("name", ("self",))), "beta")))

    def lop(i, l):
        at = is_node(l, "lop")
        return i.ev(at.args[1] if at is not None else l)

    done = set()
    for d, k, v in E:
        if k != "ok":
            continue
        if not isinstance(v, Tup) or len(v.items) != 3:
            rep.und("problem", "BaseInvProblem.evalFunction", f"{fi.module.rel()}:{fi.node.lineno}", repr(v)[:100])
            continue
        key = repr(v)
        if key in done:
            continue
        done.add(key)
        f, g, h = [it.as_lin(x) for x in v.items]
        fx = None
        for a in atoms(f):
            if a.head == "name" and a.args[0].startswith("term_dmisfit"):
                fx = a.args[0]
        ref = OInterp(p)

        def oracle(what, *more):
            mp = lambda nm: Lin.atom(Atom("name", (nm,)))
            out = []
            for nm in (fx or "term_dmisfit|", "term_reg|"):
                y, D_ = node("mapply", mp(nm), M), node("mderiv", mp(nm), M)
                out.append({"v": node("*", Lin.num(0.5), node("@", y, y)), "g": node("@", node("T", D_), y),
                            "h": node("@", node("T", D_), node("@", D_, V))}[what])
            return node("+", out[0], node("*", beta, out[1]))

        def t(i, v0):
            for what, x in (("v", f), ("g", g), ("h", h)):
                a, b = vals(lop(i, x), "a"), vals(i.ev(oracle(what)), "a")
                if not same(a, b):
                    return {"v": "value", "g": "gradient", "h": "Hessian product"}[what] + " is not that of dmisfit + beta reg: " + diff_text(a, b)
            return None

        put(rep, "problem", "BaseInvProblem.evalFunction", fi, *decide(lambda s: make_inst(s, c, {}, "M", False, N, N), t), d)
    for d, k, v in A:
        if k != "ok" or not isinstance(v, Tup):
            continue
        has = {i for i in range(3) for q, b in d.items() if b and q[0] == "hasattr" and repr(terms[i]) in repr(q)}
        bad = [i for i in has if len(v.items) <= i or f"term{i}.simulation.fields" not in repr(v.items[i])]
        put(rep, "problem", "BaseInvProblem.getFields", fg, "ne" if bad else "eq", f"the fields of term {bad} are not at its place in the list", d)
    for d, k, v in B:
        if k != "ok":
            continue
        t = repr(v)
        has = {i for i in range(3) for q, b in d.items() if b and q[0] == "hasattr" and repr(terms[i]) in repr(q)}
        bad = [i for i in has if f"term{i}.simulation.dpred(m, (f,f{i}))" not in t]
        put(rep, "problem", "BaseInvProblem.get_dpred", fd, "ne" if bad else "eq", f"predicted data of term {bad} not with its fields", d)


def atoms(l):
    out, st = set(), [l]
    while st:
        y = st.pop()
        if isinstance(y, Lin):
            for (s, f) in y.d:
                st.extend(q for q, _ in s)
                st.extend(f)
        elif isinstance(y, Atom):
            if y not in out:
                out.add(y)
                st.extend(y.args)
        elif isinstance(y, (tuple, list)):
            st.extend(y)
    return out


def run(p, tier="quick"):
    rep = Report("C07", RULES)
    base = p.cls("simpeg.objective_function.BaseObjectiveFunction")
    for c in p.classes.values():
        if base in p.mro(c):
            rep.note("objective function classes", 1)
            run_class(p, rep, c)
    run_problem(p, rep)
    return rep
