"""Jvec is the derivative of the predicted data, Jtvec its transpose, getJ the same matrix."""

import ast
import os

from ..compare import compare, compatible, norm_decisions
from ..dinterp import Arr, DInterp, E, Store, UNSET, name
from ..interp import NONE, Const, Dct, Interp, Slice, Tup, Unsupported, PathRaise, embed, is_unknown, to_arg
from ..project import ClassInfo
from ..report import Report, digest
from ..terms import CONJ, ONE, RE, ZERO, Atom, Lin
from .c01_adjoint import op_of

RULES = {
    "jvec": "the sensitivity product of every source/receiver block is the derivative of that block of the predicted data, through the solution the "
    "forward problem computes, and is placed where the predicted data are placed",
    "jtvec": "the adjoint sensitivity product is the sum over all blocks of the transposed sensitivity product",
    "getj": "the sensitivity matrix is, block by block, the operator of the sensitivity product",
    "mini": "the routine that combines pole-pole data of a miniaturized survey and the routine used by the adjoint are transposes of each other",
    "symmetric": "a factorization used for the adjoint system without transposing belongs to a symmetric matrix",
}
EMP = "simpeg.electromagnetics."
V = Lin.atom(Atom("input", ("v",), kind="V"))
MODEL = name("m", "V")


class Und(Exception):
    pass


class SInterp(DInterp):
    MAX_SECONDS = 60
    many = False

    def decide(self, key, *a, **kw):
        if self.many and key[0] == "eq" and isinstance(key[1], Lin) and key[1] in self.rxlen.values():
            return False  # receivers with several data
        return super().decide(key, *a, **kw)

    def contract(self, ft, nm, ps, args, kwargs, fn):
        g = lambda x: x.atom if isinstance(x, Store) else x
        return super().contract(ft, nm, ps, [g(a) for a in args], {k: g(v) for k, v in kwargs.items()}, fn)

    def opaque_call(self, base, args, kwargs):
        g = lambda x: x.atom if isinstance(x, Store) else x
        return super().opaque_call(base, [g(a) for a in args], {k: g(v) for k, v in kwargs.items()})

    def call(self, fn, args, kwargs, *a):
        nm = getattr(getattr(fn, "fi", None), "name", "")
        if nm in ("_mini_survey_data", "_mini_survey_dataT") and self.heap.get((self.selfv, "_mini_survey"), NONE) != NONE:
            # the operator between pole-pole data and the data of the survey; the rule "mini" compares the two routines
            x = (list(args) + list(kwargs.values()))[0]
            keys = self.nD[self.heap[(self.heap[(self.selfv, "_mini_survey")], "nD")]]
            if nm == "_mini_survey_data":
                if not isinstance(x, Arr) or x.axis != 0 or set(x.all()) - set(keys):
                    raise Unsupported("pole-pole data")
                tot = ZERO
                for k in keys:
                    tot = tot + name("Mini" + k[0], "M") * x.get(k)
                return Arr([("full",)], 0, x.nd, {("full",): tot})
            return Arr(keys, 0, 1, {k: name("Mini" + k[0], "M").T() * self.as_lin(x.get(("full",)) if isinstance(x, Arr) else x) for k in keys})
        return super().call(fn, args, kwargs, *a)


FAMS = []


def family(p):
    """(label, classes, rx base class, survey options, dpred derivative)"""
    def subs(full):
        b = p.cls(full)
        return [c for c in sorted(p.classes.values(), key=lambda c: c.full) if b is not None and b in p.mro(c) and c is not b]

    return [
        ("fdem", subs(EMP + "frequency_domain.simulation.BaseFDEMSimulation"), EMP + "frequency_domain.receivers.BaseRx"),
        ("tdem", subs(EMP + "time_domain.simulation.BaseTDEMSimulation"), EMP + "time_domain.receivers.BaseRx"),
        ("dc", subs(EMP + "static.resistivity.simulation.BaseDCSimulation"), EMP + "static.resistivity.receivers.BaseRx"),
        ("dc2d", subs(EMP + "static.resistivity.simulation_2d.BaseDCSimulation2D"), EMP + "static.resistivity.receivers.BaseRx"),
    ]


OPAQUE = ("getA", "getAdiag", "getAsubdiag", "getRHS", "getInitialFields", "getAdc", "eval")


def inst_class(p, c, attr):
    r = p.lookup(c, attr)
    if r is not None and r[0] == "attr":
        it = Interp(p)
        v = it.member(it.self_atom(c), r, attr)
        if isinstance(v, ClassInfo):
            return v
    return None


def setup(it, p, fam, c, rxc, mini=False):
    sv = it.self_atom(c)
    it.begin(sv)
    projs = {"fdem": ("e", "h"), "tdem": ("e", "dbdt"), "dc": ("phi", "e"), "dc2d": ("phi", "phi")}[fam]
    it.make_survey(sv, freqs=True if fam == "fdem" else None, projs=projs)
    it.heap[(sv, "storeJ")] = Const(False)
    it.heap[(sv, "_mini_survey")] = NONE
    if mini:
        it.make_survey(sv, tag="mini", projs=projs)
    it.heap[(sv, "forward_only")] = Const(False)
    it.heap[(sv, "verbose")] = Const(False)
    it.heap[(sv, "solver_opts")] = Dct({})
    if rxc is not None:
        for r in it.rxlen:
            it.types[r.single_atom()] = rxc
            it.virtual.add(r.single_atom())
    if fam == "tdem":
        it.heap[(sv, "time_steps")] = Tup([Lin.num(x) for x in it.dt], "array")
        it.heap[(sv, "nT")] = Lin.num(len(it.dt))
        it.heap[(sv, "dt_threshold")] = Lin.num(1e-8)
    if fam == "dc2d":
        it.heap[(sv, "_quad_points")] = Tup([name("ky0", "S", True), name("ky1", "S", True)], "list")
        it.heap[(sv, "_quad_weights")] = Tup([name("w0", "S", True), name("w1", "S", True)], "list")
        it.heap[(sv, "nky")] = Lin.num(2)
        it.heap[(sv, "Ainv")] = Tup([NONE, NONE], "list")
    if fam == "fdem":
        it.heap[(sv, "Ainv")] = Tup([NONE, NONE], "list")
    if fam == "dc":
        it.heap[(sv, "Ainv")] = NONE
    fc = inst_class(p, c, "fieldsPair")
    it.fclass = fc
    if fc is not None and fam in ("dc", "dc2d"):
        it.inline_names |= {n for k in p.mro(fc) if isinstance(k, ClassInfo) for n in k.methods if n.startswith("_") and "Deriv" in n}
    it.types[name("f").single_atom()] = fc if fc is not None else it.types.get(name("f").single_atom())
    return sv


def explore(p, fam, c, rxc, what, sym, args, mini=False, store=False):
    it = SInterp(p, opaque=OPAQUE)
    it.sym = sym
    it.many = store

    def go(it):
        sv = setup(it, p, fam, c, rxc, mini)
        f = it.call(it.getattr(sv, "fields"), [MODEL], {})
        if not isinstance(f, Store):
            raise Unsupported("fields object")
        d = it.call(it.getattr(sv, "dpred"), [MODEL], {"f": f})
        want = oracle(it, sv, fam, f, d)
        a = args(it)
        if store:
            it.heap[(sv, "storeJ")] = Const(True)
            it.heap[(sv, "_Jmatrix")] = NONE
        r = it.call(it.getattr(sv, what), [MODEL] + a, {"f": f})
        return want, r

    return it.explore(go, max_paths=64)


def lin_op(l):
    """L with l = L v"""
    L = op_of(l, "v")
    if not (l - L * V).is_zero():
        raise Unsupported(f"not linear in v: {l!r}"[:200])
    return L


# ---------------------------------------------------------------- derivative of the predicted data
def oracle(it, sv, fam, f, d):
    """block -> derivative of the predicted data along v"""
    if not isinstance(d, Arr):
        raise Unsupported(f"predicted data {d!r}"[:120])
    out = {}
    memo = {}
    for k, l in d.all().items():
        tot = ZERO
        if l == UNSET:
            raise PathRaise(None, f"the predicted data of {k} are never set")
        for (s, w), c in l.d.items():
            w = [a for a in w if a not in (RE,)]
            M = ONE
            if w and w[0].head == "name" and str(w[0].args[0]).startswith("Mini"):
                M, w = Lin.atom(w[0]), w[1:]
            if not w or w[0].head != "call" or len(w) > 1 and fam != "dc2d":
                raise Unsupported(f"predicted data {l!r}"[:160])
            tot = tot + Lin({(s, ()): c}) * M * d_eval(it, sv, fam, f, w, memo)
        out[k] = tot
    return out


def d_eval(it, sv, fam, f, w, memo):
    a = w[0]
    fn = a.args[0].single_atom()
    if fn is None or fn.head != "attr" or fn.args[1] != "eval":
        raise Unsupported(f"predicted data {a!r}"[:160])
    rx = fn.args[0]
    kw = {x[0]: x[1] for x in a.args[1:] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str)}
    ps = ["src", "mesh"] + (["time_mesh"] if fam == "tdem" else []) + ["f"]
    bound = dict(zip(ps, [x for x in a.args[1:] if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str))]))
    bound.update(kw)
    src = bound["src"]
    ev = it.getattr(rx, "evalDeriv")
    pos = [bound[q] for q in ps]
    sol = solution_name(it, sv, fam)
    if fam == "fdem":
        du = deriv(it, sv, fam, it.as_lin(it.load(f, Tup([src, Const(sol)]))), f, memo)
        return it.as_lin(it.call(ev, pos, {"du_dm_v": du, "v": V}))
    proj = it.heap[(rx, "projField")].v
    fd = it.getattr(f, "_%sDeriv" % proj)
    if fam == "dc":
        du = deriv(it, sv, fam, it.as_lin(it.load(f, Tup([src, Const(sol)]))), f, memo)
        return it.as_lin(it.call(ev, pos, {"v": it.call(fd, [src, du, V], {})}))
    if fam == "dc2d":
        if len(w) != 2 or w[1].head != "E" or w[1].args[0][0] != "pos":
            raise Unsupported(f"predicted data {w!r}"[:160])
        i = w[1].args[0][1]
        du = deriv(it, sv, fam, it.as_lin(it.load(f, Tup([src, Const(sol), Lin.num(i)]))), f, memo)
        return it.as_lin(it.call(ev, pos, {"v": it.call(fd, [Lin.num(i), src, du, V], {})}))
    if fam == "tdem":
        x = ZERO
        for t in range(it.nT + 1):
            du = deriv(it, sv, fam, it.as_lin(it.load(f, Tup([src, Const(sol), Lin.num(t)]))), f, memo)
            x = x + E(("t", t)) * it.as_lin(it.call(fd, [Lin.num(t), src, du, V], {}))
        return it.as_lin(it.call(ev, pos, {"v": x}))


def solution_name(it, sv, fam):
    if fam == "tdem":
        return it.getattr(sv, "_fieldType").v + "Solution"
    return it.getattr(sv, "_solutionType").v


def deriv(it, sv, fam, l, f, memo):
    """derivative along v of a solution: words of inverses, right-hand sides and blocks"""
    out = ZERO
    for (s, w), c in l.d.items():
        out = out + Lin({(s, ()): c}) * dword(it, sv, w, f, memo)
    return out


def dword(it, sv, w, f, memo):
    if w in memo:
        return memo[w]
    r = ZERO
    if w:
        a, rest = w[0], w[1:]
        x = Lin({((), rest): 1 + 0j})
        al = Lin.atom_raw(a)
        if a.head == "inv" and not a.T:
            A = a.args[0].single_atom()
            fn = A.args[0].single_atom().args[1]
            D = it.getattr(sv, fn + "Deriv")
            u = Lin({((), w): 1 + 0j})
            r = -(al * it.as_lin(it.call(D, steps(it, A.args[1:]) + [u, V], {}))) + al * dword(it, sv, rest, f, memo)
        elif a.head == "call" and a.args[0].single_atom().args[1] == "getAsubdiag":
            D = it.getattr(sv, "getAsubdiagDeriv")
            r = it.as_lin(it.call(D, steps(it, a.args[1:]) + [x, V], {})) + al * dword(it, sv, rest, f, memo)
        elif a.head == "call" and a.args[0].single_atom().args[1] in ("getRHS", "getInitialFields"):
            fn = a.args[0].single_atom().args[1]
            if len(rest) != 1 or rest[0].head != "E" or rest[0].args[0][0] != "src":
                raise Unsupported(f"right-hand side column {rest!r}"[:120])
            src = rest[0].args[0][1]
            D = it.getattr(sv, fn + ("Deriv" if fn == "getRHS" else "sDeriv"[1:]))
            if fn == "getRHS":
                r = it.as_lin(it.call(D, list(a.args[1:]) + [src, V], {}))
            else:
                r = it.as_lin(it.call(D, [src, V], {"f": f}))
        else:
            raise Unsupported(f"derivative of {a!r}"[:120])
    memo[w] = r
    return r


def steps(it, args):
    out = []
    for x in args:
        if isinstance(x, Const) and isinstance(x.v, tuple) and x.v[0] == "dt":
            x = Lin.num(it.dt.index(x.v[1]))
        out.append(x)
    return out


# ---------------------------------------------------------------- comparison
def strip(l):
    """real parts at either end: data and models are real"""
    out = ZERO
    for (s, f), c in l.d.items():
        while f and f[0] is RE:
            f = f[1:]
        while f and f[-1] is RE:
            f = f[:-1]
        out = out + Lin({(s, f): c})
    return out


def differ(a, b):
    """None when equal"""
    d = strip(a) - strip(b)
    if d.is_zero():
        return None
    if d.has_unknown() or any(is_und(x) for x in d.atoms()):
        return ("und", repr(d)[:200])
    return ("ne", show(d)[:int(os.environ.get("VERIF_WIDTH", 600))])


def show(l):
    def at(a):
        t = "^T" if a.T else ""
        if a.head == "op":
            cx = [at1(v) for k, v in a.args[2] if k not in ("mesh", "time_mesh", "f")]
            o = repr(a.args[0]).split(".")
            return (o[0] + "." if o[0] not in ("self", "f") else "") + a.args[1] + "(" + ",".join(cx) + ")" + ("_" + a.args[3] if a.args[3] else "") + t
        return repr(a)

    def at1(v):
        return "[" + show(v) + "]" if isinstance(v, Lin) and v.single_atom() is None else repr(v)

    return " + ".join(("" if c == 1 else "-" if c == -1 else f"{c} ") + "·".join([repr(x[0]) for x in s] + [at(a) for a in f]) for (s, f), c in l.d.items())


def is_und(a):
    if a.head != "call":
        return a.head in ("getitem", "phi", "new")
    fn = a.args[0].single_atom() if isinstance(a.args[0], Lin) else None
    return fn is None or fn.head != "attr" or fn.args[1] not in OPAQUE and not fn.args[1].endswith("Deriv")


def vin(it):
    if it.heap.get((it.selfv, "_mini_survey"), NONE) != NONE:
        return [Lin.atom(Atom("input", ("full",), kind="V"))]
    ks = next(iter(it.nD.values()))
    return [Arr(ks, 0, 1, {k: Lin.atom(Atom("input", k, kind="V")) for k in ks})]


def check_class(p, rep, fam, c, rxc):
    sym = symmetric(p, rep, fam, c)
    done = 0
    modes = [(False, False)]
    if fam in ("dc", "dc2d"):
        modes = [(a, b) for a in (False, True) for b in (False, True)]
    for mini, store, rule, what, args in [m + x for m in modes for x in
                                   (("jvec", "Jvec", lambda it: [V]), ("jtvec", "Jtvec", vin), ("getj", "getJ", lambda it: []))]:
        r = p.lookup(c, what)
        if r is None or r[0] != "method" or raises(r[1]) or store and what == "getJ":
            continue
        fi = r[1]
        where = f"{fi.module.rel()}:{fi.node.lineno}"
        res = explore(p, fam, c, rxc, what, sym, args, mini, store)
        for d, k, v in res:
            key = f"{c.full}.{what}" + (" (miniaturized)" if mini else "") + (" (storeJ)" if store else "")
            if k == "raise":
                if "never set" in v.exc:
                    rep.bad(rule, key, where, v.exc)
                if v.exc in ("UnboundLocalError", "IndexError"):
                    ln = getattr(v.node, "lineno", fi.node.lineno)
                    rep.bad(rule, key, where, f"{v.exc} on a survey with {DInterp.nsrc} sources and {DInterp.nT} time steps for which the data can be predicted (line {ln})")
                continue
            if k != "ok":
                rep.und(rule, key, where, str(v)[:200])
                continue
            want, got = v
            try:
                st = judge(rule, want, got)
            except Unsupported as e:
                st = ("und", str(e)[:200])
            if st is None:
                rep.ok(rule, key, where, f"{len(want)} blocks", len(want))
                done += 1
            elif st[0] == "und":
                rep.und(rule, key, where, st[1])
            else:
                cond = "; ".join(f"{a}={b}" for a, b in list(d.items())[:4])
                rep.bad(rule, key, where, st[1] + (f"\n      under: {cond}" if cond else ""))


def judge(rule, want, got):
    if rule == "jvec":
        if not isinstance(got, Arr):
            return ("und", f"sensitivity product {got!r}"[:160])
        g = got.all()
        for k in sorted(set(want) | set(g), key=repr):
            r = differ(g.get(k, ZERO), want.get(k, ZERO))
            if r is not None:
                return (r[0], f"data block {k}: Jvec minus the derivative of the data is {r[1]}")
        return None
    ops = {k: lin_op(l) for k, l in want.items()}
    if rule == "jtvec":
        if isinstance(got, (Arr, Store)) or not isinstance(got, Lin):
            return ("und", f"adjoint product {got!r}"[:160])
        w = ZERO
        for k, L in ops.items():
            w = w + strip(L.T()) * Lin.atom(Atom("input", k, kind="V"))
        r = differ(got, w)
        return r and (r[0], f"Jtvec minus the transposed Jvec is {r[1]}")
    if not isinstance(got, Arr) or got.axis != 0:
        return ("und", f"sensitivity matrix {got!r}"[:160])
    g = got.all()
    for k in sorted(set(ops) | set(g), key=repr):
        r = differ(g.get(k, ZERO), ops.get(k, ZERO))
        if r is not None:
            return (r[0], f"rows {k}: getJ minus the operator of Jvec is {r[1]}")
    return None


def raises(fi):
    import ast

    b = [x for x in fi.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return bool(b) and isinstance(b[-1], ast.Raise) and not any(isinstance(x, ast.Return) for x in ast.walk(fi.node))


class MInterp(Interp):
    """np.add.at and np.subtract.at sum over repeated indices; `out[i] += x` for an array of indices does not"""

    def e_Call(self, n, fr):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "at" and isinstance(f.value, ast.Attribute) and f.value.attr in ("add", "subtract") \
                and len(n.args) == 3 and isinstance(n.args[0], ast.Name):
            base, idx, x = self.as_lin(self.eval(n.args[0], fr)), self.index(n.args[1], fr), self.as_lin(self.eval(n.args[2], fr))
            fr.env[n.args[0].id] = base + (embed(idx) * x).scale(1 if f.value.attr == "add" else -1)
            return NONE
        return super().e_Call(n, fr)

    def store_subscript(self, tg, v, fr, aug):
        idx = self.index(tg.slice, fr)
        if aug and isinstance(tg.value, ast.Name) and "_invs" in repr(idx):
            base = self.as_lin(self.eval(tg.value, fr))
            fr.env[tg.value.id] = base + Lin.atom(Atom("E", (("last of", to_arg(idx)),), False, False, "M")) * (self.as_lin(v) - self.getitem(base, idx))
            return
        return super().store_subscript(tg, v, fr, aug)


def mini(p, rep):
    """the pole-pole data combined into the data of the survey, and the adjoint of that"""
    seen = set()
    for c in sorted(p.classes.values(), key=lambda c: c.full):
        a, b = p.lookup(c, "_mini_survey_data"), p.lookup(c, "_mini_survey_dataT")
        if not a or not b or a[0] != "method" or b[0] != "method" or (a[1].key, b[1].key) in seen:
            continue
        seen.add((a[1].key, b[1].key))
        key, out = f"{c.full}._mini_survey_dataT", []
        for fi in (a[1], b[1]):
            it = MInterp(p)

            def go(it):
                sv = it.self_atom(c)
                it.heap[(sv, "_mini_survey")] = name("mini")
                return it.call(it.getattr(sv, fi.name), [V], {})

            out.append((it, it.explore(go, max_paths=8)))
        for d1, k1, v1 in out[0][1]:
            for d2, k2, v2 in out[1][1]:
                if not compatible(norm_decisions(d1), norm_decisions(d2)):
                    continue
                if k1 != "ok" or k2 != "ok" or not isinstance(v1, Lin) or not isinstance(v2, Lin):
                    rep.und("mini", key, b[1].where, f"{v1!r} {v2!r}"[:160])
                    continue
                try:
                    L1, L2 = lin_op(v1), lin_op(v2)
                except Unsupported as e:
                    rep.und("mini", key, b[1].where, str(e)[:160])
                    continue
                st, why = compare(out[0][0], L1.T(), L2)
                if st == "eq":
                    rep.ok("mini", key, b[1].where, f"{L2!r}"[:200])
                elif st == "und":
                    rep.und("mini", key, b[1].where, why)
                else:
                    rep.bad("mini", key, b[1].where, f"data {L1!r} but adjoint {L2!r}"[:600])


def symmetric(p, rep, fam, c):
    """The adjoint systems of these families are solved with the factorization of the forward matrix, so the matrix has
    to equal its transpose on every path users can take."""
    if fam == "tdem":
        return ()
    from . import c02_system_deriv as c2

    fa = p.lookup(c, "getA")[1]
    key = f"{c.full}.getA"
    it, res = c2.explore(p, c, fa, set())
    n = 0
    for d, k, v in res:
        if k == "raise" or any(
            q[0] == "none" and "permittivity" in repr(q[1]) and not b or q[0] == "truth" and repr(q[1]).endswith("_makeASymmetric") and not b
            for q, b in d.items()
        ):
            continue  # no derivatives are offered with permittivity; _makeASymmetric is a private constant
        if k != "ok" or not isinstance(v, Lin):
            rep.und("symmetric", key, fa.where, str(v)[:160])
            continue
        v = c2.drop_pins(v)
        if any(repr(a).endswith("self.Grad") for _, f in v.d for a in f):
            rep.und("symmetric", key, fa.where, "the cell gradient comes from the boundary-condition tables of the mesh")
            continue
        st, why = compare(it, v.T(), v)
        if st == "eq":
            n += 1
        elif st == "und":
            rep.und("symmetric", key, fa.where, why)
        else:
            rep.bad("symmetric", key, fa.where, f"the adjoint solves use the factorization of {c2.short(v)}, which is not symmetric")
    if n:
        rep.ok("symmetric", key, fa.where, f"{n} paths", n)
    return ("getA",)


def run(p, tier="quick"):
    rep = Report("C05", RULES)
    mini(p, rep)
    for fam, cs, rx in family(p):
        for c in cs:
            if p.lookup(c, "getA" if fam != "tdem" else "getAdiag") is None or "induced_polarization" in c.full:
                continue
            rep.note("simulation classes", 1)
            check_class(p, rep, fam, c, p.cls(rx))
    return rep
