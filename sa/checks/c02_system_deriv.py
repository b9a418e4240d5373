"""Derivatives of system matrices and right-hand sides are the derivatives of the matrices/RHS that are solved."""

from ..compare import compare, compatible, norm_decisions
from ..diff import V, Deriv, NoDerivative
from ..interp import NONE, Const, Interp, Tup, kind_of
from ..project import ClassInfo
from ..report import Report, digest
from ..terms import ONE, ZERO, Atom, Lin
from .c01_adjoint import make_args, short, src_type

RULES = {
    "system": "for every simulation class and every pair (system matrix or right-hand side, its derivative routine), "
    "the operator returned by the derivative routine equals the formal derivative of the normal form of A(m)u or "
    "q(m) with respect to the model, on every pair of compatible paths",
}

PAIRS = [
    ("getA", "getADeriv"),
    ("getAdiag", "getAdiagDeriv"),
    ("getAsubdiag", "getAsubdiagDeriv"),
    ("getRHS", "getRHSDeriv"),
    ("getAdc", "getAdcDeriv"),
]

U = Lin.atom(Atom("name", ("u",), kind="V"))




def subst_tail(l, f):
    """apply f to the state argument of every mass-derivative operator"""
    out = ZERO
    for (s, w), c in l.d.items():
        acc = Lin({(s, ()): c})
        for a in w:
            if a.head == "op" and a.args[2] and a.args[2][0][0] == "u":
                k, u2 = f(a.args[2][0][1])
                acc = acc * Lin.atom_raw(Atom("op", a.args[:2] + ((("u", u2),),) + a.args[3:], a.T, a.sym, a.kind)).scale(k)
            else:
                acc = acc * Lin.atom_raw(a)
        out = out + acc
    return out


def gradient_state(u):
    """-G u is passed as the state (the electric field e = -G phi)"""
    if len(u.d) == 1:
        ((s, f), c), = u.d.items()
        if len(f) == 2 and repr(f[0]).endswith("nodal_gradient") and not s:
            return -c, Lin({((), f[1:]): 1 + 0j})
    return 1, u


CONVENTIONS = {
    # TDEM E formulation: getAdcDeriv takes the DC electric field e = -G phi instead of phi
    ("Simulation3DElectricField", "getAdcDeriv"): lambda l: subst_tail(l, gradient_state),
}


def props_of(c):
    m = c.module.name
    if "frequency_domain" in m or "natural_source" in m:
        return ("sigma", "rho", "mu", "mui")
    if "self_potential" in m:
        return ("q",)
    return ("sigma", "rho")


def src_hook(it, p, kwsrc):
    """derivative of source terms: s_m(sim[,t]) -> s_mDeriv(sim[,t]) of the same source"""

    def hook(d, a, R, tail):
        if a.head == "getitem" and isinstance(a.args[0], Lin) and isinstance(a.args[1], tuple) and len(a.args[1]) == 2:
            # a field of another simulation evaluated at the model: f(m)[src, name]
            b = a.args[0].single_atom()
            if b is not None and b.head == "call" and isinstance(b.args[0], Lin):
                at = b.args[0].single_atom()
                if at is not None and at.head == "attr" and at.args[1] == "fields":
                    if tail is None:
                        return True
                    src, field = a.args[1]
                    ft = Lin.atom(Atom("attr", (a.args[0], "field_deriv_m")))
                    ctx = (("field", field), ("src", src))
                    return Lin.atom(Atom("op", (ft, "field_deriv_m", ctx, ""), False, False, "M")) * d.inp
        if a.head != "call" or not isinstance(a.args[0], Lin):
            return None
        at = a.args[0].single_atom()
        if at is None or at.head != "attr" or at.args[1] not in ("s_m", "s_e"):
            return None
        if tail is None:
            return True
        name = at.args[1] + "Deriv"
        base = at.args[0].single_atom()
        if base in it.types and it.zero_everywhere(it.types[base], name):
            return ZERO
        ps = ["simulation", "time"]
        ctx = tuple((p_, x) for p_, x in zip(ps, a.args[1:]))
        ft = Lin.atom(Atom("attr", (at.args[0], name)))
        op = Lin.atom(Atom("op", (ft, name, ctx, ""), False, False, "M"))
        return op * d.inp

    return hook


def canon(it, l, timed):
    """rewrite source-term look-ups to src.s_m(self[, t]) / src.s_e(self[, t]) and op contexts alike"""

    def rw_atom(a):
        if a.head == "getitem" and isinstance(a.args[0], Lin):
            b = a.args[0].single_atom()
            if b is not None and b.head == "call" and isinstance(b.args[0], Lin):
                f = b.args[0].single_atom()
                if f is not None and f.head == "attr" and f.args[1] in ("getSourceTerm", "eval"):
                    i = a.args[1].const() if isinstance(a.args[1], Lin) else None
                    if i in (0, 1):
                        nm = "s_m" if i == 0 else "s_e"
                        src = Lin.atom(Atom("name", ("src",)))
                        selfv = Lin.atom(Atom("name", ("self",)))
                        args = (selfv,)
                        if f.args[1] == "getSourceTerm" and timed:
                            t = it.getattr(selfv, "times")
                            args = (selfv, it.getitem(t, b.args[1]))
                        elif f.args[1] == "eval":
                            args = tuple(x[1] if isinstance(x, tuple) and x[0] in ("time",) else x for x in b.args[1:])
                        return Atom("call", (Lin.atom(Atom("attr", (src, nm))),) + args, False, False, "V")
        if a.head == "call" and isinstance(a.args[0], Lin):
            f = a.args[0].single_atom()
            if f is not None and f.head == "attr" and f.args[1] in ("s_m", "s_e"):
                src = Lin.atom(Atom("name", ("src",)))
                return Atom("call", (Lin.atom(Atom("attr", (src, f.args[1]))),) + a.args[1:], False, False, "V")
        if a.head == "getitem" and isinstance(a.args[0], Lin) and colkey(a.args[1]):
            b = a.args[0].single_atom()
            if b is not None and b.head == "call" and isinstance(b.args[0], Lin):
                return rw_atom(b)  # one polarisation of a source term
        if a.args:
            na = tuple(rw(x) for x in a.args)
            if na != a.args:
                return Atom(a.head, na, a.T, a.sym, a.kind)
        return a

    def rw(x):
        if isinstance(x, Lin):
            out = ZERO
            for (s, f), c in x.d.items():
                if len(f) >= 2 and f[-1].head == "getitem" and f[-2].head == "E" and f[-2].T and colkey(f[-2].args[0]):
                    f = f[:-2] + f[-1:]
                out = out + Lin({(tuple((rw_atom(q), e) for q, e in s), tuple(rw_atom(q) for q in f)): c})
            return out
        if isinstance(x, Atom):
            return rw_atom(x)
        if isinstance(x, tuple):
            return tuple(rw(y) for y in x)
        return x

    return rw(l)


def strip_op_ctx(l):
    """source-derivative operators: keep only which source, which term, which time"""

    def rw(a):
        if a.head == "op" and a.args[1] in ("s_mDeriv", "s_eDeriv", "s_eDeriv_m", "s_mDeriv_m"):
            name = a.args[1].replace("_m", "") if a.args[1].endswith("_m") else a.args[1]
            name = {"sDeriv": "s_mDeriv"}.get(name, name)
            ft = a.args[0].single_atom()
            ft = Lin.atom(Atom("attr", (ft.args[0], name)))
            ctx = tuple(x[1] for x in a.args[2] if x[0] not in ("v",))
            return Atom("op", (ft, name, ctx, ""), a.T, a.sym, a.kind)
        if a.head == "op" and a.args[1] == "field_deriv_m":
            ctx = tuple(x for x in a.args[2] if x[0] in ("field", "src"))
            return Atom("op", a.args[:2] + (ctx, ""), a.T, a.sym, a.kind)
        return a

    out = ZERO
    for (s, f), c in l.d.items():
        out = out + Lin({(s, tuple(rw(a) for a in f)): c})
    return out


def drop_pins(l):
    """terms that pin one unknown (A[0, 0] = 1 for pure Neumann problems) do not depend on the model"""
    return Lin({(s, f): c for (s, f), c in l.d.items() if not any(a.head == "E" and pinkey(a.args[0]) for a in f)})


def one_polarisation(l):
    """u[:, k] : the state of one polarisation is the state"""

    def rw(x):
        if isinstance(x, Lin):
            out = ZERO
            for (s, f), c in x.d.items():
                if len(f) >= 2 and f[-1].head == "name" and f[-2].head == "E" and f[-2].T and colkey(f[-2].args[0]):
                    f = f[:-2] + f[-1:]
                out = out + Lin({(s, tuple(rw(a) for a in f)): c})
            return out
        if isinstance(x, Atom) and x.head == "op":
            return Atom(x.head, tuple(rw(y) for y in x.args), x.T, x.sym, x.kind)
        if isinstance(x, tuple):
            return tuple(rw(y) for y in x)
        return x

    return rw(l)


def colkey(k):
    from ..interp import Slice

    return isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], Slice) and k[0].full()


def pinkey(k):
    return isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, Lin) and x.const() == 0 for x in k)


def explore(p, c, fi, extra):
    it = Interp(p, opaque=("getSourceTerm", "eval", "s_m", "s_e", "setBC"), inline_names=extra)
    it.branchy_opaque = False

    def go(it):
        kw = make_args(it, p, fi, False)
        dflt = fi.defaults()
        for q in list(kw):
            if q in dflt and getattr(dflt[q], "value", 0) is None and q not in ("v",):
                kw[q] = NONE
        return it.call_method(c, fi.name, [], kw, fi=fi)

    res = it.explore(go, max_paths=64)
    return it, [(norm_decisions(d), k, v) for d, k, v in res]


def family(p, c, d):
    """the derivative routine and the helpers it splits into (getADeriv_sigma, ..)"""
    out = {d}
    for k in p.mro(c):
        if isinstance(k, ClassInfo):
            out |= {n for n in k.methods if n.startswith(d)}
    return out


def skip(dec):
    for k, v in dec.items():
        if k[0] == "none" and "permittivity" in repr(k[1]) and not v:
            return True
        if k[0] == "none" and repr(k[1]).endswith("Map") and v:
            return True  # the property is not inverted for
    return False


def symmetrised(dec):
    return any(k[0] == "truth" and repr(k[1]).endswith("_makeASymmetric") and v for k, v in dec.items())


def run(p, tier):
    rep = Report("C02", RULES)
    seen = set()
    for c in sorted(p.classes.values(), key=lambda c: c.full):
        for a, d in PAIRS:
            ra, rd = p.lookup(c, a), p.lookup(c, d)
            if not ra or not rd or ra[0] != "method" or rd[0] != "method":
                continue
            check(p, rep, c, a, ra[1], d, rd[1], seen)
    return rep


def check(p, rep, c, a, fa, d, fd, seen):
    it1, A = explore(p, c, fa, set())
    it2, B = explore(p, c, fd, family(p, c, d))
    sig = (fa.key, fd.key, repr([(k, repr(v) if k == "ok" else k) for _, k, v in A]),
           repr([(k, repr(v) if k == "ok" else k) for _, k, v in B]))
    if sig in seen:
        return
    seen.add(sig)
    if all(k == "raise" for _, k, _ in A) or all(k == "raise" for _, k, _ in B):
        return
    key = f"{c.full}.{d}"
    rep.note("pairs", 1)
    rhs = a == "getRHS"
    timed = "time_domain" in c.module.name
    n_ok, und, bad = 0, [], []
    for d1, k1, v1 in A:
        if k1 == "raise" or skip(d1):
            continue
        for d2, k2, v2 in B:
            if k2 == "raise" or skip(d2) or not compatible(d1, d2):
                continue
            if k1 == "unsupported" or k2 == "unsupported":
                und.append(str(v1 if k1 == "unsupported" else v2))
                continue
            v1l = v1 if isinstance(v1, Lin) else None
            v2l = v2 if isinstance(v2, Lin) else None
            if v1l is None or v2l is None:
                und.append("non-term value")
                continue
            r = pair(p, c, d, it1, it2, v1l, v2l, rhs, timed, {**d1, **d2})
            if r[0] == "eq":
                n_ok += 1
            elif r[0] == "und":
                und.append(r[1])
            else:
                bad.append((d1, d2, r[1]))
    if bad:
        d1, d2, why = bad[0]
        cond = "; ".join(f"{k}={v}" for k, v in list({**d1, **d2}.items())[:6])
        rep.bad("system", key + "#" + digest(why), fd.where, f"{why}\n      under: {cond}")
    if n_ok:
        rep.ok("system", key, fd.where, f"{n_ok} path pairs", n_ok)
    if und and not bad:
        rep.und("system", key, fd.where, und[0])


def pair(p, c, d, it1, it2, v1, v2, rhs, timed, dec):
    it1.fallback |= it2.fallback
    srcs = Atom("name", ("src",))
    for i in (it1, it2):
        i.types.setdefault(Atom("name", ("self",)), c)
        t = src_type(p, c.module.name)
        if t is not None:
            i.types.setdefault(srcs, t)
    l = canon(it1, v1, timed)
    if not rhs:
        l = drop_pins(l) * U
    g = one_polarisation(canon(it2, v2, timed))
    D = Deriv(it1, props_of(c), src_hook(it1, p, None))
    try:
        if symmetrised(dec):
            exp = ZERO
            for (s, f), co in l.d.items():
                if f and D.mass(f[0]):
                    exp = exp + Lin({(s, f[:1]): co}) * D.D(Lin({((), f[1:]): 1 + 0j}))
                else:
                    exp = exp + D.D(Lin({(s, f): co}))
        else:
            exp = D.D(l)
    except NoDerivative as e:
        return ("und", f"no formal derivative: {e}")
    exp = CONVENTIONS.get((c.name, d), lambda x: x)(exp) if "time_domain" in c.module.name else exp
    exp, got = strip_op_ctx(canon(it1, exp, timed)), strip_op_ctx(g)
    st, why = compare(it1, exp, got)
    if st == "eq":
        return ("eq", "")
    if st == "ne":
        return ("ne", f"formal derivative {short(exp)}  but the routine computes {short(got)}")
    return ("und", why)
