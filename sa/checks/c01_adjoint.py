"""Adjoint mode of every derivative routine is the transpose of its forward mode."""

from ..compare import compare, compatible, norm_decisions
from ..interp import LINEAR, SCALAR_NAMES, Const, Interp, Tup, NONE, is_api
from ..project import ClassInfo
from ..report import Report, digest
from ..terms import RE, ZERO, Atom, Lin

RULES = {
    "transpose": "for each class and each routine with a forward/adjoint switch, the operator computed on every "
    "adjoint path is the transpose of the operator computed on the compatible forward paths",
}

SRC_BASE = {
    "simpeg.electromagnetics.frequency_domain": "simpeg.electromagnetics.frequency_domain.sources.BaseFDEMSrc",
    "simpeg.electromagnetics.time_domain": "simpeg.electromagnetics.time_domain.sources.BaseTDEMSrc",
    "simpeg.electromagnetics.natural_source": "simpeg.electromagnetics.frequency_domain.sources.BaseFDEMSrc",
}


def src_type(p, mod):
    for k, v in SRC_BASE.items():
        if mod.startswith(k):
            c = p.classes.get(v)
            if c is not None:
                return c
    return None


def make_args(it, p, fi, adj):
    kw = {}
    for q in fi.params():
        if q in ("self", "cls"):
            continue
        if q == "adjoint":
            kw[q] = Const(adj)
        elif q in LINEAR:
            kw[q] = Lin.atom(Atom("input", (q,), kind="V"))
        elif q in SCALAR_NAMES:
            kw[q] = Lin.atom(Atom("name", (q,), False, True, "S"))
        elif q in ("u", "m", "sigma", "model"):
            kw[q] = Lin.atom(Atom("name", (q,), kind="V"))
        elif q in ("src", "source"):
            a = Atom("name", ("src",))
            t = src_type(p, fi.module.name)
            if t is not None:
                it.types[a] = t
                it.virtual.add(a)
            kw[q] = Lin.atom(a)
        else:
            kw[q] = Lin.atom(Atom("name", (q,)))
    return kw


def targets(p):
    """(class, name, FuncInfo) for every routine with an adjoint switch"""
    out = []
    for c in sorted(p.classes.values(), key=lambda c: c.full):
        names = set()
        for k in p.mro(c):
            if isinstance(k, ClassInfo):
                names |= set(k.methods)
        for n in sorted(names):
            r = p.lookup(c, n)
            if r and r[0] == "method" and "adjoint" in r[1].params() and is_api(n):
                out.append((c, n, r[1]))
    return out


def run_mode(p, c, n, fi, adj):
    it = Interp(p, opaque=("getP", "getRHSdc"))
    it.branchy_opaque = True
    it.columns = fi.module.name.endswith("natural_source.receivers")
    res = it.explore(lambda it: it.call_method(c, n, [], make_args(it, p, fi, adj), fi=fi), max_paths=300)
    return it, res


def run(p, tier):
    rep = Report("C01", RULES)
    memo = {}
    tg = targets(p)
    rep.note("routines (class, method)", len(tg))
    for c, n, fi in tg:
        check_one(p, rep, c, n, fi, memo)
    return rep


def check_one(p, rep, c, n, fi, memo):
    lin = [q for q in fi.params() if q in LINEAR]
    key = f"{c.full}.{n}"
    where = fi.where
    itf, fw = run_mode(p, c, n, fi, False)
    ita, ad = run_mode(p, c, n, fi, True)
    sig = (fi.key, repr([(k, repr(v) if k == "ok" else k) for _, k, v in fw]),
           repr([(k, repr(v) if k == "ok" else k) for _, k, v in ad]))
    if sig in memo:
        return
    memo[sig] = True
    itf.fallback |= ita.fallback
    rep.note("forward paths", len(fw))
    rep.note("adjoint paths", len(ad))
    fw = [(norm_decisions(d), k, v) for d, k, v in fw]
    ad = [(norm_decisions(d), k, v) for d, k, v in ad]
    n_ok = 0
    und = []
    bad = []
    for d2, k2, v2 in ad:
        if k2 == "raise":
            continue
        for d1, k1, v1 in fw:
            if k1 == "raise" or not compatible(d1, d2):
                continue
            if k1 == "unsupported" or k2 == "unsupported":
                und.append(str(v1 if k1 == "unsupported" else v2))
                continue
            r = match(itf, lin, v1, v2)
            if r[0] == "eq":
                n_ok += 1
            elif r[0] == "und":
                und.append(r[1])
            else:
                bad.append((d1, d2, r[1]))
    if bad:
        for d1, d2, why in bad[:1]:
            cond = "; ".join(f"{k}={v}" for k, v in list({**d1, **d2}.items())[:6])
            rep.bad("transpose", key + "#" + digest(why), where, f"{why}\n      under: {cond}")
    if n_ok:
        rep.ok("transpose", key, where, f"{n_ok} path pairs", n_ok)
    if und and not bad:
        rep.und("transpose", key, where, und[0])


def forms(lin, v1, v2):
    return None


def op_of(v, q):
    """operator L with v = L q (words must end in the input q)"""
    out = {}
    inp = Atom("input", (q,), kind="V")
    for (s, f), c in v.d.items():
        if f and f[-1] == inp:
            out[(s, f[:-1])] = c
    return Lin(out)


def rest_of(v, qs):
    inps = {Atom("input", (q,), kind="V") for q in qs}
    return Lin({(s, f): c for (s, f), c in v.d.items() if not (f and f[-1] in inps)})


def as_lin(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, Const) and isinstance(v.v, (int, float)):
        return Lin.num(v.v)
    return None


def match(it, lin, v1, v2):
    """v1 forward value, v2 adjoint value"""
    if isinstance(v1, Tup) and isinstance(v2, Tup) and len(v1.items) == len(v2.items) and len(lin) < 2:
        res = [match(it, lin, a, b) for a, b in zip(v1.items, v2.items)]
        for r in res:
            if r[0] == "ne":
                return r
        for r in res:
            if r[0] == "und":
                return r
        return ("eq", "")
    if len(lin) == 2 and isinstance(v2, Tup) and len(v2.items) == 2:
        l1 = as_lin(v1)
        parts = [as_lin(x) for x in v2.items]
        if l1 is None or any(x is None for x in parts):
            return ("und", "non-term result")
        x = lin[1]
        if not rest_of(l1, lin).is_zero():
            return ("und", f"forward not linear: {rest_of(l1, lin)!r}"[:200])
        for q, vt in zip(lin, parts):
            A = op_of(l1, q)
            r = cmp_T(it, A, vt, lin, q)
            if r[0] != "eq":
                return r
        return ("eq", "")
    l1, l2 = as_lin(v1), as_lin(v2)
    if len(lin) == 2 and l2 is not None and l2.is_zero():
        return match(it, lin, v1, Tup([ZERO, ZERO]))
    if l1 is None or l2 is None:
        return ("und", f"non-term result {type(v1).__name__}/{type(v2).__name__}")
    if len(lin) == 1:
        q = lin[0]
        if not rest_of(l1, lin).is_zero():
            # value without an input: operator form (v is None)
            return ("und", f"forward not linear in {q}: {rest_of(l1, lin)!r}"[:200])
        return cmp_T(it, op_of(l1, q), l2, lin, q)
    if len(lin) == 0:
        return ("und", "no linear argument")
    return ("und", "shape of result")


def cmp_T(it, A, vt, lin, q):
    """vt must be A^T applied to the adjoint input (any linear name)"""
    B = ZERO
    for z in lin:
        B = B + op_of(vt, z)
    rest = rest_of(vt, lin)
    if not rest.is_zero():
        st, why = compare(it, rest, ZERO)
        return ("und", f"adjoint not linear: {rest!r}"[:200])
    At = strip_re(A.T())
    st, why = compare(it, At, strip_re(B), real_tail=True)
    if st == "eq":
        return ("eq", "")
    if st == "ne":
        # receivers: data are real, the adjoint input is real
        return ("ne", f"d/d{q}: expected adjoint {short(At)}  but adjoint branch computes {short(B)}")
    return ("und", why)


def short(l, n=600):
    s = repr(l)
    return s if len(s) <= n else s[:n] + "..."


def strip_re(l):
    """adjoint inputs are real data: Re x = x"""
    out = ZERO
    for (s, f), c in l.d.items():
        if f and f[-1] is RE:
            f = f[:-1]
        out = out + Lin({(s, f): c})
    return out
