"""Derivatives of computed fields are the derivatives of the fields that are computed."""

import ast
import re

from ..compare import atoms_of, compare, compatible, norm_decisions
from ..diff import V, Deriv, NoDerivative
from ..interp import mk_diag, mul, power, NONE, Const, Interp, Slice, Tup, LINEAR, SCALAR_NAMES
from ..project import ClassInfo
from ..report import Report, digest
from ..terms import ONE, ZERO, Atom, Lin
from .c01_adjoint import short, src_type
from .c02_system_deriv import skip, strip_op_ctx, props_of

RULES = {
    "wrt-solution": "for every computed field, the derivative routine with respect to the solution equals the linear part "
    "of the field's normal form in the solution, for each source's own columns",
    "wrt-model": "for every computed field, the derivative routine with respect to the model equals the formal model "
    "derivative of the field's normal form at fixed solution",
    "columns": "each source's contribution is written to that source's own columns of the field array",
}

SOL = Lin.atom(Atom("name", ("u",), kind="V"))
SRC0, SRC1 = Atom("name", ("src0",)), Atom("name", ("src",))
PRIM = ("ePrimary", "bPrimary", "jPrimary", "hPrimary", "phiPrimary", "s_m", "s_e", "eval")


WIDTHS = [ONE, ONE]


class Mismatch(Exception):
    pass


def alias_table(p, c):
    """{field: (solution name, method)} from the class' alias table, {solution: location}"""
    out, known = {}, {}
    for k in reversed([k for k in p.mro(c) if isinstance(k, ClassInfo)]):
        for st in ast.walk(k.node):
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                t, v = st.targets[0], st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                t, v = st.target, st.value
            else:
                continue
            t = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
            if t in ("aliasFields", "_aliasFields") and isinstance(v, ast.Dict):
                out = {}
                for a, b in zip(v.keys, v.values):
                    if isinstance(b, (ast.List, ast.Tuple)) and len(b.elts) == 3:
                        x = [getattr(e, "value", None) for e in b.elts]
                        if all(isinstance(q, str) for q in x):
                            out[a.value] = (x[0], x[2])
            if t in ("knownFields", "_knownFields") and isinstance(v, ast.Dict):
                known = {a.value for a in v.keys if isinstance(a, ast.Constant)}
    return out, set(known)


def family(p, c):
    out = set()
    for k in p.mro(c):
        if isinstance(k, ClassInfo):
            out |= {n for n in k.methods if n.startswith("_") and "Deriv" in n}
    return out


def typed(it, p, c):
    t = src_type(p, c.module.name)
    if "natural_source" in c.module.name:
        t = p.classes.get("simpeg.electromagnetics.natural_source.sources.Planewave", t)
    for a in (SRC0, SRC1):
        if t is not None:
            it.types[a] = t
            it.virtual.add(a)
    WIDTHS[:] = [lin(it.getattr(Lin.atom(a), "_fields_per_source")) for a in (SRC0, SRC1)] if t is not None else [ONE, ONE]


def eval_field(p, c, fi, fam):
    it = Interp(p, opaque=PRIM, inline_names=fam)
    it.branchy_opaque = False

    def go(it):
        typed(it, p, c)
        kw = {}
        for i, q in enumerate([q for q in fi.params() if q not in ("self", "cls")]):
            if i == 0:
                kw[q] = SOL
            elif i == 1:
                kw[q] = Tup([Lin.atom(SRC0), Lin.atom(SRC1)])
            elif q in SCALAR_NAMES:
                kw[q] = Lin.atom(Atom("name", (q,), False, True, "S"))
            else:
                kw[q] = Lin.atom(Atom("name", (q,)))
        return it.call_method(c, fi.name, [], kw, fi=fi)

    res = it.explore(go, max_paths=64)
    return it, [(norm_decisions(d), k, v) for d, k, v in res]


def eval_deriv(p, c, fi, fam):
    it = Interp(p, opaque=PRIM, inline_names=fam)
    it.branchy_opaque = False

    def go(it):
        typed(it, p, c)
        kw = {}
        for q in fi.params():
            if q in ("self", "cls"):
                continue
            if q == "adjoint":
                kw[q] = Const(False)
            elif q in ("src", "source"):
                kw[q] = Lin.atom(SRC1)
            elif q in LINEAR:
                kw[q] = Lin.atom(V)
            elif q in SCALAR_NAMES:
                kw[q] = Lin.atom(Atom("name", (q,), False, True, "S"))
            else:
                kw[q] = Lin.atom(Atom("name", (q,)))
        return it.call_method(c, fi.name, [], kw, fi=fi)

    res = it.explore(go, max_paths=64)
    return it, [(norm_decisions(d), k, v) for d, k, v in res]


# ---------------------------------------------------------------- columns

def col_of(key):
    """column range of an embedding key: ('all', None) / ('src0'|'src', span) / ('bad', text)"""
    if not (isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], Slice) and key[0].full()):
        return None
    k = key[1]
    n0, n1 = WIDTHS
    if isinstance(k, Slice):
        lo, hi = k.t[0], k.t[1]
        lo = ZERO if lo is None or lo is NONE else lo
        lo = lin(lo)
        hi = None if hi is None or hi is NONE else lin(hi)
        if lo is None:
            return ("?", k)
        if hi is None:
            return ("all", k) if lo.is_zero() else ("?", k)
        if lo.is_zero() and (hi - n0).is_zero():
            return (0, k)
        if (lo - n0).is_zero() and (hi - n0 - n1).is_zero():
            return (1, k)
        return ("bad", k)
    k = lin(k)
    if k is None:
        return ("?", key[1])
    v = k.const()
    if v == 0:
        return (0, k)
    if v == 1:
        return (1, k)
    return ("?", k)


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, Const) and isinstance(x.v, (int, float)):
        return Lin.num(x.v)
    if isinstance(x, (int, float)):
        return Lin.num(x)
    return None


def second(l):
    """[x0, x1] -> x1 for arrays with one scalar per source"""
    out = ZERO
    for (s, f), c in l.d.items():
        if len(f) == 1 and f[0].head == "E" and not f[0].T and f[0].args[0] in (("pos", 0, 2), ("pos", 1, 2)):
            if f[0].args[0][1] == 1:
                out = out + Lin({(s, ()): c})
        elif f:
            return None
        else:
            out = out + Lin({(s, f): c})
    return out


def per_source(a):
    if a.head == "pow" and isinstance(a.args[0], Lin):
        x = second(a.args[0])
        if x is not None and x != a.args[0]:
            return power(x, a.args[1])
    if a.head == "diag" and isinstance(a.args[0], Lin):
        if all(not f for (s, f) in a.args[0].d):
            return a.args[0]
        x = second(a.args[0])
        if x is not None and x != a.args[0]:
            return x
    return None


def block(l):
    """the columns that belong to the second of two sources"""
    l = rewrite(l, per_source)
    out = ZERO
    for (s, f), c in l.d.items():
        keep, g = True, []
        for a in f:
            if a.head == "E":
                q = col_of(a.args[0])
                if q is not None:
                    if q[0] == 0:
                        keep = False
                        break
                    if q[0] in (1, "all"):
                        continue
                    if q[0] == "bad":
                        raise Mismatch(f"columns {q[1]!r} are not the columns of one source")
            g.append(a)
        if keep:
            out = out + Lin({(s, tuple(g)): c})
    return out


def rewrite(x, f):
    """bottom-up rewriting of atoms"""
    if isinstance(x, Lin):
        out = ZERO
        for (s, w), c in x.d.items():
            acc = Lin({((), ()): c})
            for a, e in s:
                b = rewrite(a, f)
                if isinstance(b, Lin):
                    t = b.single_atom()
                    if t is None:
                        if e == 1:
                            acc = acc * b
                            continue
                        t = a
                    b = t
                acc = acc * Lin({(((b, e),), ()): 1 + 0j})
            for a in w:
                b = rewrite(a, f)
                acc = acc * (b if isinstance(b, Lin) else Lin.atom_raw(b))
            out = out + acc
        return out
    if isinstance(x, Atom):
        na = tuple(rewrite(y, f) for y in x.args)
        na = tuple(Lin.atom_raw(y) if isinstance(y, Atom) and not isinstance(o, Atom) else y for y, o in zip(na, x.args))
        if na != x.args:
            x = Atom(x.head, na, x.T, x.sym, x.kind)
        r = f(x)
        return x if r is None else r
    if isinstance(x, tuple):
        return tuple(rewrite(y, f) for y in x)
    if isinstance(x, Tup):
        return Tup([rewrite(y, f) for y in x.items])
    return x


class Ctx:
    def __init__(self, p, c):
        self.p, self.c = p, c
        self.alias, self.known = alias_table(p, c)
        self.fam = family(p, c)
        self.cache = {}
        self.busy = set()

    def forms(self, meth):
        if meth not in self.cache:
            r = self.p.lookup(self.c, meth)
            if not r or r[0] != "method":
                self.cache[meth] = None
            else:
                self.cache[meth] = eval_field(self.p, self.c, r[1], self.fam)
        return self.cache[meth]

    def field(self, name, dec, it):
        """normal form of self[src, name] in terms of the solution"""
        if name in self.known:
            return SOL
        if name not in self.alias or name in self.busy:
            return None
        r = self.forms(self.alias[name][1])
        if r is None:
            return None
        self.busy.add(name)
        try:
            for d, k, v in r[1]:
                if k == "ok" and isinstance(v, Lin) and compatible(d, dec) and not skip(d):
                    it.fallback |= r[0].fallback
                    return self.canon(r[0], block(v), dec)
        finally:
            self.busy.discard(name)
        return None

    def canon(self, it, l, dec):
        def f(a):
            if a.head == "getitem" and isinstance(a.args[0], Lin) and repr(a.args[0]) == "self":
                k = a.args[1]
                if isinstance(k, tuple) and len(k) >= 2:
                    s, n = k[0], k[1]
                    n = getattr(n, "v", n)
                    if isinstance(s, tuple) and len(s) == 1:
                        s = s[0]
                    if isinstance(s, Tup) and len(s.items) == 1:
                        s = s.items[0]
                    if s == Lin.atom(SRC1) and isinstance(n, str):
                        return self.field(n, dec, it)
            if a.head == "getitem" and isinstance(a.args[0], Lin):
                b = a.args[0].single_atom()
                k = a.args[1]
                if b is not None and b.head == "attr" and b.args[1] in ("nodes_x",) and repr(b.args[0]).endswith("time_mesh"):
                    t = it.getattr(b.args[0].single_atom().args[0], "times")
                    return it.getitem(t, k)
                if b is not None and b.head == "call" and isinstance(b.args[0], Lin):
                    ff = b.args[0].single_atom()
                    if ff is not None and ff.head == "attr" and ff.args[1] == "eval":
                        i = k.const() if isinstance(k, Lin) else None
                        if i in (0, 1):
                            return Atom("call", (Lin.atom(Atom("attr", (ff.args[0], "s_m" if i == 0 else "s_e"))),)
                                        + tuple(x[1] if isinstance(x, tuple) and x[0] == "time" else x for x in b.args[1:]), False, False, "V")
            if a.head == "call" and isinstance(a.args[0], Lin):
                ff = a.args[0].single_atom()
                if ff is not None and ff.head == "attr" and ff.args[1] in PRIM and a.kind != "V":
                    return Atom("call", a.args, a.T, a.sym, "V")
            return None

        return cancel(strip_E(rewrite(l, f)))


def strip_E(l):
    """x[:, None], x[:, [k]] of one source's value"""
    out = ZERO
    for (s, f), c in l.d.items():
        g = tuple(a for a in f if not (a.head == "E" and isinstance(a.args[0], tuple) and len(a.args[0]) == 2
                                       and isinstance(a.args[0][0], Slice) and a.args[0][0].full()
                                       and a.args[0][1] in (NONE, None)))
        out = out + Lin({(s, g): c})
    return out


def prim_hook(it, p, c):
    def hook(d, a, R, tail):
        if a.head == "getitem" and isinstance(a.args[0], Lin):
            b = a.args[0].single_atom()
            if b is not None and b.head == "call":
                return hook(d, b, R, tail)
            return None
        if a.head != "call" or not isinstance(a.args[0], Lin):
            return None
        at = a.args[0].single_atom()
        if at is None or at.head != "attr" or at.args[1] not in PRIM or at.args[1] == "eval":
            return None
        base = at.args[0].single_atom()
        name = at.args[1] + "Deriv"
        if base in it.types:
            if it.zero_everywhere(it.types[base], name) or not p.lookup(it.types[base], name):
                return True if tail is None else ZERO
        if tail is None:
            return True
        ps = ["simulation", "time"]
        ctx = tuple((q, x) for q, x in zip(ps, a.args[1:]))
        ft = Lin.atom(Atom("attr", (at.args[0], name)))
        return Lin.atom(Atom("op", (ft, name, ctx, ""), False, False, "M")) * d.inp

    return hook


def swap_diag(l, u):
    """x(u) * y for vectors x, y: diag(x) y -> diag(y) x"""
    out = ZERO
    for (s, f), c in l.d.items():
        if len(f) >= 2 and f[-2].head == "diag" and u in atoms_of(f[-2]) and f[-1].kind != "M" and f[-1] is not u \
                and u not in atoms_of(f[-1]):
            out = out + Lin({(s, f[:-2]): c}) * mul(mk_diag(Lin({((), f[-1:]): 1 + 0j})), f[-2].args[0])
        else:
            out = out + Lin({(s, f): c})
    return out


def wrt_solution(l, halves):
    out = ZERO
    u = SOL.single_atom()
    l = swap_diag(l, u)
    for (s, f), c in l.d.items():
        n = sum(1 for a in f if a is u)
        if any(u in atoms_of(a) for a in f if a is not u) or any(u in atoms_of(a) for a, _ in s):
            raise NoDerivative("solution inside a non-linear term")
        if n == 0:
            continue
        if n > 1 or f[-1] is not u:
            raise NoDerivative("solution not in tail position")
        w = Lin({(s, f[:-1]): c})
        if halves is not None:
            w = w * Lin.atom(Atom("E", (("pos", halves, 2),), True, False, "M"))
        out = out + w * Lin.atom(V)
    return out


def clean(l):
    """op contexts: drop names; source derivative operators alike"""
    def f(a):
        if a.head == "op" and a.args[1].endswith(("PrimaryDeriv", "s_mDeriv", "s_eDeriv")):
            ctx = tuple(x[1] if isinstance(x, tuple) else x for x in a.args[2] if not (isinstance(x, tuple) and x[0] in ("v",)))
            return Atom("op", a.args[:2] + (ctx, ""), a.T, a.sym, a.kind)
        if a.head == "op" and a.args[2] and isinstance(a.args[2][0], tuple) and a.args[2][0][0] == "u" and MASSD.match(a.args[1]):
            return mass_deriv(a)
        return None
    return cancel(rewrite(l, f))


MASSD = re.compile(r"^M(cc|[efn]|[a-zA-Z]*?)[A-Z]\w*?(I?)Deriv$")


def mass_deriv(a):
    """linear in the state; the derivative of an inverse is -X^-1 dX X^-1"""
    name = a.args[1]
    base = a.args[0].single_atom()
    if base is None or base.head != "attr":
        return None
    rest = a.args[2][1:]
    inv = name.endswith("IDeriv")
    X = Lin.atom(Atom("attr", (base.args[0], name[: -len("Deriv")]), False, True, "M"))
    out = ZERO
    for (s, f), c in a.args[2][0][1].d.items():
        u = Lin({((), f): 1 + 0j})
        n = name
        if inv:
            n = name[: -len("IDeriv")] + "Deriv"
            u = cancel(X * u)
        ft = Lin.atom(Atom("attr", (base.args[0], n)))
        op = Lin.atom_raw(Atom("op", (ft, n, (("u", u),) + rest) + a.args[3:], a.T, a.sym, a.kind))
        if inv:
            op = -(op * X if a.T else X * op)
        out = out + Lin({(s, ()): c}) * op
    return out


def cancel(l):
    """X X^-1 for mass matrices X and X + 'I' of the same object"""
    out = ZERO
    for (s, f), c in l.d.items():
        g = []
        for a in f:
            if g and a.head == "attr" and g[-1].head == "attr" and a.args[0] == g[-1].args[0]:
                x, y = str(a.args[1]), str(g[-1].args[1])
                if (x == y + "I" or y == x + "I") and x[0] == "M" and y[0] == "M":
                    g.pop()
                    continue
            g.append(a)
        out = out + Lin({(s, tuple(g)): c})
    return out


def run(p, tier):
    rep = Report("C03", RULES)
    seen = set()
    for c in sorted(p.classes.values(), key=lambda c: c.full):
        if not any(k.name == "Fields" or k.name == "TimeFields" for k in p.mro(c) if isinstance(k, ClassInfo)):
            continue
        ctx = Ctx(p, c)
        if not ctx.known:
            continue
        rep.note("field classes", 1)
        for name, (sol, meth) in sorted(ctx.alias.items()):
            r = p.lookup(c, meth)
            if not r or r[0] != "method":
                continue
            du, dm = p.lookup(c, meth + "Deriv_u"), p.lookup(c, meth + "Deriv_m")
            if not du and not dm:
                check_columns(p, rep, c, ctx, meth, r[1], seen)
                continue
            halves = 0 if "_px" in sol else 1 if "_py" in sol else None
            if du and "kyInd" in du[1].params() and p.lookup(c, meth + "_ky"):
                meth += "_ky"  # derivative of the field of one wavenumber
                r = p.lookup(c, meth)
            for which, d in (("wrt-solution", du), ("wrt-model", dm)):
                if d and d[0] == "method":
                    check(p, rep, c, ctx, meth, r[1], d[1], which, halves, seen)
    return rep


def check_columns(p, rep, c, ctx, meth, fi, seen):
    it, A = ctx.forms(meth)
    sig = (fi.key, repr([(k, repr(v) if k == "ok" else k) for _, k, v in A]))
    if sig in seen:
        return
    seen.add(sig)
    key = f"{c.full}.{meth}"
    for d, k, v in A:
        if k == "ok" and isinstance(v, Lin):
            try:
                block(v)
            except Mismatch as e:
                rep.bad("columns", key + "#cols", fi.where, str(e))
                return
    rep.ok("columns", key, fi.where)


def check(p, rep, c, ctx, meth, fa, fd, which, halves, seen):
    it1, A = ctx.forms(meth)
    it2, B = eval_deriv(p, c, fd, ctx.fam)
    sig = (fa.key, fd.key, which, repr([(k, repr(v) if k == "ok" else k) for _, k, v in A]),
           repr([(k, repr(v) if k == "ok" else k) for _, k, v in B]))
    if sig in seen:
        return
    seen.add(sig)
    if all(k == "raise" for _, k, _ in A) or all(k == "raise" for _, k, _ in B):
        return
    key = f"{c.full}.{fd.name}"
    n_ok, und, bad = 0, [], []
    for d1, k1, v1 in A:
        if k1 == "raise" or skip(d1):
            continue
        for d2, k2, v2 in B:
            if k2 == "raise" or skip(d2) or not compatible(d1, d2):
                continue
            if k1 != "ok" or k2 != "ok" or not isinstance(v1, Lin) or not isinstance(v2, Lin):
                und.append(str(v1 if k1 != "ok" else v2)[:200])
                continue
            dec = {**d1, **d2}
            it1.fallback |= it2.fallback
            try:
                l = ctx.canon(it1, block(v1), dec)
                g = clean(ctx.canon(it1, v2, dec))
                if which == "wrt-solution":
                    e = wrt_solution(l, halves)
                else:
                    e = Deriv(it1, props_of(c), prim_hook(it1, p, c)).D(l)
                e = clean(ctx.canon(it1, e, dec))
            except Mismatch as ex:
                bad.append((dec, str(ex)))
                continue
            except NoDerivative as ex:
                und.append(f"no formal derivative: {ex}")
                continue
            st, why = compare(it1, e, g)
            if st == "eq":
                n_ok += 1
            elif st == "und":
                und.append(why)
            else:
                bad.append((dec, f"formal derivative {short(e)}  but the routine computes {short(g)}"))
    if bad:
        dec, why = bad[0]
        cond = "; ".join(f"{k}={v}" for k, v in list(dec.items())[:6])
        rep.bad(which, key + "#" + digest(why), fd.where, f"{why}\n      under: {cond}")
    if n_ok:
        rep.ok(which, key, fd.where, f"{n_ok} path pairs", n_ok)
    if und and not bad:
        rep.und(which, key, fd.where, und[0])
