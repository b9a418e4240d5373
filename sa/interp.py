"""Abstract interpreter over the term domain of ``terms``.

One run interprets one function for one class context along one consistent set
of branch decisions; ``explore`` enumerates the decision sets.  Branch
conditions are atoms keyed by the normal form of the tested expression, so two
tests of the same thing agree within (and across) runs.  Nothing is executed:
values are normal forms built from def-use chains, calls to helpers are
inlined from their source, and derivative routines with an ``adjoint`` flag
are used through their contract  f(.., v, adjoint=False) = Op v,
f(.., v, adjoint=True) = Op^T v."""

import ast
import builtins
import cmath
import math
import os
import re
import time

from .project import ClassInfo, External, FuncInfo, Module
from .vocab import ADJOINT
from .terms import CONJ, IM_UNIT, ONE, RE, ZERO, Atom, Lin

LINEAR = ("du_dm_v", "dun_dm_v", "v", "w")

SCALAR_NAMES = {
    "freq", "frequency", "dt", "mu_0", "mu0", "epsilon_0", "tInd", "time", "nC", "nP",
    "nD", "nT", "nF", "nE", "nN", "n_cells", "n_faces", "n_edges", "n_nodes",
    "ndim", "size", "dim", "ky", "i_f", "nf", "itime", "iSrc", "isrc",
}

MASS_RE = re.compile(r"^_?M(cc|n|f|e)([A-Z][A-Za-z]*)?$")
PHYS_RE = re.compile(r"^(sigma|rho|mu|mui|eta|tau|taui|c|q|chi)(Deriv)?$")
MASSDERIV_RE = re.compile(r"^_?M(cc|n|f|e)[A-Z][A-Za-z]*Deriv$")

ERASE_METHODS = {
    "tocsr", "tocsc", "tocoo", "copy", "astype", "squeeze", "flatten", "ravel",
    "reshape", "toarray", "todense", "view", "compute",
}
ERASE_FUNCS = {
    "numpy.asarray", "numpy.array", "numpy.squeeze", "numpy.atleast_1d",
    "numpy.atleast_2d", "numpy.ravel", "numpy.reshape", "numpy.ascontiguousarray",
    "numpy.asfortranarray", "numpy.copy", "numpy.float64", "numpy.float32",
    "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix", "copy.deepcopy", "copy.copy",
    "scipy.sparse.linalg.aslinearoperator", "numpy.expand_dims", "mkvc",
    "discretize.utils.mkvc", "discretize.utils.matrix_utils.mkvc",
}
ZERO_FUNCS = {
    "numpy.zeros", "numpy.zeros_like", "numpy.empty", "numpy.empty_like",
    "discretize.utils.Zero", "discretize.utils.spzeros",
    "discretize.utils.matrix_utils.spzeros", "discretize.utils.matrix_utils.Zero", "Zero", "spzeros",
}
ONE_FUNCS = {
    "scipy.sparse.eye", "scipy.sparse.identity", "discretize.utils.speye",
    "discretize.utils.Identity", "numpy.eye", "numpy.identity", "speye", "Identity",
    "scipy.sparse.speye", "scipy.sparse.eye_array",
}
DIAG_FUNCS = {
    "discretize.utils.sdiag", "scipy.sparse.diags", "sdiag", "scipy.sparse.spdiags",
    "scipy.sparse.diags_array", "discretize.utils.matrix_utils.sdiag", "numpy.diag",
}
DIAGINV_FUNCS = {"discretize.utils.sdinv", "sdinv"}
STACK_FUNCS = {
    "numpy.hstack", "numpy.concatenate", "numpy.vstack", "scipy.sparse.hstack",
    "scipy.sparse.vstack", "numpy.stack", "numpy.column_stack",
}
ELEMENTWISE = {
    "numpy.exp", "numpy.log", "numpy.log10", "numpy.sqrt", "numpy.sin", "numpy.cos",
    "numpy.tan", "numpy.arctan", "numpy.arctan2", "numpy.tanh", "numpy.abs",
    "numpy.absolute", "numpy.sign", "numpy.cosh", "numpy.sinh", "numpy.maximum",
    "numpy.minimum", "numpy.power",
}


DOMAINS = {"_formulation": ("EB", "HJ"), "dim": (1, 2, 3), "component": ("real", "imag", "complex", "phase", "apparent_resistivity", "both")}
MATRIX_NAMES = re.compile(
    r"^_?(edge_?[cC]url|face_?[dD]ivergence|nodal_?[gG]radient|nodalGrad|cell_gradient\w*|[Gg]rad|[Dd]iv|Curl|_C|C|D|"
    r"ave\w*2\w*|average_\w+_to_\w+|face_[xyz]_divergence|cell_gradient_[xyz]|project\w*|\w+Deriv_store|"
    r"(sigma|rho|mu|mui|eta|taui|c|q|chi|thickness|theta|ksat)Deriv|Proj|nodal_laplacian|boundary_\w+|Ainv\w*|Adcinv)$"
)
VECTOR_NAMES = re.compile(
    r"^_?(sigma|rho|mu|mui|eta|tau|taui|c|q|chi|model|cell_volumes|edge_lengths|face_areas|vol|geometric_factor|"
    r"sigmaInf|rhoInf|(eta|taui|c)_store|thicknesses|permittivity)$"
)
SYM_NAMES = {"Vol", "_Vol", "Adcinv", "Vol_", "MccSigma"}


class Unsupported(Exception):
    pass


class PathRaise(Exception):
    def __init__(self, node=None, exc=""):
        self.node = node
        self.exc = exc


class ReturnExc(Exception):
    def __init__(self, value):
        self.value = value


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class Const:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(o.v) == type(self.v) and o.v == self.v

    def __hash__(self):
        return hash(("const", repr(self.v)))

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)


class Tup:
    def __init__(self, items, kind="tuple"):
        self.items = list(items)
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(("tup", tuple(hash(x) for x in self.items)))

    def __repr__(self):
        return "[" + ", ".join(map(repr, self.items)) + "]"


class Gen:
    """``val`` once per element of the iteration ``key`` (inside a Tup)."""

    def __init__(self, key, elems, val):
        self.key = key
        self.elems = elems
        self.val = val

    def __eq__(self, o):
        return isinstance(o, Gen) and self.key == o.key and self.val == o.val

    def __hash__(self):
        return hash(("gen", self.key, self.val))

    def __repr__(self):
        return f"<{self.val} for {self.key}>"


class Dct:
    def __init__(self, d=None):
        self.d = dict(d or {})

    def __eq__(self, o):
        return isinstance(o, Dct) and self.d == o.d

    def __hash__(self):
        return hash(("dct", tuple(sorted(map(repr, self.d)))))

    def __repr__(self):
        return repr(self.d)


class Fn:
    """function value: fi (FuncInfo or Lambda/def node), closure env, bound self"""

    def __init__(self, node, module, env=None, selfv=None, cls=None, fi=None):
        self.node = node
        self.module = module
        self.env = env
        self.selfv = selfv
        self.cls = cls  # defining class (for super)
        self.fi = fi

    def __eq__(self, o):
        return (
            isinstance(o, Fn) and o.node is self.node and o.selfv == self.selfv
        )

    def __hash__(self):
        return hash((id(self.node), self.selfv))

    def __repr__(self):
        return f"<fn {getattr(self.node, 'name', 'lambda')}>"


class SuperV:
    def __init__(self, selfv, after):
        self.selfv = selfv
        self.after = after


class Slice:
    def __init__(self, lo, hi, st):
        self.t = (lo, hi, st)

    def full(self):
        return all(x is None for x in self.t)

    def __eq__(self, o):
        return isinstance(o, Slice) and self.t == o.t

    def __hash__(self):
        return hash(("slice", self.t))

    def __repr__(self):
        return ":".join("" if x is None else repr(x) for x in self.t)


def unknown(tag=""):
    return Lin.atom(Atom("?", (str(tag)[:80],)))


def is_unknown(v):
    if isinstance(v, Lin):
        return v.has_unknown()
    if isinstance(v, Tup):
        return any(is_unknown(x) for x in v.items)
    if isinstance(v, Gen):
        return is_unknown(v.val)
    return False


def to_arg(v):
    """hashable argument form for atoms"""
    if isinstance(v, (Lin, Const, Slice)):
        return v
    if isinstance(v, Tup):
        return tuple(to_arg(x) for x in v.items)
    if isinstance(v, Gen):
        return ("gen", v.key, to_arg(v.val))
    if isinstance(v, (ClassInfo,)):
        return ("class", v.full)
    if isinstance(v, (Module,)):
        return ("module", v.name)
    if isinstance(v, External):
        return ("ext", v.dotted)
    if isinstance(v, FuncInfo):
        return ("func", v.key)
    if isinstance(v, Dct):
        return ("dict",) + tuple(
            (to_arg(k) if not isinstance(k, str) else k, to_arg(x))
            for k, x in sorted(v.d.items(), key=lambda t: repr(t[0]))
        )
    return v


def kind_of(l):
    """V, M, S or ? for a Lin"""
    ks = set()
    for (s, f) in l.d:
        if not f:
            ks.add("S")
            continue
        k = f[-1].kind
        if k == "M" and all(a.kind == "M" for a in f):
            ks.add("M")
        elif k == "V":
            ks.add("V")
        else:
            ks.add("?")
    if not ks:
        return "Z"
    ks2 = ks - {"S"}
    if not ks2:
        return "S"
    if len(ks2) == 1:
        return ks2.pop()
    if ks2 == {"V", "?"}:
        return "V"
    return "?"


def has_input_val(v):
    if isinstance(v, Lin):
        return contains_input(v)
    if isinstance(v, Tup):
        return any(has_input_val(x) for x in v.items)
    if isinstance(v, Gen):
        return has_input_val(v.val)
    return False


def contains_input(l):
    return any(a.head == "input" for a in l.atoms())


def mk_diag(l):
    """diag(l) as a Lin, linear in l; diag(diag(a) b) = diag(a) diag(b)"""
    out = ZERO
    for (s, f), c in l.d.items():
        if not f:
            out = out + Lin({(s, f): c})
            continue
        i = 0
        while i < len(f) - 1 and f[i].head == "diag":
            i += 1
        rest = Lin({((), f[i:]): 1 + 0j})
        fac = f[:i] + (Atom("diag", (rest,), False, True, "M"),)
        out = out + Lin({(s, sort_diags(fac)): c})
    return out


def sort_diags(f):
    f = list(f)
    i = 0
    while i < len(f):
        j = i
        while j < len(f) and f[j].head == "diag":
            j += 1
        if j - i > 1:
            f[i:j] = sorted(f[i:j], key=repr)
        i = max(j, i + 1)
    return tuple(f)


def norm_diags(l):
    out = {}
    for (s, f), c in l.d.items():
        k = (s, sort_diags(f))
        out[k] = out.get(k, 0) + c
    return Lin({k: c for k, c in out.items() if c != 0})


COLS = (0, 1)


def col_atom(k, T=False):
    return Atom("Col", (k,), T, False, "M")


ROWOPS = ("getP", "_getP", "get_interpolation_matrix")


def is_rowop(a):
    """real matrices acting on the rows of a two-column array"""
    if a.head == "diag":
        return False
    if a.head == "call":
        b = a.args[0]
        if isinstance(b, Lin):
            at = b.single_atom()
            return at is not None and at.head == "attr" and at.args[1] in ROWOPS
    return a is CONJ or a is RE or a is IM_UNIT


def col(k, l):
    """k-th column of a two-column array"""
    out = ZERO
    for (s, f), c in l.d.items():
        out = out + Lin({(s, ()): c}) * col_word(k, f)
    return out


def col_word(k, f):
    if not f:
        return ONE
    a = f[0]
    if a.head == "Col" and a.T:
        return Lin({((), f[1:]): 1 + 0j}) if a.args[0] == k else ZERO
    if a.head == "diag":
        return norm_diags(mk_diag(col(k, a.args[0])) * col_word(k, f[1:]))
    if is_rowop(a) and len(f) > 1:
        return Lin.atom_raw(a) * col_word(k, f[1:])
    if a.head in ("pow", "abs", "exp", "log", "absolute") and len(f) == 1:
        return Lin.atom(Atom(a.head, tuple(col(k, x) if isinstance(x, Lin) else x for x in a.args), False, False, "V"))
    return Lin({((), (col_atom(k),) + f): 1 + 0j})


def col_push(l):
    """move Col^T to the left of row operators"""
    out = ZERO
    for (s, f), c in l.d.items():
        f = list(f)
        ch = True
        while ch:
            ch = False
            for i in range(len(f) - 1):
                if f[i + 1].head == "Col" and f[i + 1].T and is_rowop(f[i]):
                    f[i], f[i + 1] = f[i + 1], f[i]
                    ch = True
                elif f[i].head == "Col" and not f[i].T and f[i + 1].head == "Col" and f[i + 1].T:
                    if f[i].args == f[i + 1].args:
                        del f[i: i + 2]
                        ch = True
                        break
                    f = None
                    break
            if f is None:
                break
        if f is not None:
            out = out + Lin({(s, tuple(f)): c})
    return out


def has_colT(l):
    return any(f and f[0].head == "Col" and f[0].T for (_, f) in l.d)


def mul(a, b):
    ka, kb = kind_of(a), kind_of(b)
    if ka == "V" and kb == "V":
        if has_colT(a) or has_colT(b):
            out = ZERO
            for k in COLS:
                out = out + Lin.atom(col_atom(k, True)) * mul(col(k, a), col(k, b))
            return norm_diags(out)
        if len(a.d) * len(b.d) > 6:
            if len(a.d) > 2 and not contains_input(a):
                a = Lin.atom(Atom("let", (a,), False, False, "V"))
            if len(b.d) > 2 and not contains_input(b):
                b = Lin.atom(Atom("let", (b,), False, False, "V"))
    if ka == "V" and kb == "V":
        # element-wise product
        ia, ib = contains_input(a), contains_input(b)
        if ia and not ib:
            a, b = b, a
        elif ia == ib and repr(a) > repr(b):
            a, b = b, a
        return norm_diags(mk_diag(a) * b)
    if ka == "V" and kb == "M":
        pass
    r = norm_diags(a * b)
    if any(x.head == "Col" for (_, f) in r.d for x in f):
        r = col_push(r)
    return r


def elementwise(head, args):
    k = "S"
    for a in args:
        if isinstance(a, Lin):
            ka = kind_of(a)
            if ka == "V":
                k = "V"
                break
            if ka in ("?", "M"):
                k = "?"
    return Lin.atom(Atom(head, tuple(args), False, k == "S", k))


def power(a, e):
    """a ** e, e python number"""
    c = a.const()
    if c is not None:
        try:
            return Lin.num(c**e)
        except Exception:
            return unknown("pow")
    if e == 1:
        return a
    if e == 0:
        return ONE
    if len(a.d) == 1:
        (k, c), = a.d.items()
        s, f = k
        if not f and float(e).is_integer():
            return Lin({(tuple((x, n * int(e)) for x, n in s), ()): c**e})
        if not f and len(s) >= 1 and c.imag == 0 and c.real > 0:
            return Lin({(tuple((x, n * e) for x, n in s), ()): c**e})
        if f and c != 1 or s:
            # pull the scalar monomial out
            if float(e).is_integer() or (c.imag == 0 and c.real > 0 and not s):
                inner = Lin({((), f): 1 + 0j})
                sc = Lin({(tuple((x, n * int(e)) for x, n in s) if s else (), ()): complex(c) ** e})
                return sc * power(inner, e)
        at = a.single_atom()
        if at is not None and at.head == "pow":
            return power(at.args[0], at.args[1] * e)
    return elementwise("pow", (a, e))


def divide(a, b):
    iv = b.inv_scalar()
    if iv is not None:
        return a * iv
    if b.is_zero():
        return unknown("div0")
    p = power(b, -1)
    if kind_of(p) == "S":
        return p * a
    if kind_of(a) == "S":
        return a * p
    return norm_diags(mk_diag(p) * a)


class Interp:
    MAX_DEPTH = 14
    MAX_STEPS = 60000
    MAX_SECONDS = 20
    columns = False
    branchy_opaque = False
    known_opaque = {"getP", "get_interpolation_matrix", "omega"}

    def __init__(self, project, contracts=True, inline_adjoint=False, opaque=(),
                 types=None, contract_names=None, opaque_props=(), inline_names=(), truth=None,
                 value_hook=None, call_hook=None):
        self.p = project
        self.contracts = contracts  # use contracts for callee with `adjoint`
        self.inline_adjoint = inline_adjoint
        self.opaque = set(opaque)  # method names never inlined
        self.opaque_props = set(opaque_props)
        self.inline_names = set(inline_names)
        self.types = dict(types or {})  # Atom -> ClassInfo
        self.virtual = set()  # atoms whose dynamic class may be a subclass
        self.truth = dict(truth or {})  # forced truth for cond keys (repr)
        self.decisions = {}
        self.trace = []
        self.pending = None
        self.heap = {}
        self.depth = 0
        self.steps = 0
        self.loops = []  # stack of (key, elems)
        self.value_hook = value_hook
        self.call_hook = call_hook
        self.effects = []
        self.inlined = set()
        self.frames = []
        self.fallback = set()  # atoms standing for calls that could not be followed
        self._table = None

    # ------------------------------------------------------------------
    def adjoint_table(self):
        """method name -> param list, for every function with an ``adjoint``
        parameter in the program (whole-program contract table)"""
        t = getattr(self.p, "_adjoint_table", None)
        if t is None:
            t = {}
            for f in self.p.functions:
                ps = f.params()
                if "adjoint" in ps:
                    if ps and ps[0] in ("self", "cls"):
                        ps = ps[1:]
                    t.setdefault(f.name, []).append(tuple(ps))
            from .masses import mass_members

            for n in mass_members(self.p):
                if n.endswith("Deriv"):
                    t.setdefault(n, []).append(("u", "v", "adjoint"))
                    t.setdefault("_" + n, []).append(("u", "v", "adjoint"))
            self.p._adjoint_table = t
        return t

    # ------------------------------------------------------------------
    def explore(self, fn, max_paths=200):
        """fn(interp) -> value; enumerate decision sets.  Yields
        (decisions, kind, value) with kind in ok/raise/unsupported."""
        work = [{}]
        n = 0
        t0 = time.time()
        out = []
        while work:
            dec = work.pop()
            n += 1
            if time.time() - t0 > self.MAX_SECONDS:
                out.append(({}, "unsupported", "time"))
                break
            if n > max_paths:
                out.append(({}, "unsupported", "too many paths"))
                break
            self.decisions = dict(dec)
            self.pending = []
            self.heap = {}
            self.depth = 0
            self.steps = 0
            self.loops = []
            self.effects = []
            self.frames = []
            try:
                v = fn(self)
                out.append((dict(self.decisions), "ok", v))
            except PathRaise as e:
                out.append((dict(self.decisions), "raise", e))
            except Unsupported as e:
                out.append((dict(self.decisions), "unsupported", str(e)))
            except RecursionError:
                out.append((dict(self.decisions), "unsupported", "recursion"))
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, NameError, OverflowError, ZeroDivisionError) as e:
                if os.environ.get("VERIF_DEBUG"):
                    raise
                out.append((dict(self.decisions), "unsupported", f"internal: {type(e).__name__} {e}"))
            work.extend(self.pending)
        return out

    def decide(self, key, default=None):
        """branch decision for condition key (hashable).  Forks."""
        if key in self.truth:
            return self.truth[key]
        rk = repr(key)
        if rk in self.truth:
            return self.truth[rk]
        if key in self.decisions:
            return self.decisions[key]
        r = self.by_domain(key)
        if r is not None:
            self.decisions[key] = r
            return r
        # exclusivity of equality tests on the same term
        if key[0] == "eq":
            for k, b in self.decisions.items():
                if b and k[0] == "eq" and k[1] == key[1] and k[2] != key[2]:
                    if isinstance(k[2], Const) and isinstance(key[2], Const):
                        return False
        alt = dict(self.decisions)
        alt[key] = False
        self.pending.append(alt)
        self.decisions[key] = True
        return True

    def by_domain(self, key):
        """truth of a test on a finite-domain attribute forced by earlier tests"""
        sub = domain_subject(key)
        if sub is None:
            return None
        dom = self.domain_of(sub)
        if not dom:
            return None
        vals = []
        for x in dom:
            ok = True
            for k, b in self.decisions.items():
                if domain_subject(k) is sub and domain_test(k, x) not in (b, None):
                    ok = False
                    break
            if ok:
                vals.append(x)
        res = {domain_test(key, x) for x in vals}
        if res == {True}:
            return True
        if res == {False}:
            return False
        return None

    def domain_of(self, at):
        """finite set of strings an attribute can hold, from its validating setter"""
        base, name = at.args
        b = base.single_atom() if isinstance(base, Lin) else None
        cls = self.types.get(b) if b is not None else None
        if cls is not None:
            cache = getattr(self.p, "_domains", None)
            if cache is None:
                cache = self.p._domains = {}
            k = (cls.full, name)
            if k not in cache:
                cache[k] = setter_domain(self.p, cls, name)
            if cache[k]:
                return cache[k]
        return DOMAINS.get(name)

    # ------------------------------------------------------------------
    # calling
    def call_method(self, cls, name, args=(), kwargs=None, selfv=None, fi=None):
        if selfv is None:
            selfv = self.self_atom(cls)
        if fi is None:
            r = self.p.lookup(cls, name)
            if r is None:
                raise Unsupported(f"no {name}")
            fi = r[1] if r[0] == "method" else r[1].get("get")
        fn = Fn(fi.node, fi.module, None, selfv, fi.cls, fi)
        return self.inline(fn, list(args), dict(kwargs or {}))

    def self_atom(self, cls, name="self"):
        a = Atom("name", (name,))
        self.types[a] = cls
        return Lin.atom(a)

    def inline(self, fn, args, kwargs, call=None):
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            self.depth -= 1
            raise Unsupported("depth")
        pushed = False
        try:
            node = fn.node
            env = dict(fn.env) if fn.env else {}
            a = node.args
            params = [x.arg for x in a.posonlyargs + a.args]
            if fn.selfv is not None and not isinstance(node, ast.Lambda):
                args = [fn.selfv] + list(args)
            defaults = {}
            pos = a.posonlyargs + a.args
            for p_, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
                defaults[p_.arg] = d
            for p_, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    defaults[p_.arg] = d
            bound = {}
            for p_, v in zip(params, args):
                bound[p_] = v
            if len(args) > len(params):
                if a.vararg:
                    bound[a.vararg.arg] = Tup(args[len(params):])
                else:
                    raise Unsupported("too many args")
            elif a.vararg:
                bound[a.vararg.arg] = Tup([])
            names = set(params) | {x.arg for x in a.kwonlyargs}
            extra = {}
            for k, v in kwargs.items():
                if k in names:
                    bound[k] = v
                else:
                    extra[k] = v
            if a.kwarg:
                bound[a.kwarg.arg] = Dct({Const(k): v for k, v in extra.items()})
            elif extra and "**" not in extra:
                raise Unsupported("unexpected kwarg " + ",".join(extra))
            fr = Frame(fn.module, env, fn.cls)
            for n in names:
                if n not in bound:
                    if n in defaults:
                        bound[n] = self.eval(defaults[n], fr)
                    else:
                        bound[n] = unknown("arg " + n)
            env.update(bound)
            if fn.fi is not None:
                self.inlined.add(fn.fi.key)
            self.frames.append(node)
            pushed = True
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(node)):
                raise Unsupported("generator")
            try:
                self.exec_block(node.body, fr)
            except ReturnExc as r:
                return r.value
            return NONE
        finally:
            if pushed:
                self.frames.pop()
            self.depth -= 1

    # ------------------------------------------------------------------
    # statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unsupported("steps")
        t = type(st)
        if t is ast.Expr:
            if isinstance(st.value, ast.Constant):
                return
            self.eval(st.value, fr)
        elif t is ast.Assign:
            v = self.eval(st.value, fr)
            for tg in st.targets:
                self.assign(tg, v, fr)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.eval(st.value, fr), fr)
        elif t is ast.AugAssign:
            cur = self.eval(load(st.target), fr)
            v = self.eval(st.value, fr)
            if isinstance(cur, Tup) and isinstance(st.op, ast.Add):
                if isinstance(v, Tup):
                    cur.items.extend(v.items)
                    return
                if isinstance(v, Lin):
                    cur.items.append(v)
                    return
            self.assign(st.target, self.binop(st.op, cur, v), fr, aug=True)
        elif t is ast.Return:
            raise ReturnExc(self.eval(st.value, fr) if st.value is not None else NONE)
        elif t is ast.If:
            if self.cond(st.test, fr):
                self.exec_block(st.body, fr)
            else:
                self.exec_block(st.orelse, fr)
        elif t is ast.For:
            self.exec_for(st, fr)
        elif t is ast.While:
            self.havoc(st, fr)
        elif t is ast.Raise:
            exc = ""
            if st.exc is not None:
                e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
                exc = getattr(e, "id", getattr(e, "attr", ""))
            raise PathRaise(st, exc)
        elif t is ast.Try:
            try:
                self.exec_block(st.body, fr)
                self.exec_block(st.orelse, fr)
            finally:
                pass
            self.exec_block(st.finalbody, fr)
        elif t is ast.With:
            for it in st.items:
                v = self.eval(it.context_expr, fr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
            self.exec_block(st.body, fr)
        elif t in (ast.FunctionDef,):
            fr.env[st.name] = Fn(st, fr.module, fr.env, None, fr.cls)
        elif t in (ast.Pass, ast.Assert, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom):
            if t is ast.ImportFrom or t is ast.Import:
                self.local_import(st, fr)
        elif t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, ast.Name):
                    fr.env.pop(tg.id, None)
        elif t is ast.Break:
            raise BreakExc()
        elif t is ast.Continue:
            raise ContinueExc()
        elif t is ast.Match:
            self.exec_match(st, fr)
        else:
            raise Unsupported(t.__name__)

    def local_import(self, st, fr):
        if isinstance(st, ast.ImportFrom):
            mod = self.p._abs_import(fr.module, st)
            for a in st.names:
                r = self.p._resolve_from(mod, a.name, set())
                fr.env[a.asname or a.name] = self.entity(r, a.name)
        else:
            for a in st.names:
                n = a.asname or a.name.split(".")[0]
                m = self.p.modules.get(a.name if a.asname else n)
                fr.env[n] = m if m else External(a.name if a.asname else n)

    def exec_match(self, st, fr):
        subj = self.eval(st.subject, fr)
        for case in st.cases:
            ok = self.match_pat(case.pattern, subj, fr)
            if ok and case.guard is not None:
                ok = self.cond(case.guard, fr)
            if ok:
                self.exec_block(case.body, fr)
                return

    def match_pat(self, p, v, fr):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                if not self.match_pat(p.pattern, v, fr):
                    return False
            if p.name:
                fr.env[p.name] = v
            return True
        if isinstance(p, ast.MatchValue):
            return self.truthy(self.compare(ast.Eq(), v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truthy(self.compare(ast.Is(), v, Const(p.value)))
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, Tup) and len(v.items) == len(p.patterns):
                return all(self.match_pat(q, x, fr) for q, x in zip(p.patterns, v.items))
            raise Unsupported("match seq")
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, fr) for q in p.patterns)
        raise Unsupported("match pattern")

    def havoc(self, st, fr):
        for n in assigned_names(st):
            fr.env[n] = unknown("loop " + n)

    # -- loops
    def iter_info(self, v):
        """-> (key, elem value builder list) ; concrete list if unrollable"""
        if isinstance(v, Tup):
            if not any(isinstance(x, Gen) for x in v.items) and len(v.items) <= 12:
                return ("concrete", v.items)
            if len(v.items) == 1 and isinstance(v.items[0], Gen):
                g = v.items[0]
                return ("gen", g.key, g.elems, g.val)
            return ("opaque",)
        if isinstance(v, Const) and isinstance(v.v, str):
            return ("concrete", [Const(c) for c in v.v])
        if isinstance(v, Dct):
            return ("concrete", list(v.d.keys()))
        if isinstance(v, IterV):
            return ("iter", v)
        if isinstance(v, Lin):
            at = v.single_atom()
            if at is None:
                return ("iter", IterV(("iter", v), elem_of(v)))
            return ("iter", IterV(("iter", v), elem_of(v)))
        return ("opaque",)

    def exec_for(self, st, fr):
        it = self.eval(st.iter, fr)
        info = self.iter_info(it)
        if info[0] == "concrete":
            for x in info[1]:
                try:
                    self.assign(st.target, x, fr)
                    self.exec_block(st.body, fr)
                except ContinueExc:
                    continue
                except BreakExc:
                    break
            else:
                self.exec_block(st.orelse, fr)
            return
        if info[0] == "opaque":
            self.havoc(st, fr)
            return
        if info[0] == "gen":
            key, elem = info[1], info[3]
        else:
            key, elem = info[1].key, info[1].elem
        self.generic_loop(key, elem, st, fr)

    def generic_loop(self, key, elem, st, fr):
        names = assigned_names(st)
        snap = {}
        for n in names:
            if n in fr.env:
                snap[n] = fr.env[n]
                if isinstance(fr.env[n], Lin):
                    fr.env[n] = Lin.atom(Atom("phi", (n, len(self.loops)), False, False, phikind(fr.env[n])))
                elif isinstance(fr.env[n], Tup):
                    pass
        tup_len = {
            n: len(v.items) for n, v in fr.env.items() if isinstance(v, Tup)
        }
        hsnap = dict(self.heap)
        self.loops.append((key, elem))
        try:
            self.assign(st.target, elem, fr)
            try:
                self.exec_block(st.body, fr)
            except ContinueExc:
                pass
            except BreakExc:
                # first-match loops: treat as generic single pass
                pass
        finally:
            self.loops.pop()
        # appended list items
        for n, v in list(fr.env.items()):
            if isinstance(v, Tup):
                k = tup_len.get(n)
                if k is not None and len(v.items) > k:
                    new = v.items[k:]
                    v.items[k:] = [Gen(key, elem, x) for x in new]
        depth = len(self.loops)
        for n in names:
            phi = Atom("phi", (n, depth), False, False, "?")
            if n not in fr.env:
                continue
            v = fr.env[n]
            if n in snap and isinstance(snap[n], Lin):
                x0 = snap[n]
                fr.env[n] = close_phi(v, n, depth, x0, key)
        for k, v in list(self.heap.items()):
            if k in hsnap and hsnap[k] != v:
                pass

    # -- assignment
    def assign(self, tg, v, fr, aug=False):
        if isinstance(tg, ast.Name):
            fr.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            self.unpack(tg, v, fr)
        elif isinstance(tg, ast.Attribute):
            base = self.eval(tg.value, fr)
            if isinstance(base, Lin):
                self.heap[(base, tg.attr)] = v
                self.effects.append(("setattr", base, tg.attr, v))
        elif isinstance(tg, ast.Subscript):
            self.store_subscript(tg, v, fr, aug)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, fr)
        else:
            raise Unsupported("assign target")

    def unpack(self, tg, v, fr):
        n = len(tg.elts)
        star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Tup) and not star and len(v.items) == n and not any(
            isinstance(x, Gen) for x in v.items
        ):
            for e, x in zip(tg.elts, v.items):
                self.assign(e, x, fr)
            return
        if isinstance(v, Tup) and star and not any(isinstance(x, Gen) for x in v.items):
            i = star[0]
            after = n - i - 1
            for e, x in zip(tg.elts[:i], v.items[:i]):
                self.assign(e, x, fr)
            self.assign(tg.elts[i].value, Tup(v.items[i: len(v.items) - after], "list"), fr)
            for e, x in zip(tg.elts[i + 1:], v.items[len(v.items) - after:]):
                self.assign(e, x, fr)
            return
        if isinstance(v, Lin):
            if v.is_zero():
                for e in tg.elts:
                    self.assign(e, ZERO, fr)
                return
            for i, e in enumerate(tg.elts):
                if isinstance(e, ast.Starred):
                    raise Unsupported("star unpack")
                self.assign(e, self.getitem(v, Const(i)), fr)
            return
        for e in tg.elts:
            self.assign(e, unknown("unpack"), fr)

    def store_subscript(self, tg, v, fr, aug):
        base = self.eval(tg.value, fr)
        idx = self.index(tg.slice, fr)
        if isinstance(base, Dct):
            base.d[idx] = v
            return
        if isinstance(base, Tup):
            if isinstance(idx, Const) and isinstance(idx.v, int):
                try:
                    base.items[idx.v] = v
                    return
                except IndexError:
                    pass
            raise Unsupported("list store")
        if not isinstance(base, Lin):
            raise Unsupported("subscript store")
        if not isinstance(v, Lin):
            if isinstance(v, Const) and isinstance(v.v, (int, float)):
                v = Lin.num(v.v)
            elif isinstance(v, Tup):
                v = self.stack(v)
            else:
                v = unknown("store")
        ck = self.col_index(idx)
        if ck is not None:
            ct = Lin.atom(col_atom(ck, True))
            new = base - ct * col(ck, base) + ct * v
        elif self.is_column_index(idx):
            new = v
        else:
            E = embed(idx)
            old = self.getitem(base, idx)
            if aug:
                # v already contains old + delta
                new = base + E * (v - old) if isinstance(old, Lin) else unknown("store")
            else:
                bz = base
                at = bz.single_atom()
                if bz.is_zero() or (at is not None and at.head == "phi"):
                    new = base + E * v
                elif any(a.head == "phi" for a in bz.atoms()) or all(
                    (len(f) and f[0].head in ("E",)) for (_, f) in bz.d
                ):
                    new = base + E * v
                else:
                    new = base - E * E.T() * base + E * v
        if isinstance(tg.value, ast.Name):
            fr.env[tg.value.id] = new
        elif isinstance(tg.value, ast.Attribute):
            b = self.eval(tg.value.value, fr)
            self.heap[(b, tg.value.attr)] = new
        else:
            # store through a temporary: effect lost
            self.effects.append(("store", base, idx, v))

    def col_index(self, idx):
        if not (self.columns and isinstance(idx, Tup) and len(idx.items) == 2):
            return None
        x, y = idx.items
        if (isinstance(x, Slice) and x.full()) or x == Const(Ellipsis):
            c = y.const() if isinstance(y, Lin) else None
            if c is not None:
                return int(c.real)
            if isinstance(y, Const) and isinstance(y.v, int):
                return y.v
        return None

    def is_column_index(self, idx):
        """[:, i] / [..., i] / [i] with i a generic loop index"""
        items = idx.items if isinstance(idx, Tup) else [idx]
        hits = 0
        for x in items:
            if isinstance(x, Slice) and x.full():
                continue
            if isinstance(x, Const) and x.v is Ellipsis:
                continue
            if isinstance(x, Const) and x.v is None:
                continue
            if isinstance(x, Lin):
                at = x.single_atom()
                if at is not None and at.head == "idx" and any(
                    at.args[0] == k for k, _ in self.loops
                ):
                    hits += 1
                    continue
            return False
        return hits == 1 or all(
            isinstance(x, Slice) and x.full() or (isinstance(x, Const) and x.v in (None, Ellipsis))
            for x in items
        )

    # ------------------------------------------------------------------
    # conditions
    def cond(self, node, fr):
        return self.truthy(self.eval(node, fr))

    def truthy(self, v):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Cond):
            return self.eval_cond(v)
        if isinstance(v, Tup):
            if any(isinstance(x, Gen) for x in v.items):
                return self.decide(("truth", to_arg(v)))
            return bool(v.items)
        if isinstance(v, Dct):
            return bool(v.d)
        if isinstance(v, Lin):
            c = v.const()
            if c is not None:
                return c != 0
            return self.decide(("truth", v))
        if isinstance(v, (Fn, ClassInfo, Module, External, FuncInfo)):
            return True
        return self.decide(("truth", repr(v)))

    def eval_cond(self, c):
        if c.op == "not":
            return not self.eval_cond(c.args[0]) if isinstance(c.args[0], Cond) else not self.truthy(c.args[0])
        if c.op == "and":
            return all(self.truthy(x) for x in c.args)
        if c.op == "or":
            return any(self.truthy(x) for x in c.args)
        return self.decide((c.op,) + tuple(to_arg(x) for x in c.args))

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.cmp_is(a, b)
            if isinstance(op, ast.IsNot):
                return Const(not r.v) if isinstance(r, Const) else Cond("not", (r,))
            return r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.cmp_eq(a, b)
            if isinstance(op, ast.NotEq):
                return Const(not r.v) if isinstance(r, Const) else Cond("not", (r,))
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.cmp_in(a, b)
            if isinstance(op, ast.NotIn):
                return Const(not r.v) if isinstance(r, Const) else Cond("not", (r,))
            return r
        # ordering
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = (a - b).const()
            if d is not None and d.imag == 0:
                x = d.real
                return Const(
                    {ast.Lt: x < 0, ast.LtE: x <= 0, ast.Gt: x > 0, ast.GtE: x >= 0}[type(op)]
                )
        sym = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
        if sym in ("gt", "ge"):
            a, b = b, a
            sym = {"gt": "lt", "ge": "le"}[sym]
        return Cond(sym, (a, b))

    def cmp_is(self, a, b):
        if isinstance(a, Const) and not isinstance(b, Const):
            a, b = b, a
        if isinstance(b, Const):
            if isinstance(a, Const):
                return Const(a.v is b.v or (a.v == b.v and type(a.v) == type(b.v)))
            if b.v is None:
                if isinstance(a, (Tup, Dct, Fn, ClassInfo, Module)):
                    return Const(False)
                if isinstance(a, Lin):
                    if a.is_zero():
                        return Const(False)
                    at = a.single_atom()
                    if at is None or at.head not in ("attr", "name", "call", "getitem", "getattr", "param"):
                        return Const(False)
                    if at.head == "attr" and at.args[1].startswith("_") and self.memo_attr(at):
                        return Const(True)
                    if at.head == "name" and at.args[0] == "self":
                        return Const(False)
                return Cond("none", (a,))
            if isinstance(b.v, bool):
                if isinstance(a, Cond):
                    return a if b.v else Cond("not", (a,))
                if isinstance(a, Lin):
                    c = Cond("truth", (a,))
                    return c if b.v else Cond("not", (c,))
        if isinstance(a, Lin) and isinstance(b, Lin) and a == b:
            return Const(True)
        return Cond("is", (a, b))

    def memo_attr(self, at):
        """``if self._x is None: self._x = ...`` : follow the computing path"""
        b = at.args[0].single_atom() if isinstance(at.args[0], Lin) else None
        if b is None or b not in self.types or not self.frames:
            return False
        node = self.frames[-1]
        return node is not None and at.args[1] in stored_attrs(node)

    def cmp_eq(self, a, b):
        if isinstance(a, Const) and not isinstance(b, Const):
            a, b = b, a
        if isinstance(a, Const) and isinstance(b, Const):
            return Const(a.v == b.v)
        if isinstance(b, Const) and isinstance(b.v, bool):
            return self.cmp_is(a, b)
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = (a - b).const()
            if d is not None:
                return Const(abs(d) == 0)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if a == b:
                return Const(True)
        return Cond("eq", (a, b))

    def cmp_in(self, a, b):
        if isinstance(b, Const) and isinstance(b.v, str) and isinstance(a, Const):
            return Const(a.v in b.v)
        if isinstance(b, Dct):
            if a in b.d:
                return Const(True)
            if not b.d:
                return Const(False)
            if isinstance(a, Const) and all(isinstance(k, Const) for k in b.d):
                return Const(False)
            return Cond("in", (a, b))
        if isinstance(b, Tup) and not any(isinstance(x, Gen) for x in b.items):
            parts = [self.cmp_eq(a, x) for x in b.items]
            if any(isinstance(p, Const) and p.v for p in parts):
                return Const(True)
            parts = [p for p in parts if not isinstance(p, Const)]
            if not parts:
                return Const(False)
            return Cond("or", tuple(parts))
        return Cond("in", (a, b))

    # ------------------------------------------------------------------
    # expressions
    def eval(self, n, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unsupported("steps")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return unknown(type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return Const(v)
        return Lin.num(v)

    def e_Name(self, n, fr):
        if n.id in fr.env:
            return fr.env[n.id]
        r = self.p.resolve_name(fr.module, n.id)
        if r is None:
            if n.id in ("True", "False", "None"):
                return Const({"True": True, "False": False, "None": None}[n.id])
            if not hasattr(builtins, n.id):
                raise PathRaise(n, "UnboundLocalError")
            return Builtin(n.id)
        return self.entity(r, n.id)

    def entity(self, r, name=""):
        if r is None:
            return Builtin(name)
        if isinstance(r, (ClassInfo, Module)):
            return r
        if isinstance(r, FuncInfo):
            return Fn(r.node, r.module, None, None, r.cls, r)
        if isinstance(r, External):
            d = r.dotted
            if d in ("numpy.pi", "math.pi", "scipy.constants.pi"):
                return Lin.num(math.pi)
            if d.startswith("scipy.constants."):
                return Lin.atom(Atom("const", (d.split(".")[-1],), False, True, "S"))
            if d in ("numpy.nan", "numpy.inf"):
                return Lin.atom(Atom("const", (d,), False, True, "S"))
            return r
        if isinstance(r, tuple) and r[0] == "expr":
            if isinstance(r[2], ast.Constant):
                return self.e_Constant(r[2], None)
            if isinstance(r[2], (ast.Dict, ast.Tuple, ast.List, ast.Lambda, ast.BinOp, ast.UnaryOp)):
                try:
                    return self.eval(r[2], Frame(r[1], {}, None))
                except Unsupported:
                    pass
            return Lin.atom(Atom("global", (r[1].name, name)))
        return Lin.atom(Atom("global", (name,)))

    def e_Attribute(self, n, fr):
        b = self.eval(n.value, fr)
        return self.getattr(b, n.attr, fr)

    def getattr(self, b, name, fr=None, default=None):
        if isinstance(b, Module):
            r = self.p.resolve_dotted(b, name)
            if r is None:
                m = self.p.modules.get(b.name + "." + name)
                if m:
                    return m
                return unknown(f"{b.name}.{name}")
            return self.entity(r, name)
        if isinstance(b, External):
            return self.entity(External(b.dotted + "." + name), name)
        if isinstance(b, SuperV):
            cls = self.types[b.selfv.single_atom()]
            r = self.p.lookup(cls, name, after=b.after)
            if r is None:
                return ExtSuper(name)
            return self.member(b.selfv, r, name)
        if isinstance(b, ClassInfo):
            r = self.p.lookup(b, name)
            if r is None:
                return Lin.atom(Atom("attr", (("class", b.full), name)))
            if r[0] == "method":
                fi = r[1]
                return Fn(fi.node, fi.module, None, b if fi.kind == "classmethod" else None, fi.cls, fi)
            if r[0] == "attr":
                return self.eval(r[1], Frame(r[2].module, {}, r[2]))
            return Lin.atom(Atom("attr", (("class", b.full), name)))
        if isinstance(b, (Tup, Dct)) or (isinstance(b, Const) and isinstance(b.v, str)):
            return Method(b, name)
        if isinstance(b, Fn):
            return unknown("fnattr")
        if isinstance(b, Lin):
            if name == "T":
                return norm_diags(b.T())
            if name == "real":
                return Lin.atom_raw(RE) * b
            if name == "imag":
                return Lin.atom_raw(RE) * (Lin.num(-1j) * b)
            if (b, name) in self.heap:
                return self.heap[(b, name)]
            at = b.single_atom()
            if at is not None and at in self.types:
                r = self.p.lookup(self.types[at], name)
                if r is not None:
                    return self.member(b, r, name, virtual=at in self.virtual)
                e = startup_alias(self.p, self.types[at], name)
                if e is not None:
                    fn, expr = e
                    return self.eval(expr, Frame(fn.module, {"self": b}, fn.cls))
            return self.attr_atom(b, name)
        return unknown("attr " + name)

    def attr_atom(self, b, name):
        if b.is_zero() and name in ("shape", "size", "ndim", "dtype"):
            return Lin.atom(Atom("attr", (b, name), False, True, "S"))
        sym = False
        kind = "?"
        if MASS_RE.match(name) or name in SYM_NAMES:
            sym, kind = True, "M"
        elif MATRIX_NAMES.match(name):
            kind = "M"
        elif VECTOR_NAMES.match(name):
            kind = "V"
        elif name in SCALAR_NAMES:
            sym, kind = True, "S"
        a = Atom("attr", (b, name), False, sym, kind)
        if self.value_hook:
            r = self.value_hook(self, a)
            if r is not None:
                return r
        return Lin.atom(a)

    def member(self, selfv, r, name, virtual=False):
        kind, ent, dcls = r
        if virtual and kind in ("method", "prop"):
            if self.overridden(self.types[selfv.single_atom()], name):
                if kind == "prop":
                    return self.attr_atom(selfv, name)
                return VirtM(selfv, name, ent)
        if kind == "method":
            fi = ent
            if fi.kind == "static":
                return Fn(fi.node, fi.module, None, None, fi.cls, fi)
            return Fn(fi.node, fi.module, None, selfv, fi.cls, fi)
        if kind == "prop":
            g = ent.get("get")
            if g is None:
                cls = self.types[selfv.single_atom()]
                g = self.p.prop_slot(cls, name, "get")
            if g is None or name in self.opaque_props or not self.inlinable_prop(g):
                return self.attr_atom(selfv, name)
            if MASS_RE.match(name) or PHYS_RE.match(name):
                return self.attr_atom(selfv, name)
            dec0 = dict(self.decisions)
            pend0 = len(self.pending)
            try:
                v = self.inline(Fn(g.node, g.module, None, selfv, g.cls, g), [], {})
                if isinstance(v, Lin) and is_unknown(v):
                    raise Unsupported("x")
                va = v.single_atom() if isinstance(v, Lin) else None
                if va is not None and va.head == "attr" and not va.T and va.args[0] == selfv:
                    # plain accessor of the object's own storage: the public name is the atom
                    return self.attr_atom(selfv, name)
                return v
            except (Unsupported, PathRaise):
                self.decisions = dec0
                del self.pending[pend0:]
                return self.attr_atom(selfv, name)
        if kind == "attr":
            if virtual and self.overridden(self.types[selfv.single_atom()], name):
                return self.attr_atom(selfv, name)
            if isinstance(ent, ast.Constant) and not self.instance_assigned(
                self.types[selfv.single_atom()], name
            ):
                return self.e_Constant(ent, None)
            d = dotted(ent)
            if d:
                # method alias inside class body (e.g. S_e = s_e)
                r2 = self.p.lookup(dcls, d) if "." not in d else None
                if r2 and r2[0] == "method":
                    return self.member(selfv, r2, d)
                e = self.p.resolve_dotted(dcls.module, d)
                if isinstance(e, (ClassInfo,)):
                    return e
            return self.attr_atom(selfv, name)
        return self.attr_atom(selfv, name)

    def overridden(self, cls, name):
        cache = getattr(self.p, "_ovr", None)
        if cache is None:
            cache = self.p._ovr = {}
        k = (cls.full, name)
        if k not in cache:
            r = self.p.lookup(cls, name)
            res = False
            for c in self.p.classes.values():
                if c is not cls and (name in c.methods or name in c.props or name in c.attrs):
                    if self.p.is_subclass(c, cls.full) and c is not cls:
                        res = True
                        break
            cache[k] = res
        return cache[k]

    def inlinable_prop(self, g):
        """only straight-line getters (no memo write, no If on caches)"""
        body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        for d in g.node.decorator_list:
            if (dotted(d) or "").split(".")[-1] not in ("property",):
                return False
        for s in ast.walk(g.node):
            if isinstance(s, (ast.For, ast.While, ast.Try, ast.With)):
                return False
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                tgs = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(t, ast.Attribute) for t in tgs):
                    return False
            if isinstance(s, ast.If):
                return False
            if isinstance(s, ast.Call) and dotted(s.func) == "getattr" and len(s.args) == 3:
                return False
        # trivially returning a private attribute: keep public name as the atom
        if len(body) == 1 and isinstance(body[0], ast.Return):
            v = body[0].value
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self":
                return False
        return True

    def instance_assigned(self, cls, name):
        cache = getattr(self.p, "_iassign", None)
        if cache is None:
            cache = self.p._iassign = {}
        if cls.full not in cache:
            s = set()
            for c in self.p.mro(cls):
                if isinstance(c, ClassInfo):
                    for x in ast.walk(c.node):
                        if (
                            isinstance(x, ast.Attribute)
                            and isinstance(x.ctx, ast.Store)
                            and isinstance(x.value, ast.Name)
                            and x.value.id == "self"
                        ):
                            s.add(x.attr)
            cache[cls.full] = s
        return name in cache[cls.full]

    # -- operators
    def e_BinOp(self, n, fr):
        return self.binop(n.op, self.eval(n.left, fr), self.eval(n.right, fr))

    def as_lin(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Const):
            if isinstance(v.v, bool):
                return Lin.num(int(v.v))
            if isinstance(v.v, (int, float, complex)):
                return Lin.num(v.v)
        if isinstance(v, Cond):
            return Lin.atom(Atom("cond", (v.op,) + tuple(to_arg(x) for x in v.args)))
        if isinstance(v, Tup):
            return self.stack(v)
        if isinstance(v, Builtin):
            return Lin.atom(Atom("builtin", (v.name,)))
        return unknown(type(v).__name__)

    def binop(self, op, a, b):
        if isinstance(op, ast.Mod) and isinstance(a, Const) and isinstance(a.v, str):
            return self.format_str("%", a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
                return Const(a.v + b.v)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items, a.kind)
            if (isinstance(a, Const) and isinstance(a.v, str)) or (isinstance(b, Const) and isinstance(b.v, str)):
                return Lin.atom(Atom("str+", (to_arg(a), to_arg(b))))
        if isinstance(op, ast.Mult) and isinstance(a, Tup) and isinstance(b, Lin):
            c = b.const()
            if c is not None and c.imag == 0 and float(c.real).is_integer() and a.kind == "list":
                return Tup(a.items * int(c.real), "list")
            if len(a.items) == 1 and isinstance(a.items[0], Const) and a.items[0].v is None:
                return Lin.atom(Atom("nonelist", (b,)))
        if isinstance(op, ast.Mult) and isinstance(b, Tup) and isinstance(a, Lin):
            if len(b.items) == 1 and isinstance(b.items[0], Const) and b.items[0].v is None:
                return Lin.atom(Atom("nonelist", (a,)))
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            return Cond("and" if isinstance(op, ast.BitAnd) else "or", (a, b)) if isinstance(a, (Cond, Const)) and isinstance(b, (Cond, Const)) else Lin.atom(Atom("bit" + type(op).__name__, (to_arg(a), to_arg(b))))
        # maps composed or applied to models
        a, b = self.as_lin(a), self.as_lin(b)
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, (ast.Mult, ast.MatMult)):
            if isinstance(op, ast.MatMult) and kind_of(a) == "V" and kind_of(b) == "V":
                return Lin.atom(Atom("dot", tuple(sorted((a, b), key=repr)), False, True, "S"))
            return mul(a, b)
        if isinstance(op, ast.Div):
            return divide(a, b)
        if isinstance(op, ast.Pow):
            c = b.const()
            if c is not None and c.imag == 0:
                return power(a, c.real)
            return elementwise("powx", (a, b))
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None and cb != 0 and ca.imag == 0:
                return Lin.num(ca.real // cb.real if isinstance(op, ast.FloorDiv) else ca.real % cb.real)
            return elementwise(type(op).__name__, (a, b))
        return unknown("binop")

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Cond):
                return Cond("not", (v,))
            if isinstance(v, Const):
                return Const(not v.v)
            if isinstance(v, Lin) and v.const() is None:
                return Cond("not", (Cond("truth", (v,)),))
            return Const(not self.truthy(v))
        if isinstance(n.op, ast.USub):
            return -self.as_lin(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(v, Lin):
            return Lin.atom(Atom("invert", (v,)))
        return unknown("unary")

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        last = None
        for x in n.values:
            last = self.eval(x, fr)
            t = self.truthy(last)
            if isand and not t:
                return Const(False) if isinstance(last, Cond) else last
            if not isand and t:
                return Const(True) if isinstance(last, Cond) else last
        if isinstance(last, Cond):
            return Const(isand)
        return last

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, fr)
            r = self.compare(op, left, right)
            if len(n.ops) == 1:
                return r
            if not self.truthy(r):
                return Const(False)
            left = right
            res = Const(True)
        return res

    def e_IfExp(self, n, fr):
        if self.cond(n.test, fr):
            return self.eval(n.body, fr)
        return self.eval(n.orelse, fr)

    def e_Tuple(self, n, fr):
        return Tup(self.elts(n.elts, fr), "tuple")

    def e_List(self, n, fr):
        return Tup(self.elts(n.elts, fr), "list")

    def e_Set(self, n, fr):
        return Tup(self.elts(n.elts, fr), "set")

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, fr)
                if isinstance(v, Tup):
                    out.extend(v.items)
                else:
                    raise Unsupported("star")
            else:
                out.append(self.eval(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.eval(v, fr)
                if isinstance(x, Dct):
                    d.update(x.d)
                    continue
                raise Unsupported("**dict")
            kk = self.eval(k, fr)
            d[kk] = self.eval(v, fr)
        return Dct(d)

    def e_Lambda(self, n, fr):
        return Fn(n, fr.module, fr.env, None, fr.cls)

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(Const(v.value))
            else:
                parts.append(self.eval(v.value, fr))
        return self.mkstr(parts)

    def mkstr(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Const) and isinstance(p.v, str):
                s = p.v
            elif isinstance(p, Lin) and p.const() is not None and p.const().imag == 0:
                c = p.const().real
                s = str(int(c)) if float(c).is_integer() else str(c)
            else:
                s = None
                c = self.known_const(p)
                if c is not None:
                    s = c
            if s is not None and out and isinstance(out[-1], str):
                out[-1] += s
            else:
                out.append(s if s is not None else to_arg(p))
        if len(out) == 1 and isinstance(out[0], str):
            return Const(out[0])
        if not out:
            return Const("")
        return Lin.atom(Atom("str", tuple(out)))

    def known_const(self, p):
        if isinstance(p, Lin):
            for k, b in self.decisions.items():
                if b and k[0] == "eq" and k[1] == p and isinstance(k[2], Const):
                    return k[2].v
            for k, b in self.truth.items():
                if b and isinstance(k, tuple) and k[0] == "eq" and k[1] == p and isinstance(k[2], Const):
                    return k[2].v
        return None

    def format_str(self, how, a, args):
        items = args.items if isinstance(args, Tup) else [args]
        if how == "%":
            pieces = re.split(r"%[sdifg]", a.v)
        else:
            pieces = re.split(r"\{[^{}]*\}", a.v)
        if len(pieces) != len(items) + 1:
            return Lin.atom(Atom("str", (a.v,) + tuple(to_arg(x) for x in items)))
        parts = []
        for i, p in enumerate(pieces):
            if p:
                parts.append(Const(p))
            if i < len(items):
                parts.append(items[i])
        return self.mkstr(parts)

    # -- comprehension
    def e_ListComp(self, n, fr):
        return self.comp(n, fr, "list")

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr, "list")

    def e_SetComp(self, n, fr):
        return self.comp(n, fr, "set")

    def comp(self, n, fr, kind):
        sub = Frame(fr.module, dict(fr.env), fr.cls)
        out = []

        def rec(i):
            if i == len(n.generators):
                return [self.eval(n.elt, sub)]
            g = n.generators[i]
            it = self.eval(g.iter, sub)
            info = self.iter_info(it)
            if info[0] == "concrete":
                r = []
                for x in info[1]:
                    self.assign(g.target, x, sub)
                    if all(self.cond(c, sub) for c in g.ifs):
                        r.extend(rec(i + 1))
                return r
            if info[0] == "opaque":
                raise Unsupported("comp over opaque")
            if info[0] == "gen":
                key, elem = info[1], info[3]
            else:
                key, elem = info[1].key, info[1].elem
            self.assign(g.target, elem, sub)
            self.loops.append((key, elem))
            try:
                for c in g.ifs:
                    if not self.cond(c, sub):
                        return []
                vals = rec(i + 1)
            finally:
                self.loops.pop()
            return [Gen(key, elem, v) for v in vals]

        return Tup(rec(0), kind)

    def e_DictComp(self, n, fr):
        if len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            it = self.eval(g.iter, fr)
            info = self.iter_info(it)
            if info[0] == "concrete":
                sub = Frame(fr.module, dict(fr.env), fr.cls)
                d = {}
                for x in info[1]:
                    self.assign(g.target, x, sub)
                    d[self.eval(n.key, sub)] = self.eval(n.value, sub)
                return Dct(d)
        return unknown("dictcomp")

    # -- subscripts
    def index(self, n, fr):
        if isinstance(n, ast.Slice):
            return self.e_Slice(n, fr)
        return self.eval(n, fr)

    def e_Slice(self, n, fr):
        return Slice(*[self.eval(x, fr) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_Subscript(self, n, fr):
        b = self.eval(n.value, fr)
        idx = self.index(n.slice, fr)
        return self.getitem(b, idx)

    def getitem(self, b, idx):
        if isinstance(idx, Lin) and isinstance(b, (Tup, Dct)):
            c = idx.const()
            if c is not None and c.imag == 0 and float(c.real).is_integer():
                idx = Const(int(c.real))
        if isinstance(b, Tup):
            if isinstance(idx, Const) and isinstance(idx.v, int) and not any(isinstance(x, Gen) for x in b.items):
                try:
                    return b.items[idx.v]
                except IndexError:
                    return unknown("index")
            if len(b.items) == 1 and isinstance(b.items[0], Gen):
                g = b.items[0]
                if isinstance(idx, Lin):
                    at = idx.single_atom()
                    if at is not None and at.head == "idx" and at.args[0] == g.key:
                        return g.val
            if isinstance(idx, Slice) and not any(isinstance(x, Gen) for x in b.items):
                lo, hi, st = idx.t
                cs = []
                for x in (lo, hi, st):
                    if x is None:
                        cs.append(None)
                    elif isinstance(x, Lin) and x.const() is not None:
                        cs.append(int(x.const().real))
                    else:
                        return unknown("slice")
                return Tup(b.items[slice(*cs)], b.kind)
            return unknown("tupidx")
        if isinstance(b, Dct):
            if idx in b.d:
                return b.d[idx]
            if isinstance(idx, Const) and isinstance(idx.v, int):
                k = Lin.num(idx.v)
                if k in b.d:
                    return b.d[k]
            kc = self.known_const(idx) if isinstance(idx, Lin) else None
            if kc is not None and Const(kc) in b.d:
                return b.d[Const(kc)]
            return unknown("dictkey")
        if isinstance(b, Const) and isinstance(b.v, str):
            if isinstance(idx, Lin) and idx.const() is not None:
                try:
                    return Const(b.v[int(idx.const().real)])
                except Exception:
                    return unknown("stridx")
            return unknown("stridx")
        if isinstance(b, External) and b.dotted == "numpy.c_" and self.columns and isinstance(idx, Tup):
            out = ZERO
            for k, x in enumerate(idx.items):
                out = out + Lin.atom(col_atom(k, True)) * self.as_lin(x)
            return out
        if isinstance(b, Lin) and self.columns and isinstance(idx, Tup) and len(idx.items) == 2:
            x, y = idx.items
            if (isinstance(x, Slice) and x.full()) or x == Const(Ellipsis):
                yc = y.const() if isinstance(y, Lin) else (y.v if isinstance(y, Const) else "no")
                if yc is None and not isinstance(y, Lin):
                    return Lin({((), (col_atom(0, True),)): 1, ((), (col_atom(1, True),)): 1}) * b
                if isinstance(yc, (int, float, complex)) and not isinstance(yc, bool):
                    return col(int(complex(yc).real), b)
        if isinstance(b, External) and b.dotted in ("numpy.r_", "numpy.c_"):
            return self.stack(idx if isinstance(idx, Tup) else Tup([idx]))
        if isinstance(b, Lin):
            if self.shape_index(idx):
                return b
            if self.is_column_index(idx):
                return b
            if b.is_zero():
                return ZERO
            h = half_slice(b, idx)
            if h is not None:
                return Lin.atom(Atom("E", (h,), True, False, "M")) * b
            at = b.single_atom()
            if at is not None and at.kind != "V" and not (at.head == "input") and at.head not in ("phi", "sumphi"):
                return self.getitem_atom(b, idx)
            if at is None and not any(a.head == "input" for a in b.atoms()) and not any(a.head in("phi",) for a in b.atoms()):
                # selection out of a computed array
                return embed(idx).T() * b
            return embed(idx).T() * b
        return unknown("getitem")

    def getitem_atom(self, b, idx):
        at = b.single_atom()
        key = to_arg(idx)
        if isinstance(idx, Const) and isinstance(idx.v, int):
            key = Lin.num(idx.v)
        name = at.args[1] if at.head == "attr" else ""
        sym = False
        kind = "?"
        if name in ("Ainv", "_Ainv"):
            sym, kind = True, "M"
        if name in ("time_steps", "times", "frequencies"):
            sym, kind = True, "S"
        if at.head == "attr" and at.args[0] == at.args[0] and name in ("_Ps",):
            kind = "M"
        # field lookup  f[src, 'e']  : vectors
        if isinstance(idx, Tup) and len(idx.items) >= 2 and at.head in ("name", "call", "attr", "input"):
            if any(isinstance(x, (Const,)) and isinstance(x.v, str) for x in idx.items) or any(
                isinstance(x, Lin) and x.single_atom() is not None and x.single_atom().head in ("str", "str+", "attr")
                for x in idx.items[1:]
            ):
                kind = "V"
        return Lin.atom(Atom("getitem", (b, key), False, sym, kind))

    def shape_index(self, idx):
        items = idx.items if isinstance(idx, Tup) else [idx]
        return all(
            (isinstance(x, Slice) and x.full()) or (isinstance(x, Const) and x.v in (None, Ellipsis))
            for x in items
        )

    def stack(self, v):
        """concatenate: list of generic pieces -> sum of embeddings"""
        if isinstance(v, Lin):
            return v
        if not isinstance(v, Tup):
            return unknown("stack")
        items = v.items
        if len(items) == 1 and not isinstance(items[0], Gen):
            return self.as_lin(items[0])
        out = ZERO
        n = len(items)
        for i, x in enumerate(items):
            if isinstance(x, Gen):
                out = out + self.stack_gen(x, [])
            else:
                l = self.as_lin(x)
                out = out + Lin.atom(Atom("E", (("pos", i, n),), False, False, "M")) * l
        return out

    def stack_gen(self, g, outer):
        keys = outer + [(g.key, g.elems)]
        if isinstance(g.val, Gen):
            return self.stack_gen(g.val, keys)
        val = g.val
        if isinstance(val, Tup):
            val = self.stack(val)
        val = self.as_lin(val)
        elems = []
        for _, e in keys:
            if isinstance(e, Tup):
                e = e.items[-1]
            elems.append(to_arg(e))
        # embedding keyed by the innermost two loop elements (src, rx)
        allk = [to_arg(e.items[-1] if isinstance(e, Tup) else e) for _, e in self.loops] + elems
        E = embed_key(tuple(allk[-2:]) if len(allk) >= 2 else tuple(allk))
        w = E * val
        for k, _ in reversed(keys):
            w = sigma(k) * w
        return w

    # -- calls
    def e_Call(self, n, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in fr.env:
            selfv = fr.env.get("self")
            if selfv is None:
                selfv = fr.env.get("cls", unknown("self"))
            return SuperV(selfv, fr.cls)
        f = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if isinstance(v, Tup) and not any(isinstance(x, Gen) for x in v.items):
                    args.extend(v.items)
                else:
                    return unknown("*args")
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                if isinstance(v, Dct) and all(isinstance(x, Const) for x in v.d):
                    for kk, x in v.d.items():
                        kwargs[kk.v] = x
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        if self.call_hook:
            r = self.call_hook(self, n, f, args, kwargs, fr)
            if r is not None:
                return r
        return self.call(f, args, kwargs, n, fr)

    def call(self, f, args, kwargs, n=None, fr=None):
        if isinstance(f, Builtin):
            return self.call_builtin(f.name, args, kwargs, n, fr)
        if isinstance(f, Method):
            return self.call_method_val(f, args, kwargs)
        if isinstance(f, External):
            return self.call_external(f.dotted, args, kwargs)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, VirtM):
            return self.call_virtual(f, args, kwargs)
        if isinstance(f, OpFn):
            return f.apply(self, args, kwargs)
        if isinstance(f, ClassInfo):
            return self.call_class(f, args, kwargs)
        if isinstance(f, ExtSuper):
            return unknown("super")
        if isinstance(f, Lin):
            return self.call_term(f, args, kwargs)
        return unknown("call")

    def call_class(self, c, args, kwargs):
        if c.name in ("Zero",):
            return ZERO
        return Lin.atom(
            Atom("new", (c.full,) + tuple(to_arg(a) for a in args) + tuple((k, to_arg(v)) for k, v in sorted(kwargs.items())))
        )

    def call_fn(self, f, args, kwargs):
        name = getattr(f.node, "name", "<lambda>")
        if name in ("mkvc",) and args:
            v = args[0]
            return self.stack(v) if isinstance(v, Tup) else v
        dn = f"{name}"
        if f.fi is not None and f.fi.cls is None:
            if name in ZERO_FUNCS:
                return ZERO
            if name in ONE_FUNCS:
                return ONE
            if name in DIAG_FUNCS:
                return mk_diag(self.as_lin(args[0]))
            if name in DIAGINV_FUNCS:
                return mk_diag(power(self.as_lin(args[0]), -1))
        if not isinstance(f.node, ast.Lambda):
            ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
            if "adjoint" in ps and self.contracts and name not in self.inline_names and is_api(name):
                if f.selfv is not None:
                    ps = ps[1:]
                    at = f.selfv.single_atom() if isinstance(f.selfv, Lin) else None
                    ft = Lin.atom(Atom("attr", (f.selfv, name))) if isinstance(f.selfv, Lin) else Const(name)
                else:
                    ft = Const(name)
                return self.contract(ft, name, ps, args, kwargs, f)
            if name in self.opaque:
                base = Lin.atom(Atom("attr", (f.selfv, name))) if f.selfv is not None else Const(name)
                return self.opaque_call(base, args, kwargs)
            for d in f.node.decorator_list:
                dd = (dotted(d) or (dotted(d.func) if isinstance(d, ast.Call) else "") or "").split(".")[-1]
                if dd not in ("timeIt", "count", "requires", "staticmethod", "classmethod", "property", "jit", "njit", "abstractmethod"):
                    base = Lin.atom(Atom("attr", (f.selfv, name))) if isinstance(f.selfv, Lin) else Const(name)
                    return self.opaque_call(base, args, kwargs)
        if self.branchy_opaque and not isinstance(f.node, ast.Lambda) and f.selfv is not None:
            if sum(isinstance(x, (ast.If, ast.IfExp)) for x in walk_own(f.node)) >= 3 and not any(
                has_input_val(a) for a in list(args) + list(kwargs.values())
            ):
                base = Lin.atom(Atom("attr", (f.selfv, name))) if isinstance(f.selfv, Lin) else Const(name)
                return self.opaque_call(base, args, kwargs)
        dec0 = dict(self.decisions)
        pend0 = len(self.pending)
        loops0 = list(self.loops)
        try:
            r = self.inline(f, args, kwargs)
            if isinstance(r, Lin) and is_unknown(r) and f.selfv is not None and not any(is_unknown(a) for a in args if isinstance(a, (Lin, Tup))):
                raise Unsupported("unknown result")
            return r
        except Unsupported:
            self.decisions = dec0
            del self.pending[pend0:]
            self.loops = loops0
            base = (
                Lin.atom(Atom("attr", (f.selfv, name)))
                if isinstance(f.selfv, Lin)
                else Const(name)
            )
            r = self.opaque_call(base, args, kwargs)
            at = r.single_atom()
            if at is not None and name not in self.known_opaque:
                self.fallback.add(at)
            return r

    def opaque_call(self, base, args, kwargs):
        nm = None
        if isinstance(base, Lin):
            at = base.single_atom()
            if at is not None and at.head == "attr":
                nm = at.args[1]
        kind = "?"
        sym = False
        if nm in ("getP", "get_interpolation_matrix"):
            kind = "M"
        if isinstance(base, Const) and base.v == "omega":
            kind, sym = "S", True
        a = Atom(
            "call",
            (base,) + tuple(to_arg(a) for a in args) + tuple((k, to_arg(v)) for k, v in sorted(kwargs.items())),
            False, sym, kind,
        )
        return Lin.atom(a)

    def call_virtual(self, f, args, kwargs):
        ent = f.ent
        ps = [x.arg for x in ent.node.args.posonlyargs + ent.node.args.args] if isinstance(ent, FuncInfo) else []
        ft = Lin.atom(Atom("attr", (f.selfv, f.name)))
        if "adjoint" in ps and self.contracts:
            at = f.selfv.single_atom()
            if at in self.types and self.zero_everywhere(self.types[at], f.name) and any(q in LINEAR for q in ps):
                return ZERO
            return self.contract(ft, f.name, ps[1:], args, kwargs, None)
        return self.opaque_call(ft, args, kwargs)

    def zero_everywhere(self, cls, name):
        """every definition of this routine in the class and its subclasses returns Zero"""
        defs = []
        r = self.p.lookup(cls, name)
        if r is None or r[0] != "method":
            return False
        defs.append(r[1])
        for c in self.p.classes.values():
            if name in c.methods and self.p.is_subclass(c, cls.full):
                defs.append(c.methods[name])
        return all(self.always_zero(Fn(d.node, d.module, None, None, d.cls, d), cls) for d in defs)

    def contract(self, ft, name, ps, args, kwargs, fn):
        """apply the forward/adjoint contract of a derivative routine"""
        bound = {}
        for p_, v in zip(ps, args):
            bound[p_] = v
        for k, v in kwargs.items():
            bound[k] = v
        adj = bound.pop("adjoint", Const(False))
        if not isinstance(adj, Const):
            if isinstance(adj, Cond) or isinstance(adj, Lin):
                adj = Const(self.truthy(adj))
            else:
                return unknown("adjoint flag")
        adj = bool(adj.v)
        lin = [p_ for p_ in ps if p_ in LINEAR]
        if fn is not None and lin and self.always_zero(fn):
            return Tup([ZERO, ZERO]) if adj and len(lin) == 2 else ZERO
        if len(lin) == 0:
            # returns function(s) of v, e.g. src.evalDeriv(sim, adjoint=)
            return unknown("contract without v")
        ctx = tuple(
            (p_, to_arg(bound[p_]))
            for p_ in ps
            if p_ in bound and p_ not in lin and bound[p_] != NONE
        )
        if fn is not None and name == "evalDeriv" and isinstance(fn.node, ast.FunctionDef):
            # BaseEMSrc.evalDeriv(sim, v=None, adjoint) returns a pair of routines
            if any(isinstance(x, ast.Lambda) for x in ast.walk(fn.node)):
                return self.inline(fn, args, kwargs)
        if len(lin) == 1:
            v = bound.get(lin[0], NONE)
            if name == "_inner_mat_mul_op" and isinstance(bound.get("M"), Lin) and isinstance(bound.get("u"), Lin):
                op = mk_diag(bound["u"]) * bound["M"]
            else:
                op = self.mk_op(ft, name, ctx, "")
            if v == NONE:
                return op.T() if adj else op
            v = self.as_lin(v)
            if v.is_zero():
                return ZERO
            return norm_diags((op.T() if adj else op) * v)
        du, v = lin[0], lin[1]
        opu = self.mk_op(ft, name, ctx, "u")
        opm = self.mk_op(ft, name, ctx, "m")
        if adj:
            x = bound.get(v, NONE)
            if x == NONE:
                x = bound.get(du, NONE)
            x = self.as_lin(x)
            return Tup([norm_diags(opu.T() * x), norm_diags(opm.T() * x)])
        r = ZERO
        if bound.get(du, NONE) != NONE:
            r = r + opu * self.as_lin(bound[du])
        if bound.get(v, NONE) != NONE:
            r = r + opm * self.as_lin(bound[v])
        return norm_diags(r)

    def always_zero(self, fn, ctx=None):
        """does this routine return Zero on every returning path?"""
        cache = getattr(self.p, "_azero", None)
        if cache is None:
            cache = self.p._azero = {}
        k = (fn.fi.key if fn.fi is not None else id(fn.node), ctx.full if ctx is not None else None)
        if k in cache:
            return cache[k]
        cache[k] = False
        rets = [x for x in walk_own(fn.node) if isinstance(x, ast.Return)]
        asg = {}
        for x in walk_own(fn.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                asg.setdefault(x.id, []).append(None)
        for x in walk_own(fn.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                l = asg[x.targets[0].id]
                l[l.index(None)] = x.value

        def zero(v, n=0):
            if isinstance(v, ast.Name) and asg.get(v.id) and n < 5:
                return all(q is not None and zero(q, n + 1) for q in asg[v.id])
            if not isinstance(v, ast.Call):
                return False
            if (dotted(v.func) or "").split(".")[-1] == "Zero" and not v.args:
                return True
            cls = ctx or fn.cls
            if (
                cls is not None and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name)
                and v.func.value.id == "self"
            ):
                return self.zero_everywhere(cls, v.func.attr)
            return False

        z = bool(rets) and all(zero(r.value) for r in rets)
        cache[k] = z
        return z

    def mk_op(self, ft, name, ctx, tag):
        """operator atom; routines M..Deriv(u, .) are linear in u"""
        zf = getattr(self, "zero_ops", None)
        if zf is not None and zf(name, tag):
            return ZERO
        if MASSDERIV_RE.match(name) and len(ctx) == 1 and isinstance(ctx[0][1], Lin):
            u = ctx[0][1]
            out = ZERO
            for (s, f), c in u.d.items():
                at = Atom("op", (ft, name, (("u", Lin({((), f): 1 + 0j})),), tag), False, False, "M")
                out = out + Lin({(s, (at,)): c})
            return out
        return Lin.atom(Atom("op", (ft, name, ctx, tag), False, False, "M"))

    def call_term(self, f, args, kwargs):
        at = f.single_atom()
        if at is None:
            if f.is_zero():
                return ZERO
            return unknown("call of sum")
        if at.head == "attr":
            base, name = at.args
            r = self.call_attr(base, name, args, kwargs)
            if r is not None:
                return r
            t = self.adjoint_table().get(name)
            if t and self.contracts:
                ps = self.pick_signature(t, args, kwargs)
                if ps:
                    return self.contract(f, name, list(ps), args, kwargs, None)
        if at.head == "getattr" and self.contracts and ("adjoint" in kwargs or len(args) >= 3):
            # field derivative selected by name: '_{}Deriv'
            s = at.args[1]
            t = None
            if isinstance(s, Lin):
                sa = s.single_atom()
                if sa is not None and sa.head == "str" and sa.args[-1] == "Deriv":
                    nargs = len(args) + len([k for k in kwargs if k != "adjoint"])
                    if nargs >= 3:
                        ps = (
                            ["tInd", "src", "dun_dm_v", "v", "adjoint"]
                            if nargs == 4 and not ("adjoint" not in kwargs and isinstance(args[-1], Const) and isinstance(args[-1].v, bool))
                            else ["src", "du_dm_v", "v", "adjoint"]
                        )
                        return self.contract(f, "fieldDeriv", ps, args, kwargs, None)
        if at.head == "attr" and at.args[1] == "solver":
            if args and isinstance(args[0], Lin):
                return inverse(args[0])
        return self.opaque_call(f, args, kwargs)

    def pick_signature(self, sigs, args, kwargs):
        n = len(args)
        cands = []
        for ps in set(sigs):
            if n + len(kwargs) > len(ps):
                continue
            if any(k not in ps for k in kwargs):
                continue
            cands.append(ps)
        if not cands:
            return None
        # prefer exact arity match (all but adjoint given)
        cands.sort(key=lambda ps: (abs(len(ps) - 1 - (n + len([k for k in kwargs if k != "adjoint"]))), ps))
        best = cands[0]
        return best

    def call_attr(self, base, name, args, kwargs):
        """methods of opaque values"""
        if not isinstance(base, Lin):
            return None
        if name in ERASE_METHODS:
            return base
        if name == "transpose" and not args:
            return norm_diags(base.T())
        if name == "dot" and len(args) == 1:
            return self.binop(ast.MatMult(), base, args[0])
        if name in ("conj", "conjugate"):
            return Lin.atom_raw(CONJ) * base
        if name == "diagonal":
            return Lin.atom(Atom("diagonal", (base,), False, False, "V"))
        if name == "clean":
            return NONE
        if name == "sum" and not args and not kwargs:
            return Lin.atom(Atom("sum", (base,), False, True, "S"))
        if name == "get_all_slices":
            return None
        if name in ("append", "extend", "remove"):
            return NONE
        if name == "keys":
            return IterV(("keys", base), Lin.atom(Atom("elem", (("keys", base),))))
        if name == "values":
            return IterV(("items", base), Lin.atom(Atom("elem", (("values", base),))))
        if name == "items":
            return IterV(
                ("items", base),
                Tup([Lin.atom(Atom("elem", (("keys", base),))), Lin.atom(Atom("elem", (("values", base),)))]),
            )
        return None

    def call_method_val(self, m, args, kwargs):
        b, name = m.b, m.name
        if isinstance(b, Tup):
            if name == "append":
                b.items.append(args[0])
                return NONE
            if name == "extend":
                if isinstance(args[0], Tup):
                    b.items.extend(args[0].items)
                    return NONE
                raise Unsupported("extend")
            if name in ("index", "count"):
                return unknown(name)
            raise Unsupported("list." + name)
        if isinstance(b, Dct):
            if name in ("get",):
                if args[0] in b.d:
                    return b.d[args[0]]
                if all(isinstance(k, Const) for k in b.d) and isinstance(args[0], Const):
                    return args[1] if len(args) > 1 else NONE
                return unknown("dict.get")
            if name == "items":
                return Tup([Tup([k, v]) for k, v in b.d.items()], "list")
            if name == "keys":
                return Tup(list(b.d.keys()), "list")
            if name == "values":
                return Tup(list(b.d.values()), "list")
            if name == "pop":
                if args[0] in b.d:
                    return b.d.pop(args[0])
                return args[1] if len(args) > 1 else unknown("pop")
            if name == "update":
                if args and isinstance(args[0], Dct):
                    b.d.update(args[0].d)
                    return NONE
            raise Unsupported("dict." + name)
        if isinstance(b, Const):
            if name == "format":
                return self.format_str("{}", b, Tup(list(args)))
            if all(isinstance(a, Const) for a in args) and name in ("lower", "upper", "casefold", "startswith", "endswith", "strip", "title"):
                return Const(getattr(b.v, name)(*[a.v for a in args]))
            return unknown("str." + name)
        return unknown("method")

    def call_external(self, d, args, kwargs):
        last = d.split(".")[-1]
        if d in ERASE_FUNCS or (last == "mkvc"):
            if not args:
                return unknown(d)
            v = args[0]
            if isinstance(v, Tup):
                return self.stack(v)
            return v
        if d in ZERO_FUNCS or (last in ("Zero", "spzeros")):
            return ZERO
        if d in ONE_FUNCS or last in ("speye", "Identity"):
            return ONE
        if d in DIAG_FUNCS:
            return mk_diag(self.as_lin(args[0]))
        if d in DIAGINV_FUNCS:
            return mk_diag(power(self.as_lin(args[0]), -1))
        if d == "scipy.sparse.hstack":
            v = args[0]
            if isinstance(v, Tup) and not any(isinstance(x, Gen) for x in v.items):
                if len(v.items) == 1:
                    return self.as_lin(v.items[0])
                out, n = ZERO, len(v.items)
                for i, x in enumerate(v.items):
                    out = out + self.as_lin(x) * Lin.atom(Atom("E", (("pos", i, n),), True, False, "M"))
                return out
            return unknown("hstack")
        if d in STACK_FUNCS:
            return self.stack(args[0])
        if d == "numpy.real":
            return Lin.atom_raw(RE) * self.as_lin(args[0])
        if d == "numpy.imag":
            return Lin.atom_raw(RE) * (Lin.num(-1j) * self.as_lin(args[0]))
        if d in ("numpy.conj", "numpy.conjugate"):
            return Lin.atom_raw(CONJ) * self.as_lin(args[0])
        if d in ("numpy.dot", "numpy.matmul"):
            return self.binop(ast.MatMult(), args[0], args[1])
        if d == "numpy.multiply":
            return mul(self.as_lin(args[0]), self.as_lin(args[1]))
        if d in ("numpy.transpose",):
            return norm_diags(self.as_lin(args[0]).T())
        if d == "numpy.sum" and self.columns and isinstance(args[0], Lin) and kwargs.get("axis") in (Lin.num(-1), Lin.num(1)):
            return col(0, args[0]) + col(1, args[0])
        if d == "numpy.repeat" and self.columns and isinstance(args[0], Lin):
            return Lin({((), (col_atom(0, True),)): 1, ((), (col_atom(1, True),)): 1}) * args[0]
        if d == "numpy.full":
            return self.as_lin(args[1]) if len(args) > 1 else unknown("full")
        if d in ("numpy.sum",) and len(args) == 1 and not kwargs:
            if isinstance(args[0], Tup):
                return self.sum_list(args[0])
            return Lin.atom(Atom("sum", (self.as_lin(args[0]),), False, True, "S"))
        if d in ("numpy.ones", "numpy.ones_like"):
            return Lin.atom(Atom("ones", (), False, False, "V"))
        if d in ELEMENTWISE:
            ls = [self.as_lin(a) for a in args]
            if last == "sqrt" and len(ls) == 1:
                return power(ls[0], 0.5)
            cs = [l.const() for l in ls]
            if all(c is not None for c in cs) and len(cs) == 1 and hasattr(cmath, last):
                try:
                    return Lin.num(getattr(cmath, last)(cs[0]))
                except Exception:
                    pass
            return elementwise(last, tuple(ls))
        if d in ("numpy.linalg.norm",):
            return Lin.atom(Atom("norm", tuple(to_arg(a) for a in args) + tuple((k, to_arg(v)) for k, v in sorted(kwargs.items())), False, True, "S"))
        if d in ("numpy.inner", "numpy.vdot"):
            return Lin.atom(Atom("dot", tuple(sorted((self.as_lin(args[0]), self.as_lin(args[1])), key=repr)), False, True, "S"))
        if d == "functools.partial":
            return unknown("partial")
        if d.startswith("warnings.") or d.startswith("logging."):
            return NONE
        return self.opaque_call(("ext", d), args, kwargs)

    def sum_list(self, v):
        out = ZERO
        for x in v.items:
            if isinstance(x, Gen):
                out = out + self.sum_gen(x)
            else:
                out = out + self.as_lin(x)
        return out

    def sum_gen(self, g):
        if isinstance(g.val, Gen):
            return sigma(g.key) * self.sum_gen(g.val)
        return sigma(g.key) * self.as_lin(g.val)

    def call_builtin(self, name, args, kwargs, n, fr):
        if name == "isinstance":
            x, c = args
            return self.isinstance_(x, c)
        if name == "getattr":
            b, nm = args[0], args[1]
            if isinstance(nm, Lin):
                kc = self.known_const(nm)
                if kc is not None:
                    nm = Const(kc)
            if isinstance(nm, Const) and isinstance(nm.v, str):
                if len(args) == 3 and isinstance(b, Lin):
                    at = b.single_atom()
                    if (b, nm.v) in self.heap:
                        return self.heap[(b, nm.v)]
                    if nm.v.startswith("_") and not nm.v.endswith("Deriv"):
                        # memo idiom: analyse the computing path
                        if at is not None and at in self.types and self.p.lookup(self.types[at], nm.v):
                            pass
                        else:
                            return args[2]
                return self.getattr(b, nm.v, fr)
            if isinstance(nm, Lin) and isinstance(b, Lin):
                at = nm.single_atom()
                if at is not None and at.head in ("attr", "name") and (at.args[-1] in ("component",)):
                    for c in ("real", "imag"):
                        if self.decide(("eq", nm, Const(c))):
                            return self.getattr(b, c, fr)
                    raise PathRaise(n, "AttributeError")
                return Lin.atom(Atom("getattr", (b, nm)))
            if isinstance(nm, Lin):
                return unknown("getattr")
            return unknown("getattr")
        if name == "hasattr":
            b, nm = args
            if isinstance(nm, Const):
                if isinstance(b, Lin):
                    at = b.single_atom()
                    if (b, nm.v) in self.heap:
                        return Const(True)
                    if at is not None and at in self.types and self.p.lookup(self.types[at], nm.v):
                        return Const(True)
                    if nm.v.startswith("_"):
                        return Const(False)
                return Cond("hasattr", (to_arg(b), nm.v))
            return Cond("hasattr", (to_arg(b), to_arg(nm)))
        if name == "setattr":
            if isinstance(args[0], Lin) and isinstance(args[1], Const):
                self.heap[(args[0], args[1].v)] = args[2]
                self.effects.append(("setattr", args[0], args[1].v, args[2]))
            return NONE
        if name == "enumerate":
            it = args[0]
            info = self.iter_info(it)
            start = 0
            if info[0] == "concrete":
                return Tup([Tup([Lin.num(i), x]) for i, x in enumerate(info[1])], "list")
            if info[0] == "iter":
                iv = info[1]
                return IterV(iv.key, Tup([idx_of(iv.key), iv.elem]))
            if info[0] == "gen":
                return IterV(info[1], Tup([idx_of(info[1]), info[3]]))
            return unknown("enumerate")
        if name == "zip":
            infos = [self.iter_info(a) for a in args]
            if all(i[0] == "concrete" for i in infos):
                return Tup([Tup(list(t)) for t in zip(*[i[1] for i in infos])], "list")
            key = None
            elems = []
            for i in infos:
                if i[0] == "iter":
                    if key is None or rangekey(key):
                        key = i[1].key
                elif i[0] == "gen":
                    if key is None or rangekey(key):
                        key = i[1]
                elif i[0] == "concrete":
                    return unknown("zip")
                else:
                    return unknown("zip")
            for i in infos:
                if i[0] == "gen":
                    if i[1] != key:
                        return unknown("zip gen")
                    elems.append(i[3])
                elif rangekey(i[1].key):
                    elems.append(idx_of(key))
                elif i[1].key == key:
                    elems.append(i[1].elem)
                else:
                    b = i[1].key[1]
                    if i[1].key[0] == "iter" and isinstance(b, Lin) and b.single_atom() is not None:
                        elems.append(self.getitem_atom(b, idx_of(key)))
                    else:
                        elems.append(i[1].elem)
            return IterV(key, Tup(elems))
        if name == "range":
            cs = [a.const() if isinstance(a, Lin) else None for a in args]
            if all(c is not None for c in cs):
                try:
                    r = list(range(*[int(c.real) for c in cs]))
                except Exception:
                    return unknown("range")
                if len(r) <= 12:
                    return Tup([Lin.num(i) for i in r], "list")
            key = ("range",) + tuple(to_arg(a) for a in args)
            if len(args) == 1 and isinstance(args[0], Lin):
                at = args[0].single_atom()
                if at is not None and at.head == "len":
                    key = ("iter", at.args[0])
            return IterV(key, idx_of(key))
        if name == "reversed":
            info = self.iter_info(args[0])
            if info[0] == "concrete":
                return Tup(list(reversed(info[1])), "list")
            if info[0] == "iter":
                return info[1]
            return args[0]
        if name in ("list", "tuple", "sorted", "set"):
            if not args:
                return Tup([], "list" if name != "set" else "set")
            v = args[0]
            if isinstance(v, Tup):
                return Tup(list(v.items), "list" if name != "tuple" else "tuple")
            if isinstance(v, IterV):
                return Tup([Gen(v.key, v.elem, v.elem)], "list")
            return v
        if name == "dict":
            return Dct({Const(k): v for k, v in kwargs.items()})
        if name == "len":
            v = args[0]
            if isinstance(v, Tup) and not any(isinstance(x, Gen) for x in v.items):
                return Lin.num(len(v.items))
            if isinstance(v, Lin):
                return Lin.atom(Atom("len", (v,), False, True, "S"))
            return Lin.atom(Atom("len", (to_arg(v),), False, True, "S"))
        if name in ("float", "int", "complex", "abs") and len(args) == 1:
            if name == "abs":
                return elementwise("abs", (self.as_lin(args[0]),))
            if isinstance(args[0], Lin):
                return args[0]
            return unknown(name)
        if name == "sum":
            v = args[0]
            if isinstance(v, Tup):
                return self.sum_list(v)
            if isinstance(v, Lin):
                return Lin.atom(Atom("sum", (v,), False, True, "S"))
            return unknown("sum")
        if name == "print":
            return NONE
        if name == "bool":
            return args[0]
        if name == "type":
            return Lin.atom(Atom("type", tuple(to_arg(a) for a in args)))
        if name == "callable":
            return Cond("callable", (to_arg(args[0]),))
        if name == "str":
            return self.mkstr([args[0]]) if args else Const("")
        if name in ("Zero",):
            return ZERO
        if name == "map":
            return unknown("map")
        if name in ("any", "all") and args:
            return Cond(name, (to_arg(args[0]),))
        return self.opaque_call(Const(name), args, kwargs)

    def isinstance_(self, x, c):
        cn = []
        for t in c.items if isinstance(c, Tup) else [c]:
            if isinstance(t, ClassInfo):
                cn.append(t.name)
            elif isinstance(t, External):
                cn.append(t.dotted.split(".")[-1])
            elif isinstance(t, Builtin):
                cn.append(t.name)
            elif isinstance(t, Lin):
                cn.append(repr(t))
            else:
                cn.append(repr(t))
        if "Zero" in cn:
            if isinstance(x, Lin):
                if x.is_zero():
                    return Const(True)
                return Const(False)
            return Const(False)
        if isinstance(x, Const):
            py = {"str": str, "bool": bool, "int": int, "float": float}
            if all(k in py for k in cn):
                return Const(isinstance(x.v, tuple(py[k] for k in cn)))
        if isinstance(x, Tup) and set(cn) <= {"list", "tuple"}:
            return Const(x.kind in cn)
        return Cond("isinstance", (to_arg(x), tuple(sorted(cn))))


class Frame:
    def __init__(self, module, env, cls):
        self.module = module
        self.env = env
        self.cls = cls


class Builtin:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(("builtin", self.name))

    def __repr__(self):
        return self.name


class Method:
    def __init__(self, b, name):
        self.b = b
        self.name = name


class VirtM:
    def __init__(self, selfv, name, ent):
        self.selfv = selfv
        self.name = name
        self.ent = ent


class OpFn:
    def __init__(self, fn):
        self.fn = fn

    def apply(self, it, args, kwargs):
        return self.fn(it, args, kwargs)


class ExtSuper:
    def __init__(self, name):
        self.name = name


class IterV:
    def __init__(self, key, elem):
        self.key = key
        self.elem = elem

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, IterV) and o.key == self.key


class Cond:
    def __init__(self, op, args):
        self.op = op
        self.args = args

    def __eq__(self, o):
        return isinstance(o, Cond) and o.op == self.op and o.args == self.args

    def __hash__(self):
        return hash((self.op, tuple(hash(to_arg(a)) for a in self.args)))

    def __repr__(self):
        return f"{self.op}({', '.join(map(repr, self.args))})"


def is_api(name):
    return name in ADJOINT or (not name.startswith("_") and "Deriv" in name)


def rangekey(k):
    return k[0] == "range"


def elem_of(v):
    return Lin.atom(Atom("elem", (v,)))


def idx_of(key):
    return Lin.atom(Atom("idx", (key,), False, True, "S"))


def sigma(key):
    return Lin.atom(Atom("SUM", (key,), False, True, "S"))


def startup_alias(p, cls, name):
    """attribute set exactly once, in startup(), to an expression of self"""
    cache = getattr(p, "_startup", None)
    if cache is None:
        cache = p._startup = {}
    if cls.full not in cache:
        d = {}
        r = p.lookup(cls, "startup")
        if r and r[0] == "method":
            body = []
            todo, done = [r[1]], set()
            while todo:
                f = todo.pop()
                if f.node in done:
                    continue
                done.add(f.node)
                for st in f.node.body:
                    c = st.value if isinstance(st, (ast.Expr, ast.Return)) else None
                    if (
                        isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
                        and isinstance(c.func.value, ast.Name) and c.func.value.id == "self"
                    ):
                        r3 = p.lookup(cls, c.func.attr)
                        if r3 and r3[0] == "method":
                            todo.append(r3[1])
                    elif isinstance(st, ast.Assign):
                        body.append(st)
            for st in body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1:
                    t = st.targets[0]
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        names = {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)}
                        if names <= {"self"}:
                            d[t.attr] = (r[1], st.value)
        cache[cls.full] = d
    return cache[cls.full].get(name)


def domain_subject(key):
    if key[0] not in ("eq", "lt", "le") or len(key) != 3:
        return None
    for x in key[1:]:
        if isinstance(x, Lin):
            at = x.single_atom()
            if at is not None and at.head == "getitem" and isinstance(at.args[0], Lin):
                at = at.args[0].single_atom()
            if at is not None and at.head == "attr" and x.const() is None:
                return at
    return None


def domain_test(key, val):
    def ev(x):
        if isinstance(x, Const):
            return x.v
        c = x.const()
        if c is not None:
            return c.real
        at = x.single_atom()
        if at.head == "getitem":
            k = at.args[1]
            k = k.const() if isinstance(k, Lin) else None
            return val[int(k.real)] if k is not None else None
        return val

    try:
        a, b = ev(key[1]), ev(key[2])
        if a is None or b is None:
            return None
        return a == b if key[0] == "eq" else (a < b if key[0] == "lt" else a <= b)
    except Exception:
        return None


def setter_domain(p, cls, name):
    st = p.prop_slot(cls, name, "set")
    if st is None:
        return None
    for x in ast.walk(st.node):
        if isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] == "validate_string":
            e = None
            if len(x.args) >= 3:
                e = x.args[2]
            for k in x.keywords:
                if k.arg == "string_list":
                    e = k.value
            if isinstance(e, (ast.List, ast.Tuple)):
                out = []
                for y in e.elts:
                    if isinstance(y, (ast.Tuple, ast.List)) and y.elts:
                        y = y.elts[0]
                    if isinstance(y, ast.Constant) and isinstance(y.value, str):
                        out.append(y.value)
                    else:
                        return None
                if all(isinstance(y, ast.Constant) for y in e.elts) and isinstance(e, ast.Tuple) or True:
                    return tuple(out)
    return None


def half_slice(b, idx):
    """x[:len(x)/2] / x[len(x)/2:] -> first/second of two stacked blocks"""
    if not isinstance(idx, Slice):
        return None
    lo, hi, st = idx.t
    if st is not None:
        return None
    half = Lin.atom(Atom("len", (b,), False, True, "S")).scale(0.5)
    half2 = Lin.atom(Atom("attr", (b, "size"), False, True, "S")).scale(0.5)
    if lo is None and hi in (half, half2):
        return ("pos", 0, 2)
    if hi is None and lo in (half, half2):
        return ("pos", 1, 2)
    return None


def embed(idx):
    items = idx.items if isinstance(idx, Tup) else [idx]
    # survey_slices[src, rx]  ->  same key as data[src, rx]
    if len(items) == 1 and isinstance(items[0], Lin):
        at = items[0].single_atom()
        if at is not None and at.head == "getitem" and isinstance(at.args[1], tuple):
            return embed_key(at.args[1])
    return embed_key(tuple(to_arg(x) for x in items))


def embed_key(key):
    return Lin.atom(Atom("E", (key,), False, False, "M"))


def inverse(l):
    c = l.const()
    if c is not None and c != 0:
        return Lin.num(1 / c)
    lt = norm_diags(l.T())
    if lt == l:
        return Lin.atom(Atom("inv", (l,), False, True, "M"))
    # canonical: inv(A^T) = inv(A)^T
    if repr(lt) < repr(l):
        return Lin.atom(Atom("inv", (lt,), True, False, "M"))
    return Lin.atom(Atom("inv", (l,), False, False, "M"))


def phikind(l):
    k = kind_of(l)
    return k if k in ("V",) else "?"


def close_phi(v, name, depth, x0, key):
    """value after a generic loop for variable ``name`` with entry value x0"""
    if not isinstance(v, Lin):
        return v

    def isphi(a):
        return a.head == "phi" and a.args == (name, depth)

    phis = [a for a in v.atoms() if isphi(a)]
    if not phis:
        return v
    out = ZERO
    rest = ZERO
    nphi = 0
    for (s, f), c in v.d.items():
        w = Lin({(s, f): c})
        if not s and len(f) == 1 and isphi(f[0]) and c == 1:
            nphi += 1
            continue
        if any(isphi(a) for a in w.atoms()):
            # columnwise rewrite of the array: c * F * phi with phi right-most
            # and nowhere else (x[:, i] = F x[:, i])
            if f and isphi(f[-1]) and not any(
                isphi(a) for a in Lin({(s, f[:-1]): c}).atoms()
            ):
                rest = rest + Lin({(s, f[:-1]): c}) * x0
                nphi = -100
                continue
            return unknown(f"loop-carried {name}")
        rest = rest + w
    if nphi == 1:
        return x0 + sigma(key) * rest
    if nphi == -100 or nphi < 0:
        if nphi == -100:
            return rest
        return unknown(f"loop-carried {name}")
    return unknown(f"loop-carried {name}")


_STORED = {}


def stored_attrs(node):
    """attributes of self assigned in a function body"""
    k = id(node)
    if k not in _STORED:
        _STORED[k] = (node, {
            x.attr for x in ast.walk(node)
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
            and isinstance(x.value, ast.Name) and x.value.id == "self"
        })
    return _STORED[k][1]


def walk_own(node):
    """walk without entering nested functions/classes"""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))


def assigned_names(st):
    out = []
    for x in ast.walk(st):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            if x.id not in out:
                out.append(x.id)
        elif isinstance(x, ast.AugAssign) or isinstance(x, ast.Assign):
            tgs = x.targets if isinstance(x, ast.Assign) else [x.target]
            for t in tgs:
                b = t
                while isinstance(b, (ast.Subscript,)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id not in out:
                    out.append(b.id)
    return out


def load(t):
    import copy

    t = copy.copy(t)
    if hasattr(t, "ctx"):
        t.ctx = ast.Load()
    return t


def dotted(node):
    from .project import dotted_of

    return dotted_of(node)
