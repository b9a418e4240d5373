"""Formal differentiation of normal forms with respect to the model.

``D(l)`` differentiates a vector-valued normal form and returns the normal form
of (dl/dm) v, where v is the input atom.  Leaves that depend on the model are
the mass matrices of physical properties, the property vectors and source
terms; every leaf derivative is the operator the code base itself provides for
it (M..Deriv(u), ..Deriv, s_eDeriv, ..)."""

from .interp import MASS_RE, Interp, mk_diag, mul, norm_diags, power, elementwise, kind_of
from .masses import mass_property
from .terms import CONJ, IM_UNIT, ONE, RE, ZERO, Atom, Lin

V = Atom("input", ("v",), kind="V")
PROPS = ("sigma", "rho", "mu", "mui")


class NoDerivative(Exception):
    pass


class Deriv:
    def __init__(self, it, props, hook=None, inp=V):
        self.it = it
        self.props = set(props)
        self.hook = hook  # (self, atom, R, tail) -> Lin or None
        self.inp = Lin.atom(inp)
        self.memo = {}

    # does the atom depend on the model?
    def dep(self, x):
        k = x
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        r = self._dep(x)
        self.memo[k] = r
        return r

    def _dep(self, x):
        if isinstance(x, Lin):
            return any(self.dep(a) for (s, f) in x.d for a in [q for q, _ in s] + list(f))
        if isinstance(x, Atom):
            if self.hook is not None and self.hook(self, x, None, None) is not None:
                return True
            if x.head == "attr" and isinstance(x.args[1], str):
                n = x.args[1]
                mp = self.mass(x)
                if mp:
                    return mp[1] in self.props
                if n in self.props:
                    return True
                if n == "model":
                    return True
                return False
            return any(self.dep(y) for y in x.args)
        if isinstance(x, tuple):
            return any(self.dep(y) for y in x)
        return False

    def mass(self, a):
        if a.head == "attr" and isinstance(a.args[1], str) and MASS_RE.match(a.args[1]):
            mp = mass_property(a.args[1])
            if mp and mp[1]:
                return mp
        return None

    def D(self, l):
        out = ZERO
        for (s, f), c in l.d.items():
            for a, e in s:
                if self.dep(a):
                    raise NoDerivative(f"scalar {a!r}")
            for i, a in enumerate(f):
                if a is RE or a is CONJ or a is IM_UNIT or not self.dep(a):
                    continue
                L = Lin({(s, f[:i]): c})
                R = Lin({((), f[i + 1:]): 1 + 0j}) if i + 1 < len(f) else None
                out = out + L * self.datom(a, R)
        return norm_diags(out)

    def datom(self, a, R):
        if self.hook is not None:
            r = self.hook(self, a, R, True)
            if r is not None:
                return r
        if self.mass(a):
            if R is None:
                raise NoDerivative("matrix valued")
            n = a.args[1] + "Deriv"
            ft = Lin.atom(Atom("attr", (a.args[0], n)))
            return self.it.mk_op(ft, n, (("u", R),), "") * self.inp
        if a.head == "diag":
            if R is None:
                raise NoDerivative("matrix valued")
            return mul(mk_diag(R), self.D(a.args[0]))
        if a.head == "inv":
            A = a.args[0]
            if a.T:
                A = A.T()
            ai = Lin.atom_raw(a)
            return -(ai * self.D(A * (ai * R)))
        if a.head == "attr" and a.args[1] in self.props:
            d = self.it.getattr(a.args[0], a.args[1] + "Deriv")
            d = d * self.inp
            return d if R is None else self._el(R, d)
        if a.head == "let":
            d = self.D(a.args[0])
            return d if R is None else self._el(R, d)
        if R is not None and a.kind == "V":
            raise NoDerivative(f"product {a!r}")
        if a.head == "pow":
            x, n = a.args
            return mul(mk_diag(power(x, n - 1).scale(n)), self.D(x))
        if a.head == "exp":
            return mul(mk_diag(Lin.atom(a)), self.D(a.args[0]))
        if a.head == "log":
            return mul(mk_diag(power(a.args[0], -1)), self.D(a.args[0]))
        if a.head == "sin":
            return mul(mk_diag(elementwise("cos", a.args)), self.D(a.args[0]))
        if a.head == "cos":
            return -mul(mk_diag(elementwise("sin", a.args)), self.D(a.args[0]))
        if a.head == "arctan":
            x = a.args[0]
            return mul(mk_diag(power(ONE + power(x, 2), -1)), self.D(x))
        raise NoDerivative(repr(a)[:120])

    def _el(self, R, d):
        raise NoDerivative("vector in the middle of a word")
