"""Normal forms for values of the abstract interpreter.

``Lin`` is a formal sum of words over *factors* (non commutative) with a complex
coefficient and a commutative monomial of scalar atoms:

    Lin = { (scalars, factors) : coefficient }

Factors are hash-consed ``Atom`` objects.  Matrices, vectors and linear
operators are all factors; ``a * b`` / ``a @ b`` is concatenation, ``.T``
reverses a word.  The real part is a factor ``Re`` (idempotent); the imaginary
part is ``Re`` applied after multiplication by -1j, so that both have exact
transposes with respect to the bilinear form Re(x^T y)."""

UNKNOWN_HEADS = ("?",)


class Atom:
    __slots__ = ("head", "args", "T", "sym", "kind", "_h", "_r")
    _table = {}

    def __new__(cls, head, args=(), T=False, sym=False, kind="?"):
        key = (head, args, T, sym, kind)
        a = cls._table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.head = head
            a.args = args
            a.T = T and not sym
            a.sym = sym
            a.kind = kind
            a._h = hash((head, args, a.T))
            a._r = None
            if T and sym:
                b = Atom(head, args, False, sym, kind)
                cls._table[key] = b
                return b
            cls._table[key] = a
        return a

    def __eq__(self, o):
        return self is o or (
            isinstance(o, Atom)
            and self.head == o.head
            and self.args == o.args
            and self.T == o.T
        )

    def __hash__(self):
        return self._h

    def tr(self):
        if self.sym:
            return self
        if self.kind == "V" or self.kind == "S":
            return self
        return Atom(self.head, self.args, not self.T, self.sym, self.kind)

    def __repr__(self):
        return fmt_atom(self)

    def sortkey(self):
        return repr(self)


RE = Atom("Re", (), False, True, "M")
CONJ = Atom("Conj", (), False, True, "M")
IM_UNIT = Atom("i", (), False, True, "S")


def fmt_arg(a):
    if isinstance(a, Lin):
        return repr(a)
    if isinstance(a, tuple):
        return "(" + ",".join(fmt_arg(x) for x in a) + ")"
    return str(a)


def fmt_atom(a):
    if a._r is None:
        a._r = fmt_atom_(a)
    return a._r


def fmt_atom_(a):
    s = a.head if isinstance(a.head, str) else str(a.head)
    if a.head == "attr":
        s = f"{fmt_arg(a.args[0])}.{a.args[1]}"
    elif a.head == "call":
        s = f"{fmt_arg(a.args[0])}({', '.join(fmt_arg(x) for x in a.args[1:])})"
    elif a.head == "name":
        s = a.args[0]
    elif a.args:
        s += "(" + ", ".join(fmt_arg(x) for x in a.args) + ")"
    if a.T:
        s += "^T"
    return s


def _isreal(c):
    return abs(c.imag) == 0


def cround(c):
    c = complex(c)

    def r(x):
        if x == 0:
            return 0.0
        return float("%.12g" % x)

    return complex(r(c.real), r(c.imag))


def mul_scal(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e != 0), key=lambda t: repr(t)))


class Lin:
    __slots__ = ("d", "_h", "_r")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._r = None

    # -- constructors
    @staticmethod
    def num(c):
        c = complex(c)
        if c == 0:
            return ZERO
        return Lin({((), ()): cround(c)})

    @staticmethod
    def atom(a):
        if a.kind == "S":
            return Lin({(((a, 1),), ()): 1 + 0j})
        return Lin({((), (a,)): 1 + 0j})

    # -- queries
    def is_zero(self):
        return not self.d

    def const(self):
        """complex number if a pure number, else None"""
        if not self.d:
            return 0j
        if len(self.d) == 1:
            (k, c), = self.d.items()
            if k == ((), ()):
                return c
        return None

    def single_atom(self):
        if len(self.d) == 1:
            (k, c), = self.d.items()
            if c == 1:
                s, f = k
                if not s and len(f) == 1:
                    return f[0]
                if not f and len(s) == 1 and s[0][1] == 1:
                    return s[0][0]
        return None

    def is_scalar(self):
        return all(not f for (_, f) in self.d)

    def atoms(self):
        """all atoms, recursively"""
        seen = set()
        stack = [self]
        while stack:
            x = stack.pop()
            if isinstance(x, Lin):
                for (s, f) in x.d:
                    for a, _ in s:
                        stack.append(a)
                    stack.extend(f)
            elif isinstance(x, Atom):
                if x in seen:
                    continue
                seen.add(x)
                stack.extend(x.args)
            elif isinstance(x, (tuple, frozenset)):
                stack.extend(x)
        return seen

    def has_unknown(self):
        return any(a.head == "?" for a in self.atoms())

    # -- algebra
    def __add__(self, o):
        d = dict(self.d)
        for k, c in o.d.items():
            n = cround(d.get(k, 0) + c)
            if n == 0:
                d.pop(k, None)
            else:
                d[k] = n
        return Lin(d)

    def __neg__(self):
        return Lin({k: -c for k, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = complex(c)
        if c == 0:
            return ZERO
        return Lin({k: cround(v * c) for k, v in self.d.items()})

    def __mul__(self, o):
        out = {}
        for (s1, f1), c1 in self.d.items():
            # position of right-most Re / Conj in f1
            k = -1
            for i in range(len(f1) - 1, -1, -1):
                if f1[i] is RE or f1[i] is CONJ:
                    k = i
                    break
            for (s2, f2), c2 in o.d.items():
                s = mul_scal(s1, s2)
                if k < 0 or _isreal(c2):
                    parts = [(c1 * c2, f1 + f2)]
                else:
                    parts = []
                    if c2.real != 0:
                        parts.append((c1 * c2.real, f1 + f2))
                    if c2.imag != 0:
                        parts.append(
                            (c1 * c2.imag, f1[: k + 1] + (IM_UNIT,) + f1[k + 1:] + f2)
                        )
                for c, f in parts:
                    f, c = norm_word(f, c)
                    if f is None:
                        continue
                    key = (s, f)
                    n = cround(out.get(key, 0) + c)
                    if n == 0:
                        out.pop(key, None)
                    else:
                        out[key] = n
        return Lin(out)

    def T(self):
        out = {}
        for (s, f), c in self.d.items():
            # i-units sit right of Re; after reversal they move left of it
            nf = tuple(a.tr() for a in reversed(f))
            w = Lin.num(1)
            cc = c
            # a leading complex coefficient sits left of everything; after
            # transposition it must be applied first (right-most)
            if not _isreal(c) and any(a is RE or a is CONJ for a in f):
                acc = ONE
                for a in nf:
                    acc = acc * (Lin.num(1j) if a is IM_UNIT else Lin.atom_raw(a))
                acc = acc * Lin.num(c)
            else:
                acc = ONE
                for a in nf:
                    acc = acc * (Lin.num(1j) if a is IM_UNIT else Lin.atom_raw(a))
                acc = acc.scale(cc)
            for (s2, f2), c2 in acc.d.items():
                key = (mul_scal(s, s2), f2)
                n = cround(out.get(key, 0) + c2)
                if n == 0:
                    out.pop(key, None)
                else:
                    out[key] = n
        return Lin(out)

    @staticmethod
    def atom_raw(a):
        return Lin({((), (a,)): 1 + 0j})

    def inv_scalar(self):
        """1/self when self is a single scalar monomial, else None"""
        if len(self.d) != 1:
            return None
        (k, c), = self.d.items()
        s, f = k
        if f:
            return None
        return Lin({(tuple((a, -e) for a, e in s), ()): cround(1 / c)})

    def __eq__(self, o):
        if not isinstance(o, Lin):
            return False
        if self.d.keys() != o.d.keys():
            return False
        for k, c in self.d.items():
            c2 = o.d[k]
            if abs(c - c2) > 1e-9 * max(1.0, abs(c)):
                return False
        return True

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.keys()))
        return self._h

    def __repr__(self):
        if self._r is None:
            self._r = self.fmt()
        return self._r

    def fmt(self):
        if not self.d:
            return "0"
        out = []
        for (s, f), c in sorted(self.d.items(), key=lambda t: repr(t[0])):
            cs = ""
            if c == 1:
                cs = ""
            elif c == -1:
                cs = "-"
            elif c.imag == 0:
                cs = "%g*" % c.real
            elif c.real == 0:
                cs = "%gj*" % c.imag
            else:
                cs = "(%g%+gj)*" % (c.real, c.imag)
            parts = [
                (fmt_atom(a) if e == 1 else f"{fmt_atom(a)}^{e}") for a, e in s
            ] + [fmt_atom(a) for a in f]
            out.append(cs + ("·".join(parts) if parts else "1"))
        return " + ".join(out)


def norm_word(f, c):
    """word level rewriting: Re Re = Re, i-unit canonical position, Identity."""
    changed = True
    f = tuple(f)
    while changed:
        changed = False
        for i in range(len(f) - 1):
            a, b = f[i], f[i + 1]
            if a is RE and b is RE:
                f = f[:i] + f[i + 1:]
                changed = True
                break
            if a is CONJ and b is CONJ:
                f = f[:i] + f[i + 2:]
                changed = True
                break
            if a is RE and b is CONJ or (a is CONJ and b is RE):
                f = f[:i] + (RE,) + f[i + 2:]
                changed = True
                break
            if a is IM_UNIT and b is IM_UNIT:
                f = f[:i] + f[i + 2:]
                c = -c
                changed = True
                break
            # move i-unit left up to a Re/Conj
            if b is IM_UNIT and not (a is RE or a is CONJ or a is IM_UNIT):
                f = f[:i] + (b, a) + f[i + 2:]
                changed = True
                break
            if a is RE and b is IM_UNIT and i + 2 < len(f) and f[i + 2] is RE:
                return None, 0  # Re i Re = 0
            if inverse_pair(a, b):
                f = f[:i] + f[i + 2:]
                changed = True
                break
        if f and f[0] is IM_UNIT:
            f = f[1:]
            c = c * 1j
            changed = True
    return f, c


def inverse_pair(a, b):
    if a.head == "inv" and b.T == a.T:
        l = Lin.atom_raw(Atom(b.head, b.args, False, b.sym, b.kind))
        if a.args and a.args[0] == l:
            return True
    if b.head == "inv" and b.T == a.T:
        l = Lin.atom_raw(Atom(a.head, a.args, False, a.sym, a.kind))
        if b.args and b.args[0] == l:
            return True
    return False


ZERO = Lin({})
ONE = Lin({((), ()): 1 + 0j})
