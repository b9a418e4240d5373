"""Identity testing for expression graphs (see einterp).

A node denotes a function of its leaves.  Leaves get pseudo-random values over small index sets, opaque
matrices become pseudo-random operators, opaque functions pseudo-random functions with their own
derivative operators; a forward derivative part is carried along (formal differentiation).  Two nodes are
identified when they agree at several pseudo-random points (Schwartz-Zippel on the extracted terms).  The
analysed program is never evaluated; what is evaluated are the terms."""

import cmath
import hashlib
import math
import struct

from .interp import NONE, Cond, Const, Slice, Tup
from .terms import CONJ, IM_UNIT, RE, Atom, Lin

N = 12


class Und(Exception):
    """the term has no interpretation here"""


class Shape(Und):
    """operand kinds do not fit"""


class Du:
    __slots__ = ("a", "b")

    def __init__(self, a, b=0j):
        self.a = complex(a)
        self.b = complex(b)

    def __add__(self, o):
        return Du(self.a + o.a, self.b + o.b)

    def __sub__(self, o):
        return Du(self.a - o.a, self.b - o.b)

    def __mul__(self, o):
        return Du(self.a * o.a, self.a * o.b + self.b * o.a)

    def __truediv__(self, o):
        return Du(self.a / o.a, (self.b * o.a - self.a * o.b) / (o.a * o.a))

    def __neg__(self):
        return Du(-self.a, -self.b)

    def __repr__(self):
        return f"{self.a:.4g}~{self.b:.4g}"


Z = Du(0)


class BV(list):
    """boolean vector"""


class IV(list):
    """index vector (python ints)"""


class Op:
    """matrix: mv(list) and tv(list) (transposed product); dense arrays multiply element-wise with *"""

    def __init__(self, mv, tv, dense=False, rows=None, cols=None):
        self.mv, self.tv, self.dense, self.rows, self.cols = mv, tv, dense, rows, cols

    def T(self):
        return Op(self.tv, self.mv, self.dense, self.cols, self.rows)


class A2:
    """dense two-dimensional array given by its rows"""

    def __init__(self, rows):
        self.r = rows

    def T(self):
        return A2([list(c) for c in zip(*self.r)])

    @property
    def shape(self):
        return len(self.r), len(self.r[0])


class ND:
    """array of more dimensions, values in column-major order"""

    def __init__(self, shape, flat):
        self.shape, self.flat = tuple(shape), flat

    def strides(self):
        s, k = [], 1
        for n in self.shape:
            s.append(k)
            k *= n
        return s

    def newaxis(self, i):
        return ND(self.shape[:i] + (1,) + self.shape[i:], self.flat)

    def repeat(self, n, ax):
        ax = ax % len(self.shape)
        new = self.shape[:ax] + (self.shape[ax] * n,) + self.shape[ax + 1:]
        st = self.strides()
        out = []
        tot = 1
        for k in new:
            tot *= k
        for q in range(tot):
            o, r = 0, q
            for d, k in enumerate(new):
                i = r % k
                r //= k
                o += (i // n if d == ax else i) * st[d]
            out.append(self.flat[o])
        return ND(new, out)


def nd(x):
    if isinstance(x, ND):
        return x
    if isinstance(x, A2):
        return ND(x.shape, [x.r[i][j] for j in range(x.shape[1]) for i in range(x.shape[0])])
    if isinstance(x, list):
        return ND((len(x),), num_(x))
    raise Und("array expected")


def diag(v):
    def mv(x):
        if len(x) != len(v):
            raise Shape("diag")
        return [a * b for a, b in zip(v, x)]

    return Op(mv, mv, rows=len(v), cols=len(v))


EYE = Op(lambda x: x, lambda x: x)
ZOP = Op(lambda x: [Z] * len(x), lambda x: [Z] * len(x))


def a2op(a):
    def mv(x):
        n = a.shape[1]
        if len(x) < n:
            raise Shape("matvec")
        return [sumd([p * q for p, q in zip(r, x)]) for r in a.r]

    def tv(x):
        if len(x) != a.shape[0]:
            raise Shape("matvec")
        return [sumd([a.r[i][j] * x[i] for i in range(len(x))]) for j in range(a.shape[1])]

    return Op(mv, tv, True, *a.shape)


def sumd(l):
    s = Z
    for x in l:
        s = s + x
    return s


def chain(x, f, df):
    return Du(f(x.a), df(x.a) * x.b)


def rsqrt(z):
    return cmath.sqrt(z)


FUN1 = {
    "exp": (cmath.exp, cmath.exp),
    "log": (cmath.log, lambda z: 1 / z),
    "log10": (lambda z: cmath.log(z) / math.log(10), lambda z: 1 / z / math.log(10)),
    "sqrt": (cmath.sqrt, lambda z: 0.5 / cmath.sqrt(z)),
    "sin": (cmath.sin, cmath.cos),
    "cos": (cmath.cos, lambda z: -cmath.sin(z)),
    "tan": (cmath.tan, lambda z: 1 / cmath.cos(z) ** 2),
    "arctan": (cmath.atan, lambda z: 1 / (1 + z * z)),
    "arcsin": (cmath.asin, lambda z: 1 / cmath.sqrt(1 - z * z)),
    "arccos": (cmath.acos, lambda z: -1 / cmath.sqrt(1 - z * z)),
    "tanh": (cmath.tanh, lambda z: 1 / cmath.cosh(z) ** 2),
    "sinh": (cmath.sinh, cmath.cosh),
    "cosh": (cmath.cosh, cmath.sinh),
    "expit": (lambda z: 1 / (1 + cmath.exp(-z)), lambda z: cmath.exp(-z) / (1 + cmath.exp(-z)) ** 2),
    "logit": (lambda z: cmath.log(z / (1 - z)), lambda z: 1 / (z * (1 - z))),
    "square": (lambda z: z * z, lambda z: 2 * z),
    "reciprocal": (lambda z: 1 / z, lambda z: -1 / z / z),
    "negative": (lambda z: -z, lambda z: -1),
    "deg2rad": (lambda z: z * math.pi / 180, lambda z: math.pi / 180),
    "rad2deg": (lambda z: z / math.pi * 180, lambda z: 180 / math.pi),
}


def fun1(h, x):
    if h in FUN1:
        f, d = FUN1[h]
        return chain(x, f, d)
    if h == "abs":
        r = abs(x.a)
        return Du(r, (x.a.conjugate() * x.b).real / r if r else 0)
    if h == "sign":
        return Du(0 if x.a == 0 else math.copysign(1, x.a.real))
    if h == "real":
        return Du(x.a.real, x.b.real)
    if h == "imag":
        return Du(x.a.imag, x.b.imag)
    if h == "conj":
        return Du(x.a.conjugate(), x.b.conjugate())
    if h == "angle":
        return Du(cmath.phase(x.a), (x.b / x.a).imag)
    raise Und("function " + h)


def powd(x, y):
    if y.b == 0:
        e = y.a.real if y.a.imag == 0 else y.a
        if e == 2:
            return x * x
        return Du(x.a ** e, e * x.a ** (e - 1) * x.b if x.b != 0 else 0)
    v = x.a ** y.a
    return Du(v, v * (y.b * cmath.log(x.a) + y.a * x.b / x.a))


def fun2(h, x, y):
    if h == "power":
        return powd(x, y)
    if h == "arctan2":
        a, b = x.a.real, y.a.real
        d = a * a + b * b
        return Du(math.atan2(a, b), (b * x.b - a * y.b) / d)
    if h == "maximum":
        return x if x.a.real >= y.a.real else y
    if h == "minimum":
        return x if x.a.real <= y.a.real else y
    if h == "hypot":
        return fun1("sqrt", x * x + y * y)
    if h in ("greater_equal", "greater", "less", "less_equal", "equal", "not_equal"):
        a, b = x.a.real, y.a.real
        return {"greater_equal": a >= b, "greater": a > b, "less": a < b, "less_equal": a <= b, "equal": a == b, "not_equal": a != b}[h]
    raise Und("function " + h)


def ew(f, *xs):
    n = max([len(x) for x in xs if isinstance(x, list)] or [0])
    if n == 0:
        r = f(*xs)
        return r
    cols = []
    for x in xs:
        if isinstance(x, list):
            if len(x) == n:
                cols.append(x)
            elif len(x) == 1:
                cols.append(list(x) * n)
            else:
                raise Shape("broadcast")
        else:
            cols.append([x] * n)
    out = [f(*t) for t in zip(*cols)]
    return BV(out) if out and isinstance(out[0], bool) else out


INTS = {"nC", "n_cells", "nP", "nD", "size", "nF", "nE", "nN", "n_faces", "n_edges", "n_nodes", "npts"}


class Inst:
    """one pseudo-random point"""

    def __init__(self, seed, env, kinds=None, kindf=None, ints=None, hook=None):
        self.seed = seed
        self.env = env  # Atom -> value
        self.kinds = kinds or {}
        self.kindf = kindf or (lambda a: None)
        self.ints = ints or {}
        self.hook = hook
        self.linear = False  # unknown mappings are linear
        self.pointwise = False  # unknown mappings act on each element
        self.nmap = N  # number of outputs of an unknown mapping
        self.memo = {}
        self.unk = {}

    def rnd(self, *key):
        h = hashlib.sha1(f"{self.seed}|{key!r}".encode()).digest()
        return 0.2 + 0.65 * struct.unpack("<I", h[:4])[0] / 2**32

    def fixed(self, *key):
        """the same at every point: shapes depend on it"""
        s, self.seed = self.seed, "fixed"
        try:
            return self.rnd(*key)
        finally:
            self.seed = s

    # -- leaves
    def leaf(self, a, key=None, kind=None):
        k = kind or self.kinds.get(a) or self.kindf(a)
        rk = (repr(a), repr(key))
        if k is None:
            self.unk.setdefault(a, None)
            k = "V"
        if k == "S":
            return Du(self.rnd(*rk))
        if k == "Z":
            return Z
        if k == "V":
            return [Du(self.rnd(*rk, i)) for i in range(N)]
        if k == "B":
            return BV([self.fixed(*rk, i) > 0.5 for i in range(N)])
        if k == "I":
            return IV([int(self.fixed(*rk, i) * 997) % N for i in range(N)])
        if k == "i":
            return Du(N)
        if k == "M":
            return self.rop(rk, False)
        if k == "Sym":
            return self.rop(rk, True)
        if k == "D":
            return diag([Du(self.rnd(*rk, i)) for i in range(N)])
        raise Und("kind " + str(k))

    def rop(self, rk, sym, nrows=None):
        R = {}

        def mv(x, t=False):
            n = len(x)
            m = N if nrows is None or t else nrows

            def e(i, j):
                if t:
                    i, j = j, i
                if sym and i > j:
                    i, j = j, i
                k = (i, j)
                if k not in R:
                    R[k] = self.rnd(*rk, i, j)
                return R[k]

            out = []
            for i in range(m):
                s = Z
                for j in range(n):
                    c = e(i, j)
                    s = s + Du(c * x[j].a, c * x[j].b)
                out.append(s)
            return out

        return Op(lambda x: mv(x), lambda x: mv(x, True))

    # -- evaluation
    def ev(self, l):
        if not isinstance(l, Lin):
            if isinstance(l, Const):
                if isinstance(l.v, (bool, int, float)):
                    return Du(l.v)
                raise Und("constant " + repr(l.v)[:40])
            if isinstance(l, tuple):
                return self.r_([self.ev(x) for x in l])
            if isinstance(l, Cond):
                return self.cond(l)
            raise Und(type(l).__name__)
        if not l.d:
            return Z
        k = l
        if k in self.memo:
            return self.memo[k]
        out = None
        for (s, f), c in l.d.items():
            v = Du(c)
            for a, e in s:
                v = self.star(v, powd(self.num(self.atom(a)), Du(e)))
            if f:
                w = None
                for a in reversed(f):
                    if a is RE:
                        w = ew(lambda x: fun1("real", x), w)
                        continue
                    if a is CONJ:
                        w = ew(lambda x: fun1("conj", x), w)
                        continue
                    if a is IM_UNIT:
                        w = self.star(Du(1j), w)
                        continue
                    x = self.atom(a)
                    w = x if w is None else self.star(x, w)
                v = w if v.a == 1 and v.b == 0 else self.star(v, w)
            out = v if out is None else self.add(out, v)
        self.memo[k] = out
        return out

    def cond(self, c):
        if c.op in ("lt", "le", "eq", "ne", "gt", "ge") and len(c.args) == 2:
            a, b = [num_(self.ev(x)) for x in c.args]
            f = {"lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "eq": lambda x, y: x == y, "ne": lambda x, y: x != y,
                 "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y}[c.op]
            r = ew(lambda x, y: f(x.a.real, y.a.real), a, b)
            return r if isinstance(r, list) else Du(int(r))
        if c.op == "not" and len(c.args) == 1:
            r = self.cond(c.args[0]) if isinstance(c.args[0], Cond) else self.ev(c.args[0])
            if isinstance(r, BV):
                return BV([not x for x in r])
        raise Und("condition as a value")

    def num(self, v):
        if isinstance(v, Du):
            return v
        if isinstance(v, list) and len(v) == 1:
            return v[0]
        raise Shape("number expected")

    def int(self, v):
        v = self.ev(v) if not isinstance(v, Du) else v
        x = self.num(v).a.real
        if abs(x - round(x)) > 1e-9:
            raise Und("index is not an integer")
        return int(round(x))

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        r = self.atom_(a)
        self.memo[a] = r
        return r

    def atom_(self, a):
        base = Atom(a.head, a.args, False, a.sym, a.kind) if a.T else a
        if base in self.env:
            v = self.env[base]
        elif self.hook is not None and (r := self.hook(self, base)) is not None:
            v = r
        elif base.head == "e":
            v = self.node(base.args)
        elif base.head == "attr" and base.args[1] in INTS:
            v = Du(self.ints.get(base.args[1], N))
        elif base.head == "const":
            v = Du(self.rnd("const", repr(base.args)))
        elif base.head == "cond":
            raise Und("condition as a value")
        elif base.head == "?":
            raise Und("unknown: " + str(base.args[0]))
        elif base.head == "call":
            v = self.call(base)
        elif base.head in ("attr", "name", "input", "global", "elem"):
            v = self.leaf(base)
        else:
            raise Und("term " + base.head)
        return self.T(v) if a.T else v

    def call(self, a):
        """opaque call: uninterpreted; independent of the variables unless an argument depends on them"""
        f = a.args[0].single_atom() if isinstance(a.args[0], Lin) else None
        if f is not None and f.head == "e" and f.args[0] == "x" and f.args[1].split(".")[-1] in ("UnivariateSpline", "interp1d"):
            # interpolation: linear in the ordinates
            x, y = f.args[2][0], num_(self.ev(f.args[2][1]))
            k = ("spline", repr(x), repr(f.args[2][2:]), repr(f.args[3]), repr(a.args[1:]), len(y))
            if self.depends((x, f.args[2][2:], f.args[3], a.args[1:])):
                raise Und("spline of a value that varies")
            return self.rop(k, False).mv(y)
        if self.depends(a.args):
            raise Und("uninterpreted call of a value that varies: " + repr(a)[:60])
        return self.leaf(a)

    def depends(self, x):
        seen = set()
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, Lin):
                for (s, f) in y.d:
                    st.extend(q for q, _ in s)
                    st.extend(f)
            elif isinstance(y, Atom):
                if y in seen:
                    continue
                seen.add(y)
                if y in self.env and self.env[y] is not None and self.varies(self.env[y]):
                    return True
                st.extend(y.args)
            elif isinstance(y, (tuple, list)):
                st.extend(y)
            elif isinstance(y, Slice):
                st.extend(z for z in y.t if z is not None)
        return False

    def varies(self, v):
        if isinstance(v, Du):
            return v.b != 0
        if isinstance(v, list):
            return any(isinstance(x, Du) and x.b != 0 for x in v)
        return isinstance(v, Op)

    # -- algebra
    def T(self, v):
        if isinstance(v, (Op, A2)):
            return v.T()
        return v

    def op(self, v):
        if isinstance(v, A2):
            return a2op(v)
        if isinstance(v, Op):
            return v
        raise Shape("matrix expected")

    def add(self, a, b, sg=1):
        if isinstance(a, Du) and a.a == 0 and a.b == 0:
            return b if sg == 1 else self.neg(b)
        if isinstance(b, Du) and b.a == 0 and b.b == 0:
            return a
        if isinstance(a, A2) and isinstance(b, A2):
            return A2([ew(lambda x, y: x + y if sg == 1 else x - y, p, q) for p, q in zip(a.r, b.r)])
        if isinstance(a, (Op, A2)) or isinstance(b, (Op, A2)):
            A, B = self.op(a), self.op(b)
            f = (lambda x, y: x + y) if sg == 1 else (lambda x, y: x - y)
            return Op(lambda x: ew(f, A.mv(x), B.mv(x)), lambda x: ew(f, A.tv(x), B.tv(x)), A.dense and B.dense)
        return ew((lambda x, y: x + y) if sg == 1 else (lambda x, y: x - y), num_(a), num_(b))

    def neg(self, a):
        return self.star(Du(-1), a)

    def scale(self, s, A):
        return Op(lambda x: [s * y for y in A.mv(x)], lambda x: [s * y for y in A.tv(x)], A.dense, A.rows, A.cols)

    def star(self, a, b):
        if isinstance(a, A2) or isinstance(b, A2):
            if isinstance(a, Du) and isinstance(b, A2):
                return A2([[a * x for x in r] for r in b.r])
            if isinstance(b, Du) and isinstance(a, A2):
                return A2([[b * x for x in r] for r in a.r])
            if isinstance(a, Op) and not a.dense:
                return self.mat(a, b)
            if isinstance(a, A2) and type(b) is list and len(b) == a.shape[1]:
                return A2([[x * y for x, y in zip(r, b)] for r in a.r])
            if isinstance(b, A2) and type(a) is list and len(a) == b.shape[1]:
                return A2([[x * y for x, y in zip(r, a)] for r in b.r])
            raise Und("element-wise product of two-dimensional arrays")
        if isinstance(a, Op) or isinstance(b, Op):
            if isinstance(a, Du):
                return self.scale(a, b)
            if isinstance(b, Du):
                return self.scale(b, a)
            if isinstance(a, Op) and a.dense or isinstance(b, Op) and b.dense and not isinstance(a, Op):
                raise Und("element-wise product with a dense matrix")
            return self.mat(a, b)
        return ew(lambda x, y: x * y, num_(a), num_(b))

    def mat(self, a, b):
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                raise Shape("dot")
            return sumd([x * y for x, y in zip(num_(a), num_(b))])
        if isinstance(a, Du) or isinstance(b, Du):
            return self.star(a, b)
        if isinstance(a, list):
            return self.op(b).tv(a)
        if isinstance(b, list):
            return self.op(a).mv(num_(b))
        if isinstance(b, A2) and isinstance(a, (Op, A2)):
            A = self.op(a)
            return A2([A.mv(c) for c in b.T().r]).T()
        A, B = self.op(a), self.op(b)
        return Op(lambda x: A.mv(B.mv(x)), lambda x: B.tv(A.tv(x)), A.dense and B.dense)

    def r_(self, xs):
        out = []
        for x in xs:
            if isinstance(x, Du):
                out.append(x)
            elif isinstance(x, list):
                out.extend(num_(x))
            else:
                raise Shape("concatenation")
        return out

    # -- nodes
    def node(self, a):
        h = a[0]
        if h == "+":
            return self.add(self.ev(a[1]), self.ev(a[2]))
        if h == "-":
            return self.add(self.ev(a[1]), self.ev(a[2]), -1)
        if h == "neg":
            return self.neg(self.ev(a[1]))
        if h == "*":
            return self.star(self.ev(a[1]), self.ev(a[2]))
        if h == "e*":
            x, y = self.ev(a[1]), self.ev(a[2])
            if isinstance(x, (Op, A2)) or isinstance(y, (Op, A2)):
                raise Und("multiply")
            return self.star(x, y)
        if h == "@":
            return self.mat(self.ev(a[1]), self.ev(a[2]))
        if h == "/":
            x, y = self.ev(a[1]), self.ev(a[2])
            if isinstance(y, (Op, A2)):
                raise Shape("division by a matrix")
            inv = ew(lambda q: Du(1) / q, num_(y))
            if isinstance(x, (Op, A2)):
                if isinstance(inv, list):
                    raise Und("row scaling")
                return self.star(inv, x)
            return ew(lambda p, q: p / q, num_(x), num_(y))
        if h == "**":
            x, y = self.ev(a[1]), self.ev(a[2])
            if isinstance(x, A2) and isinstance(y, Du):
                return A2([[powd(p, y) for p in r] for r in x.r])
            if isinstance(x, (Op, A2)) or isinstance(y, (Op, A2)):
                raise Und("power of a matrix")
            return ew(powd, num_(x), num_(y))
        if h == "T":
            return self.T(self.ev(a[1]))
        if h == "f":
            return self.fn(a[1], [self.ev(x) for x in a[2:]])
        if h == "diag":
            x = self.ev(a[1])
            if isinstance(x, Du):
                return self.scale(x, EYE)
            if isinstance(x, (Op, A2)):
                raise Und("diagonal of a matrix")
            return diag(num_(x))
        if h == "eye":
            return EYE
        if h == "sparse":
            x = self.ev(a[1])
            if isinstance(x, list):
                return A2([num_(x)])
            if isinstance(x, A2):
                o = a2op(x)
                o.dense = False
                return o
            return x
        if h == "mkvc":
            x = self.ev(a[1])
            if isinstance(x, A2):
                return [x.r[i][j] for j in range(x.shape[1]) for i in range(x.shape[0])]
            if isinstance(x, Du):
                return [x]
            if isinstance(x, Op):
                raise Und("mkvc of a matrix")
            if isinstance(x, ND):
                return x.flat
            return x
        if h == "cat":
            return self.cat(a[1], [self.ev(x) for x in a[2]])
        if h == "list":
            xs = [self.ev(x) for x in a[1]]
            if xs and all(isinstance(x, list) for x in xs):
                return A2([num_(x) for x in xs])
            if all(isinstance(x, Du) for x in xs):
                return xs
            raise Und("list of mixed values")
        if h == "idx":
            at = a[1].single_atom() if isinstance(a[1], Lin) else None
            if at is not None and at.head == "e" and at.args[0] == "f" and at.args[1] == "where" and len(at.args) == 3:
                x = self.ev(at.args[2])
                if isinstance(x, BV) and isinstance(a[2], Lin) and a[2].const() == 0:
                    return IV([i for i, t in enumerate(x) if t])
                raise Und("where")
            if at is not None and at.head == "attr" and at.args[1] == "h" and isinstance(a[2], Lin) and a[2].const() is not None:
                return self.leaf(Atom("e", a), kind="V")
            return self.idx(self.ev_base(a[1], a[2]), a[2], a[1])
        if h == "set":
            return self.set(self.ev(a[1]), a[2], self.ev(a[3]))
        if h == "zeros" and len(a[1]) == 1 and isinstance(a[1][0], Lin) and is_like(a[1][0]):
            x = self.ev(a[1][0])
            if isinstance(x, A2):
                return A2([[Z] * len(r) for r in x.r])
        if h == "zeros":
            return self.shaped(a[1][0] if a[1] else None, Z)
        if h == "ones":
            return self.shaped(a[1], Du(1))
        if h == "full":
            return self.shaped(a[1], self.num(self.ev(a[2])))
        if h == "ones_like":
            x = self.ev(a[1])
            return [Du(1)] * len(x) if isinstance(x, list) else Du(1)
        if h == "red":
            return self.red(a[1], self.ev(a[2]), a[3])
        if h == "len":
            x = self.ev(a[1])
            if isinstance(x, list):
                return Du(len(x))
            if isinstance(x, A2):
                return Du(x.shape[0])
            raise Und("len")
        if h == "attr":
            return self.shape_attr(a[1], self.ev(a[2]))
        if h == "outer":
            x, y = num_(self.ev(a[1])), num_(self.ev(a[2]))
            return A2([[p * q for q in y] for p in x])
        if h == "diagonal":
            o = self.op(self.ev(a[1]))
            n = o.rows or o.cols or N
            return [o.mv([Du(1) if i == j else Z for i in range(n)])[j] for j in range(n)]
        if h == "mapply":
            return self.mapply(a[1], self.ev(a[2]))[0]
        if h == "mderiv":
            return self.mapply(a[1], self.ev(a[2]))[1]
        if h == "coo":
            return self.coo(a)
        if h == "arange":
            if len(a) == 2:
                return IV(range(self.int(a[1])))
            raise Und("arange")
        if h == "m":
            return self.meth(a[1], self.ev(a[2]), a[3], dict(a[4]) if a[4] else {})
        if h == "x":
            return self.ext(a)
        if h == "wire":
            i, k, x = self.int(a[1]), self.int(a[2]), self.ev(a[3])
            if not isinstance(x, list) or len(x) % k:
                raise Shape("wires")
            n = len(x) // k
            return x[i * n:(i + 1) * n]
        if h == "Mod":
            return ew(lambda x, y: Du(x.a.real % y.a.real, x.b), num_(self.ev(a[1])), num_(self.ev(a[2])))
        if h in ("FloorDiv", "Mod"):
            x, y = self.num(self.ev(a[1])), self.num(self.ev(a[2]))
            return Du(x.a.real // y.a.real if h == "FloorDiv" else x.a.real % y.a.real)
        raise Und("node " + h)

    def mapply(self, mp, x):
        """an unknown differentiable mapping at x: (value with derivative, derivative operator)"""
        if isinstance(x, Du):
            x = [x]
        if not isinstance(x, list):
            raise Shape("map of a matrix")
        if self.linear:
            D = self.rop(("linear map", repr(mp)), False, self.nmap)
            return D.mv(x), D
        if self.pointwise:
            k = [(repr(mp), "%.10g" % y.a.real) for y in x]
            D = diag([Du(self.rnd("pointwise deriv", *q)) for q in k])
            return [Du(self.rnd("pointwise", *q), d.a) for q, d in zip(k, D.mv([Du(y.b) for y in x]))], D
        key = (repr(mp), tuple("%.10g" % y.a.real for y in x))
        val = [self.rnd("map", *key, i) for i in range(self.nmap)]
        D = self.rop(("mapderiv",) + key, False, self.nmap)
        dx = D.mv([Du(y.b) for y in x])
        return [Du(p, q.a) for p, q in zip(val, dx)], D

    def coo(self, a):
        d = self.ev(a[1])
        i, j = a[2], a[3]
        if isinstance(i, tuple) and i and i[0] == "iter" and isinstance(i[1], tuple) and i[1][0] in ("range", "iter"):
            J = self.ev(j) if not isinstance(j, list) else j
            J = IV(int(round(x.a.real)) if isinstance(x, Du) else int(x) for x in J)
            if not isinstance(d, list) or len(d) != len(J):
                raise Und("coo data")

            def mv(x):
                return [p * x[k] for p, k in zip(d, J)]

            def tv(y):
                out = [Z] * (max(max(J) + 1, N))
                for p, k, q in zip(d, J, y):
                    out[k] = out[k] + p * q
                return out

            return Op(mv, tv, rows=len(J), cols=max(J) + 1)
        raise Und("coo")

    def ev_base(self, l, key):
        """leaves indexed by columns: independent vectors"""
        at = l.single_atom() if isinstance(l, Lin) else None
        if at is not None and at.head in ("attr", "name", "call") and at not in self.env and isinstance(key, tuple) and len(key) == 2:
            if isinstance(key[1], Lin) and key[1].const() is not None:
                k = self.kinds.get(at) or self.kindf(at)
                if k is None:
                    return ("cols", at)
        return self.ev(l)

    def idx(self, b, key, src=None):
        if isinstance(b, tuple) and b[0] == "cols":
            col = [Du(self.rnd(repr(b[1]), "col", repr(key[1]), i)) for i in range(N)]
            r = key[0]
            if isinstance(r, Slice) and r.full():
                return col
            return self.pick(col, r)
        if isinstance(b, (A2, ND)) and isinstance(key, tuple) and sum(isinstance(k, Const) and k.v is None for k in key) == 1 and all(
            isinstance(k, Const) and k.v is None or isinstance(k, Slice) and k.full() for k in key
        ):
            return nd(b).newaxis([isinstance(k, Const) for k in key].index(True))
        if isinstance(b, A2):
            if isinstance(key, tuple) and len(key) == 2:
                r, c = key
                rows = self.rowsel(b.r, r)
                if isinstance(rows, list) and rows and isinstance(rows[0], Du):
                    return self.pick(rows, c)
                cc = [self.pick(x, c) for x in rows]
                return A2(cc) if cc and isinstance(cc[0], list) else cc
            rows = self.rowsel(b.r, key)
            return rows if rows and isinstance(rows[0], Du) else A2(rows)
        if isinstance(b, Op):
            if isinstance(key, tuple) and len(key) == 2:
                sel = [None if isinstance(k, Slice) and k.full() else self.ev(k) for k in key]
                ix = []
                for s in sel:
                    if isinstance(s, BV):
                        ix.append([i for i, t in enumerate(s) if t])
                    elif isinstance(s, IV):
                        ix.append(list(s))
                    elif s is None:
                        ix.append(None)
                    else:
                        raise Und("index of a matrix")
                r, c = ix
                n = b.cols or N
                m = b.rows or N

                def ins(x, ii, k):
                    if ii is None:
                        return x
                    if len(x) != len(ii):
                        raise Shape("columns of a matrix")
                    o = [Z] * k
                    for i, y in zip(ii, x):
                        o[i] = o[i] + y
                    return o

                def out(x, ii):
                    return x if ii is None else [x[i] for i in ii]

                return Op(lambda x: out(b.mv(ins(x, c, n)), r), lambda x: out(b.tv(ins(x, r, m)), c), b.dense)
            raise Und("index of a matrix")
        if isinstance(key, tuple):
            ks = [k for k in key if not (isinstance(k, Const) and k.v in (None, Ellipsis))]
            if len(ks) == 1:
                if isinstance(b, Du):
                    return b
                if any(isinstance(k, Const) and k.v is None for k in key):
                    if isinstance(ks[0], Slice) and ks[0].full():
                        i = [isinstance(k, Const) for k in key].index(True)
                        return nd(b).newaxis(i)
                    raise Und("new axis")
                return self.pick(b, ks[0])
            raise Und("two-dimensional index of a vector")
        if isinstance(b, Du):
            raise Shape("index of a number")
        return self.pick(b, key)

    def rowsel(self, rows, k):
        if isinstance(k, Slice):
            return rows[self.slice(k, len(rows))]
        if isinstance(k, Lin) and k.const() is not None:
            return rows[int(k.const().real)]
        s = self.ev(k)
        if isinstance(s, BV):
            return [r for r, t in zip(rows, s) if t]
        raise Und("row selection")

    def slice(self, s, n):
        lo, hi, st = [None if x is None else self.int(x) for x in s.t]
        return slice(lo, hi, st)

    def pick(self, v, k):
        if isinstance(k, Slice):
            return v[self.slice(k, len(v))] if not isinstance(v, BV) else BV(v[self.slice(k, len(v))])
        if isinstance(k, Const):
            if k.v in (None, Ellipsis):
                return v
            if isinstance(k.v, int):
                return v[k.v]
        s = self.ev(k)
        if isinstance(s, BV):
            if len(s) != len(v):
                raise Shape("mask")
            return [x for x, t in zip(v, s) if t]
        if isinstance(s, IV):
            return [v[i] for i in s]
        if isinstance(s, Du):
            i = self.int(s)
            if not -len(v) <= i < len(v):
                raise Shape("index out of range")
            return v[i]
        raise Und("index kind")

    def set(self, b, key, v):
        if isinstance(key, tuple):
            if len(key) == 2 and isinstance(key[0], Slice) and key[0].full():
                j = self.int(key[1])
                if b is ZOP:
                    raise Und("two-dimensional store")
                if isinstance(b, A2):
                    rows = [list(r) for r in b.r]
                    col = v if isinstance(v, list) else [v] * len(rows)
                    if len(col) != len(rows):
                        raise Shape("store")
                    for r, x in zip(rows, col):
                        r[j] = x
                    return A2(rows)
            raise Und("two-dimensional store")
        if isinstance(key, Slice):
            if isinstance(b, Du):
                raise Und("store")
            b = list(b)
            s = self.slice(key, len(b))
            n = len(b[s])
            b[s] = v if isinstance(v, list) else [v] * n
            return b
        s = self.ev(key)
        if isinstance(b, A2) and isinstance(s, BV):
            if len(s) != b.shape[0]:
                raise Shape("mask")
            src = iter(v.r) if isinstance(v, A2) else None
            if src is None and not isinstance(v, Du):
                raise Und("store")
            out = [list(next(src)) if t and src is not None else [v] * len(r) if t else r for r, t in zip(b.r, s)]
            return A2(out)
        if isinstance(s, BV):
            b = [b] * len(s) if isinstance(b, Du) else list(b)
            it = iter(v if isinstance(v, list) else [v] * len(s))
            for i, t in enumerate(s):
                if t:
                    b[i] = next(it)
            return b
        if isinstance(s, IV):
            b = [b] * N if isinstance(b, Du) else list(b)
            vs = v if isinstance(v, list) else [v] * len(s)
            for i, x in zip(s, vs):
                b[i] = x
            return b
        if isinstance(s, Du) and isinstance(b, list):
            b = list(b)
            b[self.int(s)] = v
            return b
        raise Und("store")

    def shaped(self, sh, val):
        if sh is None:
            return val
        if isinstance(sh, tuple):
            if len(sh) == 2 and all(isinstance(x, Lin) for x in sh):
                try:
                    n, m = self.int(sh[0]), self.int(sh[1])
                except Und:
                    return ZOP if val.a == 0 else self.fail("shape")
                return A2([[val] * m for _ in range(n)])
            if len(sh) == 1:
                sh = sh[0]
            else:
                raise Und("shape")
        if isinstance(sh, Lin):
            at = sh.single_atom()
            if at is not None and (at.head == "e" and at.args[0] == "attr" or at.head == "attr" and at.args[1] in ("shape", "size")):
                src = at.args[2] if at.head == "e" else at.args[0]
                x = self.ev(src)
                if isinstance(x, list):
                    return [val] * len(x)
                raise Und("shape")
            x = self.ev(sh)
            if isinstance(x, list) and not isinstance(x, (BV, IV)) and not all(abs(q.a - round(q.a.real)) < 1e-9 for q in x):
                return [val] * len(x)
            return [val] * self.int(x) if isinstance(x, Du) else self.fail("shape")
        raise Und("shape")

    def fail(self, why):
        raise Und(why)

    def shape_attr(self, n, v):
        if n == "size":
            if isinstance(v, list):
                return Du(len(v))
            if isinstance(v, A2):
                return Du(v.shape[0] * v.shape[1])
        if n == "ndim":
            return Du(1 if isinstance(v, list) else 2)
        if n == "shape":
            if isinstance(v, list):
                return [Du(len(v))]
            if isinstance(v, A2):
                return [Du(x) for x in v.shape]
        raise Und("attr " + n)

    def red(self, h, x, opts):
        if isinstance(x, A2) and opts:
            o = dict(q if isinstance(q, tuple) and len(q) == 2 else ("axis", q) for q in opts)
            ax = o.get("axis")
            ax = int(ax.const().real) if isinstance(ax, Lin) and ax.const() is not None else None
            if h == "norm" and ax in (0, 1, -1) and set(o) <= {"axis"}:
                return [self.red("norm", r, ()) for r in (x.r if ax in (1, -1) else x.T().r)]
            if h == "sum" and ax in (0, 1, -1) and set(o) <= {"axis"}:
                return [sumd(r) for r in (x.r if ax in (1, -1) else x.T().r)]
            raise Und("reduction")
        if isinstance(x, A2):
            x = [y for r in x.r for y in r]
        if isinstance(x, Du):
            x = [x]
        if isinstance(x, BV):
            x = num_(x)
        if not isinstance(x, list):
            raise Und("reduction of a matrix")
        if opts and not all(q == ("axis", Lin.num(0)) or q == Lin.num(0) for q in opts):
            if h == "norm" and all(q in (Lin.num(2), ("ord", Lin.num(2))) for q in opts):
                pass
            else:
                raise Und("reduction")
        if h == "sum":
            return sumd(x)
        if h == "mean":
            return sumd(x) / Du(len(x))
        if h == "prod":
            p = Du(1)
            for y in x:
                p = p * y
            return p
        if h in ("max", "amax"):
            return max(x, key=lambda y: y.a.real)
        if h in ("min", "amin"):
            return min(x, key=lambda y: y.a.real)
        if h == "norm":
            return fun1("sqrt", sumd([fun1("abs", y) * fun1("abs", y) for y in x]))
        raise Und("reduction " + h)

    def cat(self, h, xs):
        if h in ("svstack", "shstack"):
            xs = [x for x in xs if not (isinstance(x, A2) and not x.r)]
            if len(xs) == 1:
                return xs[0]
        if h == "r_" or h == "r":
            if xs and all(isinstance(x, A2) for x in xs):
                if h == "r":
                    return A2([sum((x.r[i] for x in xs), []) for i in range(xs[0].shape[0])])
                return A2([r for x in xs for r in x.r])
            return self.r_(xs)
        if h in ("c_", "rows"):
            cols = []
            n = max([len(x) for x in xs if isinstance(x, list)] or [1])
            ops = []
            for x in xs:
                if isinstance(x, Du):
                    if h == "rows" and n != 1:
                        raise Shape("rows")
                    cols.append([x] * n if n == 1 else None)
                    if cols[-1] is None:
                        raise Shape("columns")
                elif isinstance(x, list):
                    cols.append(num_(x))
                elif isinstance(x, A2):
                    if h == "rows":
                        cols.extend(x.r)
                    else:
                        cols.extend(x.T().r)
                else:
                    raise Und("columns")
            if len({len(c) for c in cols}) != 1:
                raise Shape("columns")
            a = A2(cols)
            return a if h == "rows" else a.T()
        if h == "svstack":
            ops = [self.op(x) for x in xs]

            def mv(x):
                return [y for o in ops for y in o.mv(x)]

            def tv(x):
                k = len(x) // len(ops)
                if k * len(ops) != len(x):
                    raise Shape("vstack")
                out = None
                for i, o in enumerate(ops):
                    y = o.tv(x[i * k:(i + 1) * k])
                    out = y if out is None else ew(lambda p, q: p + q, out, y)
                return out

            return Op(mv, tv)
        if h == "shstack":
            return self.cat("svstack", [self.op(x).T() for x in xs]).T()
        if h == "sbd":
            ops = [self.op(x) for x in xs]

            def run(x, t):
                k = len(x) // len(ops)
                if k * len(ops) != len(x):
                    raise Shape("block_diag")
                return [y for i, o in enumerate(ops) for y in (o.tv if t else o.mv)(x[i * k:(i + 1) * k])]

            return Op(lambda x: run(x, False), lambda x: run(x, True))
        raise Und("cat " + h)

    def fn(self, h, xs):
        if len(xs) == 1:
            x = xs[0]
            if h == "invert" and isinstance(x, BV):
                return BV([not y for y in x])
            if h == "logical_not" and isinstance(x, BV):
                return BV([not y for y in x])
            if isinstance(x, A2):
                return A2([[fun1(h, y) for y in r] for r in x.r])
            if isinstance(x, Op):
                if h in ("real", "conj"):
                    return Op(lambda v: x.mv(v), x.tv, x.dense) if h == "conj" else self.fail("real part of a matrix")
                raise Und("function of a matrix")
            return ew(lambda y: fun1(h, y), num_(x))
        if len(xs) == 2:
            if any(isinstance(x, (Op, A2)) for x in xs):
                raise Und("function of a matrix")
            return ew(lambda y, z: fun2(h, y, z), *[num_(x) for x in xs])
        if h == "where" and len(xs) == 3:
            return ew(lambda c, y, z: y if c else z, xs[0], num_(xs[1]), num_(xs[2]))
        raise Und("function " + h)

    def meth(self, name, x, args, kw):
        if name in ("flatten", "ravel"):
            if isinstance(x, A2):
                o = kw.get("order") or (args[0] if args else None)
                F = isinstance(o, Const) and o.v == "F"
                return [x.r[i][j] for j in range(x.shape[1]) for i in range(x.shape[0])] if F else [y for r in x.r for y in r]
            return x
        if name == "reshape":
            sh = args[0] if len(args) == 1 else tuple(args)
            o = kw.get("order", Const("C"))
            F = isinstance(o, Const) and o.v == "F"
            if isinstance(x, A2):
                x = [x.r[i][j] for j in range(x.shape[1]) for i in range(x.shape[0])] if F else [y for r in x.r for y in r]
            if not isinstance(x, list):
                raise Und("reshape")
            if isinstance(sh, Lin):
                q = self.ev(sh)
                ds = [self.int(y) for y in (num_(q) if isinstance(q, list) else [q])]
            else:
                dims = sh if isinstance(sh, tuple) else (sh,)
                ds = [self.int(d) for d in dims]
            if len(ds) == 1:
                return x
            if len(ds) != 2:
                if F:
                    return ND(ds, x)
                raise Und("reshape to three dimensions")
            if ds[0] == -1:
                ds[0] = len(x) // ds[1]
            if ds[1] == -1:
                ds[1] = len(x) // ds[0]
            if ds[0] * ds[1] != len(x):
                raise Shape("reshape")
            n, m = ds
            if F:
                return A2([[x[i + n * j] for j in range(m)] for i in range(n)])
            return A2([[x[i * m + j] for j in range(m)] for i in range(n)])
        if name == "repeat" and (kw.get("axis") is not None or len(args) == 2) and isinstance(x, (A2, ND)):
            return nd(x).repeat(self.int(args[0]), self.int(kw.get("axis", args[1] if len(args) == 2 else None)))
        if name == "repeat":
            if isinstance(x, list) and len(args) == 1 and not kw:
                return [y for y in x for _ in range(self.int(args[0]))]
        raise Und("method " + name)

    def ext(self, a):
        d, args = a[1], a[2]
        last = d.split(".")[-1]
        if last == "polyval" and len(args) == 2 and "polynomial" in d:
            x, c = num_(self.ev(args[0])), num_(self.ev(args[1]))
            return ew(lambda t: sumd([c[k] * powi(t, k) for k in range(len(c))]), x)
        if last == "polyvander":
            x, n = num_(self.ev(args[0])), self.int(args[1])
            return A2([[powi(t, k) for k in range(n + 1)] for t in x])
        if last == "polyval2d":
            x, y, c = num_(self.ev(args[0])), num_(self.ev(args[1])), self.ev(args[2])
            if not isinstance(c, A2):
                raise Und("polyval2d")
            return [sumd([c.r[i][j] * powi(s, i) * powi(t, j) for i in range(c.shape[0]) for j in range(c.shape[1])]) for s, t in zip(x, y)]
        if last == "polyvander2d":
            x, y = num_(self.ev(args[0])), num_(self.ev(args[1]))
            o = args[2]
            if isinstance(o, tuple):
                n, m = self.int(o[0]), self.int(o[1])
            else:
                n, m = [self.int(q) for q in self.ev(o)][:2]
            return A2([[powi(s, i) * powi(t, j) for i in range(n + 1) for j in range(m + 1)] for s, t in zip(x, y)])
        if last in ("bmat", "block_array") and isinstance(args[0], tuple) and all(isinstance(r, tuple) for r in args[0]):
            rows = [[None if x == NONE or x is None else self.ev(x) for x in r] for r in args[0]]
            return self.cat("svstack", [self.cat("shstack", [ZOP if x is None or isinstance(x, Du) else x for x in r]) for r in rows])
        if last == "kron" and len(args) == 2:
            A, B = self.ev(args[0]), self.ev(args[1])
            if A is EYE and isinstance(B, Op) and B.cols == 1:
                k = B.rows

                def tv(x):
                    if not k or len(x) % k:
                        raise Shape("kron")
                    return [y for i in range(0, len(x), k) for y in B.tv(x[i:i + k])[:1]]

                return Op(lambda x: [z for y in x for z in B.mv([y])], tv)
            raise Und("kron")
        if last in ("argmin", "argmax", "searchsorted", "digitize"):
            return Du(int(self.rnd(repr(a)) * 1000) % 4)
        if last == "diags" and len(args) >= 2 and isinstance(args[0], tuple) and isinstance(args[1], tuple):
            ds = [self.ev(x) for x in args[0]]
            os_ = [self.int(x) for x in args[1]]
            sh = args[2] if len(args) > 2 else dict(a[3]).get("shape")
            if sh is not None and all(isinstance(x, Du) for x in ds) and all(o >= 0 for o in os_):
                n, m = [self.int(x) for x in sh]

                def mv(x):
                    if len(x) != m:
                        raise Shape("diags")
                    return [sumd([k * x[i + o] for k, o in zip(ds, os_) if i + o < m]) for i in range(n)]

                def tv(x):
                    if len(x) != n:
                        raise Shape("diags")
                    o_ = [Z] * m
                    for i in range(n):
                        for k, o in zip(ds, os_):
                            if i + o < m:
                                o_[i + o] = o_[i + o] + k * x[i]
                    return o_

                return Op(mv, tv, rows=n, cols=m)
        if last in ("size",) and len(args) == 1:
            x = self.ev(args[0])
            return self.shape_attr("size", x)
        if self.depends(args):
            raise Und("uninterpreted call of a value that varies: " + d)
        return self.leaf(Atom("e", a))


def is_like(l):
    at = l.single_atom()
    return at is not None and at.head == "e" and at.args[0] in ("m", "-", "+", "*")


def powi(t, k):
    r = Du(1)
    for _ in range(k):
        r = r * t
    return r


def num_(x):
    if isinstance(x, BV):
        return [Du(1 if t else 0) for t in x]
    if isinstance(x, IV):
        return [Du(t) for t in x]
    if isinstance(x, bool):
        return Du(int(x))
    return x


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def vals(x, part):
    x = num_(x)
    if isinstance(x, Du):
        return [getattr(x, part)]
    if isinstance(x, A2):
        x = [x.r[i][j] for j in range(x.shape[1]) for i in range(x.shape[0])]
    if isinstance(x, list):
        return [getattr(y, part) for y in x]
    raise Und("matrix result")


def same(x, y):
    """numbers lists equal (a single number stands for a constant vector)"""
    if len(x) == 1 and len(y) > 1:
        x = x * len(y)
    if len(y) == 1 and len(x) > 1:
        y = y * len(x)
    return len(x) == len(y) and all(close(p, q) for p, q in zip(x, y))
