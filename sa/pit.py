"""Identity testing for normal forms.

Words are split into a skeleton (operators, Re/Conj marks, the input) and runs
of diagonal factors; the diagonal factors commute within a run, so the
coefficient of each skeleton is a rational/elementary function of independent
symbols.  Two normal forms are identified when these coefficient functions
agree at pseudo-random points (polynomial identity testing on abstract values;
the analysed program is never evaluated)."""

import cmath
import hashlib
import math
import struct

from .terms import CONJ, IM_UNIT, RE, Atom, Lin

FUNCS = {
    "exp", "log", "log10", "sqrt", "sin", "cos", "tan", "arctan", "arctan2", "tanh", "cosh",
    "sinh", "abs", "absolute", "sign", "pow", "powx", "let", "power", "maximum", "minimum",
}


class PitFail(Exception):
    pass


class Evaluator:
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}

    def rnd(self, key, real):
        h = hashlib.sha1(f"{self.seed}|{key}".encode()).digest()
        a, b = struct.unpack("<II", h[:8])
        x = 0.4 + 1.2 * a / 2**32
        if real:
            return complex(x)
        y = -0.9 + 1.8 * b / 2**32
        return complex(x, y)

    def scal(self, a):
        k = ("s", a)
        if k not in self.memo:
            if a.head in FUNCS:
                self.memo[k] = self.func(a, ())
            else:
                self.memo[k] = self.rnd(repr(a), True)
        return self.memo[k]

    def func(self, a, pos):
        args = [self.vec(x, pos) if isinstance(x, Lin) else complex(x) for x in a.args]
        h = a.head
        try:
            if h == "let":
                return args[0]
            if h in ("pow", "powx", "power"):
                return args[0] ** args[1]
            if h == "log10":
                return cmath.log(args[0]) / math.log(10)
            if h in ("abs", "absolute"):
                return complex(abs(args[0]))
            if h == "sign":
                return complex(1 if args[0].real > 0 else -1)
            if h == "arctan":
                return cmath.atan(args[0])
            if h == "arctan2":
                return complex(math.atan2(args[0].real, args[1].real))
            if h == "maximum":
                return complex(max(args[0].real, args[1].real))
            if h == "minimum":
                return complex(min(args[0].real, args[1].real))
            return getattr(cmath, h)(args[0])
        except (ZeroDivisionError, OverflowError, ValueError) as e:
            raise PitFail(str(e))

    def vatom(self, a, pos):
        """elementwise value of a vector atom"""
        k = (a, pos)
        if k not in self.memo:
            if a.head in FUNCS:
                self.memo[k] = self.func(a, pos)
            elif a.head == "ones":
                self.memo[k] = 1 + 0j
            else:
                self.memo[k] = self.rnd(f"{a!r}@{pos}", a.head in ("attr", "name"))
        return self.memo[k]

    def word(self, f, pos):
        """elementwise value of a vector word"""
        i = 0
        v = 1 + 0j
        while i < len(f) and (f[i].head == "diag" or f[i] is IM_UNIT):
            v *= 1j if f[i] is IM_UNIT else self.vec(f[i].args[0], pos)
            i += 1
        rest = f[i:]
        if not rest:
            return v
        if rest[0] is CONJ:
            return v * self.word(rest[1:], pos).conjugate()
        if rest[0] is RE:
            return v * self.word(rest[1:], pos).real
        if len(rest) == 1:
            return v * self.vatom(rest[0], pos)
        return v * self.rnd(f"{rest!r}@{pos}", False)

    def vec(self, l, pos):
        out = 0j
        for (s, f), c in l.d.items():
            for a, e in s:
                c = c * self.scal(a) ** e
            out += c * self.word(f, pos)
        return out

    # -- skeleton decomposition
    def tokens(self, f):
        """[('num', v) | ('op', atom)] left to right"""
        toks = []
        pos = 0
        n = len(f)
        for i, a in enumerate(f):
            if a.head == "diag":
                toks.append(("num", self.vec(a.args[0], pos)))
            elif a is IM_UNIT:
                toks.append(("num", 1j))
            elif a is RE or a is CONJ:
                toks.append(("op", a))
            elif i == n - 1 and a.kind == "V" and a.head != "input":
                toks.append(("num", self.vatom(a, pos)))
            else:
                toks.append(("op", a))
                pos += 1
        return toks

    def realify(self, toks):
        """remove Re/Conj marks applied to values built from the real tail by
        real operators and diagonal factors (right to left)"""
        out = list(toks)
        i = len(out) - 1
        while i >= 0:
            k, a = out[i]
            if k == "op" and not (a is RE or a is CONJ) and not real_op(a):
                break
            if k == "op" and (a is RE or a is CONJ):
                right = out[i + 1:]
                # complex runs to the right, separated by operators
                runs, cur = [], []
                for j, t in enumerate(right):
                    if t[0] == "num":
                        cur.append(i + 1 + j)
                    else:
                        runs.append(cur)
                        cur = []
                runs.append(cur)
                vals = []
                for r in runs:
                    v = 1 + 0j
                    for j in r:
                        v *= out[j][1]
                    vals.append(v)
                cplx = [q for q, v in enumerate(vals) if abs(v.imag) > 1e-12 * max(abs(v), 1e-300)]
                if a is CONJ:
                    for j in range(i + 1, len(out)):
                        if out[j][0] == "num":
                            out[j] = ("num", complex(out[j][1]).conjugate())
                    del out[i]
                elif len(cplx) <= 1:
                    for q, r in enumerate(runs):
                        if not r:
                            continue
                        v = vals[q]
                        out[r[0]] = ("num", complex(v.real))
                        for j in r[1:]:
                            out[j] = ("num", 1 + 0j)
                    del out[i]
                else:
                    break
            i -= 1
        return out

    def decompose(self, l, real_tail=False):
        """{skeleton: (tensor, scale)}; tensor is a dict index->float"""
        out = {}
        for (s, f), c in l.d.items():
            c0 = c
            for a, e in s:
                if a.head in ("SUM", "idx", "op"):
                    continue
                c0 = c0 * self.scal(a) ** e
            marks = tuple(x for x in s if x[0].head in ("SUM", "idx", "op"))
            skel = [marks]
            segs = [c0]
            parity = False
            toks = self.tokens(f)
            if real_tail:
                toks = self.realify(toks)
            for k, a in toks:
                if k == "num":
                    segs[-1] *= a.conjugate() if parity else a
                elif a is RE:
                    skel.append(a)
                    segs.append(1 + 0j)
                    parity = False
                elif a is CONJ:
                    skel.append(a)
                    parity = not parity
                else:
                    skel.append(a)
            key = tuple(skel)
            t = {(): 1.0}
            # without Re marks everything is one complex coefficient
            for z in segs:
                t = {k + (j,): w * x for k, w in t.items() for j, x in ((0, z.real), (1, z.imag))}
            acc, sc = out.setdefault(key, ({}, [0.0]))
            for k, w in t.items():
                acc[k] = acc.get(k, 0.0) + w
            sc[0] += max(abs(w) for w in t.values()) if t else 0
        return out


def real_op(a):
    if a.head in ("E", "Col"):
        return True
    if a.head == "call" and isinstance(a.args[0], Lin):
        at = a.args[0].single_atom()
        return at is not None and at.head == "attr" and at.args[1] in ("getP", "get_interpolation_matrix")
    return False


def pit_zero(l, trials=3, real_tail=False):
    """True / False / None (could not evaluate): is the normal form zero?"""
    if l.is_zero():
        return True
    try:
        for seed in range(trials):
            ev = Evaluator(seed)
            for key, (acc, sc) in ev.decompose(l, real_tail).items():
                tol = 1e-7 * max(sc[0], 1e-300)
                if any(abs(w) > tol for w in acc.values()):
                    return False
        return True
    except (PitFail, OverflowError, ZeroDivisionError, RecursionError):
        return None


def residual(l, seed=0, real_tail=False):
    """the part of l whose skeletons do not cancel"""
    try:
        ev = Evaluator(seed)
        bad = set()
        for key, (acc, sc) in ev.decompose(l, real_tail).items():
            tol = 1e-7 * max(sc[0], 1e-300)
            if any(abs(w) > tol for w in acc.values()):
                bad.add(key)
        out = {}
        for k, c in l.d.items():
            one = Lin({k: c})
            for key in ev.decompose(one, real_tail):
                if key in bad:
                    out[k] = c
        return Lin(out)
    except (PitFail, OverflowError, ZeroDivisionError, RecursionError):
        return l
