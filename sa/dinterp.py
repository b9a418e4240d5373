"""Interpretation of the loops over sources, receivers, frequencies and time steps that assemble data and sensitivity products.

The survey is given as a small list of distinct symbolic sources and receivers, the derivative routines and the system matrices
are opaque linear operators; the loops then unroll to one operator polynomial per block of the data (or per source)."""

import ast

from .interp import NONE, Cond, Const, Dct, Fn, Interp, PathRaise, Slice, Tup, Unsupported, embed, to_arg, unknown
from .project import ClassInfo, External
from .terms import ONE, ZERO, Atom, Lin

UNSET = Lin.atom(Atom("name", ("<unset>",)))


def name(n, kind="?", sym=False):
    return Lin.atom(Atom("name", (n,), False, sym, kind))


def E(key, T=False):
    return Lin.atom(Atom("E", (key,), T, False, "M"))


class Arr:
    """array with one axis made of blocks; entries are linear terms"""

    def __init__(self, keys, axis=0, nd=1, d=None, fill=ZERO):
        self.keys, self.axis, self.nd, self.fill = keys, axis, nd, fill
        self.d = dict(d or {})

    def get(self, k):
        return self.d.get(k, self.fill)

    def all(self):
        ks = list(self.keys) + [k for k in self.d if k not in self.keys]
        return {k: self.get(k) for k in ks}

    def map(self, f):
        return Arr(self.keys, self.axis, self.nd, {k: f(v) for k, v in self.all().items()})

    def T(self):
        return Arr(self.keys, self.nd - 1 - self.axis, self.nd, {k: v.T() for k, v in self.all().items()})

    def lin(self):
        out = ZERO
        for k, v in self.all().items():
            out = out + (E(("blk",) + k) * v if self.axis == 0 else v * E(("blk",) + k, True))
        return out

    def __eq__(self, o):
        return isinstance(o, Arr) and self.all() == o.all() and self.axis == o.axis

    def __hash__(self):
        return hash((self.axis, tuple(sorted(map(repr, self.all().items())))))

    def __repr__(self):
        return "Arr" + repr(self.all())


class Store:
    """a fields object being filled: (source, name, [step]) -> term; ':' stands for every source or every step"""

    def __init__(self, cls, atom):
        self.cls, self.atom, self.d = cls, atom, {}

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "Store"


class DInterp(Interp):
    nsrc, nrx, nT = 3, 2, 4

    def __init__(self, p, **kw):
        super().__init__(p, **kw)
        self.dt = [3, 1, 1, 2]
        self.steps_by_dt = True
        self.linear_u = {"getADeriv", "getAdiagDeriv", "getAsubdiagDeriv", "getAdcDeriv"}
        self.fclass = None

    # ------------------------------------------------------------ survey
    def make_survey(self, sv, tag="", freqs=None, projs=("e", "h")):
        """blocks of the data in the order of the survey"""
        S = name("survey" + tag)
        self.heap[(sv, "_mini_survey" if tag else "survey")] = S
        srcs = [name("src%d%s" % (i, tag)) for i in range(self.nsrc)]
        self.heap[(S, "source_list")] = Tup(srcs, "list")
        self.heap[(S, "nSrc")] = Lin.num(len(srcs))
        off, sl, keys = ZERO, {}, []
        for i, s in enumerate(srcs):
            rxs = [name("rx%d%d%s" % (i, j, tag)) for j in range(self.nrx)]
            self.heap[(s, "receiver_list")] = Tup(rxs, "list")
            for j, r in enumerate(rxs):
                n = name("n_rx%d%d%s" % (i, j, tag), "S", True)
                self.heap[(r, "nD")] = n
                self.heap[(r, "projField")] = Const(projs[j])
                sl[Tup([s, r])] = Slice(off, off + n, None)
                keys.append(("rx%d%d%s" % (i, j, tag),))
                self.blocks.append((off, n, keys[-1], tag))
                self.rxlen[r] = n
                off = off + n
        self.heap[(S, "nD")] = off
        self.slices[S] = Dct(sl)
        self.nD[off] = keys
        if freqs is not None:
            F = [name("freq%d" % i, "S", True) for i in range(2)]
            self.heap[(S, "frequencies")] = Tup(F, "list")
            for i, s in enumerate(srcs):
                self.heap[(s, "frequency")] = F[i % 2]
            self.freqs[S] = {f: Tup([s for i, s in enumerate(srcs) if F[i % 2] == f], "list") for f in F}
        return S

    def begin(self, sv):
        self.blocks, self.rxlen, self.slices, self.nD, self.freqs = [], {}, {}, {}, {}
        self.selfv = sv

    def find_block(self, idx, keys):
        if isinstance(idx, Slice):
            lo, hi, st = idx.t
            if st is not None and st != NONE:
                raise Unsupported("block step")
            lo = ZERO if lo is None or lo == NONE else self.as_lin(lo)
            for off, n, k, tag in self.blocks:
                if k in keys and lo == off and hi is not None and self.as_lin(hi) == off + n:
                    return k
            if isinstance(hi, Lin) and self.counts(lo) and self.counts(hi):
                return ("slice", repr(lo), repr(hi))
            return None
        if isinstance(idx, Lin):
            for off, n, k, tag in self.blocks:
                if k in keys and idx == off:
                    if self.decisions.get(("eq", n, Lin.num(1))) or self.decisions.get(("eq", n, ONE)):
                        return k
                    return ("item", repr(idx))
            if self.counts(idx):
                return ("item", repr(idx))
        return None

    def counts(self, l):
        """a sum of numbers of data"""
        ns = {n.single_atom() for n in self.rxlen.values()}
        return all(not f and all(a in ns for a, _ in s) for s, f in l.d)

    def as_lin(self, v):
        if isinstance(v, Arr):
            return v.lin()
        return super().as_lin(v)

    # ------------------------------------------------------------ arrays
    def new_array(self, shape, fill):
        items = shape.items if isinstance(shape, Tup) else [shape]
        for ax, x in enumerate(items):
            if isinstance(x, Lin) and x in self.nD and not x.is_zero():
                return Arr(self.nD[x], ax, len(items), fill=fill)
        if len(items) == 2 and fill is ZERO:
            for ax, x in enumerate(items):
                if isinstance(x, Lin) and x.const() == self.nsrc:
                    return Arr([(i,) for i in range(self.nsrc)], ax, 2)
        return None

    def block_index(self, b, idx):
        """(found, key or None for everything)"""
        its = idx.items if isinstance(idx, Tup) else [idx]
        if len(its) > b.nd:
            raise Unsupported("array index")
        if any(not (isinstance(x, Slice) and x.full()) for i, x in enumerate(its) if i != b.axis):
            raise Unsupported("array index")
        x = its[b.axis] if b.axis < len(its) else None
        if x is None or isinstance(x, Slice) and x.full():
            return None
        if b.keys and isinstance(b.keys[0][0], int):
            c = x.const() if isinstance(x, Lin) else (x.v if isinstance(x, Const) else None)
            if c is None:
                raise Unsupported("array index")
            return (int(complex(c).real) % len(b.keys),)
        return self.find_block(x, b.keys) or False

    def getitem(self, b, idx):
        if isinstance(b, Arr):
            k = self.block_index(b, idx)
            if k is None:
                return b
            if k is False:
                return super().getitem(b.lin(), idx)
            return b.get(k)
        if isinstance(b, Store):
            return self.load(b, idx)
        if isinstance(b, Lin) and isinstance(idx, Tup) and len(idx.items) == 2 and isinstance(idx.items[0], Slice) and idx.items[0].full():
            c = idx.items[1].const() if isinstance(idx.items[1], Lin) else None
            if c is not None and all(f and f[-1].head == "call" and not f[-1].T for (_, f) in b.d):
                return self.src_col(b, self.sources()[int(c.real)])
        return super().getitem(b, idx)

    def store_subscript(self, tg, v, fr, aug):
        base = self.eval(tg.value, fr)
        idx = self.index(tg.slice, fr)
        if isinstance(base, Arr):
            k = self.block_index(base, idx)
            if k is False:
                raise Unsupported("array store")
            if k is None:
                for q in base.keys:
                    base.d[q] = v.get(q) if isinstance(v, Arr) else self.as_lin(v)
            else:
                base.d[k] = self.as_lin(v)
            return
        if isinstance(base, Store):
            self.save(base, idx, v)
            return
        if isinstance(base, Tup) and isinstance(idx, Lin) and idx.const() is not None:
            base.items[int(idx.const().real)] = v
            return
        super().store_subscript(tg, v, fr, aug)

    # ------------------------------------------------------------ fields
    def fkey(self, s, idx):
        its = idx.items if isinstance(idx, Tup) else [idx]
        out = []
        for x in its:
            if isinstance(x, Slice) and x.full():
                out.append(":")
            elif isinstance(x, Lin) and x.const() is not None:
                out.append(int(x.const().real))
            elif isinstance(x, Const):
                out.append(x.v)
            elif isinstance(x, (Lin, Tup)):
                out.append(x)
            else:
                raise Unsupported("field index")
        if len(out) == 3 and isinstance(out[2], int):
            if not -self.nT - 1 <= out[2] <= self.nT:
                raise PathRaise(None, "IndexError")
            out[2] %= self.nT + 1
        return out

    def sources(self):
        S = self.heap.get((self.selfv, "_mini_survey"), NONE)
        return self.heap[(S if S != NONE else self.heap[(self.selfv, "survey")], "source_list")].items

    def src_col(self, v, s):
        if isinstance(v, Arr):
            return v.get((self.sources().index(s),))
        l = self.as_lin(v)
        return l if l.is_zero() else l * E(("src", s))

    def save(self, st, idx, v):
        k = self.fkey(st, idx)
        if isinstance(k[0], Tup):
            for s in k[0].items:
                st.d[(s,) + tuple(k[1:])] = self.src_col(v, s)
            return
        if len(k) == 3 and k[2] == ":":
            for q in [q for q in st.d if q[:2] == tuple(k[:2])]:
                del st.d[q]
        st.d[tuple(k)] = v if isinstance(v, Arr) else self.as_lin(v)

    def load(self, st, idx):
        k = self.fkey(st, idx)
        if tuple(k) in st.d:
            return st.d[tuple(k)]
        if isinstance(k[0], Lin) and (":",) + tuple(k[1:]) in st.d:
            return self.src_col(st.d[(":",) + tuple(k[1:])], k[0])
        if len(k) == 3 and k[2] == ":":
            out = ZERO
            for t in range(self.nT + 1):
                out = out + E(("t", t)) * self.as_lin(self.load(st, Tup([k[0] if not isinstance(k[0], str) else Slice(None, None, None), Const(k[1]), Lin.num(t)])))
            return out
        if len(k) == 3 and tuple(k[:2]) + (":",) in st.d:
            l = self.as_lin(st.d[tuple(k[:2]) + (":",)])
            return l if l.is_zero() else E(("t", k[2]), True) * l
        if st.atom is None or isinstance(k[1], str) and k[1].endswith("Deriv"):
            return ZERO
        return super().getitem(st.atom, idx)

    # ------------------------------------------------------------ operations
    def binop(self, op, a, b):
        if isinstance(a, Tup) and a.kind == "array" and isinstance(b, Lin):
            return Tup([self.binop(op, x, b) for x in a.items], "array")
        if isinstance(b, Tup) and b.kind == "array" and isinstance(a, Lin) and a.is_scalar():
            return Tup([self.binop(op, a, x) for x in b.items], "array")
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, Arr) and isinstance(b, Arr) and isinstance(op, (ast.Add, ast.Sub)) and a.axis == b.axis:
                f = (lambda x, y: x + y) if isinstance(op, ast.Add) else (lambda x, y: x - y)
                ks = set(a.all()) | set(b.all())
                return Arr(a.keys, a.axis, a.nd, {k: f(a.get(k), b.get(k)) for k in ks})
            if isinstance(op, ast.Mult) and isinstance(a, Lin) and a.is_scalar():
                return b.map(lambda v: a * v)
            if isinstance(op, ast.Mult) and isinstance(b, Lin) and b.is_scalar():
                return a.map(lambda v: b * v)
            if isinstance(op, (ast.Mult, ast.MatMult)) and isinstance(a, Lin) and isinstance(b, Arr) and b.nd == 2 and b.axis == 1:
                return b.map(lambda v: super(DInterp, self).binop(op, a, v))
            if isinstance(op, (ast.Add, ast.Sub)) and isinstance(b, Lin) and b.is_zero():
                return a
            if isinstance(op, ast.Add) and isinstance(a, Lin) and a.is_zero():
                return b
            if isinstance(op, ast.Sub) and isinstance(a, Lin) and b.nd == 2 and b.axis == 1 and not isinstance(b.keys[0][0], str):
                return Arr(b.keys, 1, 2, {k: self.src_col(a, self.sources()[k[0]]) - v for k, v in b.all().items()})
        return super().binop(op, a, b)

    def e_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.USub):
            v = self.eval(n.operand, fr)
            if isinstance(v, Arr):
                return v.map(lambda x: -x)
        return super().e_UnaryOp(n, fr)

    def getattr(self, b, nm, fr=None, default=None):
        if isinstance(b, Arr):
            if nm == "T":
                return b.T()
            if nm in ("real",):
                return b
            if nm in ("size", "shape"):
                return Lin.atom(Atom("attr", (name("array"), nm), False, True, "S"))
            return ArrM(b, nm)
        if isinstance(b, Store):
            if nm in ("_quad_weights",):
                return name("quad_weights", "V")
            r = self.p.lookup(b.cls, nm) if b.cls is not None else None
            if r is None:
                return unknown("field attr")
            return self.member(b.atom, r, nm)
        if isinstance(b, Lin) and nm == "get_all_slices" and b in self.slices:
            return Const(("slices", b))
        if isinstance(b, Lin) and nm == "get_sources_by_frequency" and b in self.freqs:
            return Const(("byfreq", b))
        if nm in ("shape", "size", "ndim") and isinstance(b, Lin):
            return Lin.atom(Atom("attr", (name("array"), nm), False, True, "S"))
        return super().getattr(b, nm, fr, default)

    def assign(self, tg, v, fr, aug=False):
        if isinstance(tg, ast.Attribute):
            base = self.eval(tg.value, fr)
            if isinstance(base, Store):
                return
            if isinstance(base, Lin) and tg.attr == "shape":
                return
        super().assign(tg, v, fr, aug)

    def isinstance_(self, x, c):
        if isinstance(x, (Arr, Store)):
            return Const(False)
        if isinstance(x, Lin) and isinstance(c, ClassInfo) and c.name == "Data":
            return Const(False)
        return super().isinstance_(x, c)

    def cmp_is(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Arr, Store)) and y == NONE:
                return Const(False)
            if isinstance(x, Lin) and y == NONE and x.single_atom() is not None and x.single_atom().head in ("name", "inv"):
                return Const(False)
        return super().cmp_is(a, b)

    def stack(self, v):
        if isinstance(v, Arr):
            return v.lin()
        return super().stack(v)

    def call(self, f, args, kwargs, n=None, fr=None):
        if isinstance(f, Const) and isinstance(f.v, tuple):
            if f.v[0] == "slices":
                return self.slices[f.v[1]]
            if f.v[0] == "byfreq":
                r = self.freqs[f.v[1]].get(args[0])
                if r is None:
                    raise Unsupported("sources by frequency")
                return r
        if isinstance(f, ArrM):
            if f.name in ("copy",):
                return Arr(f.b.keys, f.b.axis, f.b.nd, f.b.d, f.b.fill)
            if f.name in ("astype", "squeeze", "flatten", "ravel", "toarray"):
                return f.b
            if f.name == "dot" and f.b.nd == 2:
                if f.b.axis == 0:
                    return f.b.map(lambda x: super(DInterp, self).binop(ast.MatMult(), x, self.as_lin(args[0])))
                return self.sum_blocks(f.b, args[0])
            raise Unsupported("array method " + f.name)
        return super().call(f, args, kwargs, n, fr)

    def sum_blocks(self, a, v):
        if isinstance(v, Arr):
            out = ZERO
            for k, x in a.all().items():
                out = out + x * v.get(k)
            return out
        if len(a.keys) == 1 and len(a.all()) == 1 and isinstance(v, Lin):
            return a.get(a.keys[0]) * v
        raise Unsupported("array product")

    def call_class(self, c, args, kwargs):
        if self.fclass is not None and c in (self.fclass, getattr(self, "dclass", None)) or any(
            isinstance(k, ClassInfo) and k.name in ("Fields", "TimeFields") for k in self.p.mro(c)
        ):
            return Store(c, name("f"))
        return super().call_class(c, args, kwargs)

    def call_fn(self, f, args, kwargs):
        nm = getattr(f.node, "name", "")
        if nm == "mkvc" and args and isinstance(args[0], (Arr, Store)):
            return args[0]
        if nm == "_mini_survey_data" and self.mini is not None:
            return Lin.atom(Atom("name", ("Mini",), False, False, "M")) * self.as_lin(args[0])
        if nm == "_mini_survey_dataT" and self.mini is not None:
            l = Lin.atom(Atom("name", ("Mini",), True, False, "M")) * self.as_lin(args[0])
            return Arr(self.mini, 0, 1, {k: E(("blk",) + k, True) * l for k in self.mini})
        return super().call_fn(f, args, kwargs)

    mini = None

    def call_external(self, d, args, kwargs):
        last = d.split(".")[-1]
        if d in ("numpy.zeros", "numpy.empty", "numpy.full", "numpy.ones"):
            shape = args[0] if args else kwargs.get("shape")
            r = self.new_array(shape, ZERO if last == "zeros" else UNSET)
            if r is not None:
                return r
        if d in ("numpy.hstack", "numpy.concatenate", "numpy.vstack", "numpy.stack", "numpy.column_stack") and args and isinstance(args[0], Tup):
            its = args[0].items
            if len(its) == 1:
                return its[0]
            ks = [self.block_of(x) for x in its]
            if all(k is not None for k in ks):
                for keys in sorted(self.nD.values(), key=lambda keys: not set(ks) <= set(keys)):
                    if set(ks) <= set(keys) or len(ks) == len(keys):
                        return Arr(keys, 0, 1, {k: self.as_lin(x) for k, x in zip(keys, its)})
            if len(its) == self.nsrc and last in ("hstack", "column_stack"):
                return Arr([(i,) for i in range(self.nsrc)], 1, 2, {(i,): self.as_lin(x) for i, x in enumerate(its)})
        if args and isinstance(args[0], Arr):
            if last in ("asarray", "array", "real", "squeeze", "ascontiguousarray", "copy", "asfortranarray"):
                return args[0]
            if last == "dot" and args[0].nd == 2:
                return self.call(ArrM(args[0], "dot"), args[1:], {})
        if d == "numpy.zeros_like":
            return ZERO
        return super().call_external(d, args, kwargs)

    def block_of(self, x):
        """the receiver whose data this term is: every word starts with an operator of that receiver"""
        l = self.as_lin(x)
        ks = set()
        for (s, f), c in l.d.items():
            f = [a for a in f if a.head not in ("re", "conj")]
            if not f:
                return None
            r = self.rx_of(f[0])
            if r is None:
                return None
            ks.add(r)
        if len(ks) != 1:
            return None
        return (ks.pop(),)

    def rx_of(self, a):
        while a.head in ("op", "call", "attr"):
            b = a.args[0]
            if not isinstance(b, Lin) or b.single_atom() is None:
                return None
            a = b.single_atom()
        if a.head == "name" and str(a.args[0]).startswith("rx"):
            return a.args[0]
        return None

    def call_builtin(self, nm, args, kwargs, n, fr):
        if nm == "len" and args and isinstance(args[0], Lin):
            k = self.block_of(args[0]) if not args[0].is_zero() else None
            if k is not None and name(k[0]) in self.rxlen:
                return self.rxlen[name(k[0])]
        if nm == "len" and args and isinstance(args[0], Arr):
            return name("n_array", "S", True)
        if nm == "slice":
            a = list(args) + [None] * (3 - len(args))
            return Slice(*(a if len(args) > 1 else [None, a[0], None]))
        if nm == "abs" and args and isinstance(args[0], Lin) and args[0].const() is not None:
            return Lin.num(abs(args[0].const()))
        if nm == "set" and args and isinstance(args[0], Tup):
            out = []
            for x in args[0].items:
                if x not in out:
                    out.append(x)
            return Tup(out, "set")
        return super().call_builtin(nm, args, kwargs, n, fr)

    # ------------------------------------------------------------ operators
    def opaque_call(self, base, args, kwargs):
        at = base.single_atom() if isinstance(base, Lin) else None
        nm = at.args[1] if at is not None and at.head == "attr" else None
        if nm in ("getAdiag", "getAsubdiag") and args:
            args = [self.step_key(args[0])] + list(args[1:])
        kind = {"getA": "M", "getAdiag": "M", "getAsubdiag": "M", "getAdc": "M", "getRHS": "M", "getInitialFields": "M"}.get(nm)
        if kind:
            return Lin.atom(Atom("call", (base,) + tuple(to_arg(a) for a in args) + tuple((k, to_arg(v)) for k, v in sorted(kwargs.items())), False, nm in self.sym, kind))
        return super().opaque_call(base, args, kwargs)

    sym = ()

    def step_key(self, t):
        c = t.const() if isinstance(t, Lin) else None
        if c is None:
            raise Unsupported("time index")
        return Const(("dt", self.dt[int(c.real)]))

    def mk_op(self, ft, nm, ctx, tag):
        if nm in self.linear_u:
            us = [i for i, (k, v) in enumerate(ctx) if k in ("u", "un", "unm1") or k.startswith("u")]
            if len(us) == 1 and isinstance(ctx[us[0]][1], Lin):
                i = us[0]
                out = ZERO
                for (s, f), c in ctx[i][1].d.items():
                    cx = ctx[:i] + ((ctx[i][0], Lin({((), f): 1 + 0j})),) + ctx[i + 1:]
                    at = Atom("op", (ft, nm, self.op_ctx(nm, cx), tag), False, False, "M")
                    out = out + Lin({(s, (at,)): c})
                return out
        return super().mk_op(ft, nm, self.op_ctx(nm, ctx), tag)

    def op_ctx(self, nm, ctx):
        if nm in ("getAdiagDeriv", "getAsubdiagDeriv"):
            return tuple((k, self.step_key(v)) if k == "tInd" else (k, v) for k, v in ctx)
        return ctx


class ArrM:
    def __init__(self, b, name):
        self.b, self.name = b, name
