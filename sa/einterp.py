"""Abstract interpretation into expression graphs.

Same control-flow engine as ``Interp``; values are hash-consed expression nodes (value numbering)
instead of normal forms over linear operators.  Used for code whose meaning is element-wise and
non-linear: mappings, objective functions, receivers."""

import ast

from .interp import (
    DIAG_FUNCS, DIAGINV_FUNCS, NONE, Builtin, Cond, Const, Dct, Fn, Gen, Interp, IterV, Slice, Tup, Unsupported,
    to_arg, unknown,
)
from .project import ClassInfo, External
from .terms import ONE, ZERO, Atom, Lin

ERASE = {
    "tocsr", "tocsc", "tocoo", "copy", "astype", "toarray", "todense", "compute", "squeeze", "view",
}
ERASEF = {
    "numpy.asarray", "numpy.array", "numpy.squeeze", "numpy.atleast_1d", "numpy.ascontiguousarray",
    "numpy.asfortranarray", "numpy.copy", "numpy.float64", "numpy.float32", "copy.deepcopy", "copy.copy",
    "scipy.sparse.linalg.aslinearoperator",
}
UFUNC = {
    "exp", "log", "log10", "sqrt", "sin", "cos", "tan", "arctan", "arctan2", "tanh", "abs", "absolute", "sign",
    "cosh", "sinh", "maximum", "minimum", "power", "arcsin", "arccos", "expit", "logit", "square", "hypot",
    "greater_equal", "greater", "less", "less_equal", "where", "real", "imag", "conj", "conjugate", "angle",
    "deg2rad", "rad2deg", "isclose", "multiply", "divide", "add", "subtract", "negative", "reciprocal",
    "logical_not", "logical_and", "logical_or", "equal", "not_equal", "invert",
}
EYE = {"speye", "eye", "identity", "Identity", "eye_array"}
ZEROS = {"zeros", "zeros_like", "empty", "empty_like", "spzeros", "Zero"}


def node(h, *args):
    return Lin.atom(Atom("e", (h,) + tuple(args)))


def is_node(v, h=None):
    at = v.single_atom() if isinstance(v, Lin) else None
    if at is None or at.head != "e":
        return None
    return at if h is None or at.args[0] == h else None


class EInterp(Interp):
    contracts_off = True

    def __init__(self, project, maps=(), **kw):
        kw.setdefault("contracts", False)
        super().__init__(project, **kw)
        self.maps = set(maps)  # atoms that are mappings
        self.sizes = {}  # attribute name -> number of elements
        self.wires = {}  # attribute name -> number of wires

    # -- mappings
    def is_map(self, v):
        at = v.single_atom() if isinstance(v, Lin) else None
        if at is None:
            return False
        if at in self.maps:
            return True
        if at.head == "attr" and isinstance(at.args[1], str):
            n = at.args[1]
            return n in ("mapping", "_mapping") or n.endswith("Map") or n.endswith("_map")
        if at.head == "e" and at.args[0] in ("mapcompose",):
            return True
        return False

    # -- operators
    def binop(self, op, a, b):
        if isinstance(op, ast.Mod) and isinstance(a, Const) and isinstance(a.v, str):
            return super().binop(op, a, b)
        if isinstance(op, ast.Add) and (isinstance(a, Const) or isinstance(b, Const)) and (
            isinstance(getattr(a, "v", 0), str) or isinstance(getattr(b, "v", 0), str)
        ):
            return super().binop(op, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return super().binop(op, a, b)
        if isinstance(op, ast.Mult) and (isinstance(a, Tup) and a.kind == "list" or isinstance(b, Tup) and b.kind == "list"):
            return super().binop(op, a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            return super().binop(op, a, b)
        a, b = self.as_lin(a), self.as_lin(b)
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            try:
                if isinstance(op, ast.Add):
                    return Lin.num(ca + cb)
                if isinstance(op, ast.Sub):
                    return Lin.num(ca - cb)
                if isinstance(op, ast.Mult):
                    return Lin.num(ca * cb)
                if isinstance(op, ast.Div):
                    return Lin.num(ca / cb)
                if isinstance(op, ast.Pow):
                    return Lin.num(ca ** cb)
                if isinstance(op, ast.FloorDiv):
                    return Lin.num(ca.real // cb.real)
                if isinstance(op, ast.Mod):
                    return Lin.num(ca.real % cb.real)
            except (ZeroDivisionError, OverflowError):
                return unknown("arith")
        if isinstance(op, ast.Add):
            if ca == 0:
                return b
            if cb == 0:
                return a
            return node("+", a, b)
        if isinstance(op, ast.Sub):
            return node("-", a, b)
        if isinstance(op, (ast.Mult, ast.MatMult)):
            at = a.single_atom()
            if at is not None and at in self.types and self.p.is_subclass(self.types[at], "simpeg.maps._base.IdentityMap"):
                return self.call_method(self.types[at], "_transform", [b], {}, selfv=a)
            if at is not None and at.head == "attr" and at.args[1] in self.wires and not self.is_map(b):
                k = self.wires[at.args[1]]
                return Tup([node("wire", Lin.num(i), Lin.num(k), b) for i in range(k)])
            if self.is_map(a):
                if self.is_map(b):
                    return node("mapcompose", a, b)
                return node("mapply", a, b)
            if ca == 1:
                return b
            if cb == 1:
                return a
            if ca == 0 or cb == 0:
                return ZERO
            return node("*" if isinstance(op, ast.Mult) else "@", a, b)
        if isinstance(op, ast.Div):
            return node("/", a, b)
        if isinstance(op, ast.Pow):
            if cb == 1:
                return a
            return node("**", a, b)
        return node(type(op).__name__, a, b)

    def e_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.USub):
            v = self.as_lin(self.eval(n.operand, fr))
            c = v.const()
            return Lin.num(-c) if c is not None else node("neg", v)
        if isinstance(n.op, ast.Invert):
            v = self.eval(n.operand, fr)
            if isinstance(v, Lin):
                return node("f", "invert", v)
            if isinstance(v, Cond):
                return Cond("not", (v,))
        return super().e_UnaryOp(n, fr)

    def getattr(self, b, name, fr=None, default=None):
        if isinstance(b, Lin):
            if (b, name) in self.heap:
                return self.heap[(b, name)]
            if name == "T":
                return b if b.const() is not None else node("T", b)
            if name in ("real", "imag"):
                at = b.single_atom()
                if not (at is not None and at in self.types):
                    return node("f", name, b)
            if is_node(b) and name in ("shape", "size", "ndim", "dtype"):
                return node("attr", name, b)
        return super().getattr(b, name, fr, default)

    # -- indexing
    def getitem(self, b, idx):
        if isinstance(b, External):
            if b.dotted in ("numpy.r_", "numpy.c_"):
                if isinstance(idx, Tup) and idx.kind == "list":
                    return node("cat", b.dotted[-2:], (self.stack(idx),))
                return node("cat", b.dotted[-2:], tuple(self.as_lin(x) for x in (idx.items if isinstance(idx, Tup) else [idx])))
            return unknown("getitem")
        if isinstance(b, Lin):
            if b.is_zero():
                return ZERO
            at = b.single_atom()
            if at is not None and at.head not in ("e", "name", "attr", "input", "call", "getitem"):
                return super().getitem(b, idx)
            if isinstance(idx, Const) and isinstance(idx.v, int) and not isinstance(idx.v, bool):
                idx = Lin.num(idx.v)
            if isinstance(idx, Tup):
                idx = Tup([NONE if isinstance(x, External) and x.dotted == "numpy.newaxis" else x for x in idx.items], idx.kind)
            items = idx.items if isinstance(idx, Tup) else [idx]
            if all(isinstance(x, Const) and x.v is Ellipsis or isinstance(x, Slice) and x.full() for x in items):
                return b
            return node("idx", b, to_arg(idx))
        return super().getitem(b, idx)

    def unpack(self, tg, v, fr):
        at = is_node(v, "attr") if isinstance(v, Lin) else None
        return super().unpack(tg, v, fr)

    def store_subscript(self, tg, v, fr, aug):
        base = self.eval(tg.value, fr)
        if not isinstance(base, Lin):
            return super().store_subscript(tg, v, fr, aug)
        idx = self.index(tg.slice, fr)
        new = node("set", base, to_arg(idx), self.as_lin(v))
        if isinstance(tg.value, ast.Name):
            fr.env[tg.value.id] = new
        elif isinstance(tg.value, ast.Attribute):
            self.heap[(self.eval(tg.value.value, fr), tg.value.attr)] = new
        else:
            raise Unsupported("store through a temporary")

    def stack(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Tup):
            if any(isinstance(x, Gen) for x in v.items):
                return unknown("stack of a generic list")
            return node("list", tuple(self.as_lin(x) for x in v.items))
        return unknown("stack")

    def iter_info(self, v):
        at = v.single_atom() if isinstance(v, Lin) else None
        if at is not None and at in self.types:
            c = self.types[at]
            g, l = self.p.lookup(c, "__getitem__"), self.p.lookup(c, "__len__")
            if g and l and g[0] == l[0] == "method":
                n = self.call_method(c, "__len__", [], {}, selfv=v)
                n = n.const() if isinstance(n, Lin) else None
                if n is not None and n.real <= 8:
                    return ("concrete", [self.call_method(c, "__getitem__", [Lin.num(i)], {}, selfv=v) for i in range(int(n.real))])
        return super().iter_info(v)

    # -- calls
    def call_fn(self, f, args, kwargs):
        name = getattr(f.node, "name", "<lambda>")
        if name == "mkvc" and args:
            return node("mkvc", self.as_lin(args[0]))
        if f.fi is not None and f.fi.cls is None and name in ("sdiag", "sdinv", "speye", "spzeros", "Zero", "Identity"):
            return self.call_external(name, args, kwargs)
        return super().call_fn(f, args, kwargs)

    def call_class(self, c, args, kwargs):
        if c.name == "Identity":
            return node("eye")
        if self.p.is_subclass(c, "simpeg.maps._base.IdentityMap") if hasattr(self.p, "is_subclass") else False:
            r = super().call_class(c, args, kwargs)
            self.maps.add(r.single_atom())
            return r
        return super().call_class(c, args, kwargs)

    def call_external(self, d, args, kwargs):
        last = d.split(".")[-1]
        a0 = args[0] if args else None
        if last == "mkvc" and args:
            return node("mkvc", self.as_lin(a0))
        if d == "numpy.size" and isinstance(a0, Lin) and a0.single_atom() is not None and a0.single_atom().head == "attr":
            n = self.sizes.get(a0.single_atom().args[1])
            if n is not None:
                return Lin.num(n)
        if last in ZEROS:
            if last in ("Zero", "spzeros"):
                return ZERO
            return node("zeros", tuple(to_arg(a) for a in args))
        if last in EYE:
            return node("eye")
        if d in DIAG_FUNCS or last == "sdiag":
            if isinstance(a0, Tup):
                return node("x", d, tuple(to_arg(a) for a in args), tuple((k, to_arg(v)) for k, v in sorted(kwargs.items())))
            return node("diag", self.as_lin(a0))
        if d in DIAGINV_FUNCS or last == "sdinv":
            return node("diag", node("/", ONE, self.as_lin(a0)))
        if d in ("numpy.hstack", "numpy.concatenate", "numpy.vstack", "scipy.sparse.hstack", "scipy.sparse.vstack",
                 "numpy.column_stack", "numpy.stack", "scipy.sparse.block_diag"):
            if isinstance(a0, Tup) and not any(isinstance(x, Gen) for x in a0.items) and not (set(kwargs) - {"format"}):
                h = {"numpy.hstack": "r", "numpy.concatenate": "r", "numpy.vstack": "rows", "numpy.stack": "rows",
                     "numpy.column_stack": "c_", "scipy.sparse.hstack": "shstack", "scipy.sparse.vstack": "svstack",
                     "scipy.sparse.block_diag": "sbd"}[d]
                return node("cat", h, tuple(self.as_lin(x) for x in a0.items))
            return unknown(last)
        if d.startswith("scipy.sparse.cs") and args:
            if isinstance(a0, Tup) and len(a0.items) == 2 and isinstance(a0.items[1], Tup) and len(a0.items[1].items) == 2:
                i, j = a0.items[1].items
                return node("coo", self.as_lin(a0.items[0]), to_arg2(self, i), to_arg2(self, j))
            if isinstance(a0, Tup):
                return node("zeros", (to_arg(a0),))
            return node("sparse", self.as_lin(a0))
        if d in ERASEF or last in ("asarray",):
            return self.as_lin(a0) if args else unknown(d)
        if last in UFUNC and (d.startswith("numpy.") or d.startswith("scipy.special")):
            if last in ("multiply", "divide", "add", "subtract") and len(args) == 2:
                op = {"multiply": "e*", "divide": "/", "add": "+", "subtract": "-"}[last]
                return node(op, self.as_lin(a0), self.as_lin(args[1]))
            return node("f", {"absolute": "abs", "conjugate": "conj"}.get(last, last), *[self.as_lin(a) for a in args])
        if d in ("numpy.dot", "numpy.matmul", "numpy.inner"):
            return self.binop(ast.MatMult(), a0, args[1])
        if d in ("numpy.vdot",):
            return node("@", node("f", "conj", self.as_lin(a0)), self.as_lin(args[1]))
        if d in ("numpy.transpose",):
            return node("T", self.as_lin(a0))
        if d in ("numpy.outer",):
            return node("outer", self.as_lin(a0), self.as_lin(args[1]))
        if d in ("numpy.sum", "numpy.mean", "numpy.prod", "numpy.max", "numpy.min", "numpy.median", "numpy.amax", "numpy.amin") and len(args) == 1:
            if isinstance(a0, Tup):
                a0 = self.stack(a0)
            return node("red", last, self.as_lin(a0), tuple((k, to_arg(v)) for k, v in sorted(kwargs.items())))
        if d == "numpy.linalg.norm":
            return node("red", "norm", self.as_lin(a0), tuple(to_arg(a) for a in args[1:]) + tuple((k, to_arg(v)) for k, v in sorted(kwargs.items())))
        if d in ("numpy.ones", "numpy.ones_like"):
            return node(last, to_arg(a0))
        if d == "numpy.full":
            return node("full", to_arg(a0), self.as_lin(args[1]))
        if d == "numpy.arange":
            return node("arange", *[to_arg(a) for a in args])
        if d == "numpy.repeat":
            return node("m", "repeat", self.as_lin(a0), tuple(to_arg(a) for a in args[1:]), tuple((k, to_arg(v)) for k, v in sorted(kwargs.items())))
        if d in ("numpy.reshape", "numpy.atleast_2d", "numpy.expand_dims", "numpy.ravel"):
            return node("m", last, self.as_lin(a0), tuple(to_arg(a) for a in args[1:]), tuple((k, to_arg(v)) for k, v in sorted(kwargs.items())))
        if d.startswith("warnings.") or d.startswith("logging."):
            return NONE
        return node("x", d, tuple(to_arg(a) for a in args), tuple((k, to_arg(v)) for k, v in sorted(kwargs.items())))

    def call_attr(self, base, name, args, kwargs):
        if not isinstance(base, Lin):
            return None
        if name in ERASE:
            return base
        if name == "deriv" and self.is_map(base) and args:
            m = self.as_lin(args[0])
            v = kwargs.get("v", args[1] if len(args) > 1 else NONE)
            D = node("mderiv", base, m)
            return D if v == NONE else node("@", D, self.as_lin(v))
        if name == "dot" and len(args) == 1:
            return self.binop(ast.MatMult(), base, args[0])
        if name in ("conj", "conjugate"):
            return node("f", "conj", base)
        if name == "transpose" and not args:
            return node("T", base)
        if name == "diagonal" and not args:
            return node("diagonal", base)
        if name in ("sum", "mean", "prod", "max", "min"):
            return node("red", name, base, tuple(to_arg(a) for a in args) + tuple((k, to_arg(v)) for k, v in sorted(kwargs.items())))
        if name == "power" and len(args) == 1:
            return node("**", base, self.as_lin(args[0]))
        if name == "multiply" and len(args) == 1:
            return node("e*", base, self.as_lin(args[0]))
        if name in ("reshape", "flatten", "ravel", "repeat"):
            return node("m", name, base, tuple(to_arg(a) for a in args), tuple((k, to_arg(v)) for k, v in sorted(kwargs.items())))
        if name in ("append", "extend"):
            raise Unsupported("list of unknown content")
        return None

    def call_term(self, f, args, kwargs):
        at = f.single_atom()
        if at is None:
            return unknown("call of an expression") if not f.is_zero() else ZERO
        if at.head == "attr" and isinstance(at.args[0], Lin):
            r = self.call_attr(at.args[0], at.args[1], args, kwargs)
            if r is not None:
                return r
        if self.is_map(f) and len(args) == 1 and not kwargs:
            return node("mapply", f, self.as_lin(args[0]))
        return self.opaque_call(f, args, kwargs)

    def call_builtin(self, name, args, kwargs, n, fr):
        if name == "abs" and len(args) == 1:
            return node("f", "abs", self.as_lin(args[0]))
        if name == "sum" and len(args) == 1:
            v = args[0]
            if isinstance(v, Tup) and not any(isinstance(x, Gen) for x in v.items):
                out = ZERO
                for x in v.items:
                    out = self.binop(ast.Add(), out, x)
                return out
            return node("red", "sum", self.as_lin(v), ())
        if name == "len" and isinstance(args[0], Lin):
            return node("len", args[0])
        if name in ("int", "float") and len(args) == 1 and isinstance(args[0], Lin):
            return args[0]
        if name in ("min", "max") and args:
            if len(args) == 1:
                return node("red", name, self.as_lin(args[0]), ())
            return node("f", {"min": "minimum", "max": "maximum"}[name], *[self.as_lin(a) for a in args])
        return super().call_builtin(name, args, kwargs, n, fr)

    def sum_list(self, v):
        out = ZERO
        for x in v.items:
            if isinstance(x, Gen):
                return unknown("sum of a generic list")
            out = self.binop(ast.Add(), out, x)
        return out


def to_arg2(it, v):
    if isinstance(v, IterV):
        return ("iter", v.key)
    if isinstance(v, Tup):
        return it.stack(v)
    return to_arg(v)
