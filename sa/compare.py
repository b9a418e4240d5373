"""Three-valued comparison of normal forms and of sets of explored paths."""

from .interp import Const, Cond, Tup, contains_input, is_unknown, to_arg
from .interp import col_push
from .pit import pit_zero, residual
from .terms import RE, ZERO, Atom, Lin


def atoms_of(x, seen=None):
    """all atoms in an arbitrary nested hashable"""
    seen = set() if seen is None else seen
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, Lin):
            for (s, f) in y.d:
                stack.extend(a for a, _ in s)
                stack.extend(f)
        elif isinstance(y, Atom):
            if y not in seen:
                seen.add(y)
                stack.extend(y.args)
        elif isinstance(y, (tuple, frozenset, list)):
            stack.extend(y)
        elif isinstance(y, Tup):
            stack.extend(y.items)
        elif isinstance(y, Cond):
            stack.extend(y.args)
    return seen


def has_input(x):
    return any(a.head == "input" for a in atoms_of(x))


def input_nested(l):
    """the input occurs inside an opaque atom (not as a word factor)"""
    for (s, f) in l.d:
        for a, _ in s:
            if has_input(a):
                return True
        for a in f:
            if a.head != "input" and has_input(a.args):
                return True
    return False


def foreign_atoms(it, l):
    out = set()
    for a in atoms_of(l):
        if a.head == "?":
            out.add(a)
        elif a in it.fallback:
            out.add(a)
        elif a.head == "call" and isinstance(a.args[0], tuple) and a.args[0] and a.args[0][0] == "ext":
            out.add(a)
        elif a.head in ("phi", "sumphi"):
            out.add(a)
    return out


def compare(it, a, b, real_tail=False):
    """'eq' | 'ne' | 'und' with reason"""
    d = a - b
    if d.is_zero():
        return "eq", ""
    if any(x.head == "Col" for (_, f) in d.d for x in f):
        d = col_push(d)
    if pit_zero(d, real_tail=real_tail):
        return "eq", ""
    # same up to transposition of operands of unknown shape
    da, db = erase_T(a), erase_T(b)
    if pit_zero(da - db, real_tail=real_tail):
        return "und", "transposition of an operand of unknown shape"
    r = residual(d, real_tail=real_tail)
    if not r.is_zero():
        d = r
    if input_nested(d):
        return "und", "input nested in an uninterpreted call"
    # atoms of the remaining difference, per side
    da = Lin({k: c for k, c in d.d.items() if k in a.d})
    db = Lin({k: c for k, c in d.d.items() if k in b.d})
    fa, fb = foreign_atoms(it, da), foreign_atoms(it, db)
    if any(x.head in ("?", "phi", "sumphi") for x in fa | fb):
        return "und", "unknown value: " + "; ".join(sorted(repr(x)[:80] for x in fa | fb)[:3])
    if fa != fb:
        return "und", "uninterpreted calls differ: " + "; ".join(sorted(repr(x)[:80] for x in fa ^ fb)[:3])
    return "ne", ""


def norm_decisions(dec):
    """split decisions into those about the inputs and the others"""
    return {k: v for k, v in dec.items() if not has_input(k)}


def compatible(d1, d2):
    for k, v in d1.items():
        if k in d2 and d2[k] != v:
            return False
    # equality exclusivity
    for k, v in d1.items():
        if v and k[0] == "eq" and isinstance(k[2], Const):
            for k2, v2 in d2.items():
                if v2 and k2[0] == "eq" and k2[1] == k[1] and isinstance(k2[2], Const) and k2[2] != k[2]:
                    return False
    return True


def erase_T(l):
    out = ZERO
    for (s, f), c in l.d.items():
        out = out + Lin({(s, tuple(Atom(a.head, a.args, False, a.sym, a.kind) if a.kind == "?" else a for a in f)): c})
    return out
