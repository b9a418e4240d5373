"""Kinds (number, vector, matrix, mask, index) of attributes, from the code that assigns them."""

import ast

from .project import ClassInfo

NUM = {"validate_float", "validate_integer", "float", "int", "validate_bool", "norm"}
VECF = {"validate_ndarray_with_shape", "atleast_1d", "array", "asarray", "linspace", "logspace", "mkvc", "ones", "zeros", "arange"}
MASK = {"validate_active_indices"}
MATF = {"sdiag", "spdiags", "csr_matrix", "csc_matrix", "coo_matrix", "kron", "speye", "vstack_", "getInterpolationMat", "get_interpolation_matrix",
        "kron3", "dia_matrix", "lil_matrix", "diags", "block_diag", "validate_matrix"}
VECATTR = {"cell_centers_x", "cell_centers_y", "cell_centers_z", "cell_volumes", "h_gridded"}


def of_expr(p, c, e, depth=0):
    if isinstance(e, ast.Constant):
        return "S" if isinstance(e.value, (int, float)) and not isinstance(e.value, bool) else None
    if isinstance(e, ast.Call):
        f = e.func
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if n in NUM:
            return "S"
        if n in MASK:
            return "B"
        if n in MATF:
            return "M"
        if n == "validate_ndarray_with_shape":
            sh = [k.value for k in e.keywords if k.arg == "shape"] + list(e.args[2:3])
            if sh:
                s = ast.unparse(sh[0])
                return "V" if s.count("*") + s.count(",") <= 2 and s.count("'*'") < 2 else "A"
            return "V"
        if n in VECF:
            return "V"
        if n in ("tocsr", "tocsc", "copy", "astype", "toarray") and isinstance(f, ast.Attribute):
            return of_expr(p, c, f.value, depth)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("sp", "sparse"):
            return "M"
        return None
    if isinstance(e, ast.IfExp):
        return of_expr(p, c, e.body, depth) or of_expr(p, c, e.orelse, depth)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and depth < 4:
        return of_attr(p, c, e.attr, depth + 1)
    if isinstance(e, ast.Attribute):
        return "V" if e.attr in VECATTR else None
    if isinstance(e, (ast.BinOp,)):
        a, b = of_expr(p, c, e.left, depth), of_expr(p, c, e.right, depth)
        return "M" if "M" in (a, b) and isinstance(e.op, ast.Add) else a if a == b else None
    if isinstance(e, ast.UnaryOp):
        return of_expr(p, c, e.operand, depth)
    return None


def of_attr(p, c, name, depth=0):
    _memo = p.__dict__.setdefault("_kinds", {})
    k = (c.full, name)
    if k not in _memo:
        _memo[k] = None  # in progress
        _memo[k] = _of_attr(p, c, name)
    return _memo[k]


_fns = {}


def fns_of(k):
    if k not in _fns:
        _fns[k] = []
        for f in ast.walk(k.node):
            if isinstance(f, ast.FunctionDef):
                _fns[k].append((f, [st for st in ast.walk(f) if isinstance(st, (ast.Assign, ast.Return))]))
    return _fns[k]


def _of_attr(p, c, name):
    for k in p.mro(c):
        if not isinstance(k, ClassInfo):
            continue
        for fn, sts in sorted(fns_of(k), key=lambda x: 0 if x[0].name == name else 1):
            setter = fn.name == name and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in fn.decorator_list)
            prop = fn.name == name and any(isinstance(d, ast.Name) and d.id == "property" for d in fn.decorator_list)

            def local(n):
                for st in sts:
                    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == n:
                        x = of_expr(p, c, st.value)
                        if x:
                            return x
                return None

            for st in sts:
                if isinstance(st, ast.Return):
                    if not prop or setter or st.value is None:
                        continue
                    if isinstance(st.value, ast.Attribute) and st.value.attr in (name, "_" + name):
                        continue
                elif not any(
                    isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"
                    and (t.attr in (name, "_" + name) or setter)
                    for t in st.targets
                ):
                    continue
                x = of_expr(p, c, st.value)
                if x is None and isinstance(st.value, ast.Name):
                    x = local(st.value.id)
                if x:
                    return x
    return None
