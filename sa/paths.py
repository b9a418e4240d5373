"""Path enumeration over a function body: branch conditions as atoms with polarity, local names replaced by what they
were last assigned, helper calls inlined.  Loops are taken zero or one time, try bodies as completing normally plus one
path per handler."""

import ast
import copy

from .project import FuncInfo

LIMIT = 6000


class TooMany(Exception):
    pass


_DUMPS = {}


def dump(n):
    """ast.dump, kept per node object (nodes are never changed once they are part of a state)"""
    r = _DUMPS.get(id(n))
    if r is None or r[0] is not n:
        r = _DUMPS[id(n)] = (n, ast.dump(n))
    return r[1]


class St:
    __slots__ = ("env", "conds", "events", "ret", "stop")

    def __init__(self, env=None, conds=(), events=(), ret=None, stop=None):
        self.env = env if env is not None else {}
        self.conds = conds
        self.events = events
        self.ret = ret
        self.stop = stop  # None | 'return' | 'raise' | 'break' | 'continue'

    def clone(self, **kw):
        s = St(dict(self.env), self.conds, self.events, self.ret, self.stop)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def ev(self, *e):
        return self.clone(events=self.events + (e,))

    def key(self):
        return (
            tuple(sorted((k, id(v) if not isinstance(v, ast.AST) else dump(v)) for k, v in self.env.items())),
            self.conds_key(), tuple(e[:2] for e in self.events), self.stop,
            dump(self.ret) if isinstance(self.ret, ast.AST) else None,
        )

    def conds_key(self):
        return tuple((dump(t), p) for t, p in self.conds)


class _Sub(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            v = self.env[n.id]
            if isinstance(v, ast.AST):
                return v
        return n

    def visit_Lambda(self, n):
        return n

    def visit_FunctionDef(self, n):
        return n


def size(n):
    return sum(1 for _ in ast.walk(n))


def subst(e, env):
    if not any(isinstance(x, ast.Name) and x.id in env for x in ast.walk(e)):
        return e
    return _Sub(env).visit(copy.deepcopy(e))


class Walker:
    """subclass hooks:
    inline(call, state) -> FuncInfo or None      helper to follow
    enter_for(node, state) -> list of states or None (None: default)
    visit(node, state) -> state                    called for every expression node in evaluation order
    stmt(node, state) -> state                     called for every simple statement before default handling
    """

    depth_limit = 6

    def __init__(self, fi):
        self.fi = fi
        self.n = 0
        self.stack = [fi]

    # hooks
    def inline(self, call, st):
        return None

    def enter_for(self, node, st):
        return None

    def visit(self, node, st):
        return st

    def assign(self, target, value, node, st):
        return st

    def delete(self, target, node, st):
        return st

    # ------------------------------------------------------------
    def run(self, env=None):
        # values are in SSA style: a parameter's name stands for its value on entry, `name@line` for an unknown value
        e = {q: ast.Name(q, ast.Load()) for q in self.fi.all_params()}
        e.update(env or {})
        return self.block(self.fi.node.body, [St(e)])

    def block(self, body, states):
        for node in body:
            out, seen = [], set()
            for s in states:
                if s.stop:
                    rs = [s]
                else:
                    rs = self.statement(node, s)
                if len(rs) == 1 and len(states) == 1:
                    out.append(rs[0])
                    continue
                for r in rs:
                    k = r.key()
                    if k not in seen:
                        seen.add(k)
                        out.append(r)
            states = out
            self.n += len(states)
            if len(states) > LIMIT:
                raise TooMany(self.fi.qual)
        return states

    def statement(self, n, s):
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return [s]
            return [r for r, _ in self.expr(n.value, s)]
        if isinstance(n, ast.Assign):
            out = []
            for r, v in self.expr(n.value, s):
                for t in n.targets:
                    r = self.bind(t, v, n, r)
                out.append(r)
            return out
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return [s]
            return [self.bind(n.target, v, n, r) for r, v in self.expr(n.value, s)]
        if isinstance(n, ast.AugAssign):
            ld = copy.deepcopy(n.target)
            for x in ast.walk(ld):
                if hasattr(x, "ctx"):
                    x.ctx = ast.Load()
            e = ast.copy_location(ast.BinOp(ld, n.op, n.value), n)
            ast.fix_missing_locations(e)
            return [self.bind(n.target, v, n, r) for r, v in self.expr(e, s)]
        if isinstance(n, ast.Return):
            if n.value is None:
                return [s.clone(stop="return", ret=None)]
            return [r if r.stop else r.clone(stop="return", ret=v) for r, v in self.expr(n.value, s)]
        if isinstance(n, ast.Raise):
            return [s.clone(stop="raise")]
        if isinstance(n, ast.If):
            out = []
            for r, b in self.test(n.test, s):
                out.extend(self.block(n.body if b else n.orelse, [r]))
            return out
        if isinstance(n, ast.For):
            h = self.enter_for(n, s)
            if h is not None:
                return h
            out = []
            for r, v in self.expr(n.iter, s):
                zero = r
                r1 = self.bind(n.target, None, n, r)
                one = self.block(n.body, [r1])
                for o in one:
                    if o.stop in ("break", "continue"):
                        o = o.clone(stop=None)
                    out.append(self.forget(o, n.body))
                if not n.orelse:
                    out.append(zero)
                else:
                    out.extend(self.block(n.orelse, [zero]))
            return out
        if isinstance(n, ast.While):
            out = []
            for r, b in self.test(n.test, s):
                if not b:
                    out.append(r)
                else:
                    for o in self.block(n.body, [r]):
                        if o.stop in ("break", "continue"):
                            o = o.clone(stop=None)
                        out.append(self.forget(o, n.body))
            return out
        if isinstance(n, ast.With):
            st = [s]
            for it in n.items:
                nx = []
                for r in st:
                    for r2, v in self.expr(it.context_expr, r):
                        nx.append(self.bind(it.optional_vars, v, n, r2) if it.optional_vars is not None else r2)
                st = nx
            return self.block(n.body, st)
        if isinstance(n, ast.Try):
            out = []
            for o in self.block(n.body + n.orelse, [s]):
                if o.stop == "raise" and n.handlers:
                    for h in n.handlers:
                        out.extend(self.block(h.body, [o.clone(stop=None)]))
                else:
                    out.append(o)
            for h in n.handlers:
                s2 = self.forget(s, n.body)
                out.extend(self.block(h.body, [s2]))
            if n.finalbody:
                fin = []
                for o in out:
                    stop, ret = o.stop, o.ret
                    for q in self.block(n.finalbody, [o.clone(stop=None)]):
                        fin.append(q if q.stop else q.clone(stop=stop, ret=ret))
                out = fin
            return out
        if isinstance(n, ast.Delete):
            for t in n.targets:
                s = self.delete(t, n, s)
            return [s]
        if isinstance(n, ast.Break):
            return [s.clone(stop="break")]
        if isinstance(n, ast.Continue):
            return [s.clone(stop="continue")]
        if isinstance(n, ast.Assert):
            return [r for r, _ in self.expr(n.test, s)]
        return [s]

    def forget(self, s, body):
        names = {x.id for st in body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if not names & set(s.env):
            return s
        ln = getattr(body[0], "lineno", 0)
        return s.clone(env={k: (ast.Name(f"{k}@{ln}", ast.Load()) if k in names else v) for k, v in s.env.items()})

    def bind(self, t, v, node, s):
        if s.stop:
            return s
        if isinstance(t, ast.Name):
            e = dict(s.env)
            if v is None or size(v) > 120:
                e[t.id] = ast.Name(f"{t.id}@{getattr(node, 'lineno', 0)}", ast.Load())
            else:
                e[t.id] = v
            return s.clone(env=e)
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            for a, b in zip(t.elts, vs):
                s = self.bind(a.value if isinstance(a, ast.Starred) else a, b, node, s)
            return s
        return self.assign(t, v, node, s)

    # ------------------------------------------------------------ expressions
    def expr(self, e, s):
        """[(state, expression with locals substituted)], visiting sub-expressions in evaluation order"""
        if s.stop:
            return [(s, e)]
        if isinstance(e, ast.IfExp):
            out = []
            for r, b in self.test(e.test, s):
                out.extend(self.expr(e.body if b else e.orelse, r))
            return out
        if isinstance(e, ast.BoolOp) and not self.pure(e):
            return [(r, ast.Constant(b)) for r, b in self.test(e, s)]
        if isinstance(e, ast.Name):
            v = s.env.get(e.id)
            return [(s, v if isinstance(v, ast.AST) else e)]
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            st = s
            for x in ast.walk(e):
                if isinstance(x, ast.expr):
                    st = self.visit(x, st)
            return [(st, subst(e, s.env))]
        # children in order
        states = [(s, {})]
        for name, val in ast.iter_fields(e):
            if isinstance(val, ast.expr):
                nx = []
                for st, d in states:
                    for r, v in self.expr(val, st):
                        nx.append((r, {**d, name: v}))
                states = nx
            elif isinstance(val, list) and val and all(isinstance(x, (ast.expr, ast.keyword, ast.Starred)) for x in val):
                for i, x in enumerate(val):
                    nx = []
                    for st, d in states:
                        sub = x.value if isinstance(x, ast.keyword) else x
                        for r, v in self.expr(sub, st):
                            l = list(d.get(name, val))
                            l[i] = ast.keyword(arg=x.arg, value=v) if isinstance(x, ast.keyword) else v
                            nx.append((r, {**d, name: l}))
                    states = nx
        out = []
        for st, d in states:
            if st.stop:
                out.append((st, e))
                continue
            ne = e
            if d:
                ne = copy.copy(e)
                for k, v in d.items():
                    setattr(ne, k, v)
            if isinstance(ne, ast.Call) and len(self.stack) <= self.depth_limit:
                g = self.inline(ne, st)
                if g is not None and g not in self.stack:
                    out.extend(self.call(g, ne, st))
                    continue
            st = self.visit(ne, st)
            out.append((st, ne))
        return out

    def pure(self, e):
        return not any(isinstance(x, (ast.Call, ast.IfExp)) for x in ast.walk(e))

    def call(self, g, c, s):
        params = g.all_params()
        bound = isinstance(c.func, ast.Attribute) and g.cls is not None and g.kind != "static"
        if bound and (c.func.attr in ("fset", "fget", "fdel", "__set__") or isinstance(c.func.value, ast.Name) and c.func.value.id[:1].isupper()):
            bound = False
        env = {}
        pos = list(c.args)
        if bound:
            env[params[0]] = c.func.value if not (isinstance(c.func.value, ast.Call)) else ast.Name("self", ast.Load())
            params = params[1:]
        for q, a in zip(params, pos):
            env[q] = a
        for k in c.keywords:
            if k.arg:
                env[k.arg] = k.value
        d = g.defaults() if hasattr(g, "defaults") else {}
        for q in params:
            if q not in env:
                env[q] = d[q] if q in d else ast.Name(f"{q}@{g.qual}", ast.Load())
        self.stack.append(g)
        saved = s.env
        try:
            res = self.block(g.node.body, [s.clone(env=env, stop=None, ret=None)])
        finally:
            self.stack.pop()
        out = []
        for r in res:
            v = r.ret if isinstance(r.ret, ast.AST) else ast.Constant(None)
            if r.stop == "raise":
                out.append((r.clone(env=dict(saved)), v))
            else:
                out.append((r.clone(env=dict(saved), stop=None, ret=None), v))
        return out

    def test(self, t, s):
        """[(state, truth)] with the condition recorded as atoms"""
        if s.stop:
            return [(s, True)]
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return [(r, not b) for r, b in self.test(t.operand, s)]
        if isinstance(t, ast.BoolOp):
            isand = isinstance(t.op, ast.And)
            cur = [s]
            out = []
            for i, x in enumerate(t.values):
                nx = []
                for r in cur:
                    for q, b in self.test(x, r):
                        if b == isand and i < len(t.values) - 1:
                            nx.append(q)
                        else:
                            out.append((q, b))
                cur = nx
            return out
        if isinstance(t, ast.Name) and isinstance(s.env.get(t.id), ast.AST):
            return self.test_value(s.env[t.id], s)
        if isinstance(t, ast.NamedExpr):
            out = []
            for r, v in self.expr(t.value, s):
                out.extend(self.test_value(v, self.bind(t.target, v, t, r)))
            return out
        out = []
        for r, v in self.expr(t, s):
            out.extend(self.test_value(v, r))
        return out

    def test_value(self, v, s):
        """branch on an already evaluated expression"""
        if s.stop:
            return [(s, True)]
        if isinstance(v, ast.Constant):
            return [(s, bool(v.value))]
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
            return [(r, not b) for r, b in self.test_value(v.operand, s)]
        if isinstance(v, ast.BoolOp):
            isand = isinstance(v.op, ast.And)
            cur, out = [s], []
            for i, x in enumerate(v.values):
                nx = []
                for r in cur:
                    for q, b in self.test_value(x, r):
                        if b == isand and i < len(v.values) - 1:
                            nx.append(q)
                        else:
                            out.append((q, b))
                cur = nx
            return out
        k = self.decide(v, s)
        if k is not None:
            return [(s, k)]
        key = dump(v)
        for c, p in s.conds:
            if dump(c) == key and self.stable(v):
                return [(s, p)]
        return [(s.clone(conds=s.conds + ((v, True),)), True), (s.clone(conds=s.conds + ((v, False),)), False)]

    def decide(self, v, s):
        return None

    def stable(self, v):
        """re-testing the same expression gives the same answer (no calls)"""
        return not any(isinstance(x, ast.Call) for x in ast.walk(v))
