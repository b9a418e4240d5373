"""Reaching definitions of local names inside one function (structured AST, loops iterated to a fixpoint)."""

import ast

MUT = {"append", "extend", "insert", "update", "add", "setdefault"}


class Def:
    __slots__ = ("name", "exprs", "param", "node", "kind")

    def __init__(self, name, exprs, param=False, node=None, kind="assign"):
        self.name, self.exprs, self.param, self.node, self.kind = name, exprs, param, node, kind


class Reach:
    def __init__(self, fn):
        self.fn = fn
        self.defs = []
        self.by_name = {}
        self.at = {}  # id(node), name -> Def, so that loop passes give the same definition
        self.uses = {}
        self.pre = {}
        env = {}
        a = fn.args
        for q in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            d = Def(q.arg, [], True, q)
            self.defs.append(d)
            self.by_name.setdefault(q.arg, []).append(d)
            env[q.arg] = frozenset([d])
        self.brk, self.cnt = [], []
        self.block(fn.body, env)
        # nested functions run later: any definition may reach them
        self.inner = set()
        for x in ast.walk(fn):
            if x is not fn and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for y in ast.walk(x):
                    self.inner.add(id(y))
                    if isinstance(y, ast.Assign):
                        for t in y.targets:
                            self.loose(t, y.value)
                    elif isinstance(y, (ast.AugAssign, ast.AnnAssign)) and y.value is not None:
                        self.loose(y.target, y.value)
                    elif isinstance(y, (ast.For, ast.comprehension)):
                        self.loose(y.target, y.iter)

    def loose(self, t, v):
        for e in ast.walk(t):
            if isinstance(e, ast.Name):
                self.mk(e.id, [v], e)

    def mk(self, name, exprs, node, kind="assign"):
        k = (id(node), name)
        if k not in self.at:
            d = Def(name, exprs, False, node, kind)
            self.at[k] = d
            self.defs.append(d)
            self.by_name.setdefault(name, []).append(d)
        return self.at[k]

    def reaching(self, n):
        """definitions that may reach this Name load"""
        if id(n) in self.inner or id(n) not in self.uses:
            return self.by_name.get(n.id, ())
        return self.uses[id(n)]

    def before(self, s):
        """definitions of the target of `x += e` that reach the statement"""
        return self.pre.get(id(s), ())

    # ---------------------------------------------------------------- expressions
    def ex(self, e, env):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.uses[id(e)] = self.uses.get(id(e), frozenset()) | env.get(e.id, frozenset())
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env = dict(env)
            for g in e.generators:
                self.ex(g.iter, env)
                self.bind(g.target, [g.iter], env, kind="for")
                for i in g.ifs:
                    self.ex(i, env)
            for x in (e.key, e.value) if isinstance(e, ast.DictComp) else (e.elt,):
                self.ex(x, env)
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef)):
            return
        if isinstance(e, ast.NamedExpr):
            self.ex(e.value, env)
            self.bind(e.target, [e.value], env)
            return
        for c in ast.iter_child_nodes(e):
            self.ex(c, env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.attr in MUT:
            n = e.func.value.id
            d = self.mk(n, list(e.args) + [k.value for k in e.keywords], e, "mut")
            env[n] = env.get(n, frozenset()) | {d}

    def bind(self, t, exprs, env, weak=False, kind="assign"):
        if isinstance(t, ast.Name):
            d = self.mk(t.id, exprs, t, kind)
            env[t.id] = (env.get(t.id, frozenset()) if weak else frozenset()) | {d}
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                ex = exprs
                if len(exprs) == 1 and isinstance(exprs[0], (ast.Tuple, ast.List)) and len(exprs[0].elts) == len(t.elts) and not any(
                    isinstance(z, ast.Starred) for z in list(t.elts) + list(exprs[0].elts)
                ):
                    ex = [exprs[0].elts[i]]
                self.bind(e, ex, env, weak, kind if kind != "assign" or ex is not exprs else "unpack")
        elif isinstance(t, ast.Starred):
            self.bind(t.value, exprs, env, weak, "unpack")
        elif isinstance(t, ast.Subscript):
            self.ex(t.slice, env)
            b = t.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                root = t.value
                while isinstance(root, ast.Subscript):
                    root = root.value
                if isinstance(root, ast.Name):
                    d = self.mk(b.id, exprs, t, "sub")
                    env[b.id] = env.get(b.id, frozenset()) | {d}
                self.ex(t.value, env)
        elif isinstance(t, ast.Attribute):
            self.ex(t.value, env)

    # ---------------------------------------------------------------- statements
    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, frozenset()) | v
        return out

    def block(self, body, env):
        for s in body:
            if env is None:
                break
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            self.ex(s.value, env)
            for t in s.targets:
                self.bind(t, [s.value], env)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.ex(s.value, env)
                self.bind(s.target, [s.value], env)
            return env
        if isinstance(s, ast.AugAssign):
            self.ex(s.value, env)
            if isinstance(s.target, ast.Name):
                self.pre[id(s)] = self.pre.get(id(s), frozenset()) | env.get(s.target.id, frozenset())
            self.bind(s.target, [s.value], env, weak=True, kind="aug")
            return env
        if isinstance(s, ast.If):
            self.ex(s.test, env)
            a = self.block(s.body, dict(env))
            b = self.block(s.orelse, dict(env))
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.brk.append([])
            self.cnt.append([])
            cur = dict(env)
            for _ in range(4):
                e = dict(cur)
                if isinstance(s, ast.While):
                    self.ex(s.test, e)
                else:
                    self.ex(s.iter, e)
                    self.bind(s.target, [s.iter], e, kind="for")
                e = self.block(s.body, e)
                for c in self.cnt[-1]:
                    e = self.join(e, c)
                nxt = self.join(cur, e)
                if nxt == cur:
                    break
                cur = nxt
            out = self.block(s.orelse, dict(cur)) if s.orelse else cur
            for b in self.brk[-1]:
                out = self.join(out, b)
            self.brk.pop()
            self.cnt.pop()
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.ex(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, [i.context_expr], env, kind="with")
            return self.block(s.body, env)
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            before = dict(env)
            mid = before
            cur = dict(env)
            for x in s.body:  # an exception may leave after any statement
                if cur is None:
                    break
                cur = self.stmt(x, cur)
                mid = self.join(mid, dict(cur) if cur is not None else None)
            out = self.block(s.orelse, cur) if cur is not None else None
            for h in s.handlers:
                e = dict(mid)
                if h.type is not None:
                    self.ex(h.type, e)
                out = self.join(out, self.block(h.body, e))
            if s.finalbody:
                out = self.block(s.finalbody, self.join(out, dict(mid)))
            return out
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.ex(c, env)
            return None
        if isinstance(s, ast.Break):
            if self.brk:
                self.brk[-1].append(dict(env))
            return None
        if isinstance(s, ast.Continue):
            if self.cnt:
                self.cnt[-1].append(dict(env))
            return None
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return env
        if isinstance(s, ast.Match):
            self.ex(s.subject, env)
            out = dict(env)
            for c in s.cases:
                out = self.join(out, self.block(c.body, dict(env)))
            return out
        for c in ast.iter_child_nodes(s):
            self.ex(c, env)
        return env
