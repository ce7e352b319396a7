"""Name rules (C11): every name loaded is bound, on every feasible path.

 (a) undefined names  - not bound in any enclosing scope, or bound only in the import-failure fallback of a module
 (b) unbound locals   - path-sensitive definite-assignment analysis with correlated branch conditions
"""
import ast
from .model import walk_own, BUILTINS, dotted, strip_main, is_main_guard

MAXSTATES = 96


# ----------------------------------------------------------------------------- (a)
def module_bound(m):
    """names bound at module level on the normal path (import fallbacks in `except` do not count),
    plus names bound only by a fallback"""
    ok, weak = set(), set()

    def targets(t, out):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                out.add(n.id)

    def go(body, out):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(s.name)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    if a.name == '*':
                        out.add('*')
                    out.add(a.asname or a.name.split('.')[0])
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    targets(t, out)
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                targets(s.target, out)
            elif isinstance(s, ast.If):
                if is_main_guard(s.test):
                    go(s.body, weak)
                else:
                    go(s.body, out)
                    go(s.orelse, out)
            elif isinstance(s, ast.Try):
                go(s.body, out)
                go(s.orelse, out)
                go(s.finalbody, out)
                imports = any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in s.body)
                for h in s.handlers:
                    go(h.body, weak if imports else out)
            elif isinstance(s, (ast.For, ast.While)):
                if isinstance(s, ast.For):
                    targets(s.target, out)
                go(s.body, out)
                go(s.orelse, out)
            elif isinstance(s, ast.With):
                for it in s.items:
                    if it.optional_vars is not None:
                        targets(it.optional_vars, out)
                go(s.body, out)
            for n in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Try, ast.If)) else ():
                if isinstance(n, ast.NamedExpr):
                    out.add(n.target.id)
    go(m.tree.body, ok)
    return ok, weak - ok


def _in_handler(tree, node):
    return any(node is x for h in ast.walk(tree) if isinstance(h, ast.ExceptHandler) for x in ast.walk(h))


class _Undef(ast.NodeVisitor):
    """lexical scoping of names in one module"""
    def __init__(self, m, proj):
        self.m = m
        self.ok, self.weak = module_bound(m)
        if '*' in self.ok:               # from <module> import *
            self.ok.discard('*')
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                    t = proj.import_target(m, n)
                    if t in proj.mods:
                        self.ok |= {x for x in module_bound(proj.mods[t])[0] if not x.startswith('_')}
                    elif not _in_handler(m.tree, n):
                        self.ok.add('*')
        # names a function declares global and assigns exist at module level as well
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                self.ok.update(n.names)
        self.scopes = []           # list of (kind, set)
        self.where = []
        self.out = []
        self.loads = 0

    def known(self, name):
        for i, (kind, names) in enumerate(reversed(self.scopes)):
            if kind == 'class' and i > 0:
                continue
            if name in names:
                return True
        return name in self.ok or '*' in self.ok or name in BUILTINS

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.loads += 1
            if not self.known(n.id):
                self.out.append(('.'.join(self.where) or '<module>', n.id, n.lineno,
                                 'bound only in the fallback used when the package import fails' if n.id in self.weak
                                 else 'not bound in any enclosing scope'))

    def _func(self, n):
        for d in getattr(n, 'decorator_list', []):
            self.visit(d)
        a = n.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            self.visit(d)
        names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        body = n.body if isinstance(n.body, list) else [n.body]
        from .model import assigned_names
        if isinstance(n.body, list):
            names |= assigned_names(n)
        for x in walk_own(n) if isinstance(n.body, list) else ():
            if isinstance(x, ast.Global):
                names -= set(x.names)
        names.add('__class__')
        self.scopes.append(('func', names))
        self.where.append(getattr(n, 'name', '<lambda>'))
        if isinstance(n.body, list):
            self._stmts(body)
        else:
            self.visit(n.body)
        self.where.pop()
        self.scopes.pop()

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = _func

    def visit_ClassDef(self, n):
        for x in n.bases + n.keywords + n.decorator_list:
            self.visit(x)
        names = set()
        for s in n.body:
            for x in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                names.add(s.name)
        self.scopes.append(('class', names))
        self.where.append(n.name)
        for s in n.body:
            self.visit(s)
        self.where.pop()
        self.scopes.pop()

    def _comp(self, n):
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        # a comprehension does not leak its targets; inside a class body it cannot see class names,
        # except for the first iterable - not used in this code base, ignored
        self.scopes.append(('func', names))
        self.generic_visit(n)
        self.scopes.pop()

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_If(self, n):
        if is_main_guard(n.test):
            return                       # demo code of the module, not part of the library
        self.generic_visit(n)

    def visit_Try(self, n):
        # a name error in a body whose handler absorbs it without raising does not surface
        # (`try: unicode(..) except: ...` probes)
        absorbs = any(catches_name_error(h) and not any(isinstance(x, ast.Raise) for b in h.body for x in ast.walk(b))
                      for h in n.handlers)
        if not absorbs:
            self._stmts(n.body)
        for h in n.handlers:
            if h.type is not None:
                self.visit(h.type)
            self._stmts(h.body)
        self._stmts(n.orelse)
        self._stmts(n.finalbody)

    def _stmts(self, body):
        for s in body:
            self.visit(s)
            if isinstance(s, (ast.Raise, ast.Return, ast.Continue, ast.Break)):
                return                   # what follows is unreachable

    def generic_visit(self, node):
        for field, value in ast.iter_fields(node):
            if isinstance(value, list):
                if value and isinstance(value[0], ast.stmt):
                    self._stmts(value)
                else:
                    for x in value:
                        if isinstance(x, ast.AST):
                            self.visit(x)
            elif isinstance(value, ast.AST):
                self.visit(value)


def undefined_names(proj):
    out, loads = [], 0
    for m in proj.mods.values():
        v = _Undef(m, proj)
        v.visit(m.tree)
        loads += v.loads
        for where, name, line, why in v.out:
            out.append((m, where, name, line, why))
    return out, loads


# ----------------------------------------------------------------------------- (b)
class _Facts:
    """immutable set of branch facts: atom text -> bool, and value facts: expr text -> ('in'|'not', frozenset)"""
    __slots__ = ('b', 'v', 'h')

    def __init__(self, b=(), v=()):
        self.b, self.v = dict(b), dict(v)
        self.h = hash((frozenset(self.b.items()), frozenset(self.v.items())))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.b == o.b and self.v == o.v

    def drop(self, texts):
        """forget facts about any of the given identifiers"""
        b = {k: x for k, x in self.b.items() if not (k[1] & texts)}
        v = {k: x for k, x in self.v.items() if not (k[1] & texts)}
        if len(b) == len(self.b) and len(v) == len(self.v):
            return self
        return _Facts(b, v)

    def meet(self, o):
        return _Facts({k: x for k, x in self.b.items() if o.b.get(k, None) == x and k in o.b},
                      {k: x for k, x in self.v.items() if o.v.get(k, None) == x and k in o.v})


def _idents(e):
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            d = dotted(n)
            if d:
                out.add(d)
    return frozenset(out)


def _key(e):
    return (ast.dump(e), _idents(e))


def _const(e):
    """hashable constant value or raises"""
    if isinstance(e, ast.Constant):
        return (type(e.value).__name__ if not isinstance(e.value, (int, float)) or isinstance(e.value, bool) else 'num', e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        return ('num', -e.operand.value)
    raise ValueError


def _constset(e):
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return frozenset(_const(x) for x in e.elts)
    raise ValueError


_INV = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}


def assume(facts, test, truth):
    """list of fact sets under which `test` evaluates to `truth` ([] = infeasible)"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return assume(facts, test.operand, not truth)
    if isinstance(test, ast.BoolOp):
        conj = isinstance(test.op, ast.And) == truth
        if conj:                         # all operands have value `truth`
            cur = [facts]
            for v in test.values:
                cur = [g for f in cur for g in assume(f, v, truth)]
            return cur
        out = []                         # some operand has value `truth`: first such
        cur = [facts]
        for v in test.values:
            out += [g for f in cur for g in assume(f, v, truth)]
            cur = [g for f in cur for g in assume(f, v, not truth)]
        return out[:8] if len(out) > 8 else out
    if isinstance(test, ast.Constant):
        return [facts] if bool(test.value) == truth else []
    if isinstance(test, ast.NamedExpr):
        return [facts]
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op, l, r = test.ops[0], test.left, test.comparators[0]
        try:
            if isinstance(op, (ast.Eq, ast.NotEq)):
                try:
                    c, ex = _const(r), l
                except ValueError:
                    c, ex = _const(l), r
                return _assume_val(facts, ex, frozenset([c]), truth == isinstance(op, ast.Eq))
            if isinstance(op, (ast.In, ast.NotIn)):
                return _assume_val(facts, l, _constset(r), truth == isinstance(op, ast.In))
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant):
                return _assume_val(facts, l, frozenset([_const(r)]), truth == isinstance(op, ast.Is))
        except ValueError:
            pass
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            try:
                c = _const(r)
                cur = facts.v.get(_key(l))
                if cur and cur[0] == 'in' and c[0] == 'num' and all(x[0] == 'num' for x in cur[1]):
                    cmp = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
                           ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}[type(op)]
                    keep = frozenset(x for x in cur[1] if cmp(x[1], c[1]) == truth)
                    if not keep:
                        return []
                    return [_Facts(facts.b, {**facts.v, _key(l): ('in', keep)})]
            except ValueError:
                pass
        if type(op) in _INV and not isinstance(op, (ast.Lt, ast.Gt)):
            inv = ast.Compare(left=l, ops=[_INV[type(op)]()], comparators=[r])
            if isinstance(op, (ast.GtE, ast.LtE, ast.NotEq, ast.NotIn, ast.IsNot)):
                return assume(facts, inv, not truth)
    k = _key(test)
    if k in facts.b:
        return [facts] if facts.b[k] == truth else []
    return [_Facts({**facts.b, k: truth}, facts.v)]


def _assume_val(facts, ex, cset, inside):
    k = _key(ex)
    cur = facts.v.get(k)
    if cur is None:
        new = ('in' if inside else 'not', cset)
    elif cur[0] == 'in':
        s = (cur[1] & cset) if inside else (cur[1] - cset)
        if not s:
            return []
        new = ('in', s)
    else:
        if inside:
            s = cset - cur[1]
            if not s:
                return []
            new = ('in', s)
        else:
            new = ('not', cur[1] | cset)
    return [_Facts(facts.b, {**facts.v, k: new})]


class State:
    __slots__ = ('a', 'f')

    def __init__(self, a, f):
        self.a, self.f = a, f

    def __hash__(self):
        return hash((self.a, self.f))

    def __eq__(self, o):
        return self.a == o.a and self.f == o.f


def merge(states):
    states = list(dict.fromkeys(states))
    if len(states) <= MAXSTATES:
        return states
    # merge states that agree on assignments first
    by = {}
    for s in states:
        by[s.a] = State(s.a, by[s.a].f.meet(s.f)) if s.a in by else s
    states = list(by.values())
    if len(states) <= MAXSTATES:
        return states
    s0 = states[0]
    for s in states[1:]:
        s0 = State(s0.a & s.a, s0.f.meet(s.f))
    return [s0]


class Unbound:
    def __init__(self, proj, f):
        self.proj, self.fn = proj, f
        sc = proj.func_scope(f)
        from .model import assigned_names
        self.locals = assigned_names(f.node) - sc.globals_decl - sc.nonlocals
        # names bound only by comprehensions are not function locals
        comp_only = set()
        bound = set()
        self._stores(f.node, bound)
        self.locals &= bound | {n for n in self.locals if n in f.nested}
        self.reports = {}
        self.checked = 0
        self.swallow = 0
        self.withs = []
        self.used_handles = set()

    def _stores(self, fn, out):
        """names stored by statements of the function proper (comprehension targets excluded)"""
        def go(n):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                return
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add(a.asname or a.name.split('.')[0])
            for c in ast.iter_child_nodes(n):
                go(c)
        for s in fn.body:
            go(s)

    def run(self):
        params = set(self.fn.params) | set(self.fn.kwonly) | {self.fn.vararg, self.fn.kwarg}
        st = State(frozenset(params & self.locals | (params - {None})), _Facts())
        self.block(self.fn.node.body, [st], Ctx())
        return self.reports

    # -- expressions: check loads, in evaluation order (approx.), then stores
    def use(self, e, states):
        if e is None:
            return
        for n in self._loads(e):
            if n.id in self.locals:
                self.checked += 1
                for s in states:
                    if n.id not in s.a and not self.swallow:
                        self.reports.setdefault(n.id, n.lineno)
                        break

    def _loads(self, e, bound=frozenset()):
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in bound:
                yield e
            return
        if isinstance(e, ast.Lambda):
            return                       # evaluated later
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = set(bound)
            first = True
            for g in e.generators:
                yield from self._loads(g.iter, frozenset(bound if first else b))
                first = False
                b |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    yield from self._loads(c, frozenset(b))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                yield from self._loads(x, frozenset(b))
            return
        if isinstance(e, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        for c in ast.iter_child_nodes(e):
            yield from self._loads(c, bound)

    def bind(self, states, names, texts=()):
        names = frozenset(names)
        t = names | frozenset(texts)
        return merge([State(s.a | (names & self.locals), s.f.drop(t) if t else s.f) for s in states])

    def targets(self, t):
        names, texts = set(), set()
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                d = dotted(n if isinstance(n, ast.Attribute) else n.value)
                if d:
                    texts.add(d)
        return names, texts

    def mutcalls(self, e):
        """x.append(...) and the like may change facts about x"""
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in ('append', 'pop', 'extend', 'clear', 'update', 'insert', 'remove', 'readline', 'read',
                                   'readlines', 'add', 'seek', '__next__', 'next', 'setdefault', 'popitem'):
                    d = dotted(n.func.value)
                    if d:
                        out.add(d)
            if isinstance(n, ast.NamedExpr):
                out.add(n.target.id)
        return out

    def expr(self, e, states):
        self.use(e, states)
        if e is None:
            return states
        m = self.mutcalls(e)
        if m:
            states = [State(s.a | (frozenset(m) & self.locals & frozenset(
                n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr))), s.f.drop(frozenset(m))) for s in states]
            states = merge(states)
        return states

    def block(self, body, states, ctx):
        for s in body:
            if not states:
                return []
            if not cannot_raise(s):
                for t in ctx.tries:
                    t.extend(states)
                    t[:] = merge(t)
            states = merge(self.stmt(s, states, ctx))
        return states

    def never_returns(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            d = dotted(s.value.func)
            if d in ('sys.exit', 'exit', 'quit', 'os._exit'):
                return True
            f = self.fn
            r = None
            if isinstance(s.value.func, (ast.Name, ast.Attribute)):
                if isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and \
                        s.value.func.value.id == 'self' and f.cls is not None:
                    g = self.proj.method(f.cls, s.value.func.attr)
                    r = ('func', g) if g else None
                else:
                    r = self.proj.resolve_expr(s.value.func, f.mod, f)
            if r and r[0] == 'func':
                return always_raises(r[1])
        return False

    def stmt(self, s, states, ctx):
        if isinstance(s, ast.Expr):
            states = self.expr(s.value, states)
            return [] if self.never_returns(s) else states
        if isinstance(s, ast.Assign):
            states = self.expr(s.value, states)
            for t in s.targets:
                self.use(t, states)
                states = self.bind(states, *self.targets(t))
            # x = <constant> is a value fact
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
                try:
                    c = _const(s.value)
                    t = ast.parse(ast.unparse(s.targets[0]), mode='eval').body
                    states = [State(x.a, g) for x in states for g in
                              self._setval(x.f, t, c)]
                except ValueError:
                    pass
                if isinstance(s.value, (ast.List, ast.Tuple, ast.Dict)) and isinstance(s.targets[0], ast.Name):
                    n = s.value.keys if isinstance(s.value, ast.Dict) else s.value.elts
                    if not any(isinstance(x, ast.Starred) or x is None for x in n):
                        t = ast.parse('len(%s)' % s.targets[0].id, mode='eval').body
                        states = [State(x.a, g) for x in states for g in self._setval(x.f, t, ('num', len(n)))]
            return states
        if isinstance(s, ast.AugAssign):
            states = self.expr(s.value, states)
            self.use(s.target, states)
            if isinstance(s.target, ast.Name):
                n = ast.Name(id=s.target.id, ctx=ast.Load(), lineno=s.target.lineno, col_offset=0)
                self.use(n, states)
            return self.bind(states, *self.targets(s.target))
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return states
            states = self.expr(s.value, states)
            return self.bind(states, *self.targets(s.target))
        if isinstance(s, (ast.Return,)):
            if s.value is not None:
                self.use(s.value, states)
            return []
        if isinstance(s, ast.Raise):
            self.use(s.exc, states)
            self.use(s.cause, states)
            return []
        if isinstance(s, ast.Assert):
            states = self.expr(s.test, states)
            return [State(x.a, g) for x in states for g in assume(x.f, s.test, True)]
        if isinstance(s, ast.If):
            states = self.expr(s.test, states)
            t = [State(x.a, g) for x in states for g in assume(x.f, s.test, True)]
            e = [State(x.a, g) for x in states for g in assume(x.f, s.test, False)]
            return self.block(s.body, merge(t), ctx) + self.block(s.orelse, merge(e), ctx)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.loop_for(s, states, ctx)
        if isinstance(s, ast.While):
            return self.loop_while(s, states, ctx)
        if isinstance(s, ast.Break):
            ctx.brk.extend(states)
            return []
        if isinstance(s, ast.Continue):
            ctx.cont.extend(states)
            return []
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                if isinstance(it.optional_vars, ast.Name) and isinstance(it.context_expr, ast.Call) and \
                        dotted(it.context_expr.func) in ('open', 'io.open', 'codecs.open'):
                    self.fresh_handle(s, it.optional_vars.id)
                states = self.expr(it.context_expr, states)
                if it.optional_vars is not None:
                    states = self.bind(states, *self.targets(it.optional_vars))
            return self.block(s.body, states, ctx)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            return self.try_(s, states, ctx)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None] + s.decorator_list:
                self.use(d, states)
            return self.bind(states, [s.name])
        if isinstance(s, ast.ClassDef):
            return self.bind(states, [s.name])
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.bind(states, [a.asname or a.name.split('.')[0] for a in s.names])
        if isinstance(s, ast.Delete):
            for t in s.targets:
                self.use(t, states)
                if isinstance(t, ast.Name):
                    self.use(ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno, col_offset=0), states)
                    states = [State(x.a - {t.id}, x.f.drop(frozenset([t.id]))) for x in states]
                else:
                    d = dotted(t.value) if isinstance(t, (ast.Subscript, ast.Attribute)) else None
                    if d:
                        states = [State(x.a, x.f.drop(frozenset([d]))) for x in states]
            return states
        if s.__class__.__name__ == 'Match':
            states = self.expr(s.subject, states)
            out = []
            irref = False
            for c in s.cases:
                names = {x.name for x in ast.walk(c.pattern) if getattr(x, 'name', None)}
                b = self.bind(states, names)
                if c.guard is not None:
                    b = self.expr(c.guard, b)
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    irref = True
                out += self.block(c.body, b, ctx)
            return out + ([] if irref else states)
        return states

    def _setval(self, facts, target, c):
        k = (ast.dump(target), _idents(target))
        return [_Facts(facts.b, {**facts.v, k: ('in', frozenset([c]))})]

    def fresh_handle(self, w, name):
        """the first use of a just opened, non-empty file (C01) as an iterator yields at least one line"""
        for st in w.body:
            if isinstance(st, ast.For):
                it = st.iter
                if isinstance(it, ast.Call) and dotted(it.func) == 'enumerate' and it.args:
                    it = it.args[0]
                if isinstance(it, ast.Name) and it.id == name:
                    self.withs.append(st)
                return
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(st)):
                return

    def nonempty_iter(self, e):
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return len(e.elts) > 0
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return len(e.value) > 0
        if isinstance(e, ast.Dict):
            return len(e.keys) > 0
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if d in ('enumerate', 'reversed', 'sorted', 'list', 'tuple') and e.args:
                return self.nonempty_iter(e.args[0])
            if d == 'zip' and e.args:
                return all(self.nonempty_iter(a) for a in e.args)
            if d in ('range', 'np.arange', 'numpy.arange'):
                try:
                    c = [_const(a)[1] for a in e.args]
                    return len(range(*c)) > 0
                except (ValueError, TypeError):
                    return False
        return False

    def _loopfix(self, head_states, body_once):
        """iterate the loop head to a fixpoint; returns stable head states"""
        head = merge(head_states)
        for _ in range(6):
            new = merge(head + body_once(head))
            if set(new) == set(head):
                return head
            head = new
        # widen: a state is the meet of everything seen
        for _ in range(40):
            s0 = head[0]
            for x in head[1:]:
                s0 = State(s0.a & x.a, s0.f.meet(x.f))
            new = body_once([s0])
            if not new:
                return [s0]
            s1 = s0
            for x in new:
                s1 = State(s1.a & x.a, s1.f.meet(x.f))
            if s1 == s0:
                return [s0]
            head = [s1]
        return head

    def loop_for(self, s, states, ctx):
        states = self.expr(s.iter, states)
        names, texts = self.targets(s.target)
        brk = []

        def once(head):
            c = ctx.loop()
            b = self.block(s.body, self.bind(head, names, texts), c)
            brk.extend(c.brk)
            return b + c.cont
        if self.nonempty_iter(s.iter) or s in self.withs:
            first = once(states)
            head = self._loopfix(first, once) if first else []
        else:
            head = self._loopfix(states, once)
        out = self.block(s.orelse, head, ctx) if s.orelse else head
        return merge(out + brk)

    def loop_while(self, s, states, ctx):
        brk = []

        def once(head):
            c = ctx.loop()
            self.use(s.test, head)
            h = [State(x.a, g) for x in self.expr(s.test, head) for g in assume(x.f, s.test, True)]
            b = self.block(s.body, merge(h), c)
            brk.extend(c.brk)
            return b + c.cont
        head = self._loopfix(states, once)
        out = [State(x.a, g) for x in self.expr(s.test, head) for g in assume(x.f, s.test, False)]
        out = self.block(s.orelse, merge(out), ctx) if s.orelse else out
        return merge(out + brk)

    def try_(self, s, states, ctx):
        seen = []
        c = ctx.with_try(seen)
        # an unbound name inside a try whose handler absorbs NameErrors without raising does not surface
        absorbs = any(catches_name_error(h) and not any(isinstance(x, ast.Raise) for b in h.body for x in ast.walk(b))
                      for h in s.handlers)
        self.swallow += absorbs
        body = self.block(s.body, states, c)
        self.swallow -= absorbs
        # the state after a statement of the body is also a raising point of what follows; block() recorded
        # the states before every statement, the end of the body does not raise
        out = self.block(s.orelse, body, ctx) if s.orelse else body
        for h in s.handlers:
            st = merge(seen)
            if not st:
                continue
            if h.type is not None:
                self.use(h.type, st)
            if h.name:
                st = self.bind(st, [h.name])
            st = self.block(h.body, st, ctx)
            if h.name:
                st = [State(x.a - {h.name}, x.f) for x in st]
            out = out + st
        out = merge(out)
        if s.finalbody:
            # exceptional / jumping passage through finally
            self.block(s.finalbody, merge(seen + out), Ctx())
            out = self.block(s.finalbody, out, ctx)
        return out


class Ctx:
    def __init__(self, tries=(), brk=None, cont=None):
        self.tries = tries
        self.brk = [] if brk is None else brk
        self.cont = [] if cont is None else cont

    def loop(self):
        return Ctx(self.tries, [], [])

    def with_try(self, seen):
        return Ctx(tuple(self.tries) + (seen,), self.brk, self.cont)


def catches_name_error(h):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(dotted(t) in ('Exception', 'BaseException', 'NameError', 'UnboundLocalError') for t in ts)


def safe_expr(e):
    """evaluating this expression cannot raise (names are checked separately)"""
    if e is None or isinstance(e, (ast.Constant, ast.Name, ast.Lambda)):
        return True
    if isinstance(e, (ast.List, ast.Tuple)):
        return all(safe_expr(x) for x in e.elts)
    if isinstance(e, ast.Dict):
        return all(safe_expr(x) for x in e.values) and all(isinstance(x, ast.Constant) for x in e.keys)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Not, ast.USub)):
        return isinstance(e.operand, ast.Constant) or (isinstance(e.op, ast.Not) and safe_expr(e.operand))
    if isinstance(e, ast.Compare):
        return all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops) and safe_expr(e.left) and all(map(safe_expr, e.comparators))
    if isinstance(e, ast.BoolOp):
        return all(map(safe_expr, e.values))
    return False


def cannot_raise(s):
    if isinstance(s, ast.Assign):
        return safe_expr(s.value) and all(isinstance(t, ast.Name) for t in s.targets)
    if isinstance(s, (ast.Pass, ast.Break, ast.Continue, ast.FunctionDef, ast.Global, ast.Nonlocal)):
        return True
    if isinstance(s, ast.Expr):
        return isinstance(s.value, ast.Constant)
    if isinstance(s, ast.If):
        return safe_expr(s.test)        # raising points inside are recorded when its blocks are walked
    if isinstance(s, ast.For):
        # starting a loop over a range or an enumeration of a name does not raise; the body is walked separately
        it = s.iter
        if isinstance(it, ast.Call) and dotted(it.func) in ('range', 'enumerate', 'zip', 'np.arange') and not it.keywords:
            return all(safe_expr(a) or (isinstance(a, ast.Call) and dotted(a.func) == 'len') or
                       isinstance(a, (ast.BinOp, ast.Attribute)) for a in it.args)
        return False
    return False


def always_raises(f):
    """every path through the function body ends in `raise` (simple syntactic recursion)"""
    def blk(body):
        for s in body:
            if isinstance(s, ast.Raise):
                return True
            if isinstance(s, ast.Return):
                return False
            if isinstance(s, ast.If) and s.orelse and blk(s.body) and blk(s.orelse):
                return True
            if isinstance(s, (ast.For, ast.While, ast.Try, ast.With, ast.If)):
                if any(isinstance(n, ast.Return) for n in ast.walk(s)):
                    return False
        return False
    return blk(f.node.body)


def unbound_locals(proj):
    out, checked = [], 0
    for f in proj.funcs.values():
        if f.shadowed:
            continue
        u = Unbound(proj, f)
        rep = u.run()
        checked += u.checked
        for name, line in rep.items():
            out.append((f, name, line))
    return out, checked
