"""where values come from inside one function: a flow-insensitive dependency closure over local names, parameters followed to all call sites"""
import ast
from .model import walk_own


def targets_of(n):
    """(targets, value) pairs of binding nodes"""
    if isinstance(n, ast.Assign):
        return [(t, n.value) for t in n.targets]
    if isinstance(n, (ast.AnnAssign, ast.AugAssign)) and n.value is not None:
        return [(n.target, n.value)]
    if isinstance(n, (ast.For, ast.comprehension)):
        return [(n.target, n.iter)]
    if isinstance(n, ast.withitem) and n.optional_vars is not None:
        return [(n.optional_vars, n.context_expr)]
    if isinstance(n, ast.NamedExpr):
        return [(n.target, n.value)]
    return []


class Origin:
    def __init__(self, proj):
        self.p = proj
        self.cache = {}
        self.callers = None

    def binds(self, fn):
        if fn.key not in self.cache:
            d = {}
            for n in ast.walk(fn.node):
                for t, v in targets_of(n):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            d.setdefault(x.id, []).append(v)
                # containers filled step by step
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                   n.func.attr in ('append', 'extend', 'insert', 'add', 'update', 'setdefault'):
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        d.setdefault(n.func.value.id, []).append(a)
            self.cache[fn.key] = d
        return self.cache[fn.key]

    def calls_to(self, fn):
        """[(caller, call)] resolved by name inside the package"""
        if self.callers is None:
            self.callers = {}
            for g in self.p.funcs.values():
                for n in walk_own(g.node):
                    if isinstance(n, ast.Call):
                        f = self.target(n, g)
                        if f is not None:
                            self.callers.setdefault(f.key, []).append((g, n))
        return self.callers.get(fn.key, [])

    def target(self, call, g):
        e = call.func
        try:
            r = self.p.resolve_expr(e, g.mod, g)
        except Exception:
            r = None
        if r and r[0] == 'func':
            return r[1]
        if r and r[0] == 'class':
            return self.p.method(r[1], '__init__')
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            top = g
            while top.parent is not None:
                top = top.parent
            if top.cls is not None and top.params and e.value.id == top.params[0]:
                return self.p.method(top.cls, e.attr)
        return None

    def argument(self, call, fn, name):
        """expression passed for parameter `name`, its default, or None when it cannot be told"""
        ps = fn.params[1:] if fn.is_method and not fn.is_static else fn.params
        for k in call.keywords:
            if k.arg == name:
                return k.value
            if k.arg is None:
                return None
        if any(isinstance(a, ast.Starred) for a in call.args):
            return None
        if name in ps and ps.index(name) < len(call.args):
            return call.args[ps.index(name)]
        return fn.defaults.get(name)

    def constant(self, e, fn, mod, seen=None):
        """is the value built from constants of the source text only?"""
        seen = set() if seen is None else seen
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return all(self.constant(x, fn, mod, seen) for x in e.elts)
        if isinstance(e, ast.Dict):
            return all(self.constant(x, fn, mod, seen) for x in list(e.keys) + list(e.values) if x is not None)
        if isinstance(e, ast.JoinedStr):
            return all(self.constant(x.value if isinstance(x, ast.FormattedValue) else x, fn, mod, seen) for x in e.values)
        if isinstance(e, ast.BinOp):
            return self.constant(e.left, fn, mod, seen) and self.constant(e.right, fn, mod, seen)
        if isinstance(e, ast.BoolOp):
            return all(self.constant(x, fn, mod, seen) for x in e.values)
        if isinstance(e, ast.IfExp):
            return self.constant(e.body, fn, mod, seen) and self.constant(e.orelse, fn, mod, seen)
        if isinstance(e, ast.Subscript):
            return self.constant(e.value, fn, mod, seen)
        if isinstance(e, ast.Starred):
            return self.constant(e.value, fn, mod, seen)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('format', 'join', 'lower', 'upper', 'strip', 'split', 'replace', 'items', 'keys', 'values'):
                return self.constant(e.func.value, fn, mod, seen) and all(self.constant(a, fn, mod, seen) for a in e.args)
            if isinstance(e.func, ast.Name) and e.func.id in ('zip', 'enumerate', 'list', 'tuple', 'sorted', 'dict', 'str', 'reversed'):
                return all(self.constant(a, fn, mod, seen) for a in e.args)
            return False
        if isinstance(e, ast.Name):
            if e.id in ('__name__', '__package__', '__file__', 'True', 'False', 'None'):
                return True
            if fn is not None:
                if (fn.key, e.id) in seen:
                    return True
                seen.add((fn.key, e.id))
                b = self.binds(fn).get(e.id)
                isparam = e.id in fn.params or e.id in fn.kwonly
                if e.id in (fn.vararg, fn.kwarg):
                    return False
                if isparam:
                    cs = self.calls_to(fn)
                    if not cs:
                        return False
                    for g, c in cs:
                        a = self.argument(c, fn, e.id)
                        if a is None or not self.constant(a, g, g.mod, seen):
                            return False
                    return all(self.constant(x, fn, mod, seen) for x in b or [])
                if b:
                    return all(self.constant(x, fn, mod, seen) for x in b)
                if fn.parent is not None:
                    return self.constant(e, fn.parent, mod, seen)
            s = mod.syms.get(e.id)
            if s and s[0] == 'var' and s[1] is not None:
                return self.constant(s[1], None, mod, seen)
            return False
        return False

    def leaves(self, e, fn, seen=None):
        """names/attributes/calls the value may depend on inside fn: set of ('param', n) | ('attr', 'self.x') | ('call', node) | ('name', n)"""
        seen = set() if seen is None else seen
        out = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if x.id in seen:
                    continue
                seen.add(x.id)
                b = self.binds(fn).get(x.id) or []
                if x.id in fn.params or x.id in fn.kwonly or x.id in (fn.vararg, fn.kwarg):
                    out.add(('param', x.id))
                elif not b:
                    out.add(('name', x.id))
                for v in b:
                    out |= self.leaves(v, fn, seen)
        return out
