"""constant folding of source expressions (module constants, class attributes, single-assignment locals, pure string/list operations)"""
import ast
from .model import walk_own


class Unknown(Exception):
    pass


PURE_METHODS = {'lower', 'upper', 'strip', 'split', 'replace', 'join', 'format', 'lstrip', 'rstrip', 'copy', 'keys', 'values', 'items', 'get',
                'title', 'encode', 'decode', 'startswith', 'endswith', 'index', 'count'}
PURE_FUNCS = {'list': list, 'tuple': tuple, 'str': str, 'int': int, 'float': float, 'sorted': sorted, 'len': len, 'set': set, 'dict': dict,
              'range': range, 'reversed': lambda x: list(reversed(x)), 'enumerate': lambda *a: list(enumerate(*a)), 'max': max, 'min': min,
              'zip': lambda *a: list(zip(*a)), 'frozenset': frozenset, 'abs': abs, 'bytes': bytes, 'sum': sum, 'bool': bool}


class Env:
    """where names are looked up: locals given, then single-assignment locals of fn, then the module"""

    def __init__(self, proj, mod, fn=None, cls=None, names=None, depth=0):
        self.p, self.mod, self.fn, self.cls, self.names, self.depth = proj, mod, fn, cls, names or {}, depth


def fold(e, env):
    if env.depth > 12:
        raise Unknown()
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += list(fold(x.value, env))
            else:
                out.append(fold(x, env))
        return {ast.List: list, ast.Tuple: tuple, ast.Set: set}[type(e)](out)
    if isinstance(e, ast.Dict):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(fold(v, env))
            else:
                d[fold(k, env)] = fold(v, env)
        return d
    if isinstance(e, ast.BinOp):
        a, b = fold(e.left, env), fold(e.right, env)
        ops = {ast.Add: lambda: a + b, ast.Mult: lambda: a * b, ast.Sub: lambda: a - b, ast.Mod: lambda: a % b, ast.Div: lambda: a / b,
               ast.FloorDiv: lambda: a // b, ast.Pow: lambda: a ** b if isinstance(b, (int, float)) and abs(b) < 64 else 1 / 0,
               ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b}
        try:
            r = ops[type(e.op)]()
        except Exception:
            raise Unknown()
        if isinstance(r, (str, bytes, list, tuple)) and len(r) > 100000:
            raise Unknown()
        return r
    if isinstance(e, ast.UnaryOp):
        v = fold(e.operand, env)
        try:
            return {ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Not: lambda: not v, ast.Invert: lambda: ~v}[type(e.op)]()
        except Exception:
            raise Unknown()
    if isinstance(e, ast.Name):
        if e.id in env.names:
            return env.names[e.id]
        return fold_name(e.id, env)
    if isinstance(e, ast.Attribute):
        if isinstance(e.value, ast.Name) and env.cls is not None and (e.value.id in ('self', 'cls') or e.value.id == env.cls.name):
            a = env.p.class_attr(env.cls, e.attr)
            if a is not None:
                return fold(a[1], Env(env.p, a[0].mod, None, a[0], depth=env.depth + 1))
        r = env.p.resolve_expr(e.value, env.mod, env.fn)
        if r is not None and r[0] == 'class':
            a = env.p.class_attr(r[1], e.attr)
            if a is not None:
                return fold(a[1], Env(env.p, a[0].mod, None, a[0], depth=env.depth + 1))
        if r is not None and r[0] == 'module':
            return fold_module(r[1], e.attr, env)
        raise Unknown()
    if isinstance(e, ast.Subscript):
        v = fold(e.value, env)
        try:
            if isinstance(e.slice, ast.Slice):
                q = [None if x is None else fold(x, env) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                return v[slice(*q)]
            return v[fold(e.slice, env)]
        except Unknown:
            raise
        except Exception:
            raise Unknown()
    if isinstance(e, ast.JoinedStr):
        out = ''
        for x in e.values:
            if isinstance(x, ast.Constant):
                out += x.value
            elif x.format_spec is None and x.conversion == -1:
                out += format(fold(x.value, env))
            else:
                raise Unknown()
        return out
    if isinstance(e, ast.IfExp):
        return fold(e.body if fold(e.test, env) else e.orelse, env)
    if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(e.generators) == 1:
        g = e.generators[0]
        out = []
        for x in list(fold(g.iter, env))[:5000]:
            names = dict(env.names)
            bind(g.target, x, names)
            en = Env(env.p, env.mod, env.fn, env.cls, names, env.depth)
            if all(fold(c, en) for c in g.ifs):
                out.append(fold(e.elt, en))
        return set(out) if isinstance(e, ast.SetComp) else out
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = fold(e.left, env), fold(e.comparators[0], env)
        try:
            return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b,
                    ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                    ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b}[type(e.ops[0])]()
        except Exception:
            raise Unknown()
    if isinstance(e, ast.Call):
        f = e.func
        try:
            if isinstance(f, ast.Name) and f.id in PURE_FUNCS and not e.keywords:
                return PURE_FUNCS[f.id](*[fold(a, env) for a in e.args])
            if isinstance(f, ast.Attribute) and f.attr in PURE_METHODS:
                v = fold(f.value, env)
                if isinstance(v, (str, bytes, dict, list, tuple)):
                    r = getattr(v, f.attr)(*[fold(a, env) for a in e.args], **{k.arg: fold(k.value, env) for k in e.keywords if k.arg})
                    return list(r) if f.attr in ('keys', 'values', 'items') else r
        except Unknown:
            raise
        except Exception:
            raise Unknown()
        r = env.p.resolve_expr(f, env.mod, env.fn)
        if r is not None and r[0] == 'func' and not e.args and not e.keywords:
            return fold_return(r[1], env)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and env.cls is not None and f.value.id in ('self', 'cls') and \
                not e.args and not e.keywords:
            m = env.p.method(env.cls, f.attr)
            if m is not None:
                return fold_return(m, Env(env.p, m.mod, m, env.cls, depth=env.depth + 1))
    raise Unknown()


def bind(t, v, names):
    if isinstance(t, ast.Name):
        names[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
        v = list(v)
        if len(v) != len(t.elts):
            raise Unknown()
        for a, b in zip(t.elts, v):
            bind(a, b, names)
    else:
        raise Unknown()


def fold_name(name, env):
    if env.fn is not None:
        stores = [n for n in walk_own(env.fn.node) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del))]
        if stores:
            v = local_value(env.fn, name, env)
            return v
        if name in env.fn.params or name in env.fn.kwonly:
            raise Unknown()
    r = env.p.resolve_sym(env.mod, name)
    if r is None:
        raise Unknown()
    if r[0] == 'var':
        return fold_module(r[1], r[2], env)
    raise Unknown()


def local_value(fn, name, env):
    """value of a local built by straight-line top-level statements: one assignment, then append / extend / += of constants"""
    val, have = None, False
    for s in fn.node.body:
        touches = any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(s))
        mut = isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
            isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == name
        en = Env(env.p, env.mod, env.fn, env.cls, dict(env.names), env.depth + 1)
        if have:
            en.names[name] = val
        if isinstance(s, ast.Assign) and touches and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            val, have = fold(s.value, en), True
        elif isinstance(s, ast.AugAssign) and touches and isinstance(s.op, ast.Add) and have:
            val = val + fold(s.value, en)
        elif mut and have and s.value.func.attr in ('append', 'extend', 'insert', 'remove', 'sort', 'reverse') and isinstance(val, list):
            val = list(val)
            try:
                getattr(val, s.value.func.attr)(*[fold(a, en) for a in s.value.args])
            except Unknown:
                raise
            except Exception:
                raise Unknown()
        elif isinstance(s, ast.For) and have and isinstance(val, list) and any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(s)):
            raise Unknown()
        elif touches or mut:
            raise Unknown()
    if not have:
        raise Unknown()
    return val


def fold_module(mod, name, env):
    s = mod.syms.get(name)
    if s is None:
        raise Unknown()
    if s[0] == 'import':
        r = env.p.resolve_sym(mod, name)
        if r and r[0] == 'var':
            return fold_module(r[1], r[2], env)
        raise Unknown()
    if s[0] != 'var' or s[1] is None:
        raise Unknown()
    n = sum(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(mod.tree))
    if n != 1:
        raise Unknown()
    return fold(s[1], Env(env.p, mod, None, None, depth=env.depth + 1))


def fold_return(fn, env):
    """value returned by a function without arguments, if it is the same constant on every return"""
    rets = [n for n in walk_own(fn.node) if isinstance(n, ast.Return)]
    if not rets:
        raise Unknown()
    en = Env(env.p, fn.mod, fn, fn.cls, depth=env.depth + 1)
    vals = [fold(r.value, en) if r.value is not None else None for r in rets]
    if any(v != vals[0] for v in vals):
        raise Unknown()
    return vals[0]
