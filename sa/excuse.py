"""exception handlers that fail themselves: the caught exception is used as if it always had a (text) argument, or an attribute its class does not have"""
import ast
import builtins
from .model import walk_own

BROAD = {'Exception', 'BaseException'}
NOT_TEXT = {'OSError', 'IOError', 'EnvironmentError', 'KeyError', 'LookupError', 'FileNotFoundError', 'PermissionError', 'MemoryError', 'StopIteration',
            'AssertionError', 'RuntimeError', 'NotImplementedError', 'ArithmeticError'}


def caught(h):
    t = h.type
    ts = t.elts if isinstance(t, ast.Tuple) else [t] if t is not None else []
    return [x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else '?' for x in ts]


def is_arg(n, name):
    return isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'args' and isinstance(n.value.value, ast.Name) and \
        n.value.value.id == name


def guarded(node, name, parents):
    """the use is under a test of e.args, or inside a try"""
    while node in parents:
        up = parents[node]
        if isinstance(up, (ast.If, ast.IfExp)) and any(isinstance(x, ast.Attribute) and x.attr == 'args' and isinstance(x.value, ast.Name) and x.value.id == name
                                                       or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'isinstance'
                                                       for x in ast.walk(up.test)):
            return True
        if isinstance(up, ast.BoolOp) and any(isinstance(x, ast.Attribute) and x.attr == 'args' for v in up.values[:-1] for x in ast.walk(v)):
            return True
        if isinstance(up, ast.Try) and node in up.body and up.handlers:
            return True
        if isinstance(up, ast.ExceptHandler):
            return False
        node = up
    return False


def check_handlers(proj):
    out, n = [], 0
    for fn in proj.funcs.values():
        for h in walk_own(fn.node):
            if not isinstance(h, ast.ExceptHandler) or not h.name:
                continue
            n += 1
            names = caught(h)
            parents = {c: p for p in ast.walk(h) for c in ast.iter_child_nodes(p)}
            classes = [getattr(builtins, x, None) for x in names]
            for x in ast.walk(h):
                if is_arg(x, h.name) and any(c in BROAD or c in NOT_TEXT for c in names) and not guarded(x, h.name, parents):
                    up = parents.get(x)
                    plus = isinstance(up, ast.BinOp) and isinstance(up.op, ast.Add)
                    out.append(('handler-fails', fn.mod, fn.qual, ast.unparse(h.type) + ' as ' + h.name, x.lineno,
                                'the handler of %s uses %s.args[0]%s, but such an exception may have no argument%s; use str(%s)' %
                                (ast.unparse(h.type), h.name, ' as text' if plus else '', ' or one that is no text' if plus else '', h.name)))
                elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == h.name and isinstance(x.ctx, ast.Load) and \
                        not isinstance(parents.get(x), ast.Delete) and classes and all(isinstance(c, type) for c in classes):
                    set_here = any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == x.attr for y in ast.walk(h))
                    miss = [c for c in classes if not hasattr(c, x.attr)]
                    if miss and not set_here and not guarded_attr(x, h.name, parents):
                        out.append(('handler-fails', fn.mod, fn.qual, ast.unparse(h.type) + ' as ' + h.name, x.lineno,
                                    'the handler uses %s.%s, which a %s need not have' % (h.name, x.attr, miss[0].__name__)))
    return out, dict(handlers=n)


def guarded_attr(node, name, parents):
    while node in parents:
        up = parents[node]
        if isinstance(up, (ast.If, ast.IfExp)) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'isinstance')
                                                       for x in ast.walk(up.test)):
            return True
        if isinstance(up, ast.Try) and node in up.body and up.handlers:
            return True
        node = up
    return False
