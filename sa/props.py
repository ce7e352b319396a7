"""properties used against their nature (called, read on the class, assigned without a setter) and iterators that run past their end (C11)"""
import ast
from .model import walk_own
from .wiring import contexts, self_name

PLAIN_CALLS = {'str', 'len', 'int', 'float', 'list', 'tuple', 'dict', 'set', 'bool', 'sorted', 'sum', 'min', 'max', 'repr', 'abs', 'round'}
STR_METH = {'join', 'format', 'strip', 'lower', 'upper', 'replace', 'split', 'splitlines', 'lstrip', 'rstrip', 'encode'}


def plain(e):
    """the value is certainly no callable"""
    if isinstance(e, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Compare,
                      ast.GeneratorExp, ast.UnaryOp)):
        return True
    if isinstance(e, ast.IfExp):
        return plain(e.body) and plain(e.orelse)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name):
            return e.func.id in PLAIN_CALLS
        if isinstance(e.func, ast.Attribute) and e.func.attr in STR_METH:
            return isinstance(e.func.value, (ast.Constant, ast.JoinedStr)) or plain(e.func.value)
    return False


def returns(fn):
    return [n.value for n in walk_own(fn.node) if isinstance(n, ast.Return) and n.value is not None]


def types_of(proj, e, fn, cls, depth=0):
    """classes of the package an expression may be an instance of (those that can be told)"""
    if depth > 5:
        return set()
    sn = self_name(fn)
    if isinstance(e, ast.Name):
        if sn and e.id == sn and cls is not None:
            return {cls}
        out = set()
        vals = [n.value for n in walk_own(fn.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        stores = [n for n in walk_own(fn.node) if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store)]
        if len(vals) == len(stores):
            for v in vals:
                out |= types_of(proj, v, fn, cls, depth + 1)
        return out
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and fn.is_classmethod and fn.params and e.func.id == fn.params[0]:
            return {cls} if cls is not None else set()
        r = proj.resolve_expr(e.func, fn.mod, fn)
        if r and r[0] == 'class':
            return {r[1]}
        if r and r[0] == 'func' and r[1] is not fn:
            m = r[1]
            c = m.cls
            if m.is_classmethod and isinstance(e.func, ast.Attribute):
                k = proj.resolve_expr(e.func.value, fn.mod, fn)
                c = k[1] if k and k[0] == 'class' else m.cls
            out = set()
            for v in returns(m):
                out |= types_of(proj, v, m, c, depth + 1)
            return out
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and sn and e.func.value.id == sn and cls is not None:
            m = proj.method(cls, e.func.attr)
            if m is not None and not m.is_property and m is not fn:
                out = set()
                for v in returns(m):
                    out |= types_of(proj, v, m, cls, depth + 1)
                return out
        return set()
    if isinstance(e, ast.Attribute):
        out = set()
        for c in types_of(proj, e.value, fn, cls, depth + 1):
            m = proj.method(c, e.attr)
            if m is not None:
                if m.is_property and m is not fn:
                    for v in returns(m):
                        out |= types_of(proj, v, m, c, depth + 1)
                continue
            for k in proj.mro(c):
                for f in k.methods.values():
                    s = self_name(f)
                    for n in walk_own(f.node):
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and
                                                             t.value.id == s for t in n.targets):
                            out |= types_of(proj, n.value, f, c, depth + 1)
        return out
    if isinstance(e, ast.IfExp):
        return types_of(proj, e.body, fn, cls, depth + 1) | types_of(proj, e.orelse, fn, cls, depth + 1)
    if isinstance(e, ast.BoolOp):
        out = set()
        for v in e.values:
            out |= types_of(proj, v, fn, cls, depth + 1)
        return out
    return set()


def check_props(proj):
    out, n = [], dict(property_uses=0, iterators=0)
    props = {}
    for c in proj.classes.values():
        for m in c.methods.values():
            if m.is_property:
                props.setdefault(m.name, []).append(m)
    for fn in proj.funcs.values():
        parents = {x: p for p in ast.walk(fn.node) for x in ast.iter_child_nodes(p)}
        for x in walk_own(fn.node):
            if not isinstance(x, ast.Attribute) or x.attr not in props:
                continue
            n['property_uses'] += 1
            up = parents.get(x)
            text = ast.unparse(x)
            # read on the class
            if isinstance(x.ctx, ast.Load) and not (isinstance(up, ast.Attribute) and up.attr in ('fget', 'fset', 'fdel', '__get__', '__set__', '__doc__', 'setter',
                                                                                                 'getter')):
                r = proj.resolve_expr(x.value, fn.mod, fn) if isinstance(x.value, (ast.Name, ast.Attribute)) else None
                if r and r[0] == 'class':
                    m = proj.method(r[1], x.attr)
                    if m is not None and m.is_property and not (isinstance(up, ast.Call) and up.func is not x):
                        out.append(('property-on-class', fn.mod, fn.qual, text, x.lineno,
                                    '%s is the property itself, not its value for an object' % text))
                        continue
            top = fn
            while top.parent is not None:
                top = top.parent
            for cls in contexts(proj, fn):
                if cls is not None and proj.method(cls, top.name) is not top and not (top.is_setter and proj.setter(cls, top.name) is top):
                    continue                     # replaced in this class
                ts = types_of(proj, x.value, fn, cls)
                hit = False
                for c in ts:
                    m = proj.method(c, x.attr)
                    if m is None or not m.is_property:
                        continue
                    if isinstance(up, ast.Call) and up.func is x:
                        vs = returns(m)
                        if vs and all(plain(v) for v in vs):
                            out.append(('property-called', fn.mod, fn.qual, text, x.lineno, '%s is a property of %s whose value is called' % (text, c.name)))
                            hit = True
                    elif isinstance(x.ctx, (ast.Store, ast.Del)) and proj.setter(c, x.attr) is None and ts == {c}:
                        out.append(('property-assigned', fn.mod, fn.qual, text, x.lineno, '%s is a property of %s without a setter' % (text, c.name)))
                        hit = True
                    if hit:
                        break
                if hit:
                    break
    for c in proj.classes.values():
        if '__next__' in c.methods and '__iter__' in c.methods:
            n['iterators'] += 1
            p = iterator(c.methods['__iter__'], c.methods['__next__'])
            if p:
                out.append(('past-the-end', c.mod, c.methods['__next__'].qual, '__next__', p[1], p[0]))
    return out, n


def iterator(it, nx):
    """__iter__ sets a counter and a bound, __next__ raises StopIteration on a comparison of them and then indexes; (text, line) if the index can reach the length.
    values are (k, L): k + L*len(sequence)"""
    sn, sx = it.params[0] if it.params else None, nx.params[0] if nx.params else None
    seq = [None]

    def attr(e, s):
        return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == s else None

    def val(e, env, s):
        if isinstance(e, ast.Constant) and type(e.value) is int:
            return (e.value, 0)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = val(e.operand, env, s)
            return v and (-v[0], -v[1])
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = val(e.left, env, s), val(e.right, env, s)
            if a is None or b is None:
                return None
            g = 1 if isinstance(e.op, ast.Add) else -1
            return (a[0] + g * b[0], a[1] + g * b[1])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and attr(e.args[0], s):
            a = attr(e.args[0], s)
            if seq[0] in (None, a):
                seq[0] = a
                return (0, 1)
            return None
        if attr(e, s) is not None:
            return env.get(attr(e, s))
        if isinstance(e, ast.Name):
            return env.get('.' + e.id)
        return None
    env = {}
    for st in it.node.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1:
            a = attr(st.targets[0], sn)
            if a is not None:
                env[a] = val(st.value, env, sn)
            elif isinstance(st.targets[0], ast.Name):
                env['.' + st.targets[0].id] = val(st.value, env, sn)
    counters = {attr(t, sx) for s in walk_own(nx.node) for t in ([s.target] if isinstance(s, ast.AugAssign) else s.targets if isinstance(s, ast.Assign) else [])
                if attr(t, sx) is not None}
    if len(counters) != 1:
        return None
    cnt = counters.pop()
    if env.get(cnt) is None:
        return None
    # symbolic: the counter before the call is c (any integer reached so far); bounds from the guard
    guard = [None]
    result = [None]

    def lin(e, shift):
        """value as (counter coefficient, k, L) with the counter shifted"""
        if attr(e, sx) == cnt:
            return (1, shift, 0)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = lin(e.left, shift), lin(e.right, shift)
            if a is None or b is None:
                return None
            g = 1 if isinstance(e.op, ast.Add) else -1
            return tuple(p + g * q for p, q in zip(a, b))
        v = val(e, {k: w for k, w in env.items() if not k.startswith('.')}, sx)
        return None if v is None else (0, v[0], v[1])

    def stops(body):
        return len(body) >= 1 and isinstance(body[-1], ast.Raise) and 'StopIteration' in ast.unparse(body[-1])

    def upper(test, stop_if_true, shift):
        """largest counter value (k, L) for which the iteration goes on"""
        if not isinstance(test, ast.Compare) or len(test.ops) != 1:
            return None
        l, r = lin(test.left, shift), lin(test.comparators[0], shift)
        if l is None or r is None:
            return None
        op = type(test.ops[0])
        if l[0] - r[0] == -1:
            l, r = r, l
            op = {ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Lt: ast.Gt, ast.LtE: ast.GtE}.get(op, op)
        if l[0] - r[0] != 1:
            return None
        k, L = r[1] - l[1], r[2] - l[2]          # counter op k + L*len
        if stop_if_true:
            return {ast.Gt: (k, L), ast.GtE: (k - 1, L), ast.Eq: (k - 1, L)}.get(op)
        return {ast.LtE: (k, L), ast.Lt: (k - 1, L), ast.NotEq: (k - 1, L)}.get(op)

    def run(body, shift, bound):
        for st in body:
            if isinstance(st, ast.If):
                if stops(st.body):
                    b = upper(st.test, True, shift)
                    if b is None:
                        return None, None
                    r = run(st.orelse, shift, b)
                    if r == (None, None):
                        return r
                    shift, bound = r
                    continue
                if st.orelse and stops(st.orelse):
                    b = upper(st.test, False, shift)
                    if b is None:
                        return None, None
                    r = run(st.body, shift, b)
                    if r == (None, None):
                        return r
                    shift, bound = r
                    continue
                return None, None
            if isinstance(st, (ast.Try, ast.While, ast.For, ast.With)):
                return None, None
            for x in ast.walk(st):
                if isinstance(x, ast.Subscript) and attr(x.value, sx) is not None and isinstance(x.ctx, ast.Load) and attr(x.value, sx) == seq[0]:
                    i = lin(x.slice, shift)
                    if i is not None and i[0] == 1 and bound is not None:
                        k, L = bound[0] + i[1], bound[1] + i[2]
                        if L == 1 and k > -1:
                            result[0] = ('the iteration goes on until the index is len(self.%s)%s, past the last entry' % (seq[0], '%+d' % k if k else ''), x.lineno)
            if isinstance(st, ast.AugAssign) and attr(st.target, sx) == cnt:
                v = val(st.value, {}, sx)
                if v is None or v[1] or not isinstance(st.op, ast.Add):
                    return None, None
                shift += v[0]
            elif isinstance(st, ast.Assign) and any(attr(t, sx) == cnt for t in st.targets):
                i = lin(st.value, shift)
                if i is None or i[0] != 1 or i[2]:
                    return None, None
                shift = i[1]
        return shift, bound
    run(nx.node.body, 0, None)
    return result[0]
