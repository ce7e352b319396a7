"""C16: common interface of the registered formats"""
import ast
from ..check import Finding, Result
from ..model import walk_own
from ..consteval import fold_return, Env, Unknown
from ..absint import Interp, Machine, UNK, NONE
from ..par import pmap

RULE = ('signature query over the registered classes (constructor, read, write, toDataFrame resolved in the class hierarchy; staticness and constant '
        'value of defaultExtensions and formatName) and abstract interpretation of toDataFrame in the context of each class: no path returns None, a list, tuple, array, '
        'column, text or a dictionary that holds one of these')


LISTS = (ast.List, ast.ListComp, ast.GeneratorExp, ast.Set, ast.SetComp)
BAD = {'list': 'a list', 'array': 'an array', 'series': 'a single column', 'text': 'a text', 'view': 'a view of a dictionary', 'number': 'a number',
       'attr': 'an attribute of a data frame'}
ATTRS = ('values', 'shape', 'columns', 'index', 'dtypes', 'keys', 'items')
ARRAYS = ('array', 'asarray', 'column_stack', 'vstack', 'hstack', 'concatenate', 'zeros', 'ones', 'empty', 'full', 'linspace', 'arange', 'stack',
          'transpose')


class Plain(Machine):
    """values of the conversion: ('kind', k) with k in frame, dict, baddict and the kinds of BAD; everything else is unknown"""
    no_slice = True
    exact = True

    def isbad(self, v):
        if v[0] == 'kind':
            return v[1] in BAD
        return v[0] in ('tuple', 'list') or v[0] == 'const' and v[1] is not None or v[0] == 'meth' and v[2] in ATTRS or v == NONE

    def what(self, v):
        if v[0] == 'kind':
            return BAD.get(v[1], 'a dictionary that holds something else than data frames')
        return {'tuple': 'a tuple', 'list': 'a list', 'const': 'a constant', 'meth': 'a method or the bare values', 'none': 'nothing'}.get(v[0], '?')

    def truth(self, v):
        return None

    def expr(self, ip, e, r, st, fr):
        if isinstance(e, LISTS):
            return [(s, ('kind', 'list')) for s, _ in r]
        if isinstance(e, ast.JoinedStr):
            return [(s, ('kind', 'text')) for s, _ in r]
        if isinstance(e, ast.Dict):
            bad = any(self.isbad(v) for x in e.values for _, v in ip.ev(x, st, fr))
            return [(s, ('kind', 'baddict' if bad else 'dict')) for s, _ in r]
        if isinstance(e, ast.DictComp):
            s1 = [st]
            for g in e.generators:
                s1 = [y for s in s1 for y in ip.assign(g.target, UNK, s, fr)]
            bad = any(self.isbad(v) for s in s1 for _, v in ip.ev(e.value, s, fr))
            return [(s, ('kind', 'baddict' if bad else 'dict')) for s, _ in r]
        return r

    def subassign(self, ip, t, v, st, fr):
        if isinstance(t.value, ast.Name) and st.env.get(t.value.id, UNK) in (('kind', 'dict'), ('kind', 'baddict')) and self.isbad(v):
            return st.setvar(t.value.id, ('kind', 'baddict'))
        return st

    def subscript(self, ip, v, k, st, fr, e):
        if v == ('kind', 'frame') and k[0] == 'const' and isinstance(k[1], str):
            return [(st, ('kind', 'series'))]
        return None

    def getattr(self, ip, v, attr, st, fr, node):
        if v == ('kind', 'frame') and attr in ATTRS[:5]:
            return [(st, ('kind', 'attr'))]
        return None

    def call(self, ip, fv, args, kwargs, st, fr, node, star):
        if fv[0] == 'ext':
            n = fv[1]
            k = {'list': 'list', 'tuple': 'list', 'sorted': 'list', 'set': 'list', 'str': 'text', 'repr': 'text', 'len': 'number', 'dict': 'dict',
                 'collections.OrderedDict': 'dict', 'pandas.DataFrame': 'frame', 'pandas.concat': 'frame', 'pandas.Series': 'series'}.get(n)
            if n in ('list', 'tuple', 'sorted', 'set') and not args or n == 'dict' and (args or kwargs):
                return [(st, ('kind', 'list'))] if n != 'dict' else None
            if k is None and n.startswith('numpy.') and n[6:] in ARRAYS:
                k = 'array'
            if k is not None:
                return [(st, ('kind', k))]
        if fv[0] == 'meth':
            recv, n = fv[1], fv[2]
            if kwargs.get('inplace') == ('const', True) or n == 'update' or n in ('sort', 'clear') and recv[0] != 'unk':
                return [(st, NONE)]
            if recv == ('kind', 'dict') and n in ('values', 'items', 'keys'):
                return [(st, ('kind', 'view'))]
            if recv[0] == 'kind' and recv[1] in ('dict', 'baddict') and n == 'copy':
                return [(st, recv)]
            if n in ('to_numpy', 'tolist', 'to_records'):
                return [(st, ('kind', 'array'))]
            if n in ('to_string', 'to_csv') and not args and recv == ('kind', 'frame'):
                return [(st, ('kind', 'text'))]
            if n == 'to_dict' and recv == ('kind', 'frame'):
                return [(st, ('kind', 'baddict'))]
            if recv == ('kind', 'frame'):
                return [(st, ('kind', 'frame') if n in ('copy', 'reset_index', 'rename', 'dropna', 'fillna', 'astype') else UNK)]
            if n in ('format', 'join', 'strip') and recv[0] == 'const':
                return [(st, ('kind', 'text'))]
        return None


def required(fn, skip_self=True):
    """parameters without a default"""
    a = fn.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    req = ps[:len(ps) - len(a.defaults)]
    if skip_self and fn.is_method and not fn.is_static:
        req = req[1:]
    req += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return req


def accepts(fn, name):
    a = fn.node.args
    return a.kwarg is not None or name in [x.arg for x in a.args + a.kwonlyargs]


def positional(fn):
    a = fn.node.args
    n = len(a.posonlyargs + a.args) - (0 if fn.is_static else 1)
    return n >= 1 or a.vararg is not None


def returned_calls(proj, c, fn):
    """methods of the class and package functions whose result may be what fn returns"""
    out, todo = {}, [fn]
    while todo:
        f = todo.pop()
        if f.key in out:
            continue
        out[f.key] = f
        names, exprs = set(), [n.value for n in walk_own(f.node) if isinstance(n, ast.Return) and n.value is not None]
        for _ in range(3):
            for e in list(exprs):
                for n in ast.walk(e):
                    if isinstance(n, ast.Name):
                        names.add(n.id)
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in names for t in n.targets for x in ast.walk(t)):
                    if n.value not in exprs:
                        exprs.append(n.value)
        for e in exprs:
            for n in ast.walk(e):
                if isinstance(n, ast.Call):
                    g = None
                    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and f.params and n.func.value.id == f.params[0] and f.cls:
                        g = proj.method(c, n.func.attr)
                    elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super':
                        g = proj.method(c, n.func.attr, after=f.cls) if f.cls else None
                    else:
                        r = proj.resolve_expr(n.func, f.mod, f)
                        g = r[1] if r and r[0] == 'func' else None
                    if g is not None:
                        todo.append(g)
    return out


def judge(proj, c):
    fs = []
    n = dict(classes=1, signatures=0, conversions=0, outcomes=0, undecided=0)

    def bad(rule, construct, line, msg, path=None):
        fs.append(Finding(rule, c.mod.rel, c.name, construct, line, msg, path))
    ini = proj.method(c, '__init__')
    if ini is not None:
        n['signatures'] += 1
        if required(ini):
            bad('constructor', '__init__', ini.lineno, '%s cannot be constructed without arguments: %s has no default' % (c.name, ', '.join(required(ini))))
        if not accepts(ini, 'filename') or not positional(ini):
            bad('constructor', '__init__', ini.lineno, '%s cannot be constructed with filename=path' % c.name)
    for name in ('read', 'write'):
        m = proj.method(c, name)
        if m is None:
            bad('missing', name, c.node.lineno, '%s has no %s' % (c.name, name))
            continue
        n['signatures'] += 1
        if m.is_static or m.is_property:
            bad('kind', name, m.lineno, '%s.%s is not a method of the object' % (c.name, name))
            continue
        if required(m):
            bad('required', name, m.lineno, '%s.%s cannot be called without arguments: %s has no default' % (c.name, name, ', '.join(required(m))))
        if not positional(m):
            bad('path', name, m.lineno, '%s.%s does not take a path' % (c.name, name))
    for name, typ in (('defaultExtensions', list), ('formatName', str)):
        m = proj.method(c, name)
        if m is None:
            bad('missing', name, c.node.lineno, '%s has no %s' % (c.name, name))
            continue
        n['signatures'] += 1
        if m.is_property or not (m.is_static or m.is_classmethod) and m.params:
            bad('not-static', name, m.lineno, '%s.%s cannot be called on the class' % (c.name, name))
        elif required(m, skip_self=True) and not (m.is_classmethod and len(required(m)) == 0):
            bad('required', name, m.lineno, '%s.%s needs arguments' % (c.name, name))
        try:
            v = fold_return(m, Env(proj, m.mod, m, c))
            if not isinstance(v, typ) or typ is list and not all(isinstance(x, str) for x in v):
                bad('type', name, m.lineno, '%s.%s returns %r' % (c.name, name, v))
        except Unknown:
            n['undecided'] += 1
    m = proj.method(c, 'toDataFrame')
    if m is None:
        bad('missing', 'toDataFrame', c.node.lineno, '%s has no toDataFrame' % c.name)
        return fs, n
    n['signatures'] += 1
    if required(m):
        bad('required', 'toDataFrame', m.lineno, '%s.toDataFrame needs arguments: %s' % (c.name, ', '.join(required(m))))
    ok = returned_calls(proj, c, m)
    ip = Interp(proj, Plain(), lambda f, k=None: f.key in ok)
    ip.loop_min1 = False
    kw = {p: UNK for p in m.params[1:] + m.kwonly}
    res = ip.run_method(c, 'toDataFrame', [], kw, {}, ())
    n['conversions'] += 1
    if ip.exhausted:
        n['undecided'] += 1
        return fs, n
    for k, s, v in res:
        n['outcomes'] += 1
        if k == 'return' and v == NONE:
            deep = [f for f in ok.values() if f is not m]
            bad('returns-nothing', 'toDataFrame', m.lineno, '%s.toDataFrame has a path on which it returns nothing' % c.name,
                ['through ' + f.key for f in deep])
            break
    mach = ip.mach
    for k, s, v in res:
        if k == 'return' and v != NONE and (mach.isbad(v) or v == ('kind', 'baddict')):
            bad('returns-other', 'toDataFrame', m.lineno, '%s.toDataFrame has a path on which it returns %s instead of a data frame or a dictionary of '
                'data frames' % (c.name, mach.what(v)), ['through ' + f.key for f in ok.values() if f is not m])
            break
    for k, s, v in res:
        if k == 'return' and v[0] == 'kind' and v[1] in ('frame', 'dict'):
            n['kinds_known'] = n.get('kinds_known', 0) + 1
    return fs, n


def check(proj, tier):
    fs, counts = [], {}
    cls = proj.registered()
    for f, n in pmap(lambda c: judge(proj, c), cls):
        fs += f
        for k, v in n.items():
            counts[k] = counts.get(k, 0) + v
    return Result(fs, RULE, counts, samples=sorted(c.name for c in cls), minimum=dict(classes=20, signatures=100))
