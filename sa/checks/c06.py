import re, ast, json, os
from ..check import Finding, Result, HERE
from ..mutate import Engine

RULE = ('an alias and in-place-change analysis summarises every method in the context of every class (through helper methods, base classes, properties, '
        'nested functions and module functions). For each observing operation - conversions, string forms, key lists, writers, getters and computations - '
        'no in-place change may reach the object itself or anything it holds; exempt are the remembered filename, private caches that are filled once and the '
        'update of a size entry to the size of its table when writing')

OBSERVE = re.compile(r'^(_?to[A-Z_]\w*|_?write\w*|save\w*|keys|values|items|__repr__|__str__|__len__|__getitem__|__contains__|__eq__|get\w*|_?to)$')
CHANGE = re.compile(r'^_*(read|load|([Ss]et|[Aa]dd|from|make|scale|sort|re[Ss]ort|update|insert|delete|del|remove|clean|fix|clear|pop|append|extend|divide|rename|reset|init|'
                    r'close|open|detect|parse|import|connec\w*Changed|step|apply|replace|merge|change|modify|register|test|call|create|generate|build|fill|store|populate|process|extract|assign|convert|rotate|normali[sz]e|reverse|transform|move|swap|resize|interp|duplicate)(?![a-z]))')
NOTROOT = {'__init__', 'read', '_read', '__setitem__', '__delitem__', '__setattr__', '__delattr__', '__iter__', '__next__', '__call__', '__enter__', '__exit__',
           '__setstate__', '__new__', '__iadd__', 'comment'}


def guarded(proj, fn, attr):
    """does the function test self.<attr> before it stores it (a cache that is filled once)?"""
    for n in ast.walk(fn.node):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and any(isinstance(x, ast.Attribute) and x.attr == attr or isinstance(x, ast.Constant) and x.value == attr
                                                                 for x in ast.walk(n.test)):
            return True
    return False


def exempt(proj, m, root):
    a = m.attr
    if a in ('filename', '_filename'):
        return True
    if a and a.startswith('_') and guarded(proj, m.fn, a):
        return True
    if m.val == 'size' and re.match(r'_?(write|save)', root.name):
        return True
    return False


def selfcalls(proj, fn, cls):
    out = []
    if not fn.params:
        return out
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == fn.params[0]:
            m = proj.method(cls, n.attr)
            if m is not None:
                out.append(m)
    return out


def helpers(proj, cls):
    seen, todo = set(), [m for n in ('__init__', 'read', '_read') for m in [proj.method(cls, n)] if m]
    while todo:
        m = todo.pop()
        if m.key in seen:
            continue
        seen.add(m.key)
        todo += selfcalls(proj, m, cls)
    return seen


def roots(proj):
    api = set(json.load(open(os.path.join(HERE, 'spec', 'api.json'))))
    for c in proj.classes.values():
        used = None
        for b in proj.mro(c):
            for m in b.methods.values():
                if proj.method(c, m.name) is not m or m.is_static or m.is_classmethod or not m.params:
                    continue
                if m.name in NOTROOT or proj.setter(c, m.name) is m:
                    continue
                if not (OBSERVE.match(m.name) or m.is_property):
                    if m.name.startswith('_') or CHANGE.match(m.name) or m.key not in api:
                        continue
                    if used is None:
                        used = helpers(proj, c)
                    if m.key in used:
                        continue
                yield c, m


def attached(proj):
    """module functions written to be bound to an object: first parameter self"""
    for f in proj.funcs.values():
        if f.cls is None and f.params and f.params[0] == 'self' and not CHANGE.match(f.name) and not f.name.startswith('_'):
            yield f
    for f, _ in bindings(proj):
        yield f


def bindings(proj):
    """functions that are bound to an object while it is read: setattr(obj, name, MethodType(f, obj)), obj.name = MethodType(f, obj)"""
    seen = set()
    for g in proj.funcs.values():
        for n in ast.walk(g.node):
            if not isinstance(n, ast.Call) or len(n.args) != 2 or n.keywords:
                continue
            d = n.func
            nm = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ''
            if nm not in ('MethodType', 'partial'):
                continue
            a = n.args[0] if isinstance(n.args[0], ast.Name) else None
            if a is None:
                continue
            h, top = None, g
            while top is not None and h is None:
                h = top.nested.get(a.id)
                top = top.parent
            if h is None:
                r = proj.resolve_expr(a, g.mod, g)
                h = r[1] if r and r[0] == 'func' else None
            if h is not None and h.params and h.key not in seen and not CHANGE.match(h.name) and h.cls is None:
                seen.add(h.key)
                yield h, g


def check(proj, tier):
    eng = Engine(proj)
    fs, n, muts, samples = [], 0, 0, []
    for c, m in roots(proj):
        n += 1
        s = eng.summary(m, c)
        me = 'p:%s#' % m.params[0]
        for mu in s.muts.values():
            if not mu.label.startswith(me):
                continue
            muts += 1
            if exempt(proj, mu, m):
                if len(samples) < 6:
                    samples.append('exempt: %s changes %s in %s' % (m.qual, mu.attr, mu.fn.qual))
                continue
            fs.append(Finding('observer-changes-object', mu.fn.mod.rel, mu.fn.qual, '%s %s' % (mu.what, mu.attr or ''), mu.line,
                              '%s.%s() changes the object it observes: %s%s' % (c.name, m.name, mu.what, ' (%s)' % mu.attr if mu.attr else ''), list(mu.chain)))
    done = set()
    for f in attached(proj):
        if f.key in done:
            continue
        done.add(f.key)
        n += 1
        for mu in eng.summary(f, None).muts.values():
            if mu.label.startswith('p:%s#' % f.params[0]) and not exempt(proj, mu, f):
                fs.append(Finding('observer-changes-object', mu.fn.mod.rel, mu.fn.qual, '%s %s' % (mu.what, mu.attr or ''), mu.line,
                                  '%s() changes the object it is attached to: %s' % (f.name, mu.what), list(mu.chain)))
    return Result(fs, RULE, dict(observers=n, attached_functions=len(done), summaries=len(eng.sums), changes_reaching_self=muts), samples=samples,
                  assumptions=['methods of numpy, pandas and the standard library that are not known to work in place do not change their arguments',
                               'a value of unknown type sliced with one index is taken to be copied (no view assumed)',
                               'augmented assignment is in-place only where the target is known to be an array, list or data frame'],
                  minimum=dict(observers=100, summaries=100))
