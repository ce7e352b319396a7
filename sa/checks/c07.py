import ast
from ..check import Finding, Result
from ..mutate import Engine, mutable_literal

RULE = ('the alias and in-place-change analysis summarises every function and method in every class context. No change may reach (a) a module variable, '
        'except the registry of formats, which holds no data of a file, (b) a class or a class attribute - directly, through self when the attribute is not '
        'set on the instance while it is constructed or read, or by attaching functions to the class - (c) a mutable default argument value, be it in the '
        'function itself or, when it is kept in an attribute, in any method of the class; a copy of an object shares no list, dictionary or array attribute with it')


def default_of(fn, name):
    a = fn.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == name:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d


def shared_default(proj, fn, name):
    """the mutable object that is the default value of a parameter"""
    d = default_of(fn, name)
    return d is not None and isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Call)) and mutable_literal(d)


CONT = {'list', 'dict', 'arr', 'set', 'df'}


def containers(proj, eng, c):
    """attributes of a class that hold lists, dictionaries or arrays"""
    out = {}
    for b in proj.mro(c):
        for m in b.methods.values():
            for k, v in eng.summary(m, c).stores.items():
                if k.startswith('self.') and (v.t in CONT or v.t and 'Dict' in v.t):
                    out[k[5:]] = v
    return out


def holds_objects(proj, c, a):
    """does a container attribute hold objects of classes of the package?"""
    names = {k.name for k in proj.classes.values()}
    for b in proj.mro(c):
        for m in b.methods.values():
            if not m.params:
                continue
            me = m.params[0]
            typed = {n.args[0].id for n in ast.walk(m.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2 and
                     isinstance(n.args[0], ast.Name) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.args[1]))}
            for n in ast.walk(m.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in typed:
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and ast.unparse(t.value) == '%s.%s' % (me, a):
                            return True
    return False


def shared_by_copy(proj, eng, c, fn):
    if not fn.params:
        return
    me = fn.params[0]
    cont = containers(proj, eng, c)
    alias = {}
    # attributes that the class treats on its own when they are set
    sa = proj.method(c, '__setattr__')
    guarded = {x.value for x in ast.walk(sa.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)} if sa else set()
    objs = {a for a in cont if holds_objects(proj, c, a)}
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            alias.setdefault(n.targets[0].id, []).append(n.value)

    def of_self(e, d=0):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me:
            return e.attr
        if isinstance(e, ast.Name) and d < 3 and len(alias.get(e.id, [])) == 1:
            return of_self(alias[e.id][0], d + 1)

    def klass(e):
        if isinstance(e, ast.Name):
            return next((k for k in proj.classes.values() if k.name == e.id and (k.mod is fn.mod or k.mod.rel == fn.mod.rel)), None)
        if isinstance(e, ast.Attribute) and e.attr == '__class__' or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type':
            return c
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Call):
            k = klass(n.func)
            i = k and proj.method(k, '__init__')
            if i:
                st = eng.summary(i, k).stores
                args = list(zip(i.params[1:], n.args)) + [(x.arg, x.value) for x in n.keywords if x.arg]
                for p, a in args:
                    at = of_self(a)
                    if at is None or at not in cont or at in guarded:
                        continue
                    if any('p:%s#0' % p in v.l0 for v in st.values()):
                        yield n.lineno, 'the container kept in .%s' % at
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == 'copy' and isinstance(f.value, ast.Name) and f.value.id == 'copy' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                for at in sorted(cont):
                    if not any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == at for x in ast.walk(fn.node)):
                        yield n.lineno, 'the container kept in .%s' % at
            # the container is new, the objects in it are not
            if isinstance(f, ast.Attribute) and f.attr in ('update', 'extend') and n.args and of_self(n.args[0]) in objs and of_self(f.value) is None:
                yield n.lineno, 'the objects kept in .%s' % of_self(n.args[0])
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id != me):
                    continue
                v = n.value
                if of_self(v) in cont and of_self(v) not in guarded:
                    yield n.lineno, 'the container kept in .%s' % of_self(v)
                if isinstance(v, ast.Call):
                    src = v.func.value if isinstance(v.func, ast.Attribute) and v.func.attr == 'copy' and not v.args else v.args[0] if len(v.args) == 1 and (
                        isinstance(v.func, ast.Name) and (v.func.id in ('dict', 'list') or v.func.id.endswith('Dict')) or
                        isinstance(v.func, ast.Attribute) and ast.unparse(v.func) == 'copy.copy') else None
                    if src is not None and of_self(src) in objs:
                        yield n.lineno, 'the objects kept in .%s' % of_self(src)
        elif isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr in ('items', 'values') and \
                of_self(n.iter.func.value) in objs:
            v = n.target.elts[-1] if isinstance(n.target, ast.Tuple) else n.target
            if any(isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and isinstance(v, ast.Name) and t.id == v.id for t in b.targets) for b in n.body):
                continue            # (replaced in every round)
            for x in ast.walk(n):
                if isinstance(v, ast.Name) and isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == v.id and \
                        any(isinstance(t, ast.Subscript) and of_self(t.value) is None for t in x.targets):
                    yield x.lineno, 'the objects kept in .%s' % of_self(n.iter.func.value)


def registry(proj, m):
    """filling the list of formats of the package"""
    if m.label.startswith(('G:weio._FORMATS#', 'G:weio._ERRORS#')):
        return m.what.startswith('assignment of the module variable') or any(
            isinstance(n, ast.Global) and ('_FORMATS' in n.names or '_ERRORS' in n.names) for n in ast.walk(m.fn.node))
    return False


def immutable(node):
    return isinstance(node, ast.Constant) or isinstance(node, ast.Tuple) and all(immutable(x) for x in node.elts) or isinstance(node, (ast.JoinedStr, ast.Compare))


def memoised(proj):
    """functions that hand the same result object to every caller"""
    from ..effects import OPENERS, name_of
    from ..callgraph import Graph
    g = None
    for f in proj.funcs.values():
        if not any(d.split('.')[-1] in ('lru_cache', 'cache') for d in f.decorators):
            continue
        rets = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None]
        made = any(isinstance(r, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Tuple)) and not immutable(r) for r in rets)
        for r in rets:
            if isinstance(r, ast.Name):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r.id for t in n.targets) and \
                            isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)):
                        made = True
        if g is None:
            g = Graph(proj)
        opens = False
        for fn, c, _ in g.reach([(f, f.cls)]).values():
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Call):
                    nm = name_of(proj, n, fn, fn.mod)
                    if nm in OPENERS or nm and nm.startswith('pandas.read_') or nm in ('numpy.loadtxt', 'numpy.genfromtxt', 'numpy.fromfile', 'numpy.load'):
                        opens = True
        if opens or made or f.is_method and not f.is_static:
            yield f, 'reads a file' if opens else 'returns a mutable object' if made else 'is a method'


def check(proj, tier):
    eng = Engine(proj)
    fs, n, nd, reg = [], 0, 0, 0
    todo = []
    for c in proj.classes.values():
        for b in proj.mro(c):
            for m in b.methods.values():
                if proj.method(c, m.name) is m:
                    todo.append((m, c))
    todo += [(f, None) for f in proj.funcs.values() if f.cls is None and f.parent is None]
    kept = {}
    for f, c in todo:
        n += 1
        s = eng.summary(f, c)
        for p in f.params + f.kwonly:
            if shared_default(proj, f, p):
                nd += 1
                for k, v in s.stores.items():
                    if 'p:%s#0' % p in v.l0 and c is not None:
                        kept.setdefault((c.key, k), (f, p))
        for m in s.muts.values():
            if m.label.startswith(('G:', 'C:', 'K:')):
                if registry(proj, m):
                    reg += 1
                    continue
                kind = {'G': 'module variable', 'C': 'class', 'K': 'class attribute'}[m.label[0]]
                fs.append(Finding('shared-state', m.fn.mod.rel, m.fn.qual, '%s %s' % (m.what, m.label), m.line,
                                  '%s changes the %s %s, which all objects share: %s' % (m.fn.qual, kind, m.label[2:].split('#')[0].split(':')[-1], m.what), list(m.chain)))
            elif m.label.startswith('p:'):
                name = m.label[2:].rpartition('#')[0]
                if name in f.params + f.kwonly and shared_default(proj, f, name):
                    fs.append(Finding('mutable-default', f.mod.rel, f.qual, name, f.node.lineno,
                                      'the default value of %s is one object for all calls and is changed in place: %s in %s' % (name, m.what, m.fn.qual), list(m.chain)))
    for f, why in memoised(proj):
        fs.append(Finding('memoised', f.mod.rel, f.qual, f.name, f.node.lineno,
                          '%s %s and is memoised: its callers, and the objects they belong to, share one result, also after the file has changed' % (f.qual, why)))
    # a default value kept in an attribute and changed later
    if kept:
        for f, c in todo:
            if c is None or f.is_static or not f.params:
                continue
            for m in eng.summary(f, c).muts.values():
                if m.label == 'p:%s#1' % f.params[0] and m.attr and m.what != 'assignment of attribute %s' % m.attr:
                    k = (c.key, ('self' + m.attr) if m.attr.startswith('[') else 'self.' + m.attr)
                    if k in kept:
                        g, p = kept[k]
                        fs.append(Finding('mutable-default', g.mod.rel, g.qual, p, g.node.lineno,
                                          'the default value of %s is kept in %s and changed in place in %s: %s' % (p, k[1], m.fn.qual, m.what), list(m.chain)))
    copies = 0
    for c in proj.classes.values():
        for nm in ('copy', '__copy__', '__deepcopy__', 'clone'):
            if nm in c.methods:
                copies += 1
                for line, txt in shared_by_copy(proj, eng, c, c.methods[nm]):
                    fs.append(Finding('copy-shares', c.methods[nm].mod.rel, c.methods[nm].qual, txt, line,
                                      '%s returns an object that shares %s with the original: a change of one is a change of the other' % (c.methods[nm].qual, txt)))
    return Result(fs, RULE, dict(copy_methods=copies, functions_in_context=n, mutable_defaults=nd, defaults_kept_in_attributes=len(kept), registry_assignments=reg),
                  samples=['%s keeps the default of %s in %s' % (f.qual, p, k[1]) for k, (f, p) in list(kept.items())[:5]],
                  assumptions=['state kept inside numpy, pandas and the standard library is not considered'],
                  minimum=dict(functions_in_context=200))
