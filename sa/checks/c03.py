"""C03: reading operations do not change the file system"""
import ast
import re
from ..check import Finding, Result
from ..callgraph import Graph
from ..effects import fs_write, calls
from ..absint import Interp, relevance, UNK
from ..writes import WriteM, writing
from ..par import pmap
from .c01 import constructed, F, S

RULE = ('effect analysis over the class-context call graph: from construction, read, conversion, printing, key access, properties, detection and every '
        'other public operation that is not a writing operation, no call that opens a file for writing or creates, renames, deletes or modifies a file is '
        'reachable (writing operations: named write/save/dump/export, or taking the output path as an argument); plus abstract '
        'interpretation of construction and read of every format class, which resolves open modes held in variables')
WRITER = re.compile(r'(^|_)(write|save|dump|export)|^_?write|[wW]rite([A-Z_]|$)|^to_?file|^test_(write_read|ascii)$|[a-z]Write|[sS]ave([A-Z_]|$)')
PROTOCOL = {'read', '_read', '__init__', 'toDataFrame', '_toDataFrame', 'toString', 'keys', 'detectFormat', 'fileFormats', 'isRightFormat',
            'userFileClasses', 'isBinary'}
RUNNERS = re.compile(r'simulate|pbs|^run|^condor', re.I)


def own_target(fn, call):
    """is the path written to an argument of the function itself (or built from one)?"""
    ps = set(fn.params[1:] if fn.is_method and not fn.is_static else fn.params) | set(fn.kwonly)
    derived = set(ps)
    for _ in range(3):
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in derived for x in ast.walk(n.value)):
                derived |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
            elif isinstance(n, ast.withitem) and n.optional_vars is not None and any(isinstance(x, ast.Name) and x.id in derived
                                                                                     for x in ast.walk(n.context_expr)):
                derived |= {x.id for x in ast.walk(n.optional_vars) if isinstance(x, ast.Name)}
    return any(isinstance(x, ast.Name) and x.id in derived for a in list(call.args) + [k.value for k in call.keywords] for x in ast.walk(a))


def nested_writer(f, call):
    """is the call inside a nested function (attached to the object, say) that gets the output path as its own argument and is not called by f itself?"""
    for d in ast.walk(f.node):
        if d is f.node or not isinstance(d, (ast.FunctionDef, ast.Lambda)) or not any(n is call for n in ast.walk(d)):
            continue
        ps = {a.arg for a in d.args.args[0:] + d.args.kwonlyargs}
        if any(isinstance(x, ast.Name) and x.id in ps for a in list(call.args) + [k.value for k in call.keywords] for x in ast.walk(a)) or \
           any(isinstance(w, ast.withitem) and w.optional_vars is not None and any(isinstance(x, ast.Name) and x.id in ps for x in ast.walk(w.context_expr))
               for w in ast.walk(d)):
            name = getattr(d, 'name', None)
            if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == name for n in ast.walk(f.node)):
                return True
    return False


def is_writer(f):
    return bool(WRITER.search(f.name)) and f.name not in PROTOCOL


def check(proj, tier):
    g = Graph(proj)
    fs = []
    cnt = dict(roots=0, reached=0, calls=0, effect_sites=0, writers=0)
    roots = []
    for c in proj.classes.values():
        for b in proj.mro(c):
            for m in b.methods.values():
                if proj.method(c, m.name) is not m or m.shadowed:
                    continue
                if m.name.startswith('_') and not m.name.startswith('__') and m.name not in PROTOCOL:
                    continue
                if is_writer(m) or RUNNERS.search(m.name):
                    cnt['writers'] += 1
                    continue
                roots.append((m, c))
    for f in proj.funcs.values():
        if f.cls is None and f.parent is None and not f.shadowed and not f.name.startswith('_') and not is_writer(f):
            roots.append((f, None))
    cnt['roots'] = len(roots)
    sites = {}

    def effects(f):
        if f.key not in sites:
            sites[f.key] = [(n, d) for n in calls(f) for d in [fs_write(proj, n, f, f.mod)] if d and not nested_writer(f, n)]
            cnt['calls'] += len(calls(f))
        return sites[f.key]
    excused = set()
    for f, c in roots:
        if f.name in PROTOCOL or f.name.startswith('__') or f.is_property:
            continue
        es = effects(f)
        if es and all(own_target(f, n) for n, d in es):
            excused.add(f.key)
    # public helpers that get the path (or the open file) from their caller are no roots; what calls them is followed
    roots = [(f, c) for f, c in roots if f.key not in excused]
    seen = g.reach(roots)
    cnt['reached'] = len(seen)
    for k, (f, c, prev) in seen.items():
        es = effects(f)
        for n, d in es:
            path = g.path(seen, k)
            root = seen_root(seen, k)
            if root[0].name not in PROTOCOL and not root[0].name.startswith('__') and not root[0].is_property and prev is not None:
                # a public operation that hands its own output argument on
                if hands_on(g, seen, k):
                    continue
            fs.append(Finding('effect', f.mod.rel, root[0].qual, '%s in %s' % (d, f.qual), n.lineno,
                              '%s reaches a call that changes the file system: %s in %s' % (root[0].qual, d, f.qual), path))
    for f in proj.funcs.values():
        if f.parent is None:
            cnt['effect_sites'] += len(effects(f))
    # abstract interpretation of construction and read
    rel = relevance(proj)

    def one(c):
        out = []
        n = 0
        for label, meth, args in (('construction', '__init__', [F]), ('read', 'read', [F])):
            m = proj.method(c, meth)
            if m is None:
                continue
            mach = WriteM()
            ip = Interp(proj, mach, rel)
            hs = [{}] if meth == '__init__' else constructed(proj, c, rel, [S])
            extra = {p: UNK for p in m.params[2:]} if meth != '__init__' else {}
            for h in hs:
                ip.run_method(c, meth, args, dict(extra), h, frozenset(), raw=True)
            n += 1
            for kind, p, mode, node, fn, _ in mach.log:
                if kind in ('delete', 'mkdir') or kind == 'open' and writing(mode):
                    what = 'opens a file with mode %r' % mode if kind == 'open' else 'calls %s' % mode
                    out.append(Finding('read-writes', fn.mod.rel, c.name, '%s in %s' % (what, fn.qual), getattr(node, 'lineno', 0),
                                       '%s of %s %s in %s' % (label, c.name, what, fn.qual)))
        return out, n
    for o, n in pmap(one, list(proj.file_classes())):
        fs += o
        cnt['interpreted'] = cnt.get('interpreted', 0) + n
    return Result(list({f.key: f for f in fs}.values()), RULE, cnt, samples=[f.qual for f, c in roots][:15],
                  assumptions=['calls on receivers of unknown type are followed by method name only for names that no standard container, array, frame or '
                               'file object has', 'third-party readers (pandas, numpy, scipy, xarray) do not write'],
                  minimum=dict(roots=100, effect_sites=5, interpreted=15))


def seen_root(seen, k):
    while seen[k][2] is not None:
        k = seen[k][2]
    return seen[k]


def hands_on(g, seen, k):
    """along the path from the root, is every step a call that passes on a value built from the caller's own arguments?"""
    chain = []
    while k is not None:
        chain.append(k)
        k = seen[k][2]
    chain.reverse()
    f, c, _ = seen[chain[0]]
    nxt = chain[1]
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            for gfn, gc, node in g.succ(f, c):
                if (gfn.key, gc.key if gc else None) == nxt and node is n.func and not own_target(f, n):
                    return False
    return True
