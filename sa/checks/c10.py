import ast
from ..check import Finding, Result
from ..handles import Handles, resource, EMPTY

RULE = ('typestate of every handle (open, io/codecs/gzip/zip openers, pathlib, pandas/xarray/netCDF file objects, chunked readers, memory maps): on every normal and '
        'exceptional path of the function that opens it the handle must be closed (with, close in finally or a handler, exit stack) before the function is '
        'left, unless it is returned - then the same is required of the caller - or kept in an attribute - then of the method that calls')


def selfcalled(proj):
    """method names called on self, per class hierarchy"""
    out = {}
    for f in proj.funcs.values():
        if f.cls is None or not f.params:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == f.params[0]:
                out.setdefault(f.cls.key, set()).add(n.attr)
    return out


def check(proj, tier):
    H = Handles(proj)
    H._re = set()
    H.solve()
    fs, nsites, managed = [], 0, 0
    samples = []
    calls = selfcalled(proj)
    for k, s in sorted(H.sums.items()):
        fn = proj.funcs[k]
        own = {x: v for x, v in s.sites.items()}
        nsites += len(own)
        for site, how in s.leaks.items():
            e, what = own[site]
            text = ast.unparse(e)[:90]
            fs.append(Finding('not-closed', fn.mod.rel, fn.qual, text, e.lineno,
                              'the file opened by %s (%s) is still open when %s %s' % (text, what, fn.name, {'returns': 'returns', 'raises': 'is left by an exception'}.get(how, how))))
        managed += len(own) - len(s.leaks)
        if own and len(samples) < 10:
            samples.append('%s: %s' % (fn.key, '; '.join(ast.unparse(v[0])[:60] for v in own.values())))
        left = {a for a, _ in s.attrs} | {a for a, _ in s.rattrs}
        if left and fn.cls is not None:
            fam = {c.key for c in proj.mro(fn.cls)} | {c.key for c in proj.subclasses(fn.cls)}
            closers = {a for c in fam for m in proj.classes[c].methods.values() for a in H.sums.get(m.key, EMPTY).cattrs}
            if any(fn.name in calls.get(c, ()) for c in fam):
                left -= closers
            if fn.name in ('__init__', '__enter__', 'open', '__new__') and resource(H, fn.cls, left) and not proj.is_file_class(fn.cls):
                continue
            for a in sorted(left):
                site = [x for y, x in list(s.attrs) + list(s.rattrs) if y == a][0]
                e, what = own[site]
                fs.append(Finding('kept-open', fn.mod.rel, fn.qual, 'self.' + a, e.lineno,
                                  'the file handle kept in self.%s (%s) is still open when %s is left' % (a, ast.unparse(e)[:80], fn.name)))
    return Result(fs, RULE, dict(functions_with_handles=sum(1 for s in H.sums.values() if s.sites), open_sites=nsites, closed_on_all_paths=managed), samples=samples,
                  assumptions=['reading functions of numpy, pandas, scipy and nptdms that take a path close what they open',
                               'a handle put in a container or an exit stack is closed by whoever owns that',
                               'close() itself, printing and plain assignments do not raise'],
                  minimum=dict(open_sites=8))
