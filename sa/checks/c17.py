"""C17: importing needs only the declared requirements and has no side effects"""
import ast
import os
import re
import sys
from ..check import Finding, Result
from ..callgraph import Graph
from ..effects import name_of, fs_write, OPENERS
from ..model import walk_own, is_main_guard, AnalysisError
from . import c18, c13

RULE = ('for every module of the package: the imports executed when it is imported (module level, class bodies, decorators, default values, functions called from there) name the '
        'standard library, the package itself or a package declared in install_requires/requirements, unless an ImportError is handled; and no call executed at import time '
        '(followed through the call graph) opens or lists files, prints, changes process state or starts programs. weio.user, which exists to load the user formats, is exempt from the latter')
PROVIDES = {'future': {'future', 'past', 'builtins', 'libfuturize', 'libpasteurize'}, 'pyarrow': {'pyarrow'}, 'matplotlib': {'matplotlib', 'mpl_toolkits', 'pylab'}}
READS = {'os.listdir', 'os.scandir', 'os.walk', 'os.stat', 'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.getsize', 'os.path.getmtime', 'glob.glob', 'glob.iglob',
         'os.path.expanduser', 'pathlib.Path.home', 'numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt', 'numpy.fromfile', 'pandas.read_csv', 'pandas.read_excel', 'urllib.request.urlopen',
         'scipy.io.loadmat'}
PRINTS = {'print', 'sys.stdout.write', 'sys.stderr.write', 'warnings.warn', 'logging.info', 'logging.warning', 'logging.error', 'input', 'pprint.pprint', 'traceback.print_exc'}
REMOVED = {'distutils', 'imp', 'asynchat', 'asyncore', 'smtpd'}      # gone from the standard library of Python 3.12


def declared(repo):
    out, src = set(), []
    p = os.path.join(repo, 'requirements.txt')
    if os.path.exists(p):
        src.append('requirements.txt')
        for l in open(p, encoding='utf-8', errors='replace'):
            l = l.split('#')[0].strip()
            g = re.match(r'[A-Za-z0-9_.\-]+', l)
            if g:
                out.add(g.group(0).lower())
    p = os.path.join(repo, 'setup.py')
    if os.path.exists(p):
        src.append('setup.py')
        for n in ast.walk(ast.parse(open(p, encoding='utf-8', errors='replace').read())):
            if isinstance(n, ast.keyword) and n.arg == 'install_requires':
                for c in ast.walk(n.value):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        g = re.match(r'[A-Za-z0-9_.\-]+', c.value)
                        if g:
                            out.add(g.group(0).lower())
    if not src or not out:
        raise AnalysisError('no declared requirements found')
    return out, src


def import_time(node, inside=()):
    """statements and expressions executed when the module is imported, with the handlers around them"""
    if isinstance(node, ast.If) and is_main_guard(node.test):
        return
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        for x in node.decorator_list + node.args.defaults + [d for d in node.args.kw_defaults if d is not None]:
            yield from import_time(x, inside)
        return
    if isinstance(node, ast.Lambda):
        return
    yield node, inside
    if isinstance(node, ast.Try):
        hs = inside + (node,)
        for s in node.body:
            yield from import_time(s, hs)
        for h in node.handlers:
            for s in h.body:
                yield from import_time(s, inside)
        for s in node.orelse + node.finalbody:
            yield from import_time(s, inside)
        return
    for c in ast.iter_child_nodes(node):
        yield from import_time(c, inside)


def catches(t):
    """does the try statement handle an ImportError, without re-raising it?"""
    for h in t.handlers:
        names = set()
        if h.type is None:
            names = {'ImportError'}
        else:
            names = {getattr(x, 'id', getattr(x, 'attr', None)) for x in ast.walk(h.type)}
        if names & {'ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException'}:
            return not any(isinstance(s, ast.Raise) for s in h.body)
    return False


def package_dependent(t):
    """a try around imports of the package itself, whose handler is a fallback for when the module is used outside the package"""
    return any(isinstance(s, ast.ImportFrom) and s.level > 0 for s in t.body)


def check(proj, tier):
    fs = []
    req, src = declared(proj.repo)
    allowed = set(sys.stdlib_module_names) - REMOVED | {'weio', '__future__'}
    for r in req:
        allowed |= PROVIDES.get(r, {r, r.replace('-', '_')})
    cnt = dict(modules=0, imports=0, import_time_calls=0, import_time_functions=0, declared=len(req))
    g = Graph(proj)
    for m in proj.mods.values():
        cnt['modules'] += 1
        fallback = fallback_bodies(m.tree)
        todo = [(None, node, inside) for node, inside in seq(m.tree) if id(node) not in fallback]
        seen = set()
        is_user = m.name == 'weio.user'
        while todo:
            fn, n, inside = todo.pop()
            where = fn.qual if fn else '<module>'
            fm = fn.mod if fn else m
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                cnt['imports'] += 1
                if isinstance(n, ast.ImportFrom):
                    names = [] if n.level else [n.module or '']
                else:
                    names = [a.name for a in n.names]
                for x in names:
                    top = x.split('.')[0]
                    if top not in allowed and not any(catches(t) for t in inside):
                        fs.append(Finding('requirement', fm.rel, where, 'import ' + x, n.lineno,
                                          'importing %s needs the package %s, which is not a declared requirement' % (m.name, top)))
                continue
            if isinstance(n, ast.Call) or isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                d = None
                if isinstance(n, ast.Call):
                    cnt['import_time_calls'] += 1
                    nm = name_of(proj, n, fn, fm) or (n.func.id if isinstance(n.func, ast.Name) and n.func.id in ('print', 'open', 'input', 'exec', 'eval') else None)
                    if nm in PRINTS:
                        d = 'prints (%s)' % nm
                    elif nm in READS:
                        d = 'looks at the file system (%s)' % nm
                    elif nm in OPENERS or nm == 'open':
                        d = 'opens a file (%s)' % nm
                    elif fs_write(proj, n, fn, fm):
                        d = 'changes the file system (%s)' % fs_write(proj, n, fn, fm)
                    else:
                        k = c13.classify(proj, n, fn, fm)
                        if k and k[0] in ('loads code', 'runs a program', 'evaluates code'):
                            d = '%s (%s)' % k[:2]
                e = c18.effect(proj, n, fn, fm) if d is None else None
                if e is not None:
                    d = 'changes process-wide state (%s)' % e[1]
                if d and not is_user:
                    fs.append(Finding('import-effect', fm.rel, where, d, n.lineno, 'importing %s %s' % (m.name, d)))
                if isinstance(n, ast.Call):
                    for f in called(proj, g, n, fn, fm):
                        if f.key not in seen:
                            seen.add(f.key)
                            cnt['import_time_functions'] += 1
                            if is_user:
                                continue
                            todo += [(f, x, ins) for s in f.node.body for x, ins in import_time(s)]
    # nobody else loads the user formats on import
    for m in proj.mods.values():
        for n, inside in seq(m.tree):
            if isinstance(n, ast.ImportFrom) and m.name != 'weio.user':
                t = proj.import_target(m, n)
                if t == 'weio.user' or t == 'weio' and any(a.name == 'user' for a in n.names):
                    fs.append(Finding('import-effect', m.rel, '<module>', 'import of weio.user', n.lineno, 'importing %s loads the user formats' % m.name))
            elif isinstance(n, ast.Import) and any(a.name == 'weio.user' for a in n.names):
                fs.append(Finding('import-effect', m.rel, '<module>', 'import of weio.user', n.lineno, 'importing %s loads the user formats' % m.name))
    return Result(fs, RULE, cnt, samples=sorted(req), assumptions=['declared requirements: ' + ', '.join(src), 'future.standard_library.install_aliases does nothing on Python 3'],
                  minimum=dict(modules=20, imports=50))


def seq(tree):
    for s in tree.body:
        yield from import_time(s)


def fallback_bodies(tree):
    """imports in a handler that only runs when the import of a module of the package itself failed (single-file use outside the package)"""
    out = set()
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and package_dependent(t):
            for h in t.handlers:
                for x in ast.walk(h):
                    out.add(id(x))
    return out


def called(proj, g, call, fn, mod):
    try:
        r = proj.resolve_expr(call.func, mod, fn)
    except Exception:
        r = None
    if r and r[0] == 'func':
        return [r[1]]
    if r and r[0] == 'class':
        i = proj.method(r[1], '__init__')
        return [i] if i else []
    return []
