"""C18: process-wide state is left as it was"""
import ast
from ..check import Finding, Result
from ..effects import name_of
from ..model import walk_own, dotted, is_main_guard

RULE = ('every call and assignment of the package is classified: those that change process-wide state (working directory, environment, module search path, loaded modules, '
        'locale, warning filters, numpy/pandas/matplotlib options, floating-point error handling, random seeds, standard streams, signal handlers, patched attributes of other modules) '
        'are only allowed where the change is undone on every path (a context manager that restores it, or a try whose finally resets it)')
SET = {
    'os.chdir': 'cwd', 'os.fchdir': 'cwd', 'os.chroot': 'cwd', 'os.putenv': 'env', 'os.unsetenv': 'env', 'os.umask': 'umask', 'os.nice': 'nice', 'os.setuid': 'uid',
    'os.setgid': 'uid', 'os.dup2': 'streams', 'os.closerange': 'streams', 'locale.setlocale': 'locale', 'locale.resetlocale': 'locale', 'time.tzset': 'tz',
    'warnings.filterwarnings': 'warnings', 'warnings.simplefilter': 'warnings', 'warnings.resetwarnings': 'warnings',
    'numpy.seterr': 'seterr', 'numpy.seterrcall': 'seterr', 'numpy.seterrobj': 'seterr', 'numpy.set_printoptions': 'npprint', 'numpy.setbufsize': 'npbuf',
    'numpy.set_string_function': 'npprint', 'numpy.random.seed': 'seed', 'numpy.random.set_state': 'seed', 'random.seed': 'seed', 'random.setstate': 'seed',
    'pandas.set_option': 'pdopt', 'pandas.reset_option': 'pdopt', 'pandas.set_eng_float_format': 'pdopt', 'pandas.plotting.register_matplotlib_converters': 'mpl',
    'matplotlib.use': 'mpl', 'matplotlib.rc': 'mpl', 'matplotlib.rcdefaults': 'mpl', 'matplotlib.pyplot.rc': 'mpl', 'matplotlib.pyplot.style.use': 'mpl',
    'matplotlib.pyplot.switch_backend': 'mpl', 'matplotlib.style.use': 'mpl', 'matplotlib.pyplot.ion': 'mpl', 'matplotlib.pyplot.ioff': 'mpl',
    'xarray.set_options': 'xr', 'sys.setrecursionlimit': 'recursion', 'sys.settrace': 'trace', 'sys.setprofile': 'trace', 'sys.setswitchinterval': 'switch',
    'sys.setdefaultencoding': 'encoding', 'signal.signal': 'signal', 'signal.alarm': 'signal', 'signal.setitimer': 'signal', 'socket.setdefaulttimeout': 'socket', 'logging.basicConfig': 'logging',
    'logging.disable': 'logging', 'logging.captureWarnings': 'logging', 'atexit.register': 'atexit', 'gc.disable': 'gc', 'gc.enable': 'gc', 'gc.freeze': 'gc', 'csv.field_size_limit': 'csv',
    'csv.register_dialect': 'csv', 'decimal.setcontext': 'decimal', 'codecs.register': 'codecs', 'codecs.register_error': 'codecs', 'importlib.reload': 'modules',
    'resource.setrlimit': 'rlimit', 'faulthandler.enable': 'fault', 'threading.settrace': 'trace', 'site.addsitedir': 'path', 'builtins.setattr': None,
    'os.environ.update': 'env', 'os.environ.setdefault': 'env', 'os.environ.pop': 'env', 'os.environ.clear': 'env', 'os.environ.popitem': 'env',
    'sys.path.append': 'path', 'sys.path.insert': 'path', 'sys.path.extend': 'path', 'sys.path.remove': 'path', 'sys.path.pop': 'path', 'sys.path.clear': 'path',
    'sys.path.reverse': 'path', 'sys.path.sort': 'path', 'sys.modules.pop': 'modules', 'sys.modules.update': 'modules', 'sys.modules.setdefault': 'modules',
    'sys.modules.clear': 'modules', 'sys.meta_path.append': 'path', 'sys.meta_path.insert': 'path', 'sys.path_hooks.append': 'path',
    'sys.warnoptions.append': 'warnings', 'warnings.filters.clear': 'warnings', 'warnings.filters.insert': 'warnings', 'sys.stdout.reconfigure': 'streams', 'sys.stderr.reconfigure': 'streams',
    'sys.stdin.reconfigure': 'streams', 'sys.stdout.close': 'streams', 'sys.stderr.close': 'streams', 'sys.stdin.close': 'streams',
    'matplotlib.pyplot.rcParams.update': 'mpl', 'matplotlib.rcParams.update': 'mpl',
    'numpy.random.rand': 'seed', 'numpy.random.randn': 'seed', 'numpy.random.random': 'seed', 'numpy.random.normal': 'seed', 'numpy.random.uniform': 'seed',
    'numpy.random.randint': 'seed', 'numpy.random.choice': 'seed', 'numpy.random.shuffle': 'seed', 'numpy.random.permutation': 'seed',
    'random.random': 'seed', 'random.randint': 'seed', 'random.choice': 'seed', 'random.shuffle': 'seed', 'random.uniform': 'seed', 'random.sample': 'seed',
}
SET.pop('builtins.setattr')
CTX = {'warnings': ('warnings.catch_warnings', 'pytest.warns'), 'seterr': ('numpy.errstate',), 'npprint': ('numpy.printoptions',), 'pdopt': ('pandas.option_context',),
       'mpl': ('matplotlib.rc_context', 'matplotlib.pyplot.rc_context', 'matplotlib.style.context', 'matplotlib.pyplot.style.context'),
       'decimal': ('decimal.localcontext',), 'streams': ('contextlib.redirect_stdout', 'contextlib.redirect_stderr'), 'cwd': ('contextlib.chdir',)}
AS_CTX = {'xarray.set_options', 'matplotlib.pyplot.ion', 'matplotlib.pyplot.ioff', 'numpy.printoptions'}     # usable as context managers themselves
STATE_ATTRS = {'os.environ': 'env', 'sys.path': 'path', 'sys.modules': 'modules', 'matplotlib.pyplot.rcParams': 'mpl', 'matplotlib.rcParams': 'mpl',
               'matplotlib.rcParamsDefault': 'mpl', 'warnings.filters': 'warnings', 'sys.meta_path': 'path', 'sys.path_hooks': 'path', 'sys.path_importer_cache': 'path'}


def ext(proj, e, fn, mod, depth=0):
    try:
        r = proj.resolve_expr(e, mod, fn)
    except Exception:
        return None
    if r and r[0] == 'ext':
        return r[1]
    # a local name for a piece of another module's state (p = sys.path; p.append(...))
    root, tail = e, []
    while isinstance(root, ast.Attribute):
        tail.insert(0, root.attr)
        root = root.value
    if isinstance(root, ast.Name) and fn is not None and depth < 3:
        vals = [n.value for n in walk_own(fn.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == root.id for t in n.targets)]
        if len(vals) == 1 and isinstance(vals[0], (ast.Attribute, ast.Name)):
            o = ext(proj, vals[0], fn, mod, depth + 1)
            if o in STATE_ATTRS or o in SET:
                return '.'.join([o] + tail)
    return None


def effect(proj, n, fn, mod):
    """(kind, description) of a change of process-wide state by this node"""
    if isinstance(n, ast.Call):
        nm = ext(proj, n.func, fn, mod)
        if nm in SET:
            if nm == 'locale.setlocale':
                a = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'locale'), None)
                if a is None or isinstance(a, ast.Constant) and a.value is None:
                    return None      # a query
            if nm == 'csv.field_size_limit' and not n.args:
                return None
            return SET[nm], nm
        if isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and len(n.args) >= 2:
            o = ext(proj, n.args[0], fn, mod)
            if o is not None and not locally_bound(proj, n.args[0], fn):
                return 'patch ' + o, '%s on %s' % (n.func.id, o)
        return None
    tg = []
    if isinstance(n, ast.Assign):
        tg = n.targets
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
        tg = [n.target]
    elif isinstance(n, ast.Delete):
        tg = n.targets
    elif isinstance(n, (ast.For,)):
        tg = [n.target]
    out = []
    for t in tg:
        for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
            base = x
            while isinstance(base, (ast.Subscript,)):
                base = base.value
            if isinstance(base, ast.Attribute):
                if isinstance(x, ast.Attribute):
                    o = ext(proj, x.value, fn, mod)
                    if o is not None and not locally_bound(proj, x.value, fn):
                        full = o + '.' + x.attr
                        kind = STATE_ATTRS.get(full) or ('streams' if full in ('sys.stdout', 'sys.stderr', 'sys.stdin', 'sys.excepthook', 'sys.displayhook') else 'patch ' + full)
                        return kind, 'assignment to ' + full
                    if isinstance(x.value, ast.Call) and ext(proj, x.value.func, fn, mod) in ('decimal.getcontext', 'logging.getLogger', 'locale.localeconv'):
                        return 'decimal', 'assignment to an attribute of ' + ext(proj, x.value.func, fn, mod) + '()'
                else:
                    o = ext(proj, base, fn, mod)
                    if o in STATE_ATTRS:
                        return STATE_ATTRS[o], 'assignment to %s[...]' % o
            elif isinstance(base, ast.Name) and base is not x:
                o = ext(proj, base, fn, mod)
                if o in STATE_ATTRS:
                    return STATE_ATTRS[o], 'assignment to %s[...]' % o
    return None


def locally_bound(proj, e, fn):
    """a name resolved to an imported symbol, but rebound in the function"""
    if fn is None:
        return False
    d = dotted(e)
    if d is None:
        return True
    root = d.split('.')[0]
    for n in walk_own(fn.node):
        if isinstance(n, ast.Name) and n.id == root and isinstance(n.ctx, ast.Store):
            return True
    return root in fn.params


def parents(tree):
    d = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            d[c] = n
    return d


def resets(proj, body, kind, fn, mod):
    return any(e and e[0] == kind for s in body for x in ast.walk(s) for e in [effect(proj, x, fn, mod)])


def undone(proj, n, kind, fn, mod, par, depth=0):
    x = n
    while x in par:
        p = par[x]
        if isinstance(p, ast.With):
            for it in p.items:
                if isinstance(it.context_expr, ast.Call):
                    nm = ext(proj, it.context_expr.func, fn, mod)
                    if nm in CTX.get(kind, ()) and x is not it:
                        return True
                    if it.context_expr is x or it is x:
                        if nm in AS_CTX:
                            return True
        if isinstance(p, ast.withitem) and isinstance(p.context_expr, ast.Call) and ext(proj, p.context_expr.func, fn, mod) in AS_CTX and p.context_expr is n:
            return True
        if isinstance(p, ast.Try):
            if x in p.finalbody:
                return True                 # the reset itself
            if resets(proj, p.finalbody, kind, fn, mod):
                return True
        # change directly followed by try/finally
        for name in ('body', 'orelse', 'finalbody'):
            b = getattr(p, name, None)
            if isinstance(b, list) and x in b:
                for s in b[b.index(x) + 1:]:
                    if isinstance(s, ast.Try) and resets(proj, s.finalbody, kind, fn, mod):
                        return True
                    if any(isinstance(y, ast.Call) for y in ast.walk(s)):
                        break
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            break
        x = p
    # context-manager classes
    if fn is not None and fn.cls is not None and fn.name in ('__enter__', '__exit__', '__init__'):
        ex = proj.method(fn.cls, '__exit__')
        if ex is not None and resets(proj, ex.node.body, kind, ex, ex.mod):
            return True
    return False


def check(proj, tier):
    fs = []
    cnt = dict(nodes=0, functions=0, calls=0, state_changes=0, undone=0)
    from ..origin import Origin
    og = Origin(proj)
    pars = {m.name: parents(m.tree) for m in proj.mods.values()}
    for m in proj.mods.values():
        for fn, node in [(None, m.tree)] + [(f, f.node) for f in m.funcs]:
            cnt['functions'] += fn is not None
            for n in walk_own(node):
                if isinstance(n, (ast.Call, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For)):
                    cnt['nodes'] += 1
                    cnt['calls'] += isinstance(n, ast.Call)
                    e = effect(proj, n, fn, m)
                    if e is None or main_guarded(m, n):
                        continue
                    cnt['state_changes'] += 1
                    if undone(proj, n, e[0], fn, m, pars[m.name]):
                        cnt['undone'] += 1
                        continue
                    # a helper whose every call site is inside a restoring context
                    if fn is not None:
                        cs = og.calls_to(fn)
                        if cs and all(undone(proj, c, e[0], g, g.mod, pars[g.mod.name]) for g, c in cs):
                            cnt['undone'] += 1
                            continue
                    fs.append(Finding('state', m.rel, fn.qual if fn else '<module>', e[1], n.lineno,
                                      '%s changes process-wide state and is not undone on every path' % e[1]))
    return Result(fs, RULE, cnt, assumptions=['third-party packages do not leave process-wide state changed', 'the modules of the user directory are the user\'s responsibility'],
                  minimum=dict(functions=200, calls=1000))


def main_guarded(m, n):
    return any(isinstance(s, ast.If) and s.lineno <= n.lineno <= s.end_lineno and is_main_guard(s.test) for s in m.tree.body)
