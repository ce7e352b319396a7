"""C13: file content is never executed"""
import ast
from ..check import Finding, Result
from ..effects import name_of
from ..origin import Origin
from ..model import walk_own

RULE = ('every call site of the package is classified: calls that evaluate code (eval, exec, compile), import by name, load source files, unpickle, run programs, '
        'call a function looked up by a computed name, or expand templates are only allowed when their argument is built from constants of the source, when '
        'they load the modules of the user directory (in the function that lists the user formats or helpers only it calls; the directory must come from its own argument or the '
        'default user directory), or when template tags were explicitly supplied by the caller')
EVAL = {'eval', 'exec', 'compile', 'builtins.eval', 'builtins.exec', 'builtins.compile', 'pandas.eval', 'numexpr.evaluate', 'sympy.sympify',
        'sympy.parsing.sympy_parser.parse_expr', 'code.interact', 'timeit.timeit', 'cProfile.run', 'numpy.safe_eval', 'execfile', 'input'}
EVAL.discard('input')
IMPORT = {'__import__', 'importlib.import_module', 'importlib.__import__', 'pkgutil.get_loader', 'builtins.__import__', 'importlib.reload', 'pydoc.locate'}
LOAD = {'importlib.machinery.SourceFileLoader', 'importlib.util.spec_from_file_location', 'imp.load_source', 'imp.load_module', 'runpy.run_path',
        'runpy.run_module', 'importlib.util.module_from_spec', 'importlib.machinery.ExtensionFileLoader', 'importlib.machinery.SourcelessFileLoader',
        'ctypes.CDLL', 'ctypes.cdll.LoadLibrary', 'numpy.ctypeslib.load_library', 'zipimport.zipimporter'}
PICKLE = {'pickle.load', 'pickle.loads', 'pickle.Unpickler', 'cPickle.load', 'cPickle.loads', '_pickle.load', '_pickle.loads', 'marshal.load', 'marshal.loads',
          'shelve.open', 'dill.load', 'dill.loads', 'cloudpickle.load', 'cloudpickle.loads', 'joblib.load', 'pandas.read_pickle', 'yaml.unsafe_load',
          'yaml.full_load', 'yaml.unsafe_load_all', 'yaml.full_load_all', 'torch.load', 'jsonpickle.decode', 'pandas.read_hdf'}
SHELL = {'os.system', 'os.popen', 'os.startfile', 'pty.spawn', 'commands.getoutput', 'subprocess.run', 'subprocess.call', 'subprocess.Popen', 'subprocess.check_call',
         'subprocess.check_output', 'subprocess.getoutput', 'subprocess.getstatusoutput', 'webbrowser.open', 'asyncio.create_subprocess_shell'}
TEMPLATE = {'jinja2.Template', 'jinja2.Environment', 'mako.template.Template', 'jinja2.environment.Template'}


def kw(call, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return None


def safe_loader(e):
    return e is not None and any(isinstance(x, (ast.Attribute, ast.Name)) and 'Safe' in (x.attr if isinstance(x, ast.Attribute) else x.id) or
                                 isinstance(x, (ast.Attribute, ast.Name)) and (x.attr if isinstance(x, ast.Attribute) else x.id) == 'BaseLoader' for x in ast.walk(e))


def classify(proj, call, fn, mod):
    nm = name_of(proj, call, fn, mod)
    if nm is None and isinstance(call.func, ast.Name) and call.func.id in EVAL | IMPORT:
        if fn is None or call.func.id not in proj.func_scope(fn).__dict__.get('locals', ()):
            nm = call.func.id
    if nm in EVAL:
        return 'evaluates code', nm, call.args[:1]
    if nm in IMPORT:
        return 'imports by name', nm, call.args[:1]
    if nm in LOAD:
        return 'loads code', nm, call.args[:2] + [k.value for k in call.keywords]
    if nm in PICKLE:
        return 'unpickles', nm, None
    if nm in ('yaml.load', 'yaml.load_all', 'ruamel.yaml.load') and not safe_loader(kw(call, 'Loader') or (call.args[1] if len(call.args) > 1 else None)):
        return 'builds arbitrary objects from YAML', nm, None
    if nm in ('numpy.load', 'numpy.lib.format.read_array', 'numpy.lib.npyio.NpzFile'):
        a = kw(call, 'allow_pickle') or (call.args[2] if len(call.args) > 2 else None)
        if a is not None and not (isinstance(a, ast.Constant) and not a.value):
            return 'unpickles', nm, None
    if nm and (nm in SHELL or nm.startswith(('os.exec', 'os.spawn', 'os.posix_spawn'))):
        return 'runs a program', nm, call.args[:1] + [v for v in [kw(call, 'args')] if v is not None]
    if nm in TEMPLATE:
        return 'expands a template', nm, call.args[:1] or None
    f = call.func
    if isinstance(f, ast.Attribute) and nm is None:
        if f.attr in ('eval', 'query') and call.args and not isinstance(call.args[0], (ast.Lambda,)):
            return 'evaluates an expression string', '.' + f.attr, call.args[:1]
        if f.attr in ('from_string',):
            return 'expands a template', '.' + f.attr, call.args[:1]
        if f.attr in ('load_module', 'exec_module'):
            return 'loads code', '.' + f.attr, None
    # a function looked up by a computed name in a module or namespace
    if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == 'getattr' and len(f.args) > 1:
        try:
            r = proj.resolve_expr(f.args[0], mod, fn)
        except Exception:
            r = None
        if (r and r[0] in ('ext', 'mod', 'module')) or isinstance(f.args[0], ast.Name) and f.args[0].id == '__builtins__':
            return 'calls a function by computed name', 'getattr', f.args[1:2]
    if isinstance(f, ast.Subscript) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id in ('globals', 'locals', 'vars'):
        return 'calls a function by computed name', f.value.func.id + '()[...]', [f.slice]
    return None


def parents(tree):
    d = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            d[c] = n
    return d


def mentions(e, word):
    return any(isinstance(x, ast.Attribute) and word in x.attr or isinstance(x, ast.Name) and word in x.id or
               isinstance(x, ast.Constant) and isinstance(x.value, str) and word in x.value for x in ast.walk(e))


def guarded_by(node, fn, par, word):
    """is the node only reached when the named option is true?"""
    n = node
    while n is not fn.node and n in par:
        p = par[n]
        if isinstance(p, (ast.If, ast.IfExp)):
            body = p.body if isinstance(p.body, list) else [p.body]
            orelse = p.orelse if isinstance(p.orelse, list) else [p.orelse]
            neg = isinstance(p.test, ast.UnaryOp) and isinstance(p.test.op, ast.Not)
            if mentions(p.test, word) and (n in body and not neg and not isinstance(p.test, ast.BoolOp) or n in body and isinstance(p.test, ast.BoolOp)
                                           and isinstance(p.test.op, ast.And) or n in orelse and neg):
                return True
        for name in ('body', 'orelse', 'finalbody'):
            b = getattr(p, name, None)
            if isinstance(b, list) and n in b:
                for s in b[:b.index(n)]:
                    if isinstance(s, ast.If) and isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) and mentions(s.test, word) and \
                       isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                        return True
        n = p
    return False


def check(proj, tier):
    fs = []
    cnt = dict(call_sites=0, functions=0, sinks=0, allowed_constant=0, allowed_user=0, allowed_template=0)
    og = Origin(proj)
    # functions only used to load the user's own formats
    user = set()
    uf = proj.public('userFileClasses', 'func')
    if uf is not None:
        user.add(uf.key)
        for g in uf.nested.values():
            user.add(g.key)
    changed = True
    while changed:
        changed = False
        for f in proj.funcs.values():
            if f.key not in user:
                cs = og.calls_to(f)
                if cs and all(g.key in user for g, _ in cs) or f.parent is not None and f.parent.key in user:
                    user.add(f.key)
                    changed = True
    samples = []
    pars = {}
    for m in proj.mods.values():
        scopes = [(None, m.tree)] + [(f, f.node) for f in m.funcs]
        for fn, node in scopes:
            cnt['functions'] += fn is not None
            for n in walk_own(node):
                if not isinstance(n, ast.Call) or in_main(m, n, pars):
                    continue
                cnt['call_sites'] += 1
                c = classify(proj, n, fn, m)
                if c is None:
                    continue
                what, nm, args = c
                cnt['sinks'] += 1
                where = fn.qual if fn else '<module>'
                if args and all(og.constant(a, fn, m) for a in args):
                    cnt['allowed_constant'] += 1
                    continue
                if what in ('loads code', 'imports by name') and fn is not None and fn.key in user:
                    cnt['allowed_user'] += 1
                    samples.append('%s %s in %s (user formats)' % (what, nm, where))
                    continue
                if what == 'expands a template' and fn is not None:
                    if m.name not in pars:
                        pars[m.name] = parents(m.tree)
                    ok = guarded_by(n, fn, pars[m.name], 'jinja_tags')
                    if not ok:
                        cs = og.calls_to(fn)
                        for g, _ in cs:
                            pars.setdefault(g.mod.name, None)
                            pars[g.mod.name] = pars[g.mod.name] or parents(g.mod.tree)
                        ok = bool(cs) and all(guarded_by(call, g, pars[g.mod.name], 'jinja_tags') for g, call in cs)
                    if ok and tags_from_caller(proj):
                        cnt['allowed_template'] += 1
                        samples.append('%s in %s under explicit jinja_tags' % (nm, where))
                        continue
                fs.append(Finding('executes', m.rel, where, '%s %s' % (what, nm), n.lineno,
                                  '%s (%s) on a value that is not a constant of the source' % (what, nm)))
    # the directory the user's formats come from is never derived from a data file
    if uf is not None:
        fs += user_dir(proj, og, uf, cnt)
    return Result(fs, RULE, cnt, samples, ['third-party parsers (pandas, numpy, scipy, xarray, nptdms) do not execute the data they read'],
                  minimum=dict(call_sites=1000, functions=200))


def in_main(m, n, pars):
    return any(isinstance(s, ast.If) and s.lineno <= n.lineno <= s.end_lineno and _ismain(s.test) for s in m.tree.body)


def _ismain(t):
    from ..model import is_main_guard
    return is_main_guard(t)


def tags_from_caller(proj):
    for f in proj.funcs.values():
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == 'jinja_tags':
                        v = n.value
                        ok = all(isinstance(x, (ast.Name, ast.Constant, ast.Dict, ast.Load, ast.BoolOp, ast.Or, ast.Call, ast.IfExp, ast.Compare, ast.Is, ast.IsNot,
                                                ast.keyword)) or isinstance(x, ast.Attribute) and x.attr in ('jinja_tags', 'copy') for x in ast.walk(v)) and \
                            all(x.id in f.params or x.id in ('dict', 'None') or x.id in (f.params + f.kwonly) for x in ast.walk(v) if isinstance(x, ast.Name))
                        if not ok:
                            return False
    return True


def user_dir(proj, og, uf, cnt):
    out = []
    todo, done = [(uf, p) for p in uf.params[:1]], set()
    cnt['user_dir_flows'] = 0
    while todo:
        f, p = todo.pop()
        if (f.key, p) in done:
            continue
        done.add((f.key, p))
        cnt['user_dir_flows'] += 1
        # rebound inside the function
        for v in og.binds(f).get(p, []):
            for kind, x in og.leaves(v, f):
                if kind == 'param' and x != p and x not in ('ignoreErrors', 'verbose'):
                    out.append(Finding('user-directory', f.mod.rel, f.qual, 'built from ' + x, v.lineno,
                                       'the directory code is loaded from depends on the argument %r' % x))
            bad = [x for x in ast.walk(v) if isinstance(x, ast.Attribute) and x.attr in ('getcwd', 'curdir', 'getcwdu', 'cwd')]
            for x in bad:
                out.append(Finding('user-directory', f.mod.rel, f.qual, 'built from the working directory', v.lineno,
                                   'code is loaded from the working directory'))
        for g, c in og.calls_to(f):
            a = og.argument(c, f, p)
            if a is None:
                continue
            for kind, x in og.leaves(a, g):
                if kind == 'param':
                    if 'filename' in x.lower() or x in ('self', 'f', 'file', 'path', 'filepath'):
                        out.append(Finding('user-directory', g.mod.rel, g.qual, 'argument ' + x, c.lineno,
                                           'the directory code is loaded from depends on the data file (argument %r)' % x))
                    else:
                        todo.append((g, x))
            if any(isinstance(x, ast.Attribute) and x.attr in ('getcwd', 'curdir', 'cwd') for x in ast.walk(a)):
                out.append(Finding('user-directory', g.mod.rel, g.qual, 'working directory', c.lineno, 'code is loaded from the working directory'))
    return out
