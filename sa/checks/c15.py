"""C15: registry of formats"""
import ast
from ..check import Finding, Result
from ..model import AnalysisError, walk_own
from ..consteval import fold_return, Env, Unknown
from ..absint import Interp, Machine, UNK, NONE

RULE = ('constant evaluation of names and extensions of every format class and query over the registering functions: each class with a name of its '
        'own is registered exactly once and not inside a try that swallows failures, names are unique, extensions are lower-case strings that '
        'start with a dot, priorities are put in ascending order by a stable sort, every return of fileFormats has the shape its options ask for, '
        'and constant propagation of file names through detection reaches the reader for every declared extension')


def closure(proj, fn):
    """functions the registry is built by: fn and the package functions it references (format modules themselves excluded)"""
    out, todo = {}, [fn]
    while todo:
        f = todo.pop()
        if f.key in out:
            continue
        out[f.key] = f
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                try:
                    r = proj.resolve_expr(n, f.mod, f)
                except Exception:
                    r = None
                if r and r[0] == 'func' and r[1].cls is None and not r[1].mod.rel.endswith('_file.py'):
                    todo.append(r[1])
    return out


def tables(proj, fns):
    """module-level assignments those functions refer to"""
    out = {}
    for f in fns.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = proj.resolve_sym(f.mod, n.id)
                if r and r[0] == 'var':
                    s = r[1].syms.get(r[2])
                    if s and s[1] is not None:
                        out[(r[1].name, r[2])] = (r[1], s[1])
    return out


class Shape(Machine):
    no_slice = True
    no_implicit = True
    values = ('reg',)

    def __init__(self, regvars, cached):
        self.regvars, self.cached = regvars, cached

    def gvar(self, ip, v):
        if v[2] == self.main:
            return [self.cached]
        return [UNK]


def check(proj, tier):
    fs = []
    cnt = dict(classes=0, registered=0, names=0, extensions=0, undecided=0, sorts=0, returns=0)
    ff = proj.public('fileFormats', 'func')
    fns = closure(proj, ff)
    sites = {}
    scopes = [(f.node, f.mod, f) for f in fns.values() if f.parent is None or f.parent.key not in fns] + \
             [(n, m, None) for m, n in tables(proj, fns).values()]
    for root, mod, f in scopes:
        handlers = []

        def walk(n, swallow):
            if isinstance(n, ast.Try):
                sw = any(not any(isinstance(x, ast.Raise) for x in ast.walk(h)) for h in n.handlers)
                for x in n.body + n.orelse:
                    walk(x, swallow or (sw and x in n.body))
                for h in n.handlers:
                    walk(h, swallow)
                for x in n.finalbody:
                    walk(x, swallow)
                return
            if isinstance(n, (ast.Call, ast.Tuple, ast.List, ast.Dict)):
                kids = list(n.args) + [k.value for k in n.keywords] if isinstance(n, ast.Call) else \
                    (list(n.keys) + list(n.values) if isinstance(n, ast.Dict) else list(n.elts))
                for x in kids:
                    if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(getattr(x, 'ctx', None), ast.Load):
                        try:
                            r = proj.resolve_expr(x, mod, f)
                        except Exception:
                            r = None
                        if r and r[0] == 'class' and proj.is_file_class(r[1]):
                            sites.setdefault(r[1].key, []).append((x.lineno, mod, swallow))
            if isinstance(n, ast.ImportFrom) and swallow:
                for a in n.names:
                    r = proj.lookup_module(proj.import_target(mod, n), a.name)
                    if r and r[0] == 'class' and proj.is_file_class(r[1]) and r[1].name != 'File':
                        sites.setdefault('import:' + r[1].key, []).append((n.lineno, mod, True))
            for x in ast.iter_child_nodes(n):
                walk(x, swallow)
        walk(root, False)
    decided = len([k for k in sites if not k.startswith('import:')]) >= 10
    names = {}
    for c in proj.file_classes():
        if c.name == 'File':
            continue
        cnt['classes'] += 1
        own = 'formatName' in c.methods
        reg = sites.get(c.key, [])
        cnt['registered'] += bool(reg)
        if decided:
            if own and not reg:
                fs.append(Finding('not-registered', c.mod.rel, c.name, c.name, c.node.lineno,
                                  'format class %s is not in the list of known formats' % c.name))
            if len(reg) > 1:
                fs.append(Finding('registered-twice', c.mod.rel, c.name, c.name, reg[1][0], 'format class %s is registered %d times' % (c.name, len(reg))))
            for line, mod, sw in reg + sites.get('import:' + c.key, []):
                if sw:
                    fs.append(Finding('may-be-missing', mod.rel, c.name, c.name, line,
                                      'a failing import or registration of %s is swallowed: the format silently disappears' % c.name))
        if not (own or reg):
            continue
        for meth in ('formatName', 'defaultExtensions'):
            m = proj.method(c, meth)
            if m is None or m.mod.rel == 'weio/file.py':
                if decided and reg:
                    fs.append(Finding('no-' + meth, c.mod.rel, c.name, meth, c.node.lineno, '%s does not define %s' % (c.name, meth)))
                continue
            try:
                v = fold_return(m, Env(proj, m.mod, m, c))
            except Unknown:
                cnt['undecided'] += 1
                continue
            if meth == 'formatName':
                cnt['names'] += 1
                if not isinstance(v, str) or not v.strip():
                    fs.append(Finding('bad-name', c.mod.rel, c.name, meth, m.lineno, 'formatName of %s is %r' % (c.name, v)))
                elif decided and not reg:
                    pass
                elif v in names:
                    fs.append(Finding('duplicate-name', c.mod.rel, c.name, v, m.lineno,
                                      '%s has the same format name %r as %s' % (c.name, v, names[v])))
                else:
                    names[v] = c.name
            else:
                if not isinstance(v, list) or not v:
                    fs.append(Finding('bad-extensions', c.mod.rel, c.name, meth, m.lineno, 'defaultExtensions of %s is %r, not a list' % (c.name, v)))
                    continue
                for x in v:
                    cnt['extensions'] += 1
                    bad = None
                    if not isinstance(x, str):
                        bad = 'is not a string'
                    elif not x.startswith('.') or len(x) < 2:
                        bad = 'does not start with a dot: no file name has that extension'
                    elif x != x.lower():
                        bad = 'is not lower case, but file names are lower-cased before they are compared'
                    elif x.count('.') > 1:
                        bad = 'has two dots: the extension of a file name has one'
                    elif x != x.strip() or '/' in x:
                        bad = 'contains characters that no extension has'
                    elif v.count(x) > 1:
                        bad = 'is listed twice'
                    if bad:
                        fs.append(Finding('unreachable-extension', c.mod.rel, c.name, str(x), m.lineno, 'extension %r of %s %s' % (x, c.name, bad)))
    # sorting
    prio = []
    for f in fns.values():
        if f.parent is not None and f.parent.key in fns:
            continue
        parents = {ch: n for n in ast.walk(f.node) for ch in ast.iter_child_nodes(n)}
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if name not in ('argsort', 'sort', 'sorted'):
                continue
            if f.name == 'userFileClasses':
                continue
            cnt['sorts'] += 1
            kw = {k.arg: k.value for k in n.keywords}
            kind = kw.get('kind')
            r = proj.resolve_expr(n.func, f.mod, f)
            isnp = name == 'argsort' or r is not None and r[0] == 'ext' and r[1].startswith('numpy')
            if isnp and not (isinstance(kind, ast.Constant) and kind.value in ('stable', 'mergesort')):
                if not ('stable' in kw and getattr(kw['stable'], 'value', None) is True):
                    fs.append(Finding('unstable-sort', f.mod.rel, f.qual, name, n.lineno,
                                      'formats of equal priority are sorted with an unstable sort: the order of registration is lost'))
            rev = kw.get('reverse')
            neg = any(isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and not isinstance(x.operand, ast.Constant)
                      for a in list(n.args) + [v for k, v in kw.items() if k == 'key'] for x in ast.walk(a))
            flip = False
            up = parents.get(n)
            if isinstance(up, ast.Subscript) and up.value is n and isinstance(up.slice, ast.Slice) and isinstance(up.slice.step, ast.UnaryOp):
                flip = True
            if isinstance(up, ast.Call) and getattr(up.func, 'id', '') == 'reversed':
                flip = True
            if (isinstance(rev, ast.Constant) and rev.value is True) != (neg != flip):
                fs.append(Finding('descending', f.mod.rel, f.qual, name, n.lineno, 'formats are put in descending order of priority'))
            elif neg != flip or flip and isnp:
                fs.append(Finding('descending', f.mod.rel, f.qual, name, n.lineno, 'formats are put in reverse order'))
    if decided and not cnt['sorts']:
        fs.append(Finding('not-sorted', ff.mod.rel, ff.qual, 'sort', ff.lineno, 'the formats are never sorted by priority'))
    # shape of the result on every path
    opt = [p for p in ff.params if p.lower().startswith('ignore')]
    glob = {x for f in fns.values() for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
    if opt and glob:
        # the cache variable: the one tested against None / returned
        main = None
        for n in ast.walk(ff.node):
            if isinstance(n, ast.Return) and n.value is not None:
                for x in ast.walk(n.value):
                    if isinstance(x, ast.Name) and x.id in glob and main is None:
                        main = x.id
            if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id in glob and main is None:
                main = n.left.id
        for cached in (NONE, ('reg',)):
            for ign in (False, True):
                mach = Shape(glob, cached)
                mach.main = main
                ip = Interp(proj, mach, lambda f, c=None: f.key in fns and f.name != 'userFileClasses')
                res = ip.run_function(ff, [], {opt[0]: ('const', ign)}, ())
                for k, s, v in res:
                    if k != 'return':
                        continue
                    cnt['returns'] += 1
                    istup = v[0] == 'tuple'
                    known = istup or v[0] in ('reg', 'none', 'list')
                    if v == NONE or known and istup != ign or (v == UNK and ign and False):
                        fs.append(Finding('shape', ff.mod.rel, ff.qual, '%s cached=%s' % (ign, cached != NONE), ff.lineno,
                                          'fileFormats(%s=%s) returns %s %s' % (opt[0], ign, 'a pair' if istup else ('nothing' if v == NONE else
                                                                                                               'the list only'),
                                                                          'on a later call' if cached != NONE else 'on the first call')))
    from ..claims import problems
    for rule, c, x, msg in problems(proj, cnt, negative=False):
        fs.append(Finding(rule, c.mod.rel, c.name, x, ff.lineno, msg))
    fs = list({f.key: f for f in fs}.values())
    return Result(fs, RULE, cnt, samples=sorted(names), assumptions=['priorities of user formats are not known statically'],
                  minimum=dict(classes=20, names=20))
