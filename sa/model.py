"""Program model: parsed modules, symbol tables, classes with MRO, functions, name and call resolution.

Everything is computed from the text of /repo's working tree; nothing of weio is imported or run.
"""
import ast, os, builtins

PKG = 'weio'
# not part of the shipped package behaviour: the test-suite, and the copy-me template
EXCLUDE_DIRS = {'tests'}
EXCLUDE_FILES = {'_NEWFILE_TEMPLATE.py'}

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__',
                                 '__loader__', '__builtins__', '__debug__', 'WindowsError'}


class AnalysisError(Exception):
    """the analysis could not be carried out (anchor vanished, unparsable source...)"""


class Func:
    def __init__(self, mod, node, cls=None, parent=None):
        self.mod, self.node, self.cls, self.parent = mod, node, cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        q = self.name
        if cls is not None and parent is None:
            q = cls.name + '.' + q
        if parent is not None:
            q = parent.qual + '.<locals>.' + q
        self.qual = q
        self.key = mod.rel + ':' + q
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[p.arg] = d
        decs = [dotted(d.func if isinstance(d, ast.Call) else d) for d in getattr(node, 'decorator_list', [])]
        self.decorators = [d for d in decs if d]
        self.is_static = 'staticmethod' in self.decorators
        self.is_classmethod = 'classmethod' in self.decorators
        self.is_property = any(d in ('property', 'functools.cached_property', 'cached_property') for d in self.decorators)
        self.is_setter = any(d.endswith('.setter') for d in self.decorators)
        self.nested = {}
        self.shadowed = False     # redefined later in the same class body: never callable
        self.is_method = cls is not None and parent is None

    def __repr__(self):
        return '<Func %s>' % self.key

    def bound_self(self):
        return self.is_method and not self.is_static

    @property
    def lineno(self):
        return self.node.lineno


class Class:
    def __init__(self, mod, node, parent=None):
        self.mod, self.node = mod, node
        self.name = node.name
        self.key = mod.rel + ':' + self.name
        self.methods = {}     # name -> Func (last definition wins, as at run time)
        self.setters = {}
        self.attrs = {}       # class-level assigned name -> value node
        self.bases = []
        self._mro = None

    def __repr__(self):
        return '<Class %s>' % self.key


class Module:
    def __init__(self, rel, path, name, src):
        self.rel, self.path, self.name, self.src = rel, path, name, src
        self.tree = ast.parse(src, path)
        self.lines = src.splitlines()
        self.syms = {}        # name -> ('class',Class) ('func',Func) ('import', modname, attr|None) ('var', node)
        self.classes, self.funcs = {}, []

    def __repr__(self):
        return '<Module %s>' % self.rel


def dotted(node):
    """a.b.c -> 'a.b.c' or None"""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None


def is_main_guard(test):
    """`__name__ == '__main__'` in either order"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.Eq):
        xs = [test.left, test.comparators[0]]
        return any(isinstance(x, ast.Name) and x.id == '__name__' for x in xs) and \
            any(isinstance(x, ast.Constant) and x.value == '__main__' for x in xs)
    return False


def strip_main(body):
    return [s for s in body if not (isinstance(s, ast.If) and is_main_guard(s.test))]


class Project:
    def __init__(self, repo='/repo'):
        self.repo = repo
        self.root = os.path.join(repo, PKG)
        self.mods = {}        # dotted name -> Module
        self.funcs = {}       # key -> Func (including nested)
        self.classes = {}     # key -> Class
        self.consulted = []
        if not os.path.isdir(self.root):
            raise AnalysisError('package directory not found: ' + self.root)
        for dp, dn, fn in os.walk(self.root):
            dn[:] = sorted(d for d in dn if d not in EXCLUDE_DIRS and not d.startswith(('.', '__pycache__')))
            for f in sorted(fn):
                if not f.endswith('.py') or f in EXCLUDE_FILES:
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, repo)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(path, encoding='utf-8', errors='surrogateescape') as fid:
                    src = fid.read()
                try:
                    self.mods[name] = Module(rel, path, name, src)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
        for m in self.mods.values():
            self._collect(m)
        for m in self.mods.values():
            for c in m.classes.values():
                self._bases(c)
        self._type_cache = {}
        self._subs = None

    # ------------------------------------------------------------------ symbols
    def _pkg_of(self, m):
        return m.name if m.path.endswith('__init__.py') else m.name.rpartition('.')[0]

    def import_target(self, m, node):
        """absolute module name of an ImportFrom"""
        if node.level == 0:
            return node.module or ''
        base = self._pkg_of(m)
        for _ in range(node.level - 1):
            base = base.rpartition('.')[0]
        return base + ('.' + node.module if node.module else '')

    def _collect(self, m):
        def bind(name, val, weak):
            if weak and name in m.syms:
                return
            m.syms[name] = val

        def stmts(body, weak=False):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._mkfunc(m, s)
                    bind(s.name, ('func', f), weak)
                elif isinstance(s, ast.ClassDef):
                    c = self._mkclass(m, s)
                    bind(s.name, ('class', c), weak)
                    if not weak or s.name not in m.classes:
                        m.classes[s.name] = c
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            bind(a.asname, ('import', a.name, None), weak)
                        else:
                            bind(a.name.split('.')[0], ('import', a.name.split('.')[0], None), weak)
                elif isinstance(s, ast.ImportFrom):
                    t = self.import_target(m, s)
                    for a in s.names:
                        bind(a.asname or a.name, ('import', t, a.name), weak)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in tg:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                bind(n.id, ('var', s.value), weak)
                elif isinstance(s, ast.If):
                    if is_main_guard(s.test):
                        continue
                    stmts(s.body, weak)
                    stmts(s.orelse, True)
                elif isinstance(s, ast.Try):
                    stmts(s.body, weak)
                    for h in s.handlers:
                        stmts(h.body, True)      # fallback definitions never override the normal ones
                    stmts(s.orelse, weak)
                    stmts(s.finalbody, weak)
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    if isinstance(s, ast.For):
                        for n in ast.walk(s.target):
                            if isinstance(n, ast.Name):
                                bind(n.id, ('var', None), weak)
                    if isinstance(s, ast.With):
                        for it in s.items:
                            if it.optional_vars is not None:
                                for n in ast.walk(it.optional_vars):
                                    if isinstance(n, ast.Name):
                                        bind(n.id, ('var', None), weak)
                    stmts(s.body, weak)
                    stmts(getattr(s, 'orelse', []), weak)
        stmts(m.tree.body)

    def _mkfunc(self, m, node, cls=None, parent=None):
        f = Func(m, node, cls, parent)
        m.funcs.append(f)
        k, i = f.key, 2
        while k in self.funcs:           # redefinition: keep both analysable
            k = '%s#%d' % (f.key, i)
            i += 1
        f.key = k
        self.funcs[k] = f
        self._nested(f)
        return f

    def _nested(self, f):
        def walk(n):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    g = self._mkfunc(f.mod, ch, f.cls, f)
                    f.nested[ch.name] = g
                elif isinstance(ch, ast.ClassDef):
                    pass
                else:
                    walk(ch)
        for s in f.node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = self._mkfunc(f.mod, s, f.cls, f)
                f.nested[s.name] = g
            elif not isinstance(s, ast.ClassDef):
                walk(s)

    def _mkclass(self, m, node):
        c = Class(m, node)
        self.classes.setdefault(c.key, c)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._mkfunc(m, s, c)
                if f.is_setter:
                    c.setters[s.name] = f
                elif any(d.endswith(('.getter', '.deleter')) for d in f.decorators):
                    pass
                else:
                    if s.name in c.methods:
                        c.methods[s.name].shadowed = True
                    c.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                c.attrs[s.target.id] = s.value
        return c

    def _bases(self, c):
        c.bases = []
        for b in c.node.bases:
            r = self.resolve_expr(b, c.mod)
            if r and r[0] == 'class':
                c.bases.append(r[1])

    def mro(self, c):
        if c._mro is None:
            c._mro = [c]                 # guard against cycles
            seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
            out = [c]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                for s in seqs:
                    if s and s[0] is h:
                        del s[0]
            c._mro = out
        return c._mro

    def subclasses(self, c):
        if self._subs is None:
            self._subs = {}
            for k in self.classes.values():
                for b in self.mro(k)[1:]:
                    self._subs.setdefault(b.key, []).append(k)
        return self._subs.get(c.key, [])

    def method(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def setter(self, cls, name):
        for c in self.mro(cls):
            if name in c.setters:
                return c.setters[name]
        return None

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_file_class(self, c):
        return any(x.name == 'File' and x.mod.name == PKG + '.file' for x in self.mro(c))

    def file_classes(self):
        return [c for c in self.classes.values() if self.is_file_class(c) and c.name != 'File']

    def public(self, name, kind=None, module=PKG):
        """a public name of the package, followed through re-exports"""
        r = self.lookup_module(module, name)
        if r is None or r[0] == 'missing' or kind and r[0] != kind:
            raise AnalysisError('%s.%s is not a %s any more' % (module, name, kind))
        return r[1]

    def registered(self):
        """file classes named in the package's __init__ (through imports at any level)"""
        out = {}
        for m in self.mods.values():
            if m.name not in (PKG, PKG + '.file_formats', PKG + '.formats', PKG + '.registry'):
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom):
                    t = self.import_target(m, n)
                    for a in n.names:
                        r = self.lookup_module(t, a.name)
                        if r and r[0] == 'class' and self.is_file_class(r[1]) and r[1].name != 'File':
                            out[r[1].key] = r[1]
        return list(out.values())

    # --------------------------------------------------------------- resolution
    def lookup_module(self, modname, attr):
        """symbol `attr` of module `modname` -> resolved or ('ext', dotted)"""
        if attr is None:
            if modname in self.mods:
                return ('module', self.mods[modname])
            return ('ext', modname)
        if modname in self.mods:
            m = self.mods[modname]
            if attr in m.syms:
                return self.resolve_sym(m, attr)
            if modname + '.' + attr in self.mods:
                return ('module', self.mods[modname + '.' + attr])
            return ('missing', modname + '.' + attr)
        if modname.split('.')[0] == PKG:
            return ('missing', modname + '.' + attr)
        if modname == 'builtins':
            return ('ext', attr)
        return ('ext', modname + '.' + attr)

    def resolve_sym(self, m, name, _seen=None):
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        s = m.syms.get(name)
        if s is None:
            if name in BUILTINS:
                return ('ext', name)
            return None
        if s[0] == 'import':
            return self.lookup_module(s[1], s[2])
        if s[0] == 'var':
            v = s[1]
            if isinstance(v, ast.Name) and v.id != name:
                r = self.resolve_sym(m, v.id, _seen)
                if r and r[0] in ('class', 'func', 'ext'):
                    return r
            return ('var', m, name)
        return s

    def local_imports(self, f):
        """imports made inside the function (and its parents): name -> resolved"""
        out = {}
        chain = []
        g = f
        while g is not None:
            chain.append(g)
            g = g.parent
        for g in reversed(chain):
            for n in walk_own(g.node):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        nm = a.asname or a.name.split('.')[0]
                        out[nm] = self.lookup_module(a.name if a.asname else a.name.split('.')[0], None)
                elif isinstance(n, ast.ImportFrom):
                    t = self.import_target(f.mod, n)
                    for a in n.names:
                        out[a.asname or a.name] = self.lookup_module(t, a.name)
        return out

    def func_scope(self, f):
        sc = getattr(f, '_scope', None)
        if sc is None:
            sc = f._scope = Scope(self, f)
        return sc

    def resolve_expr(self, node, m, f=None):
        """static resolution of a Name/Attribute expression to a class, function, module or external dotted name"""
        if isinstance(node, ast.Name):
            if f is not None:
                r = self.func_scope(f).resolve(node.id)
                if r is not None:
                    return None if r[0] == 'local' else r
            return self.resolve_sym(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(node.value, m, f)
            if b is None:
                return None
            if b[0] == 'module':
                return self.lookup_module(b[1].name, node.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + node.attr)
            if b[0] == 'class':
                mm = self.method(b[1], node.attr)
                if mm is not None:
                    return ('func', mm)
                return ('classattr', b[1], node.attr)
            return None
        return None


def walk_own(node):
    """walk a function body without entering nested functions/classes (lambdas and comprehensions are entered)"""
    todo = list(node.body) if hasattr(node, 'body') and isinstance(node.body, list) else [node]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def assigned_names(node):
    """names bound by the function body itself (not nested scopes)"""
    out = set()
    for n in walk_own(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
    return out


class Scope:
    """names visible in a function"""
    def __init__(self, proj, f):
        self.proj, self.f = proj, f
        self.globals_decl, self.nonlocals = set(), set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Global):
                self.globals_decl.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
        comp = set()
        for n in walk_own(f.node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    comp.update(x.id for x in ast.walk(g.target) if isinstance(x, ast.Name))
            if isinstance(n, ast.Lambda):
                comp.update(a.arg for a in n.args.args + n.args.kwonlyargs)
        self.params = set(f.params) | set(f.kwonly) | ({f.vararg} - {None}) | ({f.kwarg} - {None})
        self.locals = (assigned_names(f.node) | self.params) - self.globals_decl - self.nonlocals
        self.comp = comp
        self.imports = None

    def resolve(self, name):
        """None: not a local of this function chain; ('local',) or a resolved import / nested function"""
        if self.imports is None:
            self.imports = self.proj.local_imports(self.f)
        if name in self.globals_decl:
            return None
        if name in self.locals:
            if name in self.f.nested:
                return ('func', self.f.nested[name])
            if name in self.imports and name not in self.params:
                return self.imports[name]
            return ('local',)
        if name in self.comp:
            return ('local',)
        if self.f.parent is not None:
            r = self.proj.func_scope(self.f.parent).resolve(name)
            if r is not None:
                return r
        return None
