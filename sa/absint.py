"""Abstract interpreter over the syntax tree (dataflow with a finite abstract domain, property simulation).

Abstract values (hashable tuples)
  ('none',) ('const', c) ('unk',) ('path', sym, kind)  sym: which of the path variables of the query, kind: 'same'|'derived'
  ('obj', class key, id) ('class', key) ('func', key) ('bound', key, selfval) ('super', defining class key, obj)
  ('module', name) ('ext', dotted) ('meth', receiver, name) ('handle', path, mode, owner) ('stat', path) ('size', path)
  ('exc', name) ('tuple', (v, ...)) and values owned by a machine, e.g. ('fmt', k)

A Machine receives events (open, read, write, delete, stat ...) and carries the typestate of the property.
Calls of functions of the package are inlined in their class context; unknown calls return ('unk',).
"""
import ast
from .model import dotted, AnalysisError, walk_own
from .names import _Facts, assume, safe_expr, cannot_raise, _idents, catches_name_error, always_raises
from .wiring import EXC_NAMES

UNK = ('unk',)
NONE = ('none',)
TRUE, FALSE = ('const', True), ('const', False)
MAXSTATES = 10
MAXDEPTH = 14

OPEN = {'open', 'io.open', 'builtins.open', 'codecs.open'}
STR_PURE = {'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'split', 'rsplit', 'partition', 'rpartition', 'find', 'rfind',
            'startswith', 'endswith', 'format', 'encode', 'decode', 'join', 'splitlines', 'with_suffix', 'with_name', 'relative_to',
            'removesuffix', 'removeprefix', 'count', 'index', 'title', 'casefold', 'zfill', 'expandtabs', 'joinpath', 'isdigit'}
SAME_FUNCS = {'str', 'os.path.abspath', 'os.path.normpath', 'os.path.realpath', 'os.fspath', 'os.path.expanduser', 'pathlib.Path',
              'os.path.expandvars', 'pathlib.PurePath', 'os.fsdecode', 'os.fsencode', 'os.path.normcase', 'copy.copy', 'copy.deepcopy'}
PURE_PATH = {'os.path.join', 'os.path.splitext', 'os.path.basename', 'os.path.dirname', 'os.path.split', 'os.path.relpath',
             'os.path.isabs', 'os.path.commonprefix', 'os.path.splitdrive', 're.sub', 're.match', 're.search', 're.findall', 're.split',
             're.compile', 'fnmatch.fnmatch', 're.escape'}
STAT_FUNCS = {'os.path.isfile': 'isfile', 'os.path.exists': 'exists', 'os.path.isdir': 'isdir', 'os.path.lexists': 'exists',
              'os.path.getsize': 'size', 'os.stat': 'stat', 'os.path.islink': 'unk', 'os.access': 'exists',
              'os.path.getmtime': 'unk'}
PURE_ANY = {'print', 'len', 'repr', 'type', 'isinstance', 'issubclass', 'hasattr', 'id', 'hash', 'bool', 'max', 'min', 'range', 'enumerate',
            'zip', 'list', 'tuple', 'dict', 'set', 'sorted', 'sum', 'any', 'all', 'int', 'float', 'format', 'ord', 'chr', 'abs', 'round',
            'getattr', 'setattr', 'warnings.warn', 'logging.warning', 'logging.info', 'logging.debug', 'logging.error', 'callable',
            'reversed', 'map', 'filter', 'vars', 'dir'}
WRITE_FUNCS = {'numpy.savetxt': 0, 'numpy.save': 0, 'numpy.savez': 0, 'numpy.savez_compressed': 0, 'pandas.ExcelWriter': 0,
               'scipy.io.savemat': 0, 'pathlib.Path.write_text': None}
WRITE_METHODS = {'to_csv', 'to_parquet', 'to_excel', 'to_netcdf', 'to_hdf', 'to_json', 'to_pickle', 'to_feather', 'tofile', 'savefig',
                 'to_string', 'to_html', 'to_latex', 'dump', 'write_text', 'write_bytes'}
DELETE_FUNCS = {'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.rmdir', 'os.removedirs', 'shutil.rmtree', 'shutil.move',
                'os.truncate', 'os.renames', 'os.chmod', 'os.chown', 'os.utime', 'os.link', 'os.symlink'}
COPY_FUNCS = {'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.copytree'}
MKDIR_FUNCS = {'os.makedirs', 'os.mkdir'}
DELETE_METHODS = {'unlink', 'rename', 'rmdir', 'replace_file', 'touch', 'chmod', 'symlink_to', 'hardlink_to'}


class St:
    """one abstract state: locals, heap of tracked attributes, branch facts, machine state"""
    __slots__ = ('env', 'heap', 'facts', 'm', '_h')

    def __init__(self, env, heap, facts, m):
        self.env, self.heap, self.facts, self.m = env, heap, facts, m
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.env.items()), frozenset(self.heap.items()), self.facts, self.m)
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def setvar(self, name, val):
        env = dict(self.env)
        env[name] = val
        return St(env, self.heap, self.facts.drop(frozenset([name])), self.m)

    def delvar(self, name):
        if name not in self.env:
            return self
        env = dict(self.env)
        env.pop(name)
        return St(env, self.heap, self.facts, self.m)

    def setattr(self, oid, attr, val, text=None):
        heap = dict(self.heap)
        heap[(oid, attr)] = val
        f = self.facts
        f = f.drop(frozenset([text])) if text else f
        return St(self.env, heap, f, self.m)

    def forget(self, v):
        """a mutable value may have changed"""
        if v in self.env.values() or v in self.heap.values():
            return St({k: (UNK if x == v else x) for k, x in self.env.items()},
                      {k: (UNK if x == v else x) for k, x in self.heap.items()}, self.facts, self.m)
        return self

    def setm(self, m):
        return self if m == self.m else St(self.env, self.heap, self.facts, m)

    def setfacts(self, f):
        return St(self.env, self.heap, f, self.m)


FULL = ('same', 'stem', 'derived')
BASE = ('base', 'bstem', 'basex')
# kinds of a name built from a path: same | stem (extension cut) | derived (directory kept, name edited at the end) | dir | base, bstem, basex
# (directory cut; basex: edited) | ext (the extension only) | odd (other pieces)
# | edited (text replaced anywhere, folder included) | pat (escaped for use in a glob pattern)


def derive(pv):
    """a name built from path values in an unspecified way: keeps the provenance"""
    if not pv:
        return UNK
    for v in pv:
        if v[2] in FULL:
            return ('path', v[1], 'derived')
    for v in pv:
        if v[2] in BASE:
            d = [x for x in pv if x[2] == 'dir']
            return ('path', v[1], 'basex' if not d else 'derived' if any(x[1] == v[1] for x in d) else 'moved')
    for v in pv:
        if v[2] == 'dir':
            return v
    return ('path', pv[0][1], pv[0][2])


def concat(a, b):
    """a + b"""
    if b == ('const', ''):
        return a
    if a == ('const', ''):
        return b
    if a[0] == 'path':
        sym, k = a[1], a[2]
        same = b[0] == 'path' and b[1] == sym
        if k == 'stem' and same and b[2] == 'ext':
            return ('path', sym, 'same')
        if k in FULL:
            return ('path', sym, 'derived')
        if k == 'bstem' and same and b[2] == 'ext':
            return ('path', sym, 'base')
        if k in BASE:
            return ('path', sym, 'basex')
        if k == 'dir':
            if b[0] == 'path':
                if b[1] != sym and b[2] in BASE + FULL:
                    return ('path', b[1], 'moved')          # the name of one path in the folder of another
                return ('path', sym, 'derived' if b[2] in BASE + FULL else 'dir')
            return a
        return derive([v for v in (a, b) if v[0] == 'path'])
    if b[2] in FULL:
        return ('path', b[1], 'odd' if a[0] == 'const' else 'derived')
    if b[2] in BASE:
        return ('path', b[1], 'basex')
    return b


def joinpath(args):
    """os.path.join(args)"""
    r = args[0]
    for x in args[1:]:
        if x == ('const', ''):
            continue
        if r[0] == 'path' and r[2] == 'dir' and x[0] == 'path' and x[1] == r[1] and x[2] in BASE:
            r = ('path', r[1], {'base': 'same', 'bstem': 'stem', 'basex': 'derived'}[x[2]])
        elif r[0] == 'path' or x[0] == 'path':
            pv = [v for v in (r, x) if v[0] == 'path']
            if x[0] == 'path' and x[2] in BASE and r[0] == 'unk':
                r = ('path', x[1], 'derived')
            elif r[0] == x[0] == 'path' and r[2] == 'dir' and x[1] != r[1] and x[2] in FULL + BASE:
                r = ('path', x[1], 'moved')
            elif r[0] == 'path' and r[2] in FULL and x[0] != 'path':
                r = ('path', r[1], 'dir')
            else:
                r = derive(pv)
        elif r[0] == x[0] == 'const' and isinstance(r[1], str) and isinstance(x[1], str):
            r = ('const', r[1] + '/' + x[1])
        else:
            r = UNK
    return r


def splitpath(last, v):
    sym, k = v[1], v[2]
    if last == 'split':
        return (('path', sym, 'dir'), ('path', sym, base_kind(k)))
    if last == 'splitext':
        stem = {'same': 'stem', 'base': 'bstem'}.get(k, k)
        return (('path', sym, stem), ('path', sym, 'ext'))
    return (('path', sym, 'odd'), ('path', sym, 'odd'))


def base_kind(k):
    return {'same': 'base', 'stem': 'bstem', 'derived': 'basex'}.get(k, k)


def joinval(a, b):
    return a if a == b else UNK


def merge(states, limit=MAXSTATES):
    states = list(dict.fromkeys(states))
    if len(states) <= limit:
        return states

    def group(key):
        by = {}
        for s in states:
            k = key(s)
            if k in by:
                t = by[k]
                env = {n: joinval(v, s.env.get(n, UNK)) for n, v in t.env.items() if n in s.env}
                heap = {n: joinval(v, s.heap.get(n, UNK)) for n, v in t.heap.items()}
                for n in s.heap:
                    if n not in heap:
                        heap[n] = UNK
                by[k] = St(env, heap, t.facts.meet(s.facts), s.m)
            else:
                by[k] = s
        return list(by.values())
    important = lambda s: frozenset((k, v) for k, v in s.env.items() if v[0] not in ('unk', 'const'))
    out = group(lambda s: (s.m, frozenset(s.heap.items()), frozenset(s.env.items())))
    if len(out) <= limit:
        return out
    states = out
    out = group(lambda s: (s.m, frozenset((k, v) for k, v in s.heap.items() if v != UNK), important(s)))
    if len(out) > limit:
        states = out
        out = group(lambda s: (s.m, frozenset((k, v) for k, v in s.heap.items() if k[1] == 'filename')))
    if len(out) > limit:
        states = out
        out = group(lambda s: s.m)
    return out


class Frame:
    def __init__(self, fn, cls, selfval, depth, tries):
        self.fn, self.cls, self.selfval, self.depth, self.tries = fn, cls, selfval, depth, tries
        self.raised = []
        self.memo = {}
        self.limit = MAXSTATES if sum(isinstance(n, ast.stmt) for n in ast.walk(fn.node)) < 150 else 4


class Machine:
    """default: no events, everything unknown"""
    init = ()

    def event(self, st, ev, node, frame):
        """-> list of (state, value or None, exc or None); default keeps the state"""
        return [(st, None, None)]

    def stat(self, st, what, path):
        return UNK


class Interp:
    def __init__(self, proj, machine, relevant=None):
        self.p, self.mach = proj, machine
        self.relevant = relevant
        self.stack = []
        self.inlined = set()
        self.steps = 0
        self.budget = 900000
        self.exhausted = False
        self.attr_cache = {}
        self.memo = {}
        self.sites = {}
        self.slices = {}
        self.loop_min1 = False      # treat loops over unknown iterables as running at least once

    # ------------------------------------------------------------------ helpers
    def attr_class(self, cls, attr):
        """class of instances assigned to self.<attr> anywhere in the class (unique), or None"""
        k = (cls.key, attr)
        if k not in self.attr_cache:
            found = set()
            for c in self.p.mro(cls):
                for m in c.methods.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr and
                                                             isinstance(t.value, ast.Name) and m.params and t.value.id == m.params[0]
                                                             for t in n.targets):
                            v = n.value
                            r = None
                            if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)):
                                r = self.p.resolve_expr(v.func, m.mod, m)
                            if r and r[0] == 'class':
                                found.add(r[1].key)
            self.attr_cache[k] = found.pop() if len(found) == 1 else None
        return self.attr_cache[k]

    def truth(self, v):
        if v[0] == 'none':
            return False
        if v[0] == 'const':
            return bool(v[1])
        if v[0] == 'path' and v[2] in ('ext', 'dir'):
            return None             # a piece of a path may be empty
        if v[0] in ('path', 'class', 'func', 'bound', 'module', 'ext', 'handle', 'exc'):
            return True
        if v[0] in ('tuple', 'list'):
            return len(v[1]) > 0
        hook = getattr(self.mach, 'truth', None)
        return hook(v) if hook else None

    def exc_matches(self, exc, tname):
        """does exception value match handler type name? True/False/None (maybe)"""
        if exc == '?':
            return True if tname in ('Exception', 'BaseException') else None
        return self.exc_sub(exc, tname)

    def exc_bases(self, name):
        """all base names of an exception name (class key or builtin name)"""
        out = [name]
        c = self.p.classes.get(name)
        if c is not None:
            for k in self.p.mro(c):
                out.append(k.key)
                for b in k.node.bases:
                    d = dotted(b)
                    if d in EXC_NAMES:
                        out += self.exc_bases(d)
        else:
            import builtins
            t = getattr(builtins, name, None)
            if isinstance(t, type):
                out += [x.__name__ for x in t.__mro__]
        return out

    def exc_sub(self, exc, tname):
        if tname in ('IOError', 'EnvironmentError', 'WindowsError'):
            tname = 'OSError'
        if tname in self.exc_bases(exc):
            return True
        if exc.startswith('ext:') :
            return True if tname in ('Exception', 'BaseException') else None
        return False

    def exc_name(self, node, frame):
        """name of an exception type expression"""
        r = self.p.resolve_expr(node, frame.fn.mod, frame.fn)
        if r is None:
            return None
        if r[0] == 'class':
            return r[1].key
        if r[0] == 'ext':
            n = r[1].split('.')[-1]
            if n in ('IOError', 'EnvironmentError'):
                return 'OSError'
            return n if n in EXC_NAMES else 'ext:' + r[1]
        if r[0] == 'var':
            v = r[1].syms.get(r[2])
            if v and v[0] == 'var' and isinstance(v[1], ast.Name) and v[1].id in EXC_NAMES:
                return 'OSError' if v[1].id in ('IOError',) else v[1].id
            if r[2] in EXC_NAMES:
                return r[2]
        return None

    # ------------------------------------------------------------------ calls
    def call_function(self, fn, args, kwargs, st, frame, selfval=None, cls=None, node=None, star=False):
        """inline a package function; returns [(st, value)], raises are appended to frame.raised.
        args: list of values (self included for methods), kwargs: dict"""
        if len(self.stack) >= MAXDEPTH or sum(1 for f in self.stack if f.fn is fn) >= 2:
            return [(st, UNK)]
        if any(d not in ('staticmethod', 'classmethod', 'property') and not d.endswith('.setter') for d in fn.decorators):
            return [(st, UNK)]
        env = {}
        ps = list(fn.params)
        for i, p in enumerate(ps):
            if i < len(args):
                env[p] = args[i]
            elif p in kwargs:
                env[p] = kwargs[p]
            elif star:
                env[p] = UNK
            elif p in fn.defaults:
                env[p] = self.const_default(fn.defaults[p])
            else:
                env[p] = UNK
        for p in fn.kwonly:
            env[p] = kwargs.get(p, self.const_default(fn.defaults[p]) if p in fn.defaults else UNK)
        if fn.vararg:
            env[fn.vararg] = ('tuple', tuple(args[len(ps):])) if not star else UNK
        if fn.kwarg:
            rest = {k: v for k, v in kwargs.items() if k not in ps and k not in fn.kwonly}
            env[fn.kwarg] = ('kw', tuple(sorted(rest.items()))) if not star or rest else kwargs.get('**', UNK)
            if '**' in kwargs:
                env[fn.kwarg] = kwargs['**']
        if fn.parent is not None:
            for k, v in st.env.items():              # closure: sees the caller's variables when called from its parent
                env.setdefault('^' + k, v)
        fr = Frame(fn, cls, selfval, len(self.stack), frame.tries if frame else 0)
        self.stack.append(fr)
        self.inlined.add(fn.key)
        outer_env, outer_facts = st.env, st.facts
        inner = St(env, st.heap, self.attr_facts(st.facts), st.m)
        mk = (fn.key, cls.key if cls else None, inner, fr.tries > 0, tuple(sorted(f.fn.key for f in self.stack)), len(self.stack))
        res = self.memo.get(mk)
        if res is None:
            res = self.block(fn.node.body, [inner], fr)
            if not self.exhausted:
                self.memo[mk] = res
        self.stack.pop()
        out = []

        def back(s):
            return St(outer_env, s.heap, self.back_facts(outer_facts, s.facts, st, s), s.m)
        for s in res['next']:
            out.append((back(s), NONE))
        for s, v in res['return']:
            out.append((back(s), v))
        for s, e in res['raise']:
            if frame is not None:
                frame.raised.append((back(s), e))
        dd = {}
        for s, v in out:
            dd.setdefault((s, v), None)
        return list(dd)

    def attr_facts(self, facts):
        return _Facts()

    def back_facts(self, outer, inner, st0, st1):
        # facts about attributes may have been invalidated by the callee
        return outer

    def const_default(self, d):
        if isinstance(d, ast.Constant):
            return NONE if d.value is None else ('const', d.value)
        return UNK

    def instantiate(self, c, args, kwargs, st, frame, node, star=False):
        init = self.p.method(c, '__init__')
        oid = 'o@%s:%d:%d' % (frame.fn.key, node.lineno, node.col_offset)
        obj = ('obj', c.key, oid)
        heap = {k: v for k, v in st.heap.items() if k[0] != oid}
        st = St(st.env, heap, st.facts, st.m)
        if any(b in EXC_NAMES for b in self.exc_bases(c.key)):
            return [(st, ('exc', c.key))]
        if init is None:
            return [(st, obj)]
        if not self.is_relevant(init, c, args, kwargs):
            return [(st, obj)]
        return [(s, obj) for s, _ in self.call_function(init, [obj] + args, kwargs, st, frame, obj, c, node, star)]

    def is_relevant(self, fn, cls, args, kwargs):
        if any(v[0] in ('path', 'handle', 'stat', 'size') or self.mach_value(v) for v in list(args) + list(kwargs.values())):
            return True
        return self.relevant is None or self.relevant(fn, cls)

    def mach_value(self, v):
        return v[0] in getattr(self.mach, 'values', ())

    def getattr(self, v, attr, st, frame, node):
        """[(st, value)]"""
        hook = getattr(self.mach, 'getattr', None)
        if hook is not None:
            r = hook(self, v, attr, st, frame, node)
            if r is not None:
                return r
        k = v[0]
        if k == 'obj':
            oid = v[2]
            if (oid, attr) in st.heap:
                return [(st, st.heap[(oid, attr)])]
            c = self.p.classes[v[1]]
            m = self.p.method(c, attr)
            if m is not None:
                if m.is_property:
                    if not self.is_relevant(m, c, [], {}):
                        return [(st, UNK)]
                    return self.call_function(m, [v], {}, st, frame, v, c, node)
                if m.is_static:
                    return [(st, ('func', m.key))]
                return [(st, ('bound', m.key, ('class', v[1]) if m.is_classmethod else v))]
            a = self.p.class_attr(c, attr)
            if a is not None:
                n = a[1]
                if isinstance(n, ast.Constant):
                    return [(st, self.const_default(n))]
                if isinstance(n, (ast.Name, ast.Attribute)):
                    r = self.p.resolve_expr(n, a[0].mod)
                    if r and r[0] == 'ext':
                        return [(st, ('ext', r[1]))]
                    if r and r[0] == 'func':
                        return [(st, ('bound', r[1].key, v))]
                return [(st, UNK)]
            ac = self.attr_class(c, attr)
            if ac is not None:
                return [(st, ('obj', ac, oid + '.' + attr))]
            return [(st, UNK)]
        if k == 'module':
            r = self.p.lookup_module(v[1], attr)
            return [(st, self.from_resolved(r))]
        if k == 'ext':
            return [(st, ('ext', v[1] + '.' + attr))]
        if k == 'class':
            c = self.p.classes[v[1]]
            m = self.p.method(c, attr)
            if m is not None:
                return [(st, ('bound', m.key, v) if m.is_classmethod else ('func', m.key))]
            a = self.p.class_attr(c, attr)
            return [(st, self.const_default(a[1]) if a else UNK)]
        if k == 'stat':
            if attr == 'st_size':
                return [(st, ('size', v[1]))]
            return [(st, UNK)]
        if k == 'super':
            c = self.p.classes[v[2][1]]
            m = self.p.method(c, attr, after=self.p.classes[v[1]])
            if m is None:
                return [(st, ('meth', UNK, attr))]
            if m.is_property:
                return self.call_function(m, [v[2]], {}, st, frame, v[2], c, node)
            return [(st, ('func', m.key) if m.is_static else ('bound', m.key, v[2]))]
        if k == 'path' and attr in ('name', 'parent', 'suffix', 'stem', 'parts', 'suffixes'):
            pk = {'parent': 'dir', 'name': base_kind(v[2]), 'stem': 'bstem' if v[2] == 'same' else 'basex', 'suffix': 'ext'}
            return [(st, ('path', v[1], pk[attr]) if attr in pk else derive([v]))]
        if k == 'exc' and attr in ('args', 'message'):
            return [(st, UNK)]
        return [(st, ('meth', v, attr))]

    def from_resolved(self, r):
        if r is None:
            return UNK
        if r[0] == 'class':
            return ('class', r[1].key)
        if r[0] == 'func':
            return ('func', r[1].key)
        if r[0] == 'module':
            return ('module', r[1].name)
        if r[0] == 'ext':
            return ('ext', r[1])
        if r[0] == 'var':
            s = r[1].syms.get(r[2])
            if r[2] in self.globals_of(r[1]):
                return ('gvar', r[1].name, r[2])
            if s and s[0] == 'var' and isinstance(s[1], ast.Constant):
                return self.const_default(s[1])
            if s and s[0] == 'var' and isinstance(s[1], (ast.Name, ast.Attribute)):
                q = self.p.resolve_expr(s[1], r[1])
                if q is not None and q[0] != 'var':
                    return self.from_resolved(q)
            return ('gvar', r[1].name, r[2])
        return UNK

    def globals_of(self, mod):
        """module variables rebound by functions (global statements)"""
        k = ('globals', mod.name)
        if k not in self.attr_cache:
            self.attr_cache[k] = {x for n in ast.walk(mod.tree) if isinstance(n, ast.Global) for x in n.names}
        return self.attr_cache[k]

    def call(self, fv, args, kwargs, st, frame, node, star=False):
        """[(st, value)]"""
        hook = getattr(self.mach, 'call', None)
        if hook is not None:
            r = hook(self, fv, args, kwargs, st, frame, node, star)
            if r is not None:
                return r
        k = fv[0]
        if k == 'func':
            fn = self.p.funcs[fv[1]]
            cls = selfval = None
            if fn.is_method and not fn.is_static and not fn.is_classmethod and args and args[0][0] == 'obj':
                selfval = args[0]
                cls = self.p.classes[selfval[1]]
            if fn.parent is not None:                 # nested function keeps the context of its parent
                selfval, cls = frame.selfval, frame.cls
            if not self.is_relevant(fn, cls, args, kwargs):
                return self.maybe_raise(st, frame, node)
            return self.call_function(fn, args, kwargs, st, frame, selfval, cls, node, star)
        if k == 'bound':
            fn = self.p.funcs[fv[1]]
            c = self.p.classes[fv[2][1]] if fv[2][0] == 'obj' else None
            if not self.is_relevant(fn, c, args, kwargs):
                return self.maybe_raise(st, frame, node)
            return self.call_function(fn, [fv[2]] + args, kwargs, st, frame, fv[2], c, node, star)
        if k == 'class':
            return self.instantiate(self.p.classes[fv[1]], args, kwargs, st, frame, node, star)
        if k == 'ext':
            return self.ext_call(fv[1], args, kwargs, st, frame, node)
        if k == 'meth':
            return self.method_call(fv[1], fv[2], args, kwargs, st, frame, node)
        vals = list(args) + list(kwargs.values())
        return self.unknown_call(vals, st, frame, node, 'call')

    def maybe_raise(self, st, frame, node):
        if frame.tries:
            frame.raised.append((st, '?'))
        return [(st, UNK)]

    def fire(self, st, ev, node, frame):
        """send an event to the machine -> [(st, value)] (raises recorded)"""
        out = []
        for s, v, e in self.mach.event(st, ev, node, frame):
            if e is not None:
                frame.raised.append((s, e))
            else:
                out.append((s, v))
        return out

    def unknown_call(self, vals, st, frame, node, name):
        """an unresolved or external function gets paths or handles: it may use them"""
        sts = [st]
        for v in vals:
            if v[0] == 'path' and v[2] == 'same' or v[0] == 'path' and name == 'reader':
                sts = [s2 for s in sts for s2, _ in self.fire(s, ('access', v, name), node, frame)]
            elif v[0] == 'path':
                sts = [s2 for s in sts for s2, _ in self.fire(s, ('passed', v, name), node, frame)]
            elif v[0] == 'handle':
                sts = [s2 for s in sts for s2, _ in self.fire(s, ('use', v, name), node, frame)]
        return [(s, UNK) for s in sts]

    def mode_of(self, args, kwargs, pos=1):
        m = kwargs.get('mode')
        if m is None and len(args) > pos:
            m = args[pos]
        if m is None:
            return 'r'
        if m[0] == 'const' and isinstance(m[1], str):
            return m[1]
        return '?'

    def ext_call(self, name, args, kwargs, st, frame, node):
        vals = list(args) + list(kwargs.values())
        if name in OPEN:
            path = args[0] if args else kwargs.get('file', UNK)
            mode = self.mode_of(args, kwargs)
            self.codec_of(name, path, mode, args, kwargs, frame, node)
            return self.do_open(path, mode, st, frame, node)
        last = name.split('.')[-1]
        if name in EXC_NAMES or name == 'type':
            if name in EXC_NAMES:
                return [(st, ('exc', 'OSError' if name in ('IOError', 'EnvironmentError') else name))]
            return [(st, UNK)]
        if name == 'super':
            if frame.fn.cls is not None and frame.selfval is not None:
                g = frame.fn
                while g.parent is not None:
                    g = g.parent
                ck = args[0][1] if args and args[0][0] == 'class' else g.cls.key
                return [(st, ('super', ck, frame.selfval))]
            return [(st, UNK)]
        if name in ('os.path.expandvars', 'os.path.normcase', 'os.path.expanduser') and args and args[0][0] == 'path' and args[0][2] in FULL:
            return [(st, ('path', args[0][1], 'edited'))]
        if name in ('os.getcwd', 'os.getcwdu', 'pathlib.Path.cwd', 'tempfile.gettempdir', 'tempfile.mkdtemp') and not args:
            return [(st, ('const', '<%s>' % ('working directory' if 'cwd' in name else 'temporary directory')))]
        if name in SAME_FUNCS:
            if args and args[0][0] == 'path':
                if last in ('Path', 'PurePath') and len(args) > 1:
                    return [(st, derive([v for v in args if v[0] == 'path']))]
                if last in ('abspath', 'realpath', 'normpath') and getattr(self.mach, 'respelled', False) and args[0][2] == 'same':
                    return [(st, ('path', args[0][1], 'derived'))]       # the same file, but not the path that was given
                return [(st, args[0])]
            if args and args[0] == NONE and name != 'str':
                return [(st, UNK)]
            return [(st, UNK)]
        if name in STAT_FUNCS:
            what = STAT_FUNCS[name]
            p = args[0] if args else UNK
            return self.do_stat(what, p, st, frame, node)
        if name in ('re.match', 're.search', 're.findall', 're.fullmatch', 're.finditer'):
            return [(st, UNK)]
        if name in PURE_PATH or name.startswith('os.path.'):
            pv = [v for v in vals if v[0] == 'path']
            if last in ('splitext', 'split', 'splitdrive') and pv:
                return [(st, ('tuple', splitpath(last, pv[0])))]
            if last in ('relpath',) and args and args[0][0] == 'path':
                return [(st, args[0])]
            if last == 'join' and args and not name.startswith('re.'):
                return [(st, joinpath(args))]
            if pv and last == 'basename':
                return [(st, ('path', pv[0][1], base_kind(pv[0][2])))]
            return [(st, ('path', pv[0][1], 'dir') if pv and last == 'dirname' else derive(pv))]
        if name in ('len', 'int', 'float') and args:
            a = args[0]
            if a[0] == 'size':
                return [(st, a)]
            if a[0] == 'const' and name == 'len':
                try:
                    return [(st, ('const', len(a[1])))]
                except TypeError:
                    pass
            if a[0] in ('tuple', 'list') and name == 'len':
                return [(st, ('const', len(a[1])))]
        if name == 'bool' and args:
            t = self.truth(args[0])
            return [(st, UNK if t is None else ('const', t))]
        if name == 'getattr' and len(args) >= 2 and args[1][0] == 'const':
            r = self.getattr(args[0], args[1][1], st, frame, node)
            return r
        if name == 'setattr' and len(args) == 3 and args[0][0] == 'obj' and args[1][0] == 'const':
            return [(st.setattr(args[0][2], args[1][1], args[2]), NONE)]
        if name == 'print' and kwargs.get('file', UNK)[0] == 'handle':
            return [(s, NONE) for s, _ in self.fire(st, ('content', kwargs['file'], 'print'), node, frame)]
        if name in PURE_ANY:
            if name in ('list', 'tuple', 'sorted', 'enumerate', 'zip', 'map', 'iter', 'reversed'):
                for v in args:
                    if v[0] == 'handle':
                        return [(s, UNK) for s, _ in self.fire(st, ('use', v, name), node, frame)]
                if name in ('tuple', 'list', 'iter') and args and args[0][0] in ('tuple', 'list'):
                    return [(st, args[0])]
                if name == 'enumerate' and len(args) == 1 and not kwargs and args[0][0] in ('tuple', 'list'):
                    return [(st, ('tuple', tuple(('tuple', (('const', i), v)) for i, v in enumerate(args[0][1]))))]
                if name == 'reversed' and args and args[0][0] in ('tuple', 'list'):
                    return [(st, ('tuple', tuple(reversed(args[0][1]))))]
                if name == 'zip' and args and all(v[0] in ('tuple', 'list') for v in args):
                    return [(st, ('tuple', tuple(('tuple', x) for x in zip(*[v[1] for v in args]))))]
                pv = [v for v in args if v[0] == 'path']
                if pv:
                    return [(st, derive(pv))]
            if name == 'range' and args and all(v[0] == 'const' and isinstance(v[1], int) for v in args):
                try:
                    r = range(*[v[1] for v in args])
                    if len(r) <= 4:
                        return [(st, ('tuple', tuple(('const', i) for i in r)))]
                except (TypeError, ValueError):
                    pass
            return [(st, UNK)]
        if name in DELETE_FUNCS:
            return [(s, UNK) for s, _ in self.fire(st, ('delete', tuple(vals), name), node, frame)]
        if name in COPY_FUNCS:
            return [(s, UNK) for s, _ in self.fire(st, ('writepath', args[1] if len(args) > 1 else UNK, name, 'w'), node, frame)]
        if name in MKDIR_FUNCS:
            return [(s, UNK) for s, _ in self.fire(st, ('mkdir', args[0] if args else UNK, name), node, frame)]
        if name in WRITE_FUNCS:
            p = args[0] if args else next(iter(kwargs.values()), UNK)
            return self.write_to(p, name, st, frame, node, kwargs)
        if last in ('dump',) and len(args) >= 2:
            return self.write_to(args[1], name, st, frame, node)
        if name in ('sys.exit', 'exit', 'quit', 'os._exit'):
            frame.raised.append((st, 'SystemExit'))
            return []
        if name == 'glob.escape' and args and args[0][0] == 'path':
            return [(st, ('path', args[0][1], 'pat'))]
        if name in ('glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir', 'os.walk'):
            pv = [v for v in vals if v[0] == 'path']
            r = derive([('path', v[1], 'derived') if v[2] == 'pat' else v for v in pv])
            if last in ('glob', 'iglob') and any(v[2] != 'pat' for v in pv) and getattr(self.mach, 'patterns', False):
                return [(s, r) for s, _ in self.fire(st, ('pattern', next(v for v in pv if v[2] != 'pat'), name), node, frame)]
            return [(st, r)]
        return self.unknown_call(vals, st, frame, node, name)

    def codec_of(self, name, path, mode, args, kwargs, frame, node):
        """report encoding and error handler of an opened file to a machine that asks for them"""
        hook = getattr(self.mach, 'opened', None)
        if hook is None:
            return
        pe, pr = {'codecs.open': (2, 3), 'write_text': (1, 2), 'read_text': (0, 1)}.get(name, (3, 4))
        enc = kwargs.get('encoding', args[pe] if len(args) > pe else NONE)
        err = kwargs.get('errors', args[pr] if len(args) > pr else NONE)
        hook(path, mode, enc, err, node, frame)

    def write_to(self, p, name, st, frame, node, kwargs=None):
        if p[0] == 'handle':
            return [(s, UNK) for s, _ in self.fire(st, ('content', p, name), node, frame)]
        mode = 'w'
        if kwargs and 'mode' in kwargs:
            mode = self.mode_of([], kwargs)
        return [(s, UNK) for s, _ in self.fire(st, ('writepath', p, name, mode), node, frame)]

    def do_open(self, path, mode, st, frame, node):
        out = []
        for s, v in self.fire(st, ('open', path, mode), node, frame):
            out.append((s, v if v is not None else ('handle', path, mode, id(node) % 1000003)))
        return out

    def do_stat(self, what, p, st, frame, node):
        out = []
        for s, v in self.fire(st, ('stat', p, what), node, frame):
            if v is not None:
                out.append((s, v))
            elif what == 'stat':
                out.append((s, ('stat', p)))
            elif what == 'size':
                out.append((s, ('size', p)))
            else:
                out.append((s, self.mach.stat(s, what, p)))
        return out

    def method_call(self, recv, name, args, kwargs, st, frame, node):
        vals = list(args) + list(kwargs.values())
        if recv[0] == 'list' and name not in ('index', 'count', 'copy'):
            st = st.forget(recv)
        if recv[0] == 'handle':
            if name in ('write', 'writelines'):
                return [(s, UNK) for s, _ in self.fire(st, ('content', recv, name), node, frame)]
            if name in ('read', 'readline', 'readlines', '__next__', 'readinto', 'peek'):
                return [(s, v if v is not None else UNK) for s, v in self.fire(st, ('consume', recv, name), node, frame)]
            if name == 'close':
                return [(s, NONE) for s, _ in self.fire(st, ('close', recv, name), node, frame)]
            if name == 'truncate':
                return [(s, UNK) for s, _ in self.fire(st, ('content', recv, name), node, frame)]
            if name in ('seek', 'tell', 'flush', 'fileno', 'readable', 'writable', 'isatty'):
                return [(st, UNK)]
            return [(s, UNK) for s, _ in self.fire(st, ('use', recv, name), node, frame)]
        if recv[0] == 'path':
            if name in ('exists', 'is_file', 'is_dir', 'stat'):
                return self.do_stat({'exists': 'exists', 'is_file': 'isfile', 'is_dir': 'isdir', 'stat': 'stat'}[name], recv, st, frame, node)
            if name == 'open':
                mode = self.mode_of([recv] + args, kwargs)
                self.codec_of('open', recv, mode, [recv] + list(args), kwargs, frame, node)
                return self.do_open(recv, mode, st, frame, node)
            if name in ('write_text', 'read_text'):
                self.codec_of(name, recv, 'w' if name == 'write_text' else 'r', list(args), kwargs, frame, node)
            if name in ('write_text', 'write_bytes'):
                return [(s, UNK) for s, _ in self.fire(st, ('writepath', recv, name, 'w'), node, frame)]
            if name in ('read_text', 'read_bytes'):
                return [(s, UNK) for s, _ in self.fire(st, ('access', recv, name), node, frame)]
            if name == 'mkdir':
                return [(s, UNK) for s, _ in self.fire(st, ('mkdir', recv, name), node, frame)]
            if name in DELETE_METHODS and name != 'replace':
                return [(s, UNK) for s, _ in self.fire(st, ('delete', (recv,), name), node, frame)]
            if name in ('resolve', 'absolute', 'expanduser', '__str__', '__fspath__'):
                return [(st, recv)]
            if name in ('startswith', 'endswith', 'find', 'rfind', 'count', 'index', 'isdigit'):
                return [(st, UNK)]
            if name in ('lower', 'upper', 'casefold', 'title', 'swapcase', 'capitalize'):
                return [(st, ('path', recv[1], 'edited' if recv[2] in FULL else recv[2]))]
            if name in ('split', 'rsplit', 'partition', 'rpartition', 'splitlines'):
                return [(st, ('path', recv[1], 'odd' if recv[2] in FULL else recv[2]))]
            if name == 'joinpath':
                return [(st, joinpath([recv] + list(args)))]
            if name == 'replace' and len(vals) >= 2 and recv[2] in FULL:
                # text replaced anywhere in the path, its folder included (unless only the separators are unified)
                seps = all(v[0] == 'const' and isinstance(v[1], str) and v[1] in ('/', '\\', '//', '\\\\') for v in vals[:2])
                return [(st, recv if seps else ('path', recv[1], 'edited'))]
            return [(st, derive([recv] + [v for v in vals if v[0] == 'path']))]
        if recv[0] == 'const' and isinstance(recv[1], str):
            if name in ('format', 'join'):
                pv = [v for v in vals if v[0] == 'path']
                for v in vals:
                    if v[0] == 'tuple':
                        pv += [x for x in v[1] if x[0] == 'path']
                return [(st, derive(pv))]
            if name in ('lower', 'upper', 'strip', 'rstrip', 'lstrip') and not vals:
                return [(st, ('const', getattr(recv[1], name)()))]
            return [(st, UNK)]
        if recv[0] == 'obj':
            if name in ('keys', 'items', 'values', 'get', 'copy', 'pop', 'clear', 'update', 'setdefault', '__init__', '__setitem__'):
                return [(st, UNK)]
        if name in WRITE_METHODS and (vals or name not in ('dump',)):
            tgt = None
            if args:
                tgt = args[0]
            for kname in ('path_or_buf', 'path', 'fid', 'fname', 'buf', 'excel_writer', 'fp'):
                if kname in kwargs:
                    tgt = kwargs[kname]
            if tgt is not None:
                if tgt[0] in ('path', 'handle', 'unk', 'const'):
                    if tgt[0] == 'unk':
                        return [(s, UNK) for s, _ in self.fire(st, ('writeobj', tgt, name), node, frame)]
                    return self.write_to(tgt, name, st, frame, node, kwargs)
            return [(st, UNK)]
        return self.unknown_call(vals, st, frame, node, name)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        """[(state, value)]"""
        self.steps += 1
        if self.steps > self.budget:
            self.exhausted = True
            return [(st, UNK)]
        m = getattr(self, 'ev_' + e.__class__.__name__, None)
        r = m(e, st, fr) if m is not None else self.ev_children(e, st, fr)
        hook = getattr(self.mach, 'expr', None)
        return r if hook is None else hook(self, e, r, st, fr)

    def ev_children(self, e, st, fr):
        sts = [st]
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                sts = merge([s2 for s in sts for s2, _ in self.ev(ch, s, fr)])
            elif isinstance(ch, (ast.keyword, ast.FormattedValue)):
                sts = merge([s2 for s in sts for s2, _ in self.ev(ch.value, s, fr)])
        return [(s, UNK) for s in sts]

    def ev_Constant(self, e, st, fr):
        return [(st, NONE if e.value is None else ('const', e.value))]

    def ev_Name(self, e, st, fr):
        if e.id in st.env:
            return [(st, st.env[e.id])]
        if '^' + e.id in st.env:
            return [(st, st.env['^' + e.id])]
        r = self.p.func_scope(fr.fn).resolve(e.id)
        if r is not None:
            if r[0] == 'local':
                return [(st, UNK)]
            return self.gvar(self.from_resolved(r), st)
        r = self.p.resolve_sym(fr.fn.mod, e.id)
        return self.gvar(self.from_resolved(r), st)

    def gvar(self, v, st):
        hook = getattr(self.mach, 'gvar', None)
        if v[0] == 'gvar' and hook is not None:
            return [(st, x) for x in hook(self, v)]
        return [(st, v)]

    def ev_Attribute(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            if v == UNK and e.attr == 'filename' and isinstance(e.value, ast.Name) and e.value.id in fr.fn.params and \
                    getattr(self.mach, 'entry', None) is fr.fn:
                out.append((s, ('path', 'S', 'same')))       # the remembered path of an object handed in
                continue
            out += self.getattr(v, e.attr, s, fr, e)
        return out

    def ev_seq(self, exprs, st, fr):
        """[(st, [values])]"""
        cur = [(st, [])]
        for x in exprs:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(x, s, fr):
                    nxt.append((s2, vs + [v]))
            cur = nxt if len(nxt) <= 4 * MAXSTATES else nxt[:4 * MAXSTATES]
        return cur

    def ev_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.ev_children(e, st, fr)
        return [(s, ('tuple', tuple(v))) for s, v in self.ev_seq(e.elts, st, fr)]

    def ev_List(self, e, st, fr):
        if e.elts and not any(isinstance(x, ast.Starred) for x in e.elts) and len(e.elts) < 12:
            return [(s, ('list', tuple(v))) for s, v in self.ev_seq(e.elts, st, fr)]
        if not e.elts:
            return [(st, ('list', ()))]
        return self.ev_children(e, st, fr)

    def ev_Lambda(self, e, st, fr):
        return [(st, UNK)]

    def ev_NamedExpr(self, e, st, fr):
        return [(s.setvar(e.target.id, v), v) for s, v in self.ev(e.value, st, fr)]

    def exact_comp(self, e, st, fr):
        """list comprehension over a known short sequence"""
        g = e.generators[0]
        its = self.ev(g.iter, st, fr)
        lim = getattr(self.mach, 'exact_len', 4)
        if not its or any(v[0] not in ('tuple', 'list') or not (len(v[1]) or lim > 4) or len(v[1]) > lim for _, v in its):
            return None
        names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        out = []
        for s, v in its:
            cur = [(s, ())]
            for x in v[1]:
                nxt = []
                for s1, acc in cur:
                    for s2 in self.assign(g.target, x, s1, fr):
                        conds = [(s2, True)]
                        for c in g.ifs:
                            conds = [(s4, t4) for s3, t in conds for s4, t4 in (self.cond(c, s3, fr) if t else [(s3, False)])]
                        for s3, t in conds:
                            if not t:
                                nxt.append((s3, acc))
                            else:
                                nxt += [(s4, acc + (y,)) for s4, y in self.ev(e.elt, s3, fr)]
                cur = list(dict.fromkeys(nxt))[:256]
            for s1, acc in cur:
                env = dict(s1.env)
                for n in names:
                    if n in st.env:
                        env[n] = st.env[n]
                    else:
                        env.pop(n, None)
                out.append((St(env, s1.heap, s1.facts, s1.m), ('list', acc)))
        return out

    def _comp(self, e, st, fr):
        if isinstance(e, (ast.ListComp, ast.GeneratorExp) if hasattr(self.mach, 'exact_len') else ast.ListComp) and len(e.generators) == 1:
            r = self.exact_comp(e, st, fr)
            if r is not None:
                return r
        # evaluate iterables and bodies once with targets unknown (effects are seen, values are not)
        sts = [st]
        bound = []
        for g in e.generators:
            nxt = []
            for s in sts:
                for s2, v in self.ev(g.iter, s, fr):
                    if v[0] == 'handle':
                        nxt += [x for x, _ in self.fire(s2, ('consume', v, 'iter'), e, fr)]
                    else:
                        nxt.append(s2)
                    vv = v
            sts = merge(nxt)
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    bound.append(n.id)
                    val = UNK
                    if sts and vv[0] == 'path':
                        val = derive([vv])
                    sts = [s.setvar(n.id, val) for s in sts]
            for c in g.ifs:
                sts = merge([s2 for s in sts for s2, _ in self.ev(c, s, fr)])
        elts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
        for x in elts:
            sts = merge([s2 for s in sts for s2, _ in self.ev(x, s, fr)])
        out = []
        for s in sts:
            env = dict(s.env)
            for n in bound:
                if n in st.env:
                    env[n] = st.env[n]
                else:
                    env.pop(n, None)
            out.append((St(env, s.heap, s.facts, s.m), UNK))
        return out
    ev_ListComp = ev_SetComp = ev_DictComp = ev_GeneratorExp = _comp

    def ev_IfExp(self, e, st, fr):
        out = []
        for s, t in self.cond(e.test, st, fr):
            out += self.ev(e.body if t else e.orelse, s, fr)
        return out

    def ev_BoolOp(self, e, st, fr):
        # value semantics (x or y)
        cur = [(st, None)]
        out = []
        for i, x in enumerate(e.values):
            nxt = []
            for s, _ in cur:
                for s2, v in self.ev(x, s, fr):
                    t = self.truth(v)
                    if i == len(e.values) - 1:
                        out.append((s2, v))
                    elif t is None:
                        out.append((s2, v))
                        nxt.append((s2, v))
                    elif t == isinstance(e.op, ast.Or):
                        out.append((s2, v))
                    else:
                        nxt.append((s2, v))
            cur = nxt
        return out

    def ev_UnaryOp(self, e, st, fr):
        out = []
        for s, v in self.ev(e.operand, st, fr):
            if isinstance(e.op, ast.Not):
                t = self.truth(v)
                out.append((s, UNK if t is None else ('const', not t)))
            elif isinstance(e.op, ast.USub) and v[0] == 'const' and isinstance(v[1], (int, float)):
                out.append((s, ('const', -v[1])))
            else:
                out.append((s, UNK))
        return out

    def ev_BinOp(self, e, st, fr):
        out = []
        for s, (a, b) in self.ev_seq([e.left, e.right], st, fr):
            pv = [v for v in (a, b) if v[0] == 'path']
            for v in (a, b):
                if v[0] == 'tuple':
                    pv += [x for x in v[1] if x[0] == 'path']
            hook = getattr(self.mach, 'binop', None)
            r = hook(self, e.op, a, b, s) if hook else None
            if r is not None:
                out.append((s, r))
            elif pv and isinstance(e.op, (ast.Add, ast.Mod, ast.Div)):
                if isinstance(e.op, ast.Add) and 'path' in (a[0], b[0]):
                    out.append((s, concat(a, b)))
                elif isinstance(e.op, ast.Div) and a[0] == 'path':
                    out.append((s, joinpath([a, b])))
                else:
                    out.append((s, derive(pv)))
            elif a[0] == 'const' and b[0] == 'const':
                try:
                    r = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y}[type(e.op)](a[1], b[1])
                    out.append((s, ('const', r)))
                except Exception:
                    out.append((s, UNK))
            else:
                out.append((s, UNK))
        return out

    def ev_JoinedStr(self, e, st, fr):
        vals = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
        out = []
        for s, vs in self.ev_seq(vals, st, fr):
            pv = [v for v in vs if v[0] == 'path']
            if len(e.values) == 1 and pv:
                out.append((s, pv[0]))
            else:
                out.append((s, derive(pv)))
        return out

    def ev_Compare(self, e, st, fr):
        out = []
        for s, vs in self.ev_seq([e.left] + e.comparators, st, fr):
            r = None
            if len(e.ops) == 1:
                hook = getattr(self.mach, 'compare_fork', None)
                q = hook(self, e.ops[0], vs[0], vs[1], s, fr) if hook else None
                if q is not None:
                    out += q
                    continue
                r = self.compare(e.ops[0], vs[0], vs[1], s, fr)
            out.append((s, UNK if r is None else ('const', r)))
        return out

    def compare(self, op, a, b, st, fr):
        hook = getattr(self.mach, 'compare', None)
        if hook is not None:
            r = hook(self, op, a, b, st)
            if r is not None:
                return r
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and NONE in (a, b):
            o = b if a == NONE else a
            eq = isinstance(op, (ast.Is, ast.Eq))
            if o == NONE:
                return eq
            if o[0] in ('path', 'const', 'obj', 'handle', 'size', 'stat', 'tuple', 'list', 'class', 'func', 'bound', 'fmt', 'rdobj'):
                return not eq
            return None
        if a[0] == 'const' and b[0] == 'const':
            try:
                return {ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y, ast.Lt: lambda x, y: x < y,
                        ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y,
                        ast.In: lambda x, y: x in y, ast.NotIn: lambda x, y: x not in y,
                        ast.Is: lambda x, y: x is y, ast.IsNot: lambda x, y: x is not y}[type(op)](a[1], b[1])
            except Exception:
                return None
        if isinstance(op, (ast.Eq, ast.NotEq)) and a[0] == 'path' and b[0] == 'path' and a[2] == b[2] == 'same':
            if a[1] == b[1]:
                return isinstance(op, ast.Eq)
            return None
        if isinstance(op, (ast.Eq, ast.NotEq)) and a[0] == 'path' and a[2] == 'same' and b == ('const', ''):
            return isinstance(op, ast.NotEq)
        if isinstance(op, (ast.In, ast.NotIn)) and b[0] in ('list', 'tuple') and a[0] in ('none', 'const') and \
                all(x[0] in ('none', 'const') for x in b[1]):
            return (a in b[1]) == isinstance(op, ast.In)
        return None

    def ev_Subscript(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            hook = getattr(self.mach, 'subscript', None)
            for s2, k in self.ev(e.slice, s, fr):
                r = hook(self, v, k, s2, fr, e) if hook else None
                if r is not None:
                    out += r
                elif self.item(e.value, v, k, s2) is not None:
                    out.append((s2, self.item(e.value, v, k, s2)))
                elif v[0] in ('tuple', 'list') and k[0] == 'const' and isinstance(k[1], int) and -len(v[1]) <= k[1] < len(v[1]):
                    out.append((s2, v[1][k[1]]))
                elif v[0] == 'path':
                    out.append((s2, derive([v])))
                else:
                    out.append((s2, UNK))
        return out

    # paths kept as items of dictionaries (of the object, of its attributes, of local names)
    def slot(self, node, base, k, st):
        if not getattr(self.mach, 'items', False) or k[0] != 'const':
            return None
        if base[0] == 'obj':
            return 'heap', (base[2], '[%r]' % (k[1],))
        if isinstance(node, ast.Name):
            return 'env', '%s[%r]' % (node.id, k[1])
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
            o = st.env.get(node.value.id, UNK)
            if o[0] == 'obj':
                return 'heap', (o[2], '%s[%r]' % (node.attr, k[1]))
        return None

    def item(self, node, base, k, st):
        w = self.slot(node, base, k, st)
        return (st.heap if w[0] == 'heap' else st.env).get(w[1]) if w else None

    def setitem(self, node, base, k, v, st):
        w = self.slot(node, base, k, st)
        if w is None:
            return st
        d = dict(st.heap if w[0] == 'heap' else st.env)
        if v[0] == 'path':
            d[w[1]] = v
        elif w[1] in d:
            d.pop(w[1])
        else:
            return st
        return St(st.env, d, st.facts, st.m) if w[0] == 'heap' else St(d, st.heap, st.facts, st.m)

    def dropitems(self, t, st):
        """a name or attribute is bound anew"""
        if isinstance(t, ast.Name):
            ks = [k for k in st.env if isinstance(k, str) and k.startswith(t.id + '[')]
            return St({k: v for k, v in st.env.items() if k not in ks}, st.heap, st.facts, st.m) if ks else st
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            o = st.env.get(t.value.id, UNK)
            ks = [k for k in st.heap if o[0] == 'obj' and k[0] == o[2] and k[1].startswith(t.attr + '[')]
            return St(st.env, {k: v for k, v in st.heap.items() if k not in ks}, st.facts, st.m) if ks else st
        return st

    def dictitems(self, t, e, st, fr):
        """t = {'k': path, ...} or dict(k=path, ...)"""
        if isinstance(e, ast.Dict):
            ps = [(k.value, v) for k, v in zip(e.keys, e.values) if isinstance(k, ast.Constant)]
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('dict', 'OrderedDict'):
            ps = [(k.arg, k.value) for k in e.keywords if k.arg]
        else:
            return [st]
        sts = [st]
        for k, v in ps:
            if dotted(v):
                n = ast.copy_location(ast.Subscript(value=self.load(t), slice=ast.Constant(value=k), ctx=ast.Store()), t)
                ast.fix_missing_locations(n)
                sts = [y for x in sts for x2, w in self.ev(v, x, fr) if w[0] == 'path' or True for y in self.assign(n, w, x2, fr)]
        return sts

    def ev_Slice(self, e, st, fr):
        sts = [st]
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                sts = [s2 for s in sts for s2, _ in self.ev(x, s, fr)]
        return [(s, UNK) for s in sts]

    def ev_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_Call(self, e, st, fr):
        out = []
        if getattr(self.mach, 'items', False) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'pop') and e.args and \
                isinstance(e.args[0], ast.Constant) and dotted(e.func.value) and (
                    any('[' in k for k in st.env if isinstance(k, str)) or any('[' in a for _, a in st.heap)):
            r = [(s, self.item(e.func.value, o, ('const', e.args[0].value), s)) for s, o in self.ev(e.func.value, st, fr)]
            if r and all(v is not None for _, v in r):
                return r
        for s, fv in self.ev(e.func, st, fr):
            pos = [a for a in e.args]
            star = any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords)
            exprs = [a.value if isinstance(a, ast.Starred) else a for a in pos] + [k.value for k in e.keywords]
            for s2, vs in self.ev_seq(exprs, s, fr):
                args = []
                for a, v in zip(pos, vs):
                    if isinstance(a, ast.Starred):
                        if v[0] in ('tuple', 'list'):
                            args += list(v[1])
                        else:
                            break
                    else:
                        args.append(v)
                kwargs = {}
                for k, v in zip(e.keywords, vs[len(pos):]):
                    if k.arg is None:
                        if v[0] == 'kw':
                            kwargs.update(dict(v[1]))
                        else:
                            kwargs['**'] = v
                    else:
                        kwargs[k.arg] = v
                star2 = '**' in kwargs or any(isinstance(a, ast.Starred) and v[0] not in ('tuple', 'list') for a, v in zip(pos, vs))
                if any(v[0] == 'list' for v in vs) and not (fv[0] == 'ext' and (fv[1] in KEEP_LIST or fv[1] in EXC_NAMES)):
                    for v in set(vs):
                        if v[0] == 'list':
                            s2 = s2.forget(v)
                    args = [UNK if v[0] == 'list' and not self.keep_list(v) else v for v in args]
                    kwargs = {k: (UNK if v[0] == 'list' and not self.keep_list(v) else v) for k, v in kwargs.items()}
                pre = s2
                res = self.call(fv, args, kwargs, s2, fr, e, star2)
                out += res
                # an external call inside a try may fail for reasons of its own
                if fr.tries and not getattr(self.mach, 'no_implicit', False) and fv[0] in ('ext', 'meth', 'unk', 'gvar') and \
                        not self.total_call(fv, args):
                    out_states = [pre]
                    for q in out_states:
                        fr.raised.append((self.mach_fail(q, fv, args, kwargs, e, fr), '?'))
        if isinstance(e.func, ast.Attribute) and e.func.attr in MUTATORS:
            d = dotted(e.func.value)
            if d:
                d = frozenset([d])
                out = [(s.setfacts(s.facts.drop(d)), v) for s, v in out]
        if len(out) > 4 * MAXSTATES:
            out = list(dict.fromkeys(out))
        return out

    # ------------------------------------------------------------------ slicing
    def slice_info(self, s, fn):
        """None if the statement must be interpreted, else (names loaded, names stored, attributes stored, raises)"""
        k = id(s)
        if k in self.slices:
            return self.slices[k]
        self.slices[k] = r = self._slice_info(s, fn)
        return r

    def _slice_info(self, s, fn):
        if self.relevant is None or not hasattr(self.relevant, 'names'):
            return None
        bad = self.relevant.names
        loads, stores, attrs, raises, aloads = set(), set(), set(), [], set()

        def go(n, inloop, intry):
            if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal,
                              ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.With, ast.AsyncWith, ast.Assert)):
                return False
            if isinstance(n, (ast.Break, ast.Continue)) and not inloop:
                return False
            if isinstance(n, ast.Raise):
                if intry or n.exc is None:
                    return False
                raises.append(n)
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else None)
                if nm is None or nm in bad:
                    return False
            if isinstance(n, ast.Name):
                (loads if isinstance(n.ctx, ast.Load) else stores).add(n.id)
                if n.id in bad and isinstance(n.ctx, ast.Load):
                    return False
            if isinstance(n, ast.Attribute):
                if n.attr in bad or 'filename' in n.attr.lower():
                    return False
                d = dotted(n)
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    if d is None:
                        return False
                    attrs.add(d)
                else:
                    aloads.add(n.attr)
            if isinstance(n, ast.ExceptHandler) and n.name:
                stores.add(n.name)
            for f, v in ast.iter_fields(n):
                for ch in (v if isinstance(v, list) else [v]):
                    if isinstance(ch, ast.AST):
                        il = inloop or isinstance(n, (ast.For, ast.While)) and f == 'body'
                        it = intry or isinstance(n, ast.Try)
                        if not go(ch, il, it):
                            return False
            return True
        if not isinstance(s, (ast.For, ast.While, ast.If, ast.Try)):
            return None
        if not go(s, False, False):
            return None
        if raises and not isinstance(s, (ast.For, ast.While)):
            return None
        return frozenset(loads), frozenset(stores), frozenset(attrs), tuple(raises), frozenset(aloads)

    def skip(self, s, st, fr):
        """result of a statement that cannot touch anything the analysis tracks, or None"""
        if getattr(self.mach, 'no_slice', False):
            return None
        info = self.slice_info(s, fr.fn)
        if info is None:
            return None
        loads, stores, attrs, raises, aloads = info
        if getattr(self.mach, 'items', False) and any('[' in k for k in st.env if isinstance(k, str)) or \
                any('[' in a and a.split('[')[0] in aloads | {''} and getattr(self.mach, 'items', False) for _, a in st.heap):
            return None
        for n in loads:
            v = st.env.get(n, st.env.get('^' + n, UNK))
            if v[0] in ('path', 'handle', 'stat', 'size', 'meth', 'bound', 'func', 'class', 'tuple', 'ext', 'module') or self.mach_value(v):
                if v[0] in ('ext', 'module', 'class', 'func'):
                    continue
                if v[0] == 'tuple' and all(x[0] in ('const', 'unk', 'none') for x in v[1]):
                    continue
                return None
            if v[0] == 'obj' and v != fr.selfval:
                return None
        env, heap = dict(st.env), dict(st.heap)
        for n in stores:
            env[n] = UNK
        gone = {env[n] for n in loads if n in env and env[n][0] == 'list'} | \
            {v for (o, a), v in heap.items() if a in aloads and v[0] == 'list'}
        for a in attrs:
            base, _, rest = a.partition('.')
            v = st.env.get(base, UNK)
            if v[0] == 'obj':
                if '.' in rest:
                    return None
                if self.p.setter(self.p.classes[v[1]], rest) is not None:
                    return None
                heap[(v[2], rest)] = UNK
        for d in (env, heap):
            for k, v in d.items():
                if v in gone:
                    d[k] = UNK
        x = St(env, heap, st.facts.drop(stores | attrs | loads), st.m)
        r = self.empty()
        r['next'] = [x]
        for n in raises:
            self.do_raise(n, x, fr, r)
        if fr.tries:
            r['raise'].append((x, '?'))
        return r

    def keep_list(self, v):
        return getattr(self.mach, 'keep_lists', False)

    def mach_fail(self, st, fv, args, kwargs, node, fr):
        h = getattr(self.mach, 'fail', None)
        return h(self, st, fv, args, kwargs, node, fr) if h else st

    def total_call(self, fv, args):
        """calls that do not raise: printing, type queries"""
        if fv[0] != 'ext':
            return False
        if fv[1] in TOTAL_CALLS or fv[1] in EXC_TOTAL:
            return True
        return getattr(self.mach, 'exact', False) and args and args[0][0] == 'path' and (fv[1] in OPEN or fv[1] in STAT_FUNCS)

    # ------------------------------------------------------------------ conditions
    def cond(self, test, st, fr):
        """[(state, bool)]"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(s, not t) for s, t in self.cond(test.operand, st, fr)]
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            out, cur = [], [st]
            for i, x in enumerate(test.values):
                nxt = []
                for s in cur:
                    for s2, t in self.cond(x, s, fr):
                        if t == conj:
                            nxt.append(s2)
                        else:
                            out.append((s2, not conj))
                cur = merge(nxt)
            return out + [(s, conj) for s in cur]
        out = []
        for s, v in self.ev(test, st, fr):
            t = self.truth(v)
            if t is not None:
                out.append((s, t))
                continue
            for b in (True, False):
                for f in assume(s.facts, test, b):
                    out.append((self.refine(test, b, s.setfacts(f), fr), b))
        return list(dict.fromkeys(out))

    def refine(self, test, b, st, fr):
        """record what a branch says about a variable (None-ness of unknown values)"""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isn = isinstance(test.ops[0], (ast.Is, ast.Eq)) == b
            if isn and st.env.get(test.left.id, None) == UNK:
                f = st.facts
                st = st.setvar(test.left.id, NONE).setfacts(f)
        return st

    # ------------------------------------------------------------------ statements
    def empty(self):
        return {'next': [], 'return': [], 'raise': [], 'break': [], 'continue': []}

    def block(self, body, states, fr):
        res = self.empty()
        cur = merge(states, fr.limit)
        for s in body:
            if not cur or self.exhausted:
                break
            r = self.stmt_all(s, cur, fr)
            for k in ('return', 'raise', 'break', 'continue'):
                res[k] += r[k]
            cur = merge(r['next'], fr.limit)
        res['next'] = cur
        for k in ('return', 'raise'):
            res[k] = self.dedup(res[k])
        return res

    def dedup(self, pairs):
        pairs = list(dict.fromkeys(pairs))
        if len(pairs) <= 4 * MAXSTATES:
            return pairs
        by = {}
        for s, v in pairs:
            by.setdefault(v, []).append(s)
        return [(s, v) for v, ss in by.items() for s in merge(ss)]

    def stmt_all(self, s, states, fr):
        res = self.empty()
        for st in states:
            key = (id(s), st, fr.tries > 0)
            r = fr.memo.get(key)
            if r is None:
                save = fr.raised
                fr.raised = []
                r = self.skip(s, st, fr) if isinstance(s, (ast.For, ast.While, ast.If, ast.Try)) else None
                if r is None:
                    r = self.stmt(s, st, fr)
                r['raise'] += fr.raised
                fr.raised = save
                if not self.exhausted:
                    fr.memo[key] = r
            for k in res:
                res[k] += r[k]
            if fr.tries and not getattr(self.mach, 'no_implicit', False) and not cannot_raise(s) and not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.Raise, ast.Return)) \
                    and not self.simple(s):
                res['raise'].append((st, '?'))
        return res

    def simple(self, s):
        """attribute/name assignments of harmless expressions, and statements whose only raising part is a call seen by ev_Call"""
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return False
        if isinstance(s, ast.Assign):
            if all(isinstance(t, (ast.Name, ast.Attribute)) for t in s.targets) and (safe_expr(s.value) or isinstance(s.value, ast.Attribute)):
                return True
            if isinstance(s.value, ast.Call) and all(isinstance(t, (ast.Name, ast.Attribute)) for t in s.targets):
                return all(safe_expr(a) or isinstance(a, ast.Attribute) for a in list(s.value.args) + [k.value for k in s.value.keywords])
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            return all(safe_expr(a) or isinstance(a, ast.Attribute) for a in list(s.value.args) + [k.value for k in s.value.keywords])
        return False

    def assign(self, t, v, st, fr):
        """[state]"""
        if isinstance(t, ast.Name):
            return [st.setvar(t.id, v)]
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fr):
                if o[0] == 'obj':
                    c = self.p.classes[o[1]]
                    setter = self.p.setter(c, t.attr)
                    if setter is not None:
                        for s2, _ in self.call_function(setter, [o, v], {}, s, fr, o, c, t):
                            out.append(s2)
                        continue
                    s3 = s.setattr(o[2], t.attr, v, dotted(t))
                    hook = getattr(self.mach, 'store', None)
                    out.append(hook(self, s3, o, t.attr, v, t, fr) if hook else s3)
                else:
                    d = dotted(t)
                    out.append(s.setfacts(s.facts.drop(frozenset([d]))) if d else s)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            sts = [st]
            vals = v[1] if v[0] in ('tuple', 'list') and len(v[1]) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                xv = vals[i] if vals else (derive([v]) if v[0] == 'path' else UNK)
                if isinstance(x, ast.Starred):
                    x, xv = x.value, UNK
                sts = [s2 for s in sts for s2 in self.assign(x, xv, s, fr)]
            return sts
        if isinstance(t, ast.Subscript):
            sts = [s.forget(o) if o[0] == 'list' else s for s, o in self.ev(t.value, st, fr)]
            hook = getattr(self.mach, 'subassign', None)
            if hook is not None:
                sts = [hook(self, t, v, s, fr) for s in sts]
            if getattr(self.mach, 'items', False):
                sts = [self.setitem(t.value, o, k, v, s2) for s in sts for s1, o in self.ev(t.value, s, fr) for s2, k in self.ev(t.slice, s1, fr)]
            else:
                sts = [s2 for s in sts for s2, _ in self.ev(t.slice, s, fr)]
            d = dotted(t.value)
            if d:
                sts = [s.setfacts(s.facts.drop(frozenset([d]))) for s in sts]
            return sts
        return [st]

    def stmt(self, s, st, fr):
        r = self.empty()
        k = s.__class__.__name__
        if k == 'Expr':
            r['next'] = [x for x, _ in self.ev(s.value, st, fr)]
        elif k == 'Assign':
            for x, v in self.ev(s.value, st, fr):
                sts = [x]
                for t in s.targets:
                    sts = [y for z in sts for y in self.assign(t, v, z, fr)]
                    if getattr(self.mach, 'items', False) and isinstance(t, (ast.Name, ast.Attribute)):
                        sts = [y for z in sts for y in self.dictitems(t, s.value, self.dropitems(t, z), fr)]
                r['next'] += sts
        elif k == 'AugAssign':
            for x, v in self.ev(s.value, st, fr):
                cur = ast.copy_location(self.load(s.target), s.target)
                for y, c in self.ev(cur, x, fr):
                    hook = getattr(self.mach, 'binop', None)
                    nv = hook(self, s.op, c, v, y) if hook else None
                    if nv is None:
                        if c[0] == 'path' and isinstance(s.op, ast.Add):
                            nv = derive([c])
                        elif getattr(self.mach, 'counters', False) and c[0] == 'const' and v[0] == 'const' and type(c[1]) is int and \
                                type(v[1]) is int and isinstance(s.op, (ast.Add, ast.Sub)) and abs(c[1]) < 8:
                            nv = ('const', c[1] + v[1] if isinstance(s.op, ast.Add) else c[1] - v[1])
                        else:
                            nv = UNK
                    if c[0] == 'list':
                        y = y.forget(c)
                    r['next'] += self.assign(s.target, nv, y, fr)
        elif k == 'AnnAssign':
            if s.value is not None:
                for x, v in self.ev(s.value, st, fr):
                    r['next'] += self.assign(s.target, v, x, fr)
            else:
                r['next'] = [st]
        elif k == 'Return':
            if s.value is None:
                r['return'] = [(st, NONE)]
            else:
                r['return'] = self.ev(s.value, st, fr)
        elif k == 'Raise':
            self.do_raise(s, st, fr, r)
        elif k == 'If':
            for x, b in self.cond(s.test, st, fr):
                q = self.block(s.body if b else s.orelse, [x], fr)
                for kk in r:
                    r[kk] += q[kk]
        elif k == 'While':
            self.loop(s, st, fr, r)
        elif k in ('For', 'AsyncFor'):
            self.loop(s, st, fr, r)
        elif k in ('With', 'AsyncWith'):
            self.with_(s, st, fr, r)
        elif k in ('Try', 'TryStar'):
            self.try_(s, st, fr, r)
        elif k == 'Break':
            r['break'] = [st]
        elif k == 'Continue':
            r['continue'] = [st]
        elif k == 'Assert':
            for x, b in self.cond(s.test, st, fr):
                if b:
                    r['next'].append(x)
                else:
                    r['raise'].append((x, 'AssertionError'))
        elif k == 'Delete':
            x = st
            for t in s.targets:
                if isinstance(t, ast.Name):
                    x = x.delvar(t.id)
            r['next'] = [x]
        elif k in ('FunctionDef', 'AsyncFunctionDef'):
            g = fr.fn.nested.get(s.name)
            r['next'] = [st.setvar(s.name, ('func', g.key) if g is not None else UNK)]
        elif k in ('Import', 'ImportFrom'):
            r['next'] = [self.do_import(s, st, fr)]
            if fr.tries:
                r['raise'].append((st, 'ImportError'))
        elif k == 'Match':
            for x, v in self.ev(s.subject, st, fr):
                for c in s.cases:
                    y = x
                    for n in ast.walk(c.pattern):
                        if getattr(n, 'name', None):
                            y = y.setvar(n.name, UNK)
                    q = self.block(c.body, [y], fr)
                    for kk in r:
                        r[kk] += q[kk]
                r['next'].append(x)
        else:
            r['next'] = [st]
        return r

    def do_import(self, s, st, fr):
        if isinstance(s, ast.Import):
            for a in s.names:
                nm = a.asname or a.name.split('.')[0]
                v = self.p.lookup_module(a.name if a.asname else a.name.split('.')[0], None)
                st = st.setvar(nm, self.from_resolved(v))
        else:
            t = self.p.import_target(fr.fn.mod, s)
            for a in s.names:
                st = st.setvar(a.asname or a.name, self.from_resolved(self.p.lookup_module(t, a.name)))
        return st

    def load(self, t):
        t2 = ast.parse(ast.unparse(t), mode='eval').body
        for n in ast.walk(t2):
            if hasattr(n, 'lineno'):
                n.lineno = getattr(t, 'lineno', 0)
        return t2

    def do_raise(self, s, st, fr, r):
        if s.exc is None:
            cur = st.env.get('!exc')
            r['raise'].append((st, cur[1] if cur else '?'))
            return
        for x, v in self.ev(s.exc, st, fr):
            if v[0] == 'exc':
                hook = getattr(self.mach, 'raised', None)
                if hook:
                    x = hook(self, x, v[1], s, fr)
                r['raise'].append((x, v[1]))
            elif v[0] == 'class':
                r['raise'].append((x, v[1]))
            elif v[0] == 'ext' and v[1].split('.')[-1] in EXC_NAMES:
                n = v[1].split('.')[-1]
                r['raise'].append((x, 'OSError' if n in ('IOError', 'EnvironmentError') else n))
            else:
                n = None
                e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                if isinstance(e, (ast.Name, ast.Attribute)):
                    n = self.exc_name(e, fr)
                r['raise'].append((x, n or '?'))

    def with_(self, s, st, fr, r):
        sts = [st]
        handles = []
        for it in s.items:
            nxt = []
            for x in sts:
                for y, v in self.ev(it.context_expr, x, fr):
                    handles.append(v)
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, y, fr)
                    else:
                        nxt.append(y)
            sts = merge(nxt)
        q = self.block(s.body, sts, fr)
        # suppressing context managers
        supp = any(isinstance(it.context_expr, ast.Call) and (dotted(it.context_expr.func) or '').endswith('suppress') for it in s.items)
        for k in r:
            r[k] += q[k]
        if supp:
            r['next'] += [x for x, _ in q['raise']]
            r['raise'] = []
        for h in dict.fromkeys(handles):
            if h[0] == 'handle':
                for k in ('next', 'break', 'continue'):
                    r[k] = [y for x in r[k] for y, _ in self.fire(x, ('close', h, 'with'), s, fr)]
                for k in ('return', 'raise'):
                    r[k] = [(y, v) for x, v in r[k] for y, _ in self.fire(x, ('close', h, 'with'), s, fr)]

    def try_(self, s, st, fr, r):
        fr.tries += 1
        save = fr.raised
        fr.raised = []
        body = self.block(s.body, [st], fr)
        body['raise'] += fr.raised
        fr.raised = save
        fr.tries -= 1
        res = self.empty()
        if body['next']:
            e = self.block(s.orelse, body['next'], fr) if s.orelse else {'next': body['next'], 'return': [], 'raise': [], 'break': [], 'continue': []}
            for k in res:
                res[k] += e[k]
        for k in ('return', 'break', 'continue'):
            res[k] += body[k]
        hook = getattr(self.mach, 'exc_split', None)
        pend = self.dedup(body['raise'])
        if hook:
            pend = hook(self, pend)
        for x, exc in pend:
            left = True
            for h in s.handlers:
                if h.type is None:
                    match = True if exc not in () else False
                else:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    ms = []
                    for t in ts:
                        n = self.exc_name(t, fr)
                        ms.append(None if n is None else self.exc_matches(exc, n))
                    match = True if True in ms else (None if None in ms else False)
                if match is False:
                    continue
                y = x.setvar('!exc', ('exc', exc))
                hh = getattr(self.mach, 'handled', None)
                if hh:
                    y = hh(self, y, exc, h, fr)
                if h.name:
                    y = y.setvar(h.name, ('exc', exc))
                q = self.block(h.body, [y], fr)
                for k in ('next', 'break', 'continue'):
                    res[k] += [z.delvar('!exc') for z in q[k]]
                for k in ('return', 'raise'):
                    res[k] += [(z.delvar('!exc'), v) for z, v in q[k]]
                if match is True:
                    left = False
                    break
            if left:
                res['raise'].append((x, exc))
        if s.finalbody:
            out = self.empty()

            def fin(states, wrap):
                q = self.block(s.finalbody, states, fr)
                for k in ('return', 'raise', 'break', 'continue'):
                    out[k] += q[k]
                wrap(q['next'])
            if res['next']:
                fin(merge(res['next']), lambda n: out['next'].extend(n))
            for k in ('break', 'continue'):
                if res[k]:
                    fin(merge(res[k]), lambda n, k=k: out[k].extend(n))
            for k in ('return', 'raise'):
                for x, v in self.dedup(res[k]):
                    fin([x], lambda n, k=k, v=v: out[k].extend((y, v) for y in n))
            res = out
        for k in r:
            r[k] += res[k]

    def loop(self, s, st, fr, r):
        isfor = not isinstance(s, ast.While)
        heads0 = [st]
        itervals = []
        if isfor:
            heads0 = []
            for x, v in self.ev(s.iter, st, fr):
                itervals.append(v)
                heads0.append(x)
        consumes = [v for v in itervals if v[0] == 'handle']
        hook = getattr(self.mach, 'loop', None)
        if hook is not None:
            q = hook(self, s, heads0, itervals, fr)
            if q is not None:
                for k in r:
                    r[k] += q[k]
                return
        if isfor and itervals and all(v[0] in ('tuple', 'list') and len(v[1]) <= getattr(self.mach, 'exact_len', 4) for v in itervals) and \
                (len(set(itervals)) == 1 and itervals[0][1] or getattr(self.mach, 'no_slice', False)):
            for x0, iv in zip(heads0, itervals):
                cur, exits = [x0], []
                for v in iv[1]:
                    nxt = []
                    for x in cur:
                        for y in self.assign(s.target, v, x, fr):
                            q = self.block(s.body, [y], fr)
                            r['return'] += q['return']
                            r['raise'] += q['raise']
                            exits += q['break']
                            nxt += q['next'] + q['continue']
                    cur = merge(nxt)
                if s.orelse:
                    q = self.block(s.orelse, cur, fr)
                    for k in r:
                        r[k] += q[k]
                else:
                    r['next'] += cur
                r['next'] += exits
            return
        head = merge(heads0)
        seen = set() if isfor and (self.loop_min1 or self.nonempty(s.iter)) else set(head)     # the state before a first round is not an exit
        exits = []
        first = True
        work = head
        out_false = []
        rounds = 0
        while work and rounds < 12 and not self.exhausted:
            rounds += 1
            new = []
            if isfor:
                if not (first and (self.loop_min1 or self.nonempty(s.iter))):
                    out_false += work
                ins = []
                for x in work:
                    ys = [x]
                    for h in consumes:
                        ys = [z for y in ys for z, _ in self.fire(y, ('consume', h, 'iter'), s, fr)]
                    pv = [v for v in itervals if v[0] == 'path']
                    for y in ys:
                        ins += self.assign(s.target, derive(pv), y, fr)
                tests = [(x, True) for x in merge(ins)]
            else:
                tests = []
                for x in work:
                    save = fr.raised
                    fr.raised = []
                    tests += self.cond(s.test, x, fr)
                    r['raise'] += fr.raised
                    fr.raised = save
            trues = []
            for x, b in tests:
                if not b:
                    out_false.append(x)
                else:
                    trues.append(x)
            trues = merge(trues)
            if trues:
                q = self.block(s.body, trues, fr)
                r['return'] += q['return']
                r['raise'] += q['raise']
                exits += q['break']
                new += q['next'] + q['continue']
            new = merge(new)
            if rounds >= 3:
                # widen: forget branch facts
                new = merge([x.setfacts(_Facts()) for x in new], 12)
            work = [x for x in new if x not in seen]
            seen.update(work)
            first = False
        out_false += work
        out_false = merge(out_false)
        if s.orelse:
            q = self.block(s.orelse, out_false, fr)
            for k in r:
                r[k] += q[k]
        else:
            r['next'] += out_false
        r['next'] += exits

    def nonempty(self, e):
        return isinstance(e, (ast.List, ast.Tuple)) and len(e.elts) > 0

    # ------------------------------------------------------------------ entry
    def run_method(self, cls, name, args, kwargs, heap, m, raw=False):
        """run obj.name(*args) on an abstract object; -> outcomes [(kind, state, value/exc)]"""
        obj = ('obj', cls.key, 'self')
        fn = self.p.method(cls, name)
        if fn is None:
            return None
        fr = Frame(fn, cls, obj, 0, 0)
        st = St({}, dict(heap) if raw else {('self', k): v for k, v in heap.items()}, _Facts(), m)
        if fn.is_static:
            res = self.call_function(fn, args, kwargs, st, fr, None, cls)
        else:
            res = self.call_function(fn, [obj] + args, kwargs, st, fr, obj, cls)
        return [('return', s, v) for s, v in res] + [('raise', s, e) for s, e in fr.raised]

    def run_function(self, fn, args, kwargs, m, heap=None, star=False):
        fr = Frame(fn, None, None, 0, 0)
        st = St({}, dict(heap or {}), _Facts(), m)
        res = self.call_function(fn, args, kwargs, st, fr, None, None, star=star)
        return [('return', s, v) for s, v in res] + [('raise', s, e) for s, e in fr.raised]


EXC_TOTAL = set(EXC_NAMES)
MUTATORS = {'append', 'pop', 'extend', 'clear', 'update', 'insert', 'remove', 'readline', 'read', 'readlines', 'add', 'seek', '__next__',
            'next', 'setdefault', 'popitem', 'sort', 'reverse', 'write', 'writelines'}
KEEP_LIST = {'len', 'print', 'isinstance', 'hasattr', 'repr', 'str', 'enumerate', 'zip', 'range', 'bool', 'any', 'all', 'sorted', 'tuple',
             'min', 'max', 'sum', 'set', 'type'}
TOTAL_CALLS = {'print', 'len', 'repr', 'isinstance', 'hasattr', 'type', 'range', 'enumerate', 'list', 'dict', 'os.path.join', 'os.path.splitext',
               'os.path.exists', 'os.path.isfile', 'super', 'str'}


def relevance(proj):
    """functions from which file-system access, handles or the remembered filename are reachable (name-based call graph)"""
    direct, calls = {}, {}
    names = {}
    for f in proj.funcs.values():
        names.setdefault(f.name, []).append(f)
    for c in proj.classes.values():
        for m in ('__init__',):
            if m in c.methods:
                names.setdefault(c.name, []).append(c.methods[m])
    io_names = WRITE_METHODS | {'open', 'isfile', 'exists', 'isdir', 'stat', 'getsize', 'remove', 'unlink', 'rename', 'makedirs', 'mkdir', 'rmtree',
                                'savetxt', 'save', 'savez', 'loadtxt', 'genfromtxt', 'fromfile', 'read_csv', 'read_parquet', 'ExcelFile',
                                'ExcelWriter', 'loadmat', 'open_dataset', 'TdmsFile', 'glob', 'iglob', 'copy2', 'copyfile', 'move', 'walk',
                                'listdir', 'chdir', 'access', 'Path', 'memmap', 'load', 'is_file', 'read_text', 'write', 'writelines', 'truncate',
                                'read_excel', 'replace_file', 'splitext', 'basename', 'dirname'}
    for f in proj.funcs.values():
        d = False
        cs = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else (n.func.id if isinstance(n.func, ast.Name) else None)
                if nm in io_names:
                    d = True
                if nm:
                    cs.add(nm)
            elif isinstance(n, ast.Name) and n.id == 'open':
                d = True
            elif isinstance(n, ast.Attribute):
                if 'filename' in n.attr.lower() or n.attr in ('FileName', 'filename_'):
                    d = True
                if isinstance(n.ctx, ast.Load):
                    cs.add(n.attr)
        direct[f.key], calls[f.key] = d, cs
    rel = {k for k, v in direct.items() if v} | {f.key for f in proj.funcs.values() if always_raises(f) or
                                                    f.name in ('__init__', 'read', 'write', '_read', '_write') and f.cls is not None
                                                    and proj.is_file_class(f.cls)}
    changed = True
    byname = {}
    while changed:
        changed = False
        relnames = {proj.funcs[k].name for k in rel} | {proj.funcs[k].cls.name for k in rel if proj.funcs[k].name == '__init__' and proj.funcs[k].cls}
        relnames -= {'keys', 'items', 'values', 'get', 'copy', 'append', '__init__', '__repr__', 'update'}
        for k in list(calls):
            if k not in rel and calls[k] & relnames:
                rel.add(k)
                changed = True
    def relevant(fn, cls=None):
        return fn.key in rel
    relevant.names = io_names | {proj.funcs[k].name for k in rel} | \
        {proj.funcs[k].cls.name for k in rel if proj.funcs[k].name == '__init__' and proj.funcs[k].cls} | \
        {'read', 'readline', 'readlines', 'close', 'exit', 'quit', '_exit', 'super', 'next', 'setattr', 'getattr', 'exec', 'eval', 'dump', 'iter'}
    relevant.names -= {'keys', 'items', 'values', 'get', 'copy', 'append', '__init__', '__repr__', 'update', '__getitem__', '__len__'}
    return relevant
