"""typestate of file handles: open -> closed, on every normal and exceptional path of the function that owns the handle.

States are explored path-sensitively: which variables hold which handle, which handles are open, boolean flags and the outcome of
repeated conditions. Ownership passes to the caller with a returned handle, to the object with an attribute (followed through the methods
of the class), to exit stacks and containers (then no longer followed).
"""
import ast
from .model import walk_own

OPEN = {'open', 'io.open', 'builtins.open', 'codecs.open', 'os.fdopen', 'os.open', 'gzip.open', 'bz2.open', 'lzma.open', 'zipfile.ZipFile', 'tarfile.open', 'gzip.GzipFile',
        'bz2.BZ2File', 'lzma.LZMAFile', 'io.FileIO', 'h5py.File', 'netCDF4.Dataset', 'pandas.HDFStore', 'pandas.ExcelFile', 'pandas.ExcelWriter', 'xarray.open_dataset',
        'xarray.open_mfdataset', 'xarray.open_dataarray', 'shelve.open', 'sqlite3.connect', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile',
        'openpyxl.load_workbook', 'scipy.io.netcdf_file', 'scipy.io.netcdf.netcdf_file', 'mmap.mmap', 'numpy.memmap', 'numpy.lib.format.open_memmap',
        'fileinput.input', 'fileinput.FileInput', 'os.scandir', 'nptdms.TdmsFile.open', 'wave.open', 'dbm.open', 'tokenize.open'}
OPEN -= {'openpyxl.load_workbook', 'os.scandir'}
WRAP = {'io.TextIOWrapper', 'io.BufferedReader', 'io.BufferedWriter', 'io.BufferedRandom', 'gzip.GzipFile', 'codecs.EncodedFile', 'contextlib.closing', 'os.fdopen',
        'open', 'io.open', 'codecs.getreader', 'codecs.getwriter', 'bz2.BZ2File'}
SAFE = {'print', 'isinstance', 'len', 'str', 'repr', 'type', 'list', 'dict', 'set', 'tuple', 'id', 'bool', 'callable', 'range', 'hasattr', 'warnings.warn',
        'os.path.basename', 'os.path.dirname', 'os.path.join', 'os.path.splitext', 'os.path.exists', 'os.path.isfile', 'time.time', 'super', 'issubclass',
        'collections.OrderedDict', 'os.close', 'contextlib.ExitStack'}
CONTAIN = {'append', 'add', 'insert', 'setdefault', 'put', 'enter_context', 'push', 'callback', 'register', 'extend', 'update', 'appendleft'}
CAP = 400


class St:
    __slots__ = ('env', 'open', 'facts', '_h')

    def __init__(self, env=(), open=frozenset(), facts=frozenset()):
        self.env, self.open, self.facts = frozenset(env), open, facts
        self._h = hash((self.env, self.open, self.facts))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.env == o.env and self.open == o.open and self.facts == o.facts

    def get(self, k):
        for a, b in self.env:
            if a == k:
                return b

    def set(self, k, v):
        env = {(a, b) for a, b in self.env if a != k}
        if v is not None:
            env.add((k, v))
        fa = self.facts
        if fa:
            base = k.split('.')[-1]
            fa = frozenset((t, b) for t, b in fa if base not in t.names)
        return St(env, self.open, fa)

    def opened(self, s):
        return St(self.env, self.open | {s}, self.facts)

    def closed(self, s):
        return St(self.env, self.open - {s}, self.facts)

    def fact(self, t, b):
        return St(self.env, self.open, self.facts | {(t, b)})


class Txt(str):
    names = frozenset()


class Sum:
    def __init__(self):
        self.ret = set()          # None (the value itself) or index in a returned tuple
        self.closes = set()       # parameters closed on every path
        self.attrs = set()        # self attributes left open at a normal exit
        self.rattrs = set()       # ... at an exceptional one
        self.cattrs = set()       # self attributes closed (if they were open)
        self.leaks = {}           # site -> (how, line)
        self.sites = {}
        self.cm = False

    def trivial(self):
        return not (self.ret or self.closes or self.attrs or self.rattrs or self.cattrs)


class Handles:
    def __init__(self, proj):
        self.p = proj
        self.sums = {}
        self.busy = set()
        self.n_states = 0

    def summary(self, fn):
        if fn.key in self.sums:
            return self.sums[fn.key]
        if fn.key in self.busy or not self.interesting(fn):
            return EMPTY
        self.busy.add(fn.key)
        s = Walk(self, fn).run()
        self.busy.discard(fn.key)
        self.sums[fn.key] = s
        return s

    # functions worth looking at: those that open, close or (transitively, by name) call a function that hands out a handle
    def interesting(self, fn):
        if not hasattr(self, '_int'):
            self._int = set()
            names = set()
            work = list(self.p.funcs.values())
            for f in work:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and (self.is_open(n, f) or isinstance(n.func, ast.Attribute) and n.func.attr in ('close', '__exit__')
                                                    or self.name(n.func, f) == 'os.close'):
                        self._int.add(f.key)
                        break
            self._callers = {}
            for f in work:
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.Name, ast.Attribute)):
                        self._callers.setdefault(n.id if isinstance(n, ast.Name) else n.attr, set()).add(f.key)
        return fn.key in self._int

    def solve(self):
        """summaries of all functions of interest, callers of handle-producing ones included"""
        fs = self.p.funcs
        self.interesting(next(iter(fs.values())))
        todo = sorted(self._int)
        done = set()
        while todo:
            k = todo.pop(0)
            if k in done:
                continue
            done.add(k)
            f = fs[k]
            s = self.summary(f)
            if not s.trivial():
                nm = f.cls.name if f.name == '__init__' and f.cls else f.name
                for c in sorted(self._callers.get(nm, set()) | (self._callers.get(f.name, set()) if f.name != '__init__' else set())):
                    if c != k and c not in done or c in done and c in self.sums and c not in self._re:
                        self._int.add(c)
                        self.sums.pop(c, None)
                        self._re.add(c)
                        done.discard(c)
                        todo.append(c)
        return self.sums
    _re = set()

    def name(self, e, fn):
        try:
            r = self.p.resolve_expr(e, fn.mod, fn)
        except Exception:
            r = None
        return r[1] if r and r[0] == 'ext' else None

    def is_open(self, call, fn):
        nm = self.name(call.func, fn)
        if nm in OPEN:
            return nm
        if nm and nm.startswith('pandas.read_'):
            for k in call.keywords:
                if k.arg in ('chunksize', 'iterator') and not (isinstance(k.value, ast.Constant) and not k.value.value):
                    return nm + '(%s)' % k.arg
            return None
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'open' and nm is None:
            if isinstance(call.func.value, ast.Name) and call.func.value.id in ('os', 'webbrowser', 'Image', 'plt'):
                return None
            r = None
            try:
                r = self.p.resolve_expr(call.func, fn.mod, fn)
            except Exception:
                pass
            if r and r[0] in ('func', 'class', 'module', 'missing'):
                return None
            if isinstance(call.func.value, ast.Name) and fn.params and call.func.value.id == fn.params[0] and fn.cls is not None:
                m = self.p.method(fn.cls, 'open')
                if m is not None and not m.is_property:
                    return None
            return 'open method'
        if nm and nm.startswith('pathlib.') and nm.endswith('.open'):
            return nm
        return None


EMPTY = Sum()


class Walk:
    def __init__(self, H, fn):
        self.H, self.p, self.fn = H, H.p, fn
        self.s = Sum()
        self.selfname = fn.params[0] if fn.is_method and not fn.is_static and fn.params else None
        self.raises = set()
        cnt = {}
        for n in walk_own(fn.node):
            t = getattr(n, 'test', None)
            if t is not None:
                for x in self.atoms(t):
                    d = ast.dump(x)
                    cnt[d] = cnt.get(d, 0) + 1
        self.rep = {d for d, c in cnt.items() if c > 1}
        self.s.cm = any(d.endswith('contextmanager') for d in fn.decorators)

    def atoms(self, t):
        if isinstance(t, ast.BoolOp):
            return [y for x in t.values for y in self.atoms(x)]
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.atoms(t.operand)
        return [t]

    # ---------------------------------------------------------------- run
    def run(self):
        st = St()
        for a in self.fn.params + self.fn.kwonly:
            if a != self.selfname:
                st = st.set(a, 's:param:' + a).opened('param:' + a)
        if self.selfname:
            for a in self.attr_names():
                st = st.set('self.' + a, 's:attr:' + a).opened('attr:' + a)
        out = self.block(self.fn.node.body, {st})
        norm = out.get('next', set()) | out.get('return', set())
        exc = out.get('raise', set())
        for kind, sts in (('returns', norm), ('raises', exc)):
            for st in sts:
                for s in st.open:
                    if s.startswith(('param:', 'attr:')):
                        continue
                    at = [k for k, v in st.env if v == 's:' + s and k.startswith('self.')]
                    if at and self.selfname:
                        (self.s.attrs if kind == 'returns' else self.s.rattrs).add((at[0][5:], s))
                        continue
                    self.s.leaks.setdefault(s, kind)
        if norm:
            for a in self.fn.params + self.fn.kwonly:
                if all('param:' + a not in st.open for st in norm):
                    if any(self.closed_here(a)):
                        self.s.closes.add(a)
            for a in self.attr_names():
                if any(('attr:' + a) not in st.open for st in norm) and self.closes_attr(a):
                    self.s.cattrs.add(a)
        return self.s

    def closed_here(self, a):
        return [True]

    def closes_attr(self, a):
        return True

    def attr_names(self):
        if not hasattr(self, '_an'):
            self._an = sorted({n.attr for n in walk_own(self.fn.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self.selfname
                               and any(isinstance(c, ast.Attribute) and c.attr in ('close', '__exit__') and c.value is n for c in walk_own(self.fn.node))}) if self.selfname else []
        return self._an

    # ---------------------------------------------------------------- statements
    def block(self, stmts, states):
        out = {}
        cur = set(states)
        for s in stmts:
            if not cur:
                break
            if len(cur) > CAP:
                cur = {St(x.env, x.open) for x in cur}
                if len(cur) > CAP:
                    cur = {St([(k, v) for k, v in x.env if v.startswith('s:')], x.open) for x in cur}
            nxt = set()
            for kind, sts in self.stmt(s, cur).items():
                if kind == 'next':
                    nxt |= sts
                else:
                    out.setdefault(kind, set()).update(sts)
            cur = nxt
        if cur:
            out.setdefault('next', set()).update(cur)
        return out

    def stmt(self, s, states):
        save, self.raises = self.raises, set()
        m = getattr(self, 'st_' + type(s).__name__, None)
        out = {}
        if m is not None:
            out = m(s, states)
        else:
            nxt = set()
            for st in states:
                cur = [st]
                for ch in ast.iter_child_nodes(s):
                    if isinstance(ch, ast.expr):
                        cur = [b for a in cur for b, _ in self.ev(ch, a)]
                nxt |= set(cur)
            out = {'next': nxt}
        if self.raises:
            out.setdefault('raise', set()).update(self.raises)
        self.raises = save
        return out

    def each(self, states, f):
        out = {}
        for st in states:
            for kind, sts in f(st).items():
                out.setdefault(kind, set()).update(sts)
        return out

    def st_FunctionDef(self, s, states):
        return {'next': set(states)}
    st_AsyncFunctionDef = st_ClassDef = st_Pass = st_Global = st_Nonlocal = st_FunctionDef

    def st_Import(self, s, states):
        self.raises |= states
        return {'next': set(states)}
    st_ImportFrom = st_Import

    def st_Assign(self, s, states):
        nxt = set()
        for st in states:
            for st2, v in self.ev(s.value, st):
                for t in s.targets:
                    st2 = self.bind(t, v, st2, s.value)
                nxt.add(st2)
        return {'next': nxt}

    def st_AnnAssign(self, s, states):
        if s.value is None:
            return {'next': set(states)}
        return {'next': {self.bind(s.target, v, st2, s.value) for st in states for st2, v in self.ev(s.value, st)}}

    def st_AugAssign(self, s, states):
        self.raises |= states
        return {'next': {self.bind(s.target, None, st2, s.value) for st in states for st2, v in self.ev(s.value, st)}}

    def key(self, t):
        if isinstance(t, ast.Name):
            return t.id
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.selfname and self.selfname:
            return 'self.' + t.attr
        return None

    def bind(self, t, v, st, node=None):
        k = self.key(t)
        if k is not None:
            if isinstance(v, tuple):
                v = None
            return st.set(k, v)
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                st = self.bind(x, v[i] if isinstance(v, tuple) and i < len(v) else None, st)
            return st
        if isinstance(t, ast.Starred):
            return self.bind(t.value, None, st)
        # stored in a container or another object: no longer followed
        for x in (v if isinstance(v, tuple) else [v]):
            if isinstance(x, str) and x.startswith('s:'):
                st = st.closed(x[2:])
        if isinstance(t, ast.Subscript):
            self.raises.add(st)
        return st

    def st_Return(self, s, states):
        out = set()
        for st in states:
            if s.value is None:
                out.add(st)
                continue
            for st2, v in self.ev(s.value, st):
                for i, x in enumerate(v) if isinstance(v, tuple) else [(None, v)]:
                    if isinstance(x, str) and x.startswith('s:'):
                        if x[2:] in st2.open and not x.startswith(('s:param:', 's:attr:')):
                            self.s.ret.add(i)
                        st2 = st2.closed(x[2:])
                out.add(st2)
        return {'return': out}

    def st_Raise(self, s, states):
        out = set()
        for st in states:
            cur = [st]
            for ch in (s.exc, s.cause):
                if ch is not None:
                    cur = [b for a in cur for b, _ in self.ev(ch, a)]
            out |= set(cur)
        return {'raise': out}

    def st_Assert(self, s, states):
        self.raises |= states
        return {'next': {b for st in states for b in self.branch(s.test, st)[0]}}

    def st_Break(self, s, states):
        return {'break': set(states)}

    def st_Continue(self, s, states):
        return {'continue': set(states)}

    def st_Delete(self, s, states):
        nxt = set()
        for st in states:
            for t in s.targets:
                k = self.key(t)
                if k:
                    st = st.set(k, None)
            nxt.add(st)
        return {'next': nxt}

    def st_If(self, s, states):
        T, F = set(), set()
        for st in states:
            t, f = self.branch(s.test, st)
            T |= t
            F |= f
        out = self.block(s.body, T) if T else {}
        if F:
            for k, v in self.block(s.orelse, F).items():
                out.setdefault(k, set()).update(v)
        return out

    def st_While(self, s, states):
        return self.loop(s, states, None)

    def st_For(self, s, states):
        nxt = set()
        for st in states:
            for st2, v in self.ev(s.iter, st):
                nxt.add(st2)
                if isinstance(v, str) and v.startswith('s:') and not v.startswith(('s:param:', 's:attr:')):
                    self.raises.add(st2)
        return self.loop(s, nxt, s.target)
    st_AsyncFor = st_For

    def loop(self, s, states, target):
        seen, todo = set(), set(states)
        out, exits, brk = {}, set(), set()
        infinite = target is None and isinstance(s.test, ast.Constant) and bool(s.test.value)
        for _ in range(60):
            todo -= seen
            if not todo:
                break
            seen |= todo
            if len(seen) > CAP:
                seen = {St(x.env, x.open) for x in seen}
                todo = {St(x.env, x.open) for x in todo}
            if target is None:
                T, F = set(), set()
                for st in todo:
                    t, f = self.branch(s.test, st)
                    T |= t
                    F |= f
                exits |= F if not infinite else set()
            else:
                exits |= todo
                T = {self.bind(target, None, st) for st in todo}
            o = self.block(s.body, T) if T else {}
            for k, v in o.items():
                if k in ('return', 'raise'):
                    out.setdefault(k, set()).update(v)
                elif k == 'break':
                    brk |= v
            todo = o.get('next', set()) | o.get('continue', set())
        fin = self.block(s.orelse, exits) if s.orelse and exits else {'next': exits}
        for k, v in fin.items():
            if v:
                out.setdefault(k, set()).update(v)
        if brk:
            out.setdefault('next', set()).update(brk)
        return out

    def st_With(self, s, states):
        return self.withitems(list(s.items), s.body, states)
    st_AsyncWith = st_With

    def withitems(self, items, body, states):
        if not items:
            return self.block(body, states)
        it = items[0]
        out = {}
        suppress = isinstance(it.context_expr, ast.Call) and (self.H.name(it.context_expr.func, self.fn) or '').endswith('suppress')
        groups = {}
        for st in states:
            for st2, v in self.ev(it.context_expr, st):
                site = v[2:] if isinstance(v, str) and v.startswith('s:') else None
                if it.optional_vars is not None:
                    st2 = self.bind(it.optional_vars, v if site else None, st2)
                groups.setdefault(site, set()).add(st2)
        for site, sts in groups.items():
            for k, v in self.withitems(items[1:], body, sts).items():
                if site:
                    v = {x.closed(site) for x in v}
                out.setdefault(k, set()).update(v)
                if suppress and k == 'raise':
                    out.setdefault('next', set()).update(v)
        return out

    def st_Try(self, s, states):
        body = self.block(s.body, states)
        out = {}
        rs = body.pop('raise', set())
        nxt = body.pop('next', set())
        for k, v in body.items():
            out.setdefault(k, set()).update(v)
        if nxt:
            for k, v in (self.block(s.orelse, nxt) if s.orelse else {'next': nxt}).items():
                out.setdefault(k, set()).update(v)
        left = rs
        if rs:
            for h in s.handlers:
                hs = {x.set(h.name, None) for x in rs} if h.name else rs
                for k, v in self.block(h.body, hs).items():
                    out.setdefault(k, set()).update(v)
                if self.catch_all(h.type):
                    left = set()
                    break
            if left:
                out.setdefault('raise', set()).update(left)
        if s.finalbody:
            fin = {}
            for k, v in out.items():
                for k2, v2 in self.block(s.finalbody, v).items():
                    fin.setdefault(k if k2 == 'next' else k2, set()).update(v2)
            out = fin
        return out
    st_TryStar = st_Try

    def catch_all(self, t):
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            return any(self.catch_all(x) for x in t.elts)
        return isinstance(t, ast.Name) and t.id in ('Exception', 'BaseException')

    def st_Match(self, s, states):
        out = {}
        for c in s.cases:
            for k, v in self.block(c.body, states).items():
                out.setdefault(k, set()).update(v)
        out.setdefault('next', set()).update(states)
        return out

    # ---------------------------------------------------------------- conditions
    def branch(self, t, st):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.branch(t.operand, st)
            return b, a
        if isinstance(t, ast.BoolOp):
            T, F = {st}, set()
            if isinstance(t.op, ast.And):
                for x in t.values:
                    n = set()
                    for s in T:
                        a, b = self.branch(x, s)
                        n |= a
                        F |= b
                    T = n
                return T, F
            F, T = {st}, set()
            for x in t.values:
                n = set()
                for s in F:
                    a, b = self.branch(x, s)
                    T |= a
                    n |= b
                F = n
            return T, F
        if isinstance(t, ast.Constant):
            return ({st}, set()) if t.value else (set(), {st})
        k = self.key(t)
        if k is not None:
            v = st.get(k)
            if v in ('True', 'False', 'None'):
                return ({st}, set()) if v == 'True' else (set(), {st})
            if v and v.startswith('s:') and not v.startswith(('s:param:', 's:attr:')):
                return {st}, set()
            if v is None and isinstance(t, ast.Name):
                pass
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and \
                isinstance(t.comparators[0], ast.Constant) and (t.comparators[0].value is None or isinstance(t.comparators[0].value, bool)):
            k = self.key(t.left)
            v = st.get(k) if k else None
            c = str(t.comparators[0].value)
            res = None
            if v in ('True', 'False', 'None'):
                res = v == c
            elif v and v.startswith('s:') and not v.startswith(('s:param:', 's:attr:')):
                res = False
            if res is not None:
                if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                    res = not res
                return ({st}, set()) if res else (set(), {st})
        if isinstance(t, ast.Attribute) and t.attr == 'closed':
            k = self.key(t.value)
            v = st.get(k) if k else None
            if v and v.startswith('s:'):
                o = v[2:] in st.open
                if o:
                    return set(), {st}
                if not v.startswith(('s:param:', 's:attr:')):
                    return {st}, set()
        d = ast.dump(t)
        if d in self.rep:
            x = Txt(d)
            x.names = frozenset(n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(t) if isinstance(n, (ast.Name, ast.Attribute)))
            for f, b in st.facts:
                if f == x:
                    return ({st}, set()) if b else (set(), {st})
            T, F = set(), set()
            for s2, _ in self.ev(t, st):
                T.add(s2.fact(x, True))
                F.add(s2.fact(x, False))
            return T, F
        a = {s2 for s2, _ in self.ev(t, st)}
        return a, set(a)

    # ---------------------------------------------------------------- expressions -> [(state, value)]
    def ev(self, e, st):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is not None:
            return m(e, st)
        cur = [st]
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                cur = self.uniq([b for a in cur for b, _ in self.ev(ch, a)])
            elif isinstance(ch, ast.comprehension):
                for x in [ch.iter] + ch.ifs:
                    cur = self.uniq([b for a in cur for b, _ in self.ev(x, a)])
            elif isinstance(ch, ast.keyword):
                cur = self.uniq([b for a in cur for b, _ in self.ev(ch.value, a)])
        if isinstance(e, (ast.BinOp, ast.Subscript, ast.ListComp, ast.DictComp, ast.SetComp)):
            self.raises.update(cur)
        return [(x, None) for x in cur]

    def uniq(self, l):
        return list(dict.fromkeys(l))

    def ev_Lambda(self, e, st):
        return [(st, None)]

    def ev_Constant(self, e, st):
        return [(st, str(e.value) if e.value is None or isinstance(e.value, bool) else None)]

    def ev_Name(self, e, st):
        return [(st, st.get(e.id))]

    def ev_Attribute(self, e, st):
        k = self.key(e)
        if k:
            return [(st, st.get(k))]
        return [(a, None) for a, _ in self.ev(e.value, st)]

    def ev_Tuple(self, e, st):
        cur = [(st, ())]
        for x in e.elts:
            cur = [(b, vs + (v,)) for a, vs in cur for b, v in self.ev(x, a)]
        return [(a, tuple(v if not isinstance(v, tuple) else None for v in vs)) for a, vs in cur]

    def ev_List(self, e, st):
        out = []
        for a, vs in self.ev_Tuple(e, st):
            for v in vs:
                if isinstance(v, str) and v.startswith('s:'):
                    a = a.closed(v[2:])
            out.append((a, None))
        return out

    def ev_IfExp(self, e, st):
        t, f = self.branch(e.test, st)
        return [r for s in t for r in self.ev(e.body, s)] + [r for s in f for r in self.ev(e.orelse, s)]

    def ev_NamedExpr(self, e, st):
        return [(self.bind(e.target, v, a), v) for a, v in self.ev(e.value, st)]

    def ev_Yield(self, e, st):
        out = [(a, None) for a, _ in (self.ev(e.value, st) if e.value is not None else [(st, None)])]
        if self.s.cm:
            self.raises.update(a for a, _ in out)
        return out

    def ev_Compare(self, e, st):
        cur = [st]
        for x in [e.left] + e.comparators:
            cur = self.uniq([b for a in cur for b, _ in self.ev(x, a)])
        return [(a, None) for a in cur]

    def close(self, st, v):
        return st.closed(v[2:])

    def ev_Call(self, e, st):
        fn = self.fn
        nm = self.H.name(e.func, fn)
        # receiver
        recv, cur = None, [(st, None)]
        if isinstance(e.func, ast.Attribute):
            cur = self.ev(e.func.value, st)
        elif not isinstance(e.func, ast.Name):
            cur = [(a, None) for a, _ in self.ev(e.func, st)]
        out = []
        for a, rv in cur:
            args = [(a, ())]
            exprs = [(None, x.value if isinstance(x, ast.Starred) else x) for x in e.args] + [(k.arg, k.value) for k in e.keywords]
            for kw, x in exprs:
                args = [(b, vs + ((kw, v, x),)) for s0, vs in args for b, v in self.ev(x, s0)]
            for b, vs in args:
                out += self.apply(e, nm, rv, vs, b)
        return list(dict.fromkeys(out))

    def apply(self, e, nm, rv, vs, st):
        fn = self.fn
        hv = [(kw, v, x) for kw, v, x in vs if isinstance(v, str) and v.startswith('s:')]
        real = [h for h in hv if not h[1].startswith(('s:param:', 's:attr:'))]
        attr = e.func.attr if isinstance(e.func, ast.Attribute) else None
        if nm == 'os.close' and hv:
            return [(st.closed(hv[0][1][2:]), None)]
        # a method of a handle
        if isinstance(rv, str) and rv.startswith('s:'):
            if attr in ('close', '__exit__', 'detach', 'cleanup'):
                return [(st.closed(rv[2:]), None)]
            if attr == '__enter__':
                return [(st, rv)]
            self.raises.add(st)
            return [(st, None)]
        # a bound close handed to somebody else, or a handle put in a container or an exit stack
        for kw, v, x in vs:
            if isinstance(x, ast.Attribute) and x.attr in ('close', '__exit__'):
                k = self.key(x.value)
                w = st.get(k) if k else None
                if w and w.startswith('s:'):
                    st = st.closed(w[2:])
        if attr in CONTAIN and nm is None:
            for _, v, _ in hv:
                st = st.closed(v[2:])
            return [(st, hv[0][1] if hv and attr == 'enter_context' else None)]
        # wrappers own what they wrap
        if nm in WRAP and hv and (nm not in ('open', 'io.open') or vs and vs[0][1] is hv[0][1]):
            if nm not in ('open', 'io.open') or not hv[0][1].startswith('s:param:'):
                self.raises.add(st)
                return [(st, hv[0][1])]
        if isinstance(e.func, ast.Call) and self.H.name(e.func.func, fn) in WRAP and hv:
            self.raises.add(st)
            return [(st, hv[0][1])]
        op = self.H.is_open(e, fn)
        if op:
            self.raises.add(st)
            s = 'L%d:%d' % (e.lineno, e.col_offset)
            self.s.sites[s] = (e, op)
            if s in st.open:
                self.s.leaks.setdefault(s, 'opens the next one')
            return [(st.opened(s), 's:' + s)]
        if nm in SAFE:
            return [(st, None)]
        # functions and classes of the package
        r = None
        try:
            r = self.p.resolve_expr(e.func, fn.mod, fn)
        except Exception:
            pass
        target, bound, isself = None, False, False
        if r and r[0] == 'func':
            target = r[1]
        elif r and r[0] == 'class':
            return self.construct(e, r[1], hv, st)
        elif attr and isinstance(e.func.value, ast.Name) and e.func.value.id == self.selfname and fn.cls is not None:
            target = self.p.method(fn.cls, attr)
            bound, isself = target is not None and not target.is_static, True
        elif attr and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super' and fn.cls is not None:
            target = self.p.method(fn.cls, attr, after=fn.cls)
            bound, isself = target is not None, True
        self.raises.add(st)
        if target is not None:
            s = self.H.summary(target)
            params = target.params[1:] if bound or target.is_method and not target.is_static and isself else target.params
            pos = [x for x in vs if x[0] is None]
            for i, (kw, v, x) in enumerate(pos):
                if isinstance(v, str) and v.startswith('s:') and i < len(params) and params[i] in s.closes:
                    st = st.closed(v[2:])
            for kw, v, x in vs:
                if kw and isinstance(v, str) and v.startswith('s:') and kw in s.closes:
                    st = st.closed(v[2:])
            if isself:
                for a in s.cattrs:
                    v = st.get('self.' + a)
                    if v and v.startswith('s:'):
                        st = st.closed(v[2:])
                for a, site in s.rattrs:
                    k = 'A%s@%d' % (a, e.lineno)
                    self.s.sites.setdefault(k, (e, 'handle kept in self.%s by %s' % (a, target.name)))
                    self.raises.add(st.set('self.' + a, 's:' + k).opened(k))
                for a, site in s.attrs:
                    k = 'A%s@%d' % (a, e.lineno)
                    self.s.sites.setdefault(k, (e, 'handle kept in self.%s by %s' % (a, target.name)))
                    st = st.set('self.' + a, 's:' + k).opened(k)
            if s.ret and not s.cm:
                k = 'L%d:%d' % (e.lineno, e.col_offset)
                self.s.sites[k] = (e, 'handle returned by ' + target.name)
                if k in st.open:
                    self.s.leaks.setdefault(k, 'opens the next one')
                st2 = st.opened(k)
                if None in s.ret:
                    return [(st2, 's:' + k)]
                return [(st2, tuple('s:' + k if i in s.ret else None for i in range(max(s.ret) + 1)))]
            return [(st, None)]
        # a call of something that is not known: a handle opened in the argument list is not followed further
        if nm is None:
            for kw, v, x in real:
                if isinstance(x, ast.Call):
                    st = st.closed(v[2:])
        return [(st, None)]

    def construct(self, e, c, hv, st):
        self.raises.add(st)
        m = self.p.method(c, '__init__')
        for _, v, _ in hv:       # handed over to the object
            if isinstance(_, ast.Call) or True:
                st = st.closed(v[2:]) if not v.startswith(('s:param:', 's:attr:')) else st
        if m is None or m is self.fn:
            return [(st, None)]
        s = self.H.summary(m)
        if s.attrs and resource(self.H, c, {a for a, _ in s.attrs}):
            k = 'L%d:%d' % (e.lineno, e.col_offset)
            self.s.sites[k] = (e, 'handle held by ' + c.name)
            return [(st.opened(k), 's:' + k)]
        return [(st, None)]


def resource(H, c, attrs):
    """does the class offer close or __exit__ for the handles its constructor opens?"""
    for n in ('close', '__exit__'):
        m = H.p.method(c, n)
        if m is not None:
            H._int.add(m.key)
            s = H.summary(m)
            if attrs <= s.cattrs or n == '__exit__' and H.p.method(c, 'close') is not None:
                return True
    return False
