"""C19: results depend only on the file and the options"""
import ast
import re
from ..check import Finding, Result
from ..model import walk_own, is_main_guard
from ..origin import Origin
from .c18 import ext

RULE = ('per-function dependency analysis with summaries for package functions: sources are sets (their iteration order), directory listings, the clock, random numbers, '
        'object addresses and hashes, process ids, the environment and the host; a source may not reach a returned, stored or written value or decide a branch. Sorting, counting, '
        'membership, min/max and exact-match selection remove the dependency on order; messages and the date in a header text are not results')
LISTING = {'glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir', 'os.walk', 'os.fwalk'}
CLOCK = re.compile(r'^(time\.(time|time_ns|localtime|gmtime|ctime|asctime|perf_counter|perf_counter_ns|monotonic|process_time|strftime|clock)|'
                   r'datetime\.(datetime\.(now|today|utcnow)|date\.today)|pandas\.Timestamp\.(now|today)|pandas\.(to_datetime)$)')
RANDOM = re.compile(r'^(random\.|numpy\.random\.(?!default_rng$|RandomState$|Generator$|SeedSequence$)|uuid\.uuid|secrets\.|os\.urandom|numpy\.random\.mtrand)')
HOST = re.compile(r'^(os\.(getpid|getppid|environ|getenv|environb|getlogin|cpu_count|uname)|socket\.gethostname|getpass\.getuser|platform\.(node|uname|processor)|'
                  r'locale\.(getpreferredencoding|getlocale|getdefaultlocale|localeconv|nl_langinfo)|threading\.get_ident|os\.path\.getmtime|os\.path\.getctime|os\.path\.getatime|'
                  r'tempfile\.(mktemp|gettempprefix)|sys\.getrefcount|gc\.get_objects)')
EXTERNAL_RUN = re.compile(r'simulate|pbs|^run_|condor', re.I)       # start another program for the caller
ORDERFREE = {'sorted', 'len', 'min', 'max', 'any', 'all', 'set', 'frozenset', 'bool', 'isinstance', 'type', 'print', 'numpy.unique', 'numpy.sort', 'numpy.isin', 'numpy.in1d',
             'collections.Counter', 'issubclass', 'callable', 'id', 'hash', 'repr_', 'numpy.size', 'numpy.shape', 'numpy.setdiff1d', 'numpy.intersect1d', 'numpy.union1d'}
SETMETH = {'union', 'intersection', 'difference', 'symmetric_difference'}
MSG = {'print', 'warnings.warn', 'logging.info', 'logging.debug', 'logging.warning', 'logging.error', 'sys.stdout.write', 'sys.stderr.write'}


class Fn:
    """order taint inside one function (or module body); flow-insensitive over names, with .sort() as a cleaner"""
    def __init__(self, an, fn, mod, node):
        self.an, self.p, self.fn, self.mod, self.node = an, an.p, fn, mod, node
        self.nodes = list(walk_own(node))
        self.par = {}
        for n in [node] + self.nodes:
            for c in ast.iter_child_nodes(n):
                self.par[c] = n
        self.sets, self.unord = set(), {}      # names bound to sets; names bound to sequences in arbitrary order -> source text
        self.sorted_names = set()
        self.selected = set()
        for n in self.nodes:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'sort':
                self.sorted_names.add(ast.unparse(n.func.value))
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.ListComp):
                g = n.value.generators[0]
                if isinstance(g.iter, ast.Name) and g.iter.id == n.targets[0].id and self.exact(g):
                    self.selected.add(g.iter.id)
        self.params_unord = set()
        for _ in range(4):
            self.step()

    def exact(self, g):
        """[x for x in L if x == v]"""
        t = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        return any(isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.Eq) and
                   any(isinstance(s, ast.Name) and s.id in t for s in (c.left, c.comparators[0])) for c in g.ifs)

    def name(self, call):
        return ext(self.p, call.func, self.fn, self.mod) or (call.func.id if isinstance(call.func, ast.Name) and not self.local(call.func.id) else None)

    def local(self, n):
        return self.fn is not None and (n in self.fn.params)

    def is_set(self, e):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Name):
            return e.id in self.sets
        if isinstance(e, ast.Attribute):
            return ast.unparse(e) in self.sets
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return self.is_set(e.left) or self.is_set(e.right) and isinstance(e.left, ast.Call) and self.keysview(e.left) or self.keysview(e.left) and self.keysview(e.right)
        if isinstance(e, ast.Call):
            nm = self.name(e)
            if nm in ('set', 'frozenset'):
                return True
            if isinstance(e.func, ast.Attribute) and (e.func.attr in SETMETH or e.func.attr == 'copy') and self.is_set(e.func.value):
                return True
            f = self.an.target(e, self.fn)
            if f is not None and self.an.summary(f) == 'set':
                return True
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body) or self.is_set(e.orelse)
        return False

    def keysview(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('keys', 'items')

    def const_set(self, e):
        return False

    def order(self, e):
        """source text when the value is a sequence whose order (or content selected by order) is arbitrary, else None. Sets themselves are not."""
        if e is None or isinstance(e, ast.Constant):
            return None
        if isinstance(e, ast.Name):
            return None if e.id in self.sorted_names or e.id in self.selected else self.unord.get(e.id)
        if isinstance(e, ast.Attribute):
            k = ast.unparse(e)
            return None if k in self.sorted_names else self.unord.get(k) or (self.order(e.value) if not isinstance(e.value, ast.Name) else None)
        if isinstance(e, ast.Call):
            nm = self.name(e)
            if nm in LISTING:
                return nm
            if nm in ORDERFREE:
                return None
            args = list(e.args) + [k.value for k in e.keywords]
            if nm == 'next' and e.args and isinstance(e.args[0], ast.Call) and self.name(e.args[0]) == 'iter' and e.args[0].args:
                return self.it(e.args[0].args[0])
            if nm in ('list', 'tuple', 'iter', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'numpy.array', 'numpy.asarray', 'dict', 'str', 'repr', 'dict.fromkeys',
                      'collections.OrderedDict', 'itertools.chain', 'pandas.Series', 'pandas.Index', 'pandas.DataFrame', 'list.__add__', 'sum', 'numpy.fromiter',
                      'numpy.concatenate', 'numpy.hstack', 'numpy.vstack', 'pandas.concat'):
                for a in args:
                    o = self.it(a) if nm not in ('str', 'repr') else (self.it(a))
                    if o:
                        return o
                return None
            if isinstance(e.func, ast.Attribute):
                a = e.func.attr
                if a == 'pop' and not e.args and self.is_set(e.func.value):
                    return 'pop of a set'
                if a == 'join':
                    return self.it(e.args[0]) if e.args else None
                if a in ('iterdir', 'glob', 'rglob') and nm is None and not isinstance(e.func.value, ast.Name) or a in ('iterdir', 'rglob') and nm is None:
                    return '.' + a
                if a == 'format':
                    for x in args:
                        o = self.it(x)
                        if o:
                            return o
                    return None
                if a in ('copy', 'astype', 'tolist', 'split', 'strip', 'replace', 'index', 'get', 'items', 'values', 'keys', 'reshape'):
                    return self.order(e.func.value)
                if a in ('reindex', 'take', 'reorder_levels', 'set_axis', 'reindex_axis', 'assign', 'zfill', 'format_map'):
                    for x in args:
                        o = self.order(x)
                        if o:
                            return o
                    return self.order(e.func.value)
            f = self.an.target(e, self.fn)
            if f is not None:
                s = self.an.summary(f)
                if s and s != 'set':
                    return s
            return None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            for g in e.generators:
                if not self.exact(g):
                    o = self.it(g.iter)
                    if o:
                        return o
            return None
        if isinstance(e, ast.DictComp):
            for g in e.generators:
                o = self.it(g.iter)
                if o:
                    return o
            return None
        if isinstance(e, ast.Subscript):
            # an element or part of something in arbitrary order, or a selection by keys in arbitrary order
            return self.it(e.value) or self.order(e.slice)
        if isinstance(e, ast.BinOp):
            return self.order(e.left) or self.order(e.right) or (self.it(e.right) if isinstance(e.op, ast.Mod) else None)
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                o = self.it(x.value) if isinstance(x, ast.Starred) else self.order(x)
                if o:
                    return o
            return None
        if isinstance(e, ast.Dict):
            for x in e.values:
                o = self.order(x)
                if o:
                    return o
            return None
        if isinstance(e, ast.IfExp):
            return self.order(e.body) or self.order(e.orelse)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                o = self.order(x)
                if o:
                    return o
            return None
        if isinstance(e, ast.JoinedStr):
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    o = self.it(x.value)
                    if o:
                        return o
            return None
        if isinstance(e, (ast.Starred, ast.Await)):
            return self.it(e.value)
        if isinstance(e, ast.NamedExpr):
            return self.order(e.value)
        return None

    def it(self, e):
        """as order, but iterating: a set counts"""
        if self.is_set(e) and not self.small_set(e):
            return 'set order (%s)' % ast.unparse(e)[:40]
        return self.order(e)

    def small_set(self, e):
        return isinstance(e, ast.Set) and len(e.elts) == 1

    def step(self):
        for n in self.nodes:
            pairs = []
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    pairs.append((t, n.value))
            elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and n.value is not None:
                pairs.append((n.target, n.value))
            for t, v in pairs:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
                    sub = list(zip(t.elts, v.elts))
                elif isinstance(t, (ast.Tuple, ast.List)):
                    sub = [(x, v) for x in t.elts]
                else:
                    sub = [(t, v)]
                for x, w in sub:
                    if isinstance(x, (ast.Name, ast.Attribute)):
                        k = x.id if isinstance(x, ast.Name) else ast.unparse(x)
                        if self.is_set(w):
                            self.sets.add(k)
                        o = self.order(w)
                        if o:
                            self.unord.setdefault(k, o)
                    elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id not in self.params():
                        o = self.order(w)          # an element of a local container
                        if o:
                            self.unord.setdefault(x.value.id, o)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert') and \
                    isinstance(n.func.value, ast.Name) and n.args:
                o = self.order(n.args[-1])
                if o:
                    self.unord.setdefault(n.func.value.id, o)
            if isinstance(n, (ast.For, ast.AsyncFor)):
                o = self.it(n.iter)
                if o:
                    for x in ast.walk(n):
                        # containers filled in this order
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'insert'):
                            self.unord.setdefault(ast.unparse(x.func.value), o)
                        elif isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, (ast.Name, ast.Attribute)) and self.stringy(x):
                            self.unord.setdefault(ast.unparse(x.target), o)
                        elif isinstance(x, (ast.Assign,)):
                            for t in x.targets:
                                if isinstance(t, ast.Subscript) and isinstance(t.value, (ast.Name, ast.Attribute)):
                                    self.unord.setdefault(ast.unparse(t.value), o)

    def params(self):
        return self.fn.params if self.fn is not None else ()

    def stringy(self, x):
        return any(isinstance(y, (ast.Constant,)) and isinstance(y.value, str) or isinstance(y, (ast.List, ast.ListComp, ast.JoinedStr)) for y in ast.walk(x.value)) or \
            isinstance(x.value, ast.Name)

    def message(self, n):
        """is the expression only part of a message (print, warning, exception)?"""
        while n in self.par:
            p = self.par[n]
            if isinstance(p, ast.Raise):
                return True
            if isinstance(p, ast.Call) and self.name(p) in MSG:
                return True
            if isinstance(p, ast.stmt):
                return False
            n = p
        return False

    # ---------------------------------------------------------------- sinks
    def sinks(self):
        out = []
        for n in self.nodes:
            if isinstance(n, ast.Return) and n.value is not None:
                o = self.order(n.value)
                if o:
                    out.append((n, 'returned', o))
            elif isinstance(n, (ast.Yield, ast.YieldFrom)) and n.value is not None:
                o = self.order(n.value) or (self.it(n.value) if isinstance(n, ast.YieldFrom) else None)
                if o:
                    out.append((n, 'yielded', o))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, (ast.Subscript, ast.Attribute)):
                        o = self.order(n.value)
                        if o and ast.unparse(t) not in self.sorted_names and self.outlives(t):
                            out.append((n, 'stored', o))
            elif isinstance(n, (ast.For,)):
                o = self.it(n.iter)
                if o:
                    for x in ast.walk(n):
                        if isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, ast.Constant):
                            out.append((x, 'returned from a loop', o))
                        elif isinstance(x, ast.Break):
                            if self.break_matters(n, x):
                                out.append((x, 'first match taken', o))
                        elif isinstance(x, (ast.Yield, ast.YieldFrom)):
                            out.append((x, 'yielded', o))
                        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                            a = x.func.attr
                            if a in ('write', 'writelines') and self.name(x) not in MSG:
                                out.append((x, 'written', o))
                            elif a in ('append', 'extend', 'insert') and isinstance(x.func.value, ast.Attribute) and \
                                    ast.unparse(x.func.value) not in self.sorted_names and self.outlives(x.func.value):
                                out.append((x, 'stored', o))
                        elif isinstance(x, ast.Assign):
                            for t in x.targets:
                                if isinstance(t, (ast.Attribute,)) and self.outlives(t) or isinstance(t, ast.Subscript) and self.outlives(t):
                                    out.append((x, 'stored', o))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('write', 'writelines'):
                if self.name(n) in MSG:
                    continue
                for a in n.args:
                    o = self.order(a) or (self.it(a) if n.func.attr == 'writelines' else None)
                    if o:
                        out.append((n, 'written', o))
        return out

    def break_matters(self, loop, br):
        return any(isinstance(x, ast.Assign) for x in ast.walk(loop))

    def outlives(self, t):
        """does the store go to the object itself or to an argument (rather than to a local)?"""
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        return isinstance(t, ast.Name) and self.fn is not None and t.id in self.fn.params

    # ---------------------------------------------------------------- values that differ from run to run
    def values(self):
        out = []
        for n in self.nodes:
            what = kind = None
            if isinstance(n, ast.Call):
                nm = self.name(n)
                if nm:
                    if CLOCK.match(nm) and not (nm == 'pandas.to_datetime'):
                        if nm in ('time.strftime', 'time.asctime', 'time.ctime', 'time.localtime', 'time.gmtime') and self.formats_argument(n, nm):
                            continue
                        kind, what = 'clock', nm
                    elif RANDOM.match(nm):
                        kind, what = 'random', nm
                    elif HOST.match(nm):
                        kind, what = 'host', nm
                    elif nm in ('id', 'hash') and len(n.args) == 1 and not self.bound(nm):
                        kind, what = 'address', nm
                    elif nm in ('numpy.random.default_rng', 'numpy.random.RandomState') and (not n.args and not n.keywords):
                        kind, what = 'random', nm
                    elif nm in ('numpy.empty', 'numpy.empty_like', 'numpy.ndarray'):
                        continue
                    elif nm == 'pandas.to_datetime' and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value in ('now', 'today'):
                        kind, what = 'clock', nm
            elif isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load) and getattr(n, 'attr', getattr(n, 'id', '')) in ('environ', 'environb'):
                nm = ext(self.p, n, self.fn, self.mod)
                if nm in ('os.environ', 'os.environb'):
                    kind, what = 'host', nm
            if kind is None:
                continue
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Attribute, ast.Name)) and \
               ext(self.p, n.func.value, self.fn, self.mod) in ('os.environ',) and False:
                continue
            bad = self.reaches(n, kind, set())
            if bad:
                out.append((n, kind, what, bad))
            self.an.cnt['value_sources'] += 1
        return out

    def bound(self, nm):
        return any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store) for x in self.nodes)

    def formats_argument(self, n, nm):
        """time.strftime(fmt, t) formats its argument; only the argument matters"""
        return nm == 'time.strftime' and len(n.args) > 1 or nm != 'time.strftime' and len(n.args) >= 1

    def reaches(self, n, kind, seen):
        """where does the value end up? returns a description when that is a result"""
        x = n
        while x in self.par:
            p = self.par[x]
            if isinstance(p, ast.Raise):
                return None
            if isinstance(p, ast.Call):
                nm = self.name(p)
                if nm in MSG:
                    return None
                if kind == 'clock' and p is not x and x is not p.func and \
                   (isinstance(p.func, ast.Attribute) and p.func.attr in ('format', 'strftime', 'isoformat', 'ctime') or nm in ('str', 'format', 'repr', 'time.strftime', 'time.asctime')):
                    return None
                if kind == 'clock' and x is p.func and isinstance(x, ast.Attribute) and x.attr in ('strftime', 'isoformat', 'ctime', '__str__', '__format__'):
                    return None
                if kind == 'address' and nm in ('set', 'frozenset'):
                    pass
            if kind == 'clock' and isinstance(p, (ast.JoinedStr, ast.FormattedValue)):
                return None
            if kind == 'clock' and isinstance(p, ast.BinOp) and isinstance(p.op, ast.Mod) and isinstance(p.left, (ast.Constant, ast.JoinedStr)):
                return None
            if kind == 'address' and isinstance(p, ast.Compare) and all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is)) for o in p.ops):
                return None
            if isinstance(p, ast.Expr):
                return None
            if isinstance(p, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and (isinstance(p, ast.NamedExpr) or x is p.value):
                tg = p.targets if isinstance(p, ast.Assign) else [p.target]
                for t in tg:
                    for y in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if not isinstance(y, ast.Name):
                            return 'stored in ' + ast.unparse(y)
                        if y.id in seen:
                            continue
                        seen.add(y.id)
                        for u in self.nodes:
                            if isinstance(u, ast.Name) and u.id == y.id and isinstance(u.ctx, ast.Load):
                                r = self.reaches(u, kind, seen)
                                if r:
                                    return r
                if not isinstance(p, ast.NamedExpr):
                    return None
            if isinstance(p, ast.Return):
                return 'returned'
            if isinstance(p, (ast.If, ast.While, ast.IfExp)) and x is p.test:
                body = p.body if isinstance(p.body, list) else [p.body]
                if not isinstance(p, ast.IfExp) and all(self.only_message(s) for s in body):
                    return None
                return 'decides a branch'
            if isinstance(p, (ast.For, ast.comprehension)):
                return 'iterated over'
            if isinstance(p, ast.Assert):
                return None
            if isinstance(p, ast.stmt):
                return 'used in ' + type(p).__name__.lower()
            x = p
        return None

    def only_message(self, s):
        return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and self.name(s.value) in MSG or isinstance(s, ast.Pass)


class Analysis:
    def __init__(self, proj):
        self.p = proj
        self.og = Origin(proj)
        self.fns, self.sums = {}, {}
        self.cnt = dict(functions=0, order_sources=0, value_sources=0, loops=0)

    def get(self, fn):
        if fn.key not in self.fns:
            self.fns[fn.key] = Fn(self, fn, fn.mod, fn.node)
        return self.fns[fn.key]

    def target(self, call, fn):
        if fn is None:
            return None
        return self.og.target(call, fn)

    def summary(self, f):
        """None, 'set', or the source of the arbitrary order of what f returns"""
        if f.key in self.sums:
            return self.sums[f.key]
        self.sums[f.key] = None
        a = self.get(f)
        r = None
        for n in a.nodes:
            if isinstance(n, ast.Return) and n.value is not None:
                if a.is_set(n.value):
                    r = r or 'set'
                elif a.order(n.value):
                    r = a.order(n.value)
        self.sums[f.key] = r
        return r


def check(proj, tier):
    an = Analysis(proj)
    fs = []
    for m in proj.mods.values():
        scopes = [Fn(an, None, m, m.tree)] + [an.get(f) for f in m.funcs]
        for a in scopes:
            where = a.fn.qual if a.fn else '<module>'
            an.cnt['functions'] += a.fn is not None
            an.cnt['loops'] += sum(isinstance(n, (ast.For, ast.comprehension)) for n in a.nodes)
            an.cnt['order_sources'] += sum(isinstance(n, (ast.Set, ast.SetComp)) or isinstance(n, ast.Call) and a.name(n) in LISTING | {'set', 'frozenset'} for n in a.nodes)
            if a.fn is not None and any(EXTERNAL_RUN.search(q) for q in a.fn.qual.split('.')):
                continue
            for n, how, o in a.sinks():
                if main_guarded(m, n):
                    continue
                fs.append(Finding('order', m.rel, where, '%s %s' % (o, how), n.lineno, 'a value in arbitrary order (%s) is %s' % (o, how)))
            for n, kind, what, how in a.values():
                if main_guarded(m, n):
                    continue
                fs.append(Finding('value', m.rel, where, '%s %s' % (what, how), n.lineno, '%s (%s) is %s' % (what, kind, how)))
    return Result(fs, RULE, an.cnt, assumptions=['dictionaries keep insertion order', 'relative paths refer to the working directory',
                                                 'third-party parsers are deterministic'], minimum=dict(functions=200, loops=200))


def main_guarded(m, n):
    return any(isinstance(s, ast.If) and s.lineno <= n.lineno <= s.end_lineno and is_main_guard(s.test) for s in m.tree.body)
