"""operators whose operands have types for which Python defines no such operation, whatever the input (text + number, text + tuple, text < number)"""
import ast
import builtins
from .model import walk_own

TEXT_METHODS = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'capitalize', 'title', 'zfill', 'ljust', 'rjust', 'swapcase'}
STR_FUNCS = {'str', 'repr', 'chr', 'ascii', 'hex', 'bin', 'oct'}
PATH_STR = {'basename', 'dirname', 'join', 'abspath', 'normpath', 'realpath', 'relpath', 'expanduser'}
NUM_FUNCS = {'len': 'int', 'int': 'int', 'float': 'float', 'ord': 'int', 'id': 'int'}
CONT_FUNCS = {'list': 'list', 'dict': 'dict', 'set': 'set', 'tuple': 'tuple', 'sorted': 'list', 'range': 'range', 'enumerate': 'enumerate', 'zip': 'zip'}
NUMS = {'int', 'float'}
KNOWN = NUMS | {'str', 'list', 'dict', 'set', 'tuple', 'None', 'exception', 'range', 'enumerate', 'zip'}


class Types:
    def __init__(self, fn):
        self.fn = fn
        self.binds = {}
        a = fn.node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.outer = set()
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.binds.setdefault(n.id, []).append(None)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.outer |= set(n.names)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not fn.node:
                self.binds.setdefault(n.name, []).extend([None, None])
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    self.binds.setdefault((x.asname or x.name).split('.')[0], []).extend([None, None])
        self.value = {}
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.value.setdefault(t.id, []).append(('e', n.value))
            elif isinstance(n, (ast.For, ast.comprehension)):
                it, t = n.iter, n.target
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and isinstance(t, ast.Tuple) and t.elts and isinstance(t.elts[0], ast.Name):
                    self.value.setdefault(t.elts[0].id, []).append(('t', 'int'))
                elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and isinstance(t, ast.Name):
                    self.value.setdefault(t.id, []).append(('t', 'int'))
        for n in walk_own(fn.node):
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.binds.setdefault(n.name, []).append(None)
                self.value.setdefault(n.name, []).append(('t', 'exception') if self.builtin_only(n) else ('t', 'raised'))

    @staticmethod
    def builtin_only(h):
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else []
        cs = [getattr(builtins, x.id, None) if isinstance(x, ast.Name) else None for x in ts]
        return bool(cs) and all(isinstance(c, type) and issubclass(c, BaseException) for c in cs)

    def shadowed(self, name):
        return name in self.params or name in self.binds or name in self.outer

    def name(self, n, d):
        if n in self.params or n in self.outer or n not in self.binds:
            return None
        vs = self.value.get(n, [])
        if not vs or len(vs) != len(self.binds[n]):
            return None
        ts = {v if k == 't' else self.of(v, d + 1) for k, v in vs}
        return ts.pop() if len(ts) == 1 else None

    def of(self, e, d=0):
        if d > 6:
            return None
        if isinstance(e, ast.Constant):
            v = e.value
            return 'None' if v is None else {str: 'str', int: 'int', float: 'float'}.get(type(v))
        if isinstance(e, ast.JoinedStr):
            return 'str'
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(e, ast.Tuple):
            return 'tuple'
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(e, (ast.Set, ast.SetComp)):
            return 'set'
        if isinstance(e, ast.Name):
            return self.name(e.id, d) if isinstance(e.ctx, ast.Load) else None
        if isinstance(e, ast.Attribute):
            if e.attr == 'args' and self.of(e.value, d + 1) in ('exception', 'raised'):
                return 'tuple'
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.of(e.body, d + 1), self.of(e.orelse, d + 1)
            return a if a == b else None
        if isinstance(e, ast.BinOp):
            a, b = self.of(e.left, d + 1), self.of(e.right, d + 1)
            if isinstance(e.op, ast.Mod) and a == 'str':
                return 'str'
            if isinstance(e.op, ast.Add) and a == b and a in ('str', 'list', 'tuple'):
                return a
            if a in NUMS and b in NUMS and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
                return 'int' if a == b == 'int' else 'float'
            if isinstance(e.op, ast.Mult) and {a, b} <= {'str', 'int'} and 'str' in (a, b) and a != b:
                return 'str'
            return None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and not self.shadowed(f.id) and f.id in self.fn.mod_names_free:
                if f.id in STR_FUNCS:
                    return 'str'
                return NUM_FUNCS.get(f.id) or CONT_FUNCS.get(f.id)
            if isinstance(f, ast.Attribute):
                if f.attr in ('format', 'join') and self.of(f.value, d + 1) == 'str':
                    return 'str'
                if f.attr == 'split' and self.of(f.value, d + 1) == 'str':
                    return 'list'
                if f.attr in TEXT_METHODS and self.of(f.value, d + 1) == 'str':
                    return 'str'
                if f.attr in PATH_STR and isinstance(f.value, ast.Attribute) and f.value.attr == 'path' and isinstance(f.value.value, ast.Name) and f.value.value.id == 'os':
                    return 'str'
            return None
        if isinstance(e, ast.Subscript):
            b = self.of(e.value, d + 1)
            return 'str' if b == 'str' else None
        return None


ORDER = (ast.Lt, ast.LtE, ast.Gt, ast.GtE)


def wrong(op, a, b):
    """does the operator fail for operands of these types?"""
    if a not in KNOWN or b not in KNOWN:
        # one side is enough for some operators
        if isinstance(op, (ast.Sub, ast.Div, ast.FloorDiv, ast.Pow)) and ('None' in (a, b) or a in ('list', 'tuple', 'dict', 'exception') and b in KNOWN):
            return True
        return False
    if isinstance(op, ast.Add):
        if a in NUMS and b in NUMS or a == b and a in ('str', 'list', 'tuple'):
            return False
        return True
    if isinstance(op, (ast.Sub, ast.Div, ast.FloorDiv, ast.Pow)):
        if a in NUMS and b in NUMS or isinstance(op, ast.Sub) and a == b == 'set':
            return False
        return True
    if isinstance(op, ast.Mult):
        if a in NUMS and b in NUMS or {a, b} & {'int'} and {a, b} & {'str', 'list', 'tuple'}:
            return False
        return True
    if isinstance(op, ORDER):
        if a in NUMS and b in NUMS or a == b and a in ('str', 'list', 'tuple', 'set'):
            return False
        return True
    return False


def caught(node, parents):
    """inside a try whose handlers take the TypeError"""
    while node in parents:
        up = parents[node]
        if isinstance(up, ast.Try) and node in up.body:
            for h in up.handlers:
                ns = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} if h.type is not None else {'Exception'}
                if ns & {'Exception', 'BaseException', 'TypeError'}:
                    return True
        node = up
    return False


def check_operators(proj):
    out, n = [], 0
    for fn in proj.funcs.values():
        sc = {b for m in (fn.mod,) for b in module_names(m)}
        fn.mod_names_free = {x for x in STR_FUNCS | set(NUM_FUNCS) | set(CONT_FUNCS) if x not in sc}
        ty = None
        for x in walk_own(fn.node):
            pairs = []
            if isinstance(x, ast.BinOp):
                pairs = [(x.op, x.left, x.right)]
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                continue            # the name itself is bound here
            elif isinstance(x, ast.Compare):
                ls = [x.left] + x.comparators
                pairs = [(o, ls[i], ls[i + 1]) for i, o in enumerate(x.ops) if isinstance(o, ORDER)]
            for op, l, r in pairs:
                ty = ty or Types(fn)
                a, b = ty.of(l), ty.of(r)
                if a is None or b is None:
                    continue
                n += 1
                if wrong(op, a, b):
                    parents = {c: p for p in ast.walk(fn.node) for c in ast.iter_child_nodes(p)}
                    if caught(x, parents):
                        continue
                    out.append(('operand-types', fn.mod, fn.qual, ast.unparse(x)[:80], x.lineno,
                                'the operands of %s are a %s and a %s, for which the operation is not defined' % (ast.unparse(x)[:80], a, b)))
    return out, dict(operators_typed=n)


def module_names(m):
    names = getattr(m, '_optypes_names', None)
    if names is None:
        names = {n.id for n in ast.walk(m.tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        names |= {n.name for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)) and not (isinstance(n, ast.ImportFrom) and n.module == 'builtins'):
                names |= {(x.asname or x.name) for x in n.names}
        m._optypes_names = names
    return names


# ---------------------------------------------------------------- error branches that can never be taken
def lower_bound(e):
    """a constant below which the value of an expression never is"""
    if isinstance(e, ast.Call):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        if n in ('len', 'abs', 'getsize', 'count', 'fabs'):
            return 0
        if n in ('find', 'rfind') and isinstance(f, ast.Attribute):
            return -1
    if isinstance(e, ast.Attribute) and e.attr in ('size', 'st_size', 'ndim'):
        return 0
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape':
        return 0
    return None


def num(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = num(e.operand)
        return None if v is None else -v
    return e.value if isinstance(e, ast.Constant) and type(e.value) in (int, float) else None


FLIP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq}


def impossible(test):
    """why a condition never holds, or None"""
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or):
        rs = [impossible(v) for v in test.values]
        return rs[0] if all(rs) else None
    vs = test.values if isinstance(test, ast.BoolOp) else [test]
    lo, hi = {}, {}
    for v in vs:
        if isinstance(v, ast.BoolOp):
            r = impossible(v)
            if r:
                return r
        if not isinstance(v, ast.Compare) or len(v.ops) != 1:
            continue
        l, r, op = v.left, v.comparators[0], type(v.ops[0])
        if num(r) is None and num(l) is not None and op in FLIP:
            l, r, op = r, l, FLIP[op]
        c = num(r)
        if c is None:
            continue
        b = lower_bound(l)
        if b is not None and (op is ast.Lt and c <= b or op in (ast.LtE, ast.Eq) and c < b):
            return '%s is never less than %d' % (ast.unparse(l), b)
        if any(isinstance(x, ast.Call) for x in ast.walk(l)):
            continue
        k = ast.unparse(l)
        if op in (ast.Gt, ast.GtE, ast.Eq):
            lo[k] = max(lo.get(k, (c, False)), (c, op is ast.Gt))
        if op in (ast.Lt, ast.LtE, ast.Eq):
            hi[k] = min(hi.get(k, (c, True)), (c, op is not ast.Lt))
    for k in set(lo) & set(hi):
        if lo[k][0] > hi[k][0] or lo[k][0] == hi[k][0] and (lo[k][1] or not hi[k][1]):
            return '%s cannot be on both sides' % k
    return None


def check_error_branches(proj):
    out, n = [], 0
    for fn in proj.funcs.values():
        for x in walk_own(fn.node):
            if isinstance(x, ast.If) and any(isinstance(y, ast.Raise) for y in x.body):
                n += 1
                why = impossible(x.test)
                if why:
                    e = next(y for y in x.body if isinstance(y, ast.Raise)).exc
                    e = e.func if isinstance(e, ast.Call) else e
                    # (the key does not depend on how the variables of the condition are called)
                    out.append(('dead-error-branch', fn.mod, fn.qual, ast.unparse(e) if e else 'raise', x.lineno,
                                'the error raised when %s is never raised: %s' % (ast.unparse(x.test)[:80], why)))
    return out, dict(error_branches=n)


# ---------------------------------------------------------------- truth value of arrays
NP_MANY = {'linspace', 'arange', 'loadtxt', 'genfromtxt', 'fromfile', 'frombuffer', 'column_stack', 'vstack', 'hstack', 'concatenate', 'fromstring'}
NP_ARR = {'array', 'asarray', 'zeros', 'ones', 'empty', 'full'}
NP_MAP = {'abs', 'sqrt', 'sin', 'cos', 'isnan', 'log', 'exp', 'cumsum', 'diff', 'transpose', 'flip', 'copy', 'nan_to_num', 'logical_not'}


class Arrays:
    """expressions whose value is, as far as the source says, an array with a number of elements given by the input"""
    def __init__(self, fn, proj=None, cls=None, attrs=None):
        self.fn, self.proj, self.cls = fn, proj, cls
        self.attrs = {} if attrs is None else attrs
        self.ty = Types(fn)
        self.pd = {(x.asname or x.name) for n in ast.walk(fn.mod.tree) if isinstance(n, ast.Import) for x in n.names if x.name == 'pandas'}
        self.np = {(x.asname or x.name) for n in ast.walk(fn.mod.tree) if isinstance(n, ast.Import) for x in n.names if x.name == 'numpy'}
        self.parents = {c: p for p in ast.walk(fn.node) for c in ast.iter_child_nodes(p)}

    def array(self, e, d=0, at=None):
        at = at or e
        if d > 5:
            return False
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Name) and e.func.value.id in self.np and e.args:
                n, a = e.func.attr, e.args[0]
                if n in ('fromfile', 'frombuffer', 'fromstring'):
                    return len(e.args) < 3 and all(k.arg not in ('count',) for k in e.keywords)
                if n in NP_MANY:
                    return True
                if n in NP_ARR:
                    if n in ('array', 'asarray'):
                        return isinstance(a, ast.ListComp) or isinstance(a, (ast.List, ast.Tuple)) and len(a.elts) > 1 or self.array(a, d + 1, at)
                    if isinstance(a, (ast.Tuple, ast.List)):
                        return bool(a.elts) and not all(num(x) == 1 for x in a.elts)
                    return num(a) is None or num(a) > 1
                if n in NP_MAP and len(e.args) == 1:
                    return self.array(a, d + 1, at)
            if isinstance(e.func.value, ast.Name) and e.func.value.id in self.pd and not self.ty.shadowed(e.func.value.id):
                if e.func.attr == 'read_csv':
                    return not any(k.arg in ('chunksize', 'iterator') for k in e.keywords)
                return e.func.attr in ('DataFrame', 'Series', 'read_parquet')
            if e.func.attr in ('astype', 'copy', 'transpose') and self.array(e.func.value, d + 1, at):
                return True
            return False
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.MatMult) or self.ty.of(e.left) == 'str':
                return False
            return self.array(e.left, d + 1, at) or self.array(e.right, d + 1, at)
        if isinstance(e, ast.UnaryOp) and not isinstance(e.op, ast.Not):
            return self.array(e.operand, d + 1, at)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ORDER + (ast.Eq, ast.NotEq)):
            l, r = e.left, e.comparators[0]
            return self.array(l, d + 1, at) or self.array(r, d + 1, at)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and self.cls is not None and self.fn.is_method and self.fn.params and e.value.id == self.fn.params[0] and \
                self.fn.name not in ('__init__', '_reset'):
            return self.attribute(e.attr)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str) and isinstance(e.value, ast.Name) and self.cls is not None and \
                self.fn.is_method and self.fn.params and e.value.id == self.fn.params[0] and self.fn.name not in ('__init__', '_reset'):
            return self.attribute(e.slice.value, True)
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            ty, n = self.ty, e.id
            if n in ty.params or n in ty.outer or n not in ty.binds:
                return False
            vs = ty.value.get(n, [])
            if not vs or len(vs) != len(ty.binds[n]) or any(k == 't' for k, _ in vs):
                return False
            some = False
            for _, v in vs:
                if isinstance(v, ast.Constant) and v.value is None:
                    continue
                if not self.array(v, d + 1, v):
                    return False
                some |= self.reaches(v, at)
            return some
        return False

    def attribute(self, name, item=False):
        """is every value that the methods of the class (its bases and subclasses) give to an attribute (or entry) an array, a data frame, or None?"""
        k = (self.cls.key, name, item, self.fn.key)
        if k in self.attrs:
            return self.attrs[k]
        self.attrs[k] = False

        def target(t):
            if item:
                return isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == name
            return isinstance(t, ast.Attribute) and t.attr == name
        fam = list(self.proj.mro(self.cls)) + [c for c in self.proj.classes.values() if self.cls in self.proj.mro(c)]
        fam = {c.key: c for c in fam}
        vals, ok = [], True
        for b in fam.values():
            if name in b.methods and not item:
                return False
            for st in b.node.body:
                if not item and isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                    ok &= isinstance(st.value, ast.Constant) and st.value.value is None
            for m in b.methods.values():
                me = m.params[0] if m.params else None
                simple = set()
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if target(t):
                                simple.add(t)
                                mine = isinstance(t.value, ast.Name) and t.value.id == me
                                if mine or not item:
                                    vals.append((m, b, n.value, mine))
                for n in ast.walk(m.node):
                    if target(n) and isinstance(n.ctx, (ast.Store, ast.Del)) and n not in simple:
                        ok = False
        if not ok or not vals:
            return False
        # assigned from outside of the class
        for f in self.proj.funcs.values():
            if not item and (f.cls is None or f.cls.key not in fam):
                for n in ast.walk(f.node):
                    if target(n) and isinstance(n.ctx, ast.Store) and not (f.cls is not None and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0]):
                        return False
        some = False
        for m, b, v, mine in vals:
            if not mine:
                return False
            if isinstance(v, ast.Constant) and v.value is None or isinstance(v, (ast.List, ast.Dict)) and not ast.unparse(v)[1:-1]:
                if m is self.fn:
                    return False            # (set and asked in one method: depends on the path)
                continue
            if not Arrays(m, self.proj, None, self.attrs).array(v):
                return False
            some = True
        self.attrs[k] = some
        return some

    def chain(self, x):
        out = [x]
        while x in self.parents:
            x = self.parents[x]
            out.append(x)
        return out

    def reaches(self, v, at):
        """can the value bound at v still be there at `at`?"""
        a, b = self.chain(v), self.chain(at)
        common = [x for x in a if x in b]
        if any(isinstance(x, (ast.For, ast.While)) for x in common) or not common:
            return True
        if v.lineno > at.lineno:
            return False
        top = common[0]
        if isinstance(top, ast.If):
            i, j = a.index(top), b.index(top)
            if i and j and (a[i - 1] in top.body) != (b[j - 1] in top.body):
                return False
        return True


def truth_tests(fn):
    for x in walk_own(fn.node):
        if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            yield from leaves(x.test)
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            yield from leaves(x.operand)


def leaves(e):
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            yield from leaves(v)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        pass                                       # met on its own
    else:
        yield e


def check_array_truth(proj):
    out, n, seen, attrs = [], 0, set(), {}
    for fn in proj.funcs.values():
        ar = None
        for e in truth_tests(fn):
            if id(e) in seen:
                continue
            seen.add(id(e))
            n += 1
            ar = ar or Arrays(fn, proj, fn.cls, attrs)
            hit = None
            if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
                r = e.comparators[0]
                if isinstance(r, (ast.List, ast.Tuple)):
                    hit = next((x for x in r.elts if ar.array(x)), None)
            elif ar.array(e):
                hit = e
            if hit is not None and not any_handler(e, ar.parents):
                out.append(('array-truth', fn.mod, fn.qual, ast.unparse(e)[:80], e.lineno,
                            'the truth value of %s is asked, but %s is an array of several elements, which has none (ValueError)' % (ast.unparse(e)[:80], ast.unparse(hit)[:60])))
    return out, dict(truth_tests=n)


def any_handler(node, parents):
    while node in parents:
        up = parents[node]
        if isinstance(up, ast.Try) and node in up.body:
            for h in up.handlers:
                ns = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} if h.type is not None else {'Exception'}
                if ns & {'Exception', 'BaseException', 'ValueError'}:
                    return True
        node = up
    return False
