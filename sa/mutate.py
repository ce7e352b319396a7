"""Alias and mutation analysis.

Every function (in the context of the class of its receiver) gets a summary: which objects it may change in place, in terms of its
parameters, module variables, class attributes, and what its result may share memory with. A value is described by three levels of
labels: the object itself, what it contains, and everything deeper. A label 'p:x#k' is level k of parameter x. Values without labels
are new or immutable. Names are tracked flow-sensitively; unknown third-party calls are taken to return new objects and to change nothing.
"""
import ast
from .callgraph import Graph, COMMON

E = frozenset()
IMM = {'num', 'str', 'bool', 'none', 'func', 'file', 'tuple0', 'size'}


class V:
    """l0: the object itself, l1: what it contains, l2: deeper; bf: array memory shared by the data frames in it; t: kind of value"""
    __slots__ = ('l0', 'l1', 'l2', 't', 'bf')

    def __init__(self, l0=E, l1=E, l2=E, t=None, bf=E):
        if t in IMM:
            l0 = l1 = l2 = bf = E
        self.l0, self.l1, self.l2, self.t, self.bf = l0, l1, l2, t, bf

    def __eq__(self, o):
        return (self.l0, self.l1, self.l2, self.t, self.bf) == (o.l0, o.l1, o.l2, o.t, o.bf)

    def __hash__(self):
        return hash((self.l0, self.l1, self.l2, self.t, self.bf))

    def join(self, o):
        if o is None or o == self:
            return self
        t = self.t if self.t == o.t else (o.t if self.t in ('none',) else self.t if o.t in ('none',) else None)
        if t in IMM:
            t = None
        return V(self.l0 | o.l0, self.l1 | o.l1, self.l2 | o.l2, t, self.bf | o.bf)

    def elem(self, t=None):
        return V(self.l1, self.l2, self.l2, t, self.bf)

    def copy1(self, t=None):
        """new container, same contents"""
        return V(E, self.l1, self.l2, t or self.t, self.bf)

    def wrap(self, t='list'):
        """a new container that contains this value"""
        return V(E, self.l0, self.l1 | self.l2, t, self.bf)

    def typed(self, t):
        return V(self.l0, self.l1, self.l2, t, self.bf)

    def all(self):
        return self.l0 | self.l1 | self.l2

    def mem(self):
        return self.l0 | self.l1 | self.l2 | self.bf

    def __repr__(self):
        return 'V(%s|%s|%s:%s %s)' % (','.join(sorted(self.l0)), ','.join(sorted(self.l1)), ','.join(sorted(self.l2)), self.t, ','.join(sorted(self.bf)))


NEW = V()
NUM, STR, BOOL, NONEV, SIZE = V(t='num'), V(t='str'), V(t='bool'), V(t='none'), V(t='size')


class Mut:
    """one in-place change"""
    __slots__ = ('label', 'what', 'attr', 'fn', 'line', 'chain', 'val')

    def __init__(self, label, what, attr, fn, line, chain=(), val=None):
        self.label, self.what, self.attr, self.fn, self.line, self.chain = label, what, attr, fn, line, chain
        self.val = val          # 'size': the value stored is the size of a table; ('p', name): it is the parameter

    @property
    def key(self):
        return (self.label, self.what, self.attr, self.fn.key, self.val)


class Summary:
    def __init__(self):
        self.muts = {}
        self.ret = None
        self.stores = {}          # attribute/key of self -> V (labels of this function's parameters)


MUTATORS = set('append extend insert remove clear sort reverse update setdefault popitem add discard pop fill resize put itemset setflags partition '
               'difference_update intersection_update symmetric_difference_update appendleft popleft extendleft rotate move_to_end __setitem__ __delitem__ '
               '__setattr__ __delattr__ __iadd__'.split())
LISTONLY = {'append', 'extend', 'appendleft', 'popleft'}
NP_ALIAS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'squeeze', 'transpose',
            'swapaxes', 'moveaxis', 'rollaxis', 'broadcast_to', 'expand_dims', 'flip', 'fliplr', 'flipud', 'rot90', 'real', 'imag', 'diagonal', 'asmatrix'}
NP_PARTS = {'split', 'array_split', 'hsplit', 'vsplit', 'dsplit', 'broadcast_arrays', 'nditer'}
NP_INPLACE0 = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'random.shuffle'}
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view', 'to_numpy', 'diagonal', '__getitem__', '__array__'}
NEW_METHODS_STR = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'format', 'join', 'decode', 'encode', 'title', 'ljust', 'rjust', 'center', 'zfill', 'read',
                   'readline', 'hex', 'capitalize', 'strftime', 'to_string'}
NEW_METHODS_LIST = {'split', 'splitlines', 'rsplit', 'tolist', 'to_list', 'readlines', 'findall'}
NEW_METHODS_NUM = {'find', 'rfind', 'index', 'count', 'tell', 'startswith', 'endswith', 'isdigit', 'item', 'any', 'all'}
VIEW_ATTRS = {'T', 'values', 'flat', 'real', 'imag', 'iloc', 'loc', 'at', 'iat', 'array', 'base', 'flags'}


class Engine:
    def __init__(self, proj):
        self.p = proj
        self.g = Graph(proj)
        self.types = {}
        self.sums = {}
        self.active = set()
        self.inst = {}
        self.infer_types()

    def infer_types(self):
        """one pass over all functions to learn what is stored in the attributes and keys of each class"""
        self.sums = {}
        for c in self.p.classes.values():
            for b in self.p.mro(c):
                for m in b.methods.values():
                    if self.p.method(c, m.name) is m:
                        self.summary(m, c)
        self.sums = {}

    def note_type(self, cls, key, t):
        if cls is not None:
            self.types.setdefault((cls.key, key), set()).add(t)

    def attr_type(self, cls, key):
        ts = set()
        for c in self.p.mro(cls):
            ts |= self.types.get((c.key, key), set())
        for c in self.p.subclasses(cls):
            ts |= self.types.get((c.key, key), set())
        ts -= {None, 'none'}
        if len(ts) == 1:
            t = next(iter(ts))
            return t
        return None

    def summary(self, fn, cls):
        k = (fn.key, cls.key if cls else None)
        if k in self.sums:
            return self.sums[k]
        if k in self.active or len(self.active) > 60:
            return Summary()
        self.active.add(k)
        try:
            s = Run(self, fn, cls).go()
        finally:
            self.active.discard(k)
        self.sums[k] = s
        return s

    def instance_attr(self, cls, attr):
        """is the attribute set on the instance when it is constructed or read (so that a class attribute of the same name is not shared)?"""
        k = (cls.key, attr)
        if k not in self.inst:
            self.inst[k] = any(m is not None and attr in self.must_assign(m, cls, ()) for m in (self.p.method(cls, n) for n in ('__init__', 'read', '_read')))
        return self.inst[k]

    def must_assign(self, m, cls, active):
        """attributes that every normal path through the method sets on the instance"""
        if m.key in active or not m.params or len(active) > 8:
            return set()
        me = m.params[0]
        active = active + (m.key,)

        def targets(t):
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                return {t.attr}
            if isinstance(t, (ast.Tuple, ast.List)):
                return set().union(*[targets(x) for x in t.elts]) if t.elts else set()
            return set()

        def calls(e):
            out = set()
            for n in ast.walk(e):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    f = n.func
                    x = None
                    if isinstance(f.value, ast.Name) and f.value.id == me:
                        x = self.p.method(cls, f.attr)
                    elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                        x = self.p.method(cls, f.attr, after=m.cls)
                    elif isinstance(f.value, ast.Name) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                        for c in self.p.mro(cls):
                            if c.name == f.value.id and f.attr in c.methods:
                                x = c.methods[f.attr]
                    if x is not None:
                        out |= self.must_assign(x, cls, active)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and \
                        isinstance(n.args[0], ast.Name) and n.args[0].id == me and isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
            return out

        def block(body):
            out = set()
            for s in body:
                if isinstance(s, (ast.Return, ast.Raise)):
                    return None if isinstance(s, ast.Raise) else out
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    if s.value is not None:
                        out |= calls(s.value)
                        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                            out |= targets(t)
                elif isinstance(s, ast.Expr):
                    out |= calls(s.value)
                elif isinstance(s, ast.If):
                    x, y = block(s.body), block(s.orelse)
                    if x is None and y is None:
                        return None
                    out |= y if x is None else x if y is None else x & y
                elif isinstance(s, ast.With):
                    x = block(s.body)
                    if x is None:
                        return None
                    out |= x
                elif isinstance(s, ast.Try):
                    x = block(s.body + s.orelse)
                    hs = [block(h.body) for h in s.handlers]
                    hs = [h for h in hs if h is not None] + ([x] if x is not None else [])
                    if hs:
                        out |= set.intersection(*hs)
                    out |= block(s.finalbody) or set()
            return out
        return block(m.node.body) or set()


def mutable_literal(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        isinstance(e, ast.Call) and not (isinstance(e.func, ast.Name) and e.func.id in ('int', 'float', 'str', 'tuple', 'frozenset', 'bool', 'len', 'property', 'staticmethod', 'type', 'range')) \
        and not (isinstance(e.func, ast.Attribute) and e.func.attr in ('compile', 'join', 'format', 'split', 'namedtuple'))


class Run:
    """analysis of one function in one class context"""
    def __init__(self, eng, fn, cls):
        self.e, self.p, self.fn, self.cls = eng, eng.p, fn, cls
        self.s = Summary()
        self.breaks, self.conts = [], []
        self.depth = 0
        self.top = fn

    # ------------------------------------------------------------------ entry
    def go(self):
        fn = self.fn
        env = {}
        for i, a in enumerate(fn.params + fn.kwonly + [x for x in (fn.vararg, fn.kwarg) if x]):
            t = None
            if i == 0 and fn.is_method and not fn.is_static and fn.parent is None:
                t = 'obj:' + (self.cls or fn.cls).key
                if fn.is_classmethod:
                    env[a] = V(frozenset(['C:' + (self.cls or fn.cls).key + '#0']), E, E, 'class')
                    continue
            v = V(frozenset(['p:%s#0' % a]), frozenset(['p:%s#1' % a]), frozenset(['p:%s#2' % a]), t, frozenset(['p:%s#b' % a]))
            if a == fn.kwarg:
                v = V(E, frozenset(['p:%s#1' % a]), frozenset(['p:%s#2' % a]), 'dict')
            elif a == fn.vararg:
                v = V(E, frozenset(['p:%s#1' % a]), frozenset(['p:%s#2' % a]), 'tuple')
            env[a] = v
        self.selfname = fn.params[0] if fn.is_method and not fn.is_static and fn.parent is None and fn.params else None
        self.block(fn.node.body, env)
        return self.s

    # ------------------------------------------------------------------ recording
    def mut(self, labels, what, node, attr=None, fn=None, chain=(), value=None):
        val = None
        if value is not None:
            if value.t == 'size':
                val = 'size'
            else:
                ps = [l for l in value.l0 if l.startswith('p:') and l.endswith('#0')]
                if len(value.l0) == 1 and ps:
                    val = ('p', ps[0][2:-2])
        for l in labels:
            m = Mut(l, what, attr, fn or self.fn, getattr(node, 'lineno', 0), chain, val)
            if len(self.s.muts) < 400:
                self.s.muts.setdefault(m.key, m)

    # ------------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def joinenv(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b:
                out[k] = a[k].join(b[k])
            else:
                v = a.get(k) or b.get(k)
                if '[' in k and not k.startswith('self'):
                    continue
                if k.startswith('self'):
                    v = v.join(self.selfdefault(k))
                out[k] = v
        return out

    def selfdefault(self, k):
        c = self.cls or self.fn.cls
        t = self.e.attr_type(c, k) if c is not None else None
        s = self.selfname
        return V(frozenset(['p:%s#1' % s]), frozenset(['p:%s#2' % s]), frozenset(['p:%s#2' % s]), t)

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s.value)
        elif isinstance(s, ast.AugAssign):
            self.augassign(s, env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value is not None else NONEV
            self.s.ret = v if self.s.ret is None else self.s.ret.join(v)
            return None
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, env)
            return None
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            self.refine(s.test, a, True)
            self.refine(s.test, b, False)
            return self.joinenv(self.block(s.body, a), self.block(s.orelse, b))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.ev(s.iter, env)
            return self.loop(s, env, lambda e: self.iter_assign(s.target, s.iter, e))
        elif isinstance(s, ast.While):
            return self.loop(s, env, lambda e: self.ev(s.test, e))
        elif isinstance(s, ast.Break):
            if self.breaks:
                self.breaks[-1].append(dict(env))
            return None
        elif isinstance(s, ast.Continue):
            if self.conts:
                self.conts[-1].append(dict(env))
            return None
        elif isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, None)
            return self.block(s.body, env)
        elif isinstance(s, ast.Try):
            before = dict(env)
            after = self.block(s.body, dict(env))
            mid = self.joinenv(before, after)
            # everything assigned in the body may or may not have happened
            outs = [self.block(s.orelse, dict(after)) if after is not None else None]
            for h in s.handlers:
                e = dict(mid)
                if h.name:
                    e[h.name] = NEW
                outs.append(self.block(h.body, e))
            r = None
            for o in outs:
                r = self.joinenv(r, o)
            if s.finalbody:
                if r is None:
                    self.block(s.finalbody, dict(mid))
                    return None
                return self.block(s.finalbody, r)
            return r
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    b = self.ev(t.value, env)
                    self.ev(t.slice, env)
                    self.mut(b.l0, 'del of an item', t, self.attr_of(t))
                    self.special(b, '__delitem__', [NEW], {}, t, env)
                elif isinstance(t, ast.Attribute):
                    b = self.ev(t.value, env)
                    self.mut(b.l0, 'del of attribute', t, t.attr)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env[s.name] = V(t='nested')
        elif isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal, ast.ClassDef)):
            pass
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        return env

    def refine(self, test, env, sense):
        """x is None / not x: on that branch x holds nothing"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, env, not sense)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and \
           test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == sense if isinstance(test.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)) else False
            if isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                isnone = not sense
            if isnone and test.left.id in env:
                env[test.left.id] = NONEV
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2 and sense and \
           isinstance(test.args[0], ast.Name) and test.args[0].id in env:
            t = test.args[1]
            nm = ast.unparse(t)
            ty = {'str': 'str', 'int': 'num', 'float': 'num', 'list': 'list', 'dict': 'dict', 'np.ndarray': 'arr', 'numpy.ndarray': 'arr', 'pd.DataFrame': 'df',
                  'bool': 'bool', 'tuple': 'tuple'}.get(nm)
            if ty:
                env[test.args[0].id] = env[test.args[0].id].typed(ty)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and sense:
            for v in test.values:
                self.refine(v, env, True)

    def loop(self, s, env, head):
        self.breaks.append([])
        self.conts.append([])
        cur = dict(env)
        for _ in range(3):
            e = dict(cur)
            head(e)
            out = self.block(s.body, e)
            for c in self.conts[-1]:
                out = self.joinenv(out, c)
            self.conts[-1] = []
            new = self.joinenv(dict(cur), out)
            if new == cur:
                break
            cur = new
        br = self.breaks.pop()
        self.conts.pop()
        out = self.block(s.orelse, dict(cur)) if s.orelse else cur
        for b in br:
            out = self.joinenv(out, b)
        return out

    # ------------------------------------------------------------------ assignment
    def attr_of(self, t):
        """attribute or key of self that an lvalue goes through"""
        chain = []
        while isinstance(t, (ast.Attribute, ast.Subscript)):
            chain.append(t)
            t = t.value
        if isinstance(t, ast.Name) and t.id == self.selfname and chain:
            c = chain[-1]
            if isinstance(c, ast.Attribute):
                return c.attr
            if isinstance(c.slice, ast.Constant):
                return '[%r]' % (c.slice.value,)
            return '[...]'
        return None

    def selfkey(self, t):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.selfname:
            return 'self.' + t.attr
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == self.selfname and isinstance(t.slice, ast.Constant):
            return 'self[%r]' % (t.slice.value,)
        return None

    def localkey(self, t, env):
        """d['k'] of a dictionary made here"""
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Constant) and t.value.id != self.selfname and \
           t.value.id in env and env[t.value.id].t == 'dict' and not env[t.value.id].l0:
            return '%s[%r]' % (t.value.id, t.slice.value)
        return None

    def forget(self, name, env):
        for k in [k for k in env if k.startswith(name + '[')]:
            del env[k]

    def assign(self, t, v, env, src):
        if isinstance(t, ast.Name):
            sc = self.p.func_scope(self.fn)
            if t.id in sc.globals_decl:
                self.mut({'G:%s.%s#0' % (self.fn.mod.name, t.id)}, 'assignment of the module variable %s' % t.id, t)
                return
            env[t.id] = v
            self.forget(t.id, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = src.elts if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts) else None
            if elts is not None:
                vals = [self.ev(x, env) for x in elts]
                for x, w in zip(t.elts, vals):
                    self.assign(x, w, env, None)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, v.elem() if not isinstance(x, ast.Starred) else v.copy1('list'), env, None)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            k = self.selfkey(t)
            c = self.objclass(b)
            if c is not None:
                st = self.p.setter(c, t.attr)
                if st is not None:
                    self.apply(st, c, [b, v], {}, t, env)
                    return
            self.mut(b.l0, 'assignment of attribute %s' % t.attr, t, self.attr_of(t) or t.attr)
            if k:
                env[k] = v
                self.s.stores[k] = v if k not in self.s.stores else self.s.stores[k].join(v)
                self.e.note_type(self.cls or self.fn.cls, k, v.t)
            else:
                self.absorb(t.value, v, env)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            k = self.selfkey(t)
            if not self.special(b, '__setitem__', [NEW, v], {}, t, env):
                self.mut(b.l0, 'assignment of an item', t, self.attr_of(t), value=v)
            if isinstance(t.slice, ast.Slice) and not k or isinstance(t.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in t.slice.elts):
                pass        # values are copied into the array
            elif k:
                env[k] = v
                self.s.stores[k] = v if k not in self.s.stores else self.s.stores[k].join(v)
                self.e.note_type(self.cls or self.fn.cls, k, v.t)
            elif not (b.t in ('arr', 'df')):
                self.absorb(t.value, v, env)
                k = self.localkey(t, env)
                if k:
                    env[k] = v
                elif isinstance(t.value, ast.Name):
                    self.forget(t.value.id, env)

    def absorb(self, base, v, env, d=1):
        """the container named by `base` now also contains v"""
        if not v.mem():
            return
        if isinstance(base, ast.Name) and base.id in env:
            o = env[base.id]
            if d == 1:
                env[base.id] = V(o.l0, o.l1 | v.l0, o.l2 | v.l1 | v.l2, o.t, o.bf | v.bf)
            else:
                env[base.id] = V(o.l0, o.l1, o.l2 | v.l0 | v.l1 | v.l2, o.t, o.bf | v.bf)
        elif isinstance(base, (ast.Subscript, ast.Attribute)):
            k = self.selfkey(base) or self.localkey(base, env)
            if k and k in env:
                o = env[k]
                env[k] = V(o.l0, o.l1 | v.l0, o.l2 | v.l1 | v.l2, o.t, o.bf | v.bf)
            self.absorb(base.value, v, env, d + 1)

    def arraylike(self, name, aug):
        """is the value of a name, bound once in the function, used in a way that only arrays and lists support?"""
        strong = not isinstance(aug.op, ast.Add)
        bound, sign = 0, False
        a = self.fn.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            bound += x.arg == name
        for n in ast.walk(self.fn.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                bound += 1
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                bound -= 1
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
                sign |= strong or isinstance(n.slice, ast.Tuple)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name:
                sign |= n.attr in ('shape', 'ndim', 'ravel', 'flatten', 'astype', 'reshape', 'mean', 'std', 'T', 'dtype', 'transpose', 'append', 'fill', 'columns', 'iloc', 'loc', 'values')
            elif isinstance(n, ast.Call) and strong:
                if isinstance(n.func, ast.Name) and n.func.id in ('len', 'enumerate', 'zip', 'sum', 'max', 'min'):
                    sign |= any(isinstance(x, ast.Name) and x.id == name for x in n.args) and (len(n.args) == 1 or n.func.id in ('enumerate', 'zip'))
            elif isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in n.targets) and isinstance(n.value, ast.Subscript):
                sign |= self.part_of_array(n.value)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy') and \
                    n.func.attr in ('mean', 'std', 'diff', 'interp', 'argmin', 'argmax', 'sort', 'argsort', 'unique', 'concatenate', 'column_stack', 'ravel', 'flip', 'transpose', 'max', 'min'):
                sign |= any(isinstance(x, ast.Name) and x.id == name for x in n.args)
        return sign and bound <= 1

    def part_of_array(self, e):
        """is a[...] less than a full index of an array?  (a slice among several indices, or fewer indices than used elsewhere for a)"""
        ix = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        if len(ix) > 1 and any(isinstance(x, ast.Slice) for x in ix):
            return not (isinstance(e.value, ast.Attribute) and e.value.attr in ('loc', 'iloc'))
        if any(isinstance(x, ast.Slice) for x in ix) or not isinstance(e.value, ast.Name):
            return False
        return any(isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) > len(ix) and ast.unparse(n.value) == e.value.id
                   for n in ast.walk(self.fn.node))

    def augassign(self, s, env):
        r = self.ev(s.value, env)
        t = s.target
        if isinstance(t, ast.Name):
            sc = self.p.func_scope(self.fn)
            cur = env.get(t.id)
            if t.id in sc.globals_decl:
                self.mut({'G:%s.%s#0' % (self.fn.mod.name, t.id)}, 'assignment of the module variable %s' % t.id, t)
                return
            if cur is None:
                cur = self.ev(ast.Name(id=t.id, ctx=ast.Load()), env)
            if cur.t in ('arr', 'list', 'df', 'set', 'dict', 'ser') or cur.t is None and (r.t in ('list',) or cur.all() and r.t != 'str' and self.arraylike(t.id, s)):
                self.mut(cur.l0, 'in-place %s= on %s' % (OPS.get(type(s.op), '?'), t.id), s)
                if cur.t == 'list' or r.t == 'list':
                    env[t.id] = V(cur.l0, cur.l1 | r.l1, cur.l2 | r.l2, cur.t or 'list')
            else:
                env[t.id] = NEW.typed(cur.t if cur.t in IMM else None) if not cur.all() else V(cur.l0, cur.l1, cur.l2, cur.t) if cur.t is None and r.t is None else NEW
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.mut(b.l0, 'in-place change of attribute %s' % t.attr, t, self.attr_of(t) or t.attr)
            cur = self.ev(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load(), lineno=t.lineno), env)
            if cur.t in ('arr', 'list', 'df', 'set') or cur.t is None and r.t == 'list':
                self.mut(cur.l0, 'in-place %s= on attribute %s' % (OPS.get(type(s.op), '?'), t.attr), s, self.attr_of(t))
            elif cur.t in ('num', 'str') or r.t == 'str':
                pass
            k = self.selfkey(t)
            if k and k in env and env[k].t in IMM:
                env[k] = NEW
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mut(b.l0, 'in-place change of an item', t, self.attr_of(t))
            if b.t == 'df':
                self.mut(b.l1 | b.l2 | b.bf, 'in-place change of a column', t, self.attr_of(t))
            elif b.t is None:
                self.mut([l for l in b.bf if not l.endswith('#b')], 'in-place change of a column', t, self.attr_of(t))
            cur = self.ev(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load(), lineno=t.lineno), env)
            if cur.t in ('arr', 'list', 'df', 'set') or cur.t is None and r.t == 'list':
                self.mut(cur.l0, 'in-place %s= on an item' % OPS.get(type(s.op), '?'), s, self.attr_of(t))

    # ------------------------------------------------------------------ expressions
    def iter_assign(self, target, it, env):
        """bind the loop variables to one element of the iterable"""
        if isinstance(it, ast.Call) and isinstance(target, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in target.elts) and not it.keywords:
            f, n = it.func, len(target.elts)
            if isinstance(f, ast.Name) and f.id == 'enumerate' and n == 2 and it.args:
                self.assign(target.elts[0], NUM, env, None)
                return self.iter_assign(target.elts[1], it.args[0], env)
            if isinstance(f, ast.Name) and f.id == 'zip' and n == len(it.args):
                for t, a in zip(target.elts, it.args):
                    self.iter_assign(t, a, env)
                return
            if isinstance(f, ast.Attribute) and f.attr == 'items' and n == 2 and not it.args:
                b = self.ev(f.value, env)
                self.ev(it, env)
                self.assign(target.elts[0], STR, env, None)
                self.assign(target.elts[1], b.elem('ser' if b.t == 'df' else None), env, None)
                return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'sorted', 'reversed', 'tuple') and len(it.args) == 1:
            self.ev(it, env)
            return self.iter_assign(target, it.args[0], env)
        self.assign(target, self.iter_elem(self.ev(it, env), it, env), env, None)

    def iter_elem(self, v, e, env):
        if v.t == 'arr':
            return v.elem()
        if v.t == 'df' or v.t == 'str' or v.t == 'file':
            return STR
        if v.t == 'numlist':
            return NUM
        if v.t == 'strlist':
            return STR
        if v.t and v.t.startswith('obj:'):
            c = self.objclass(v)
            m = self.p.method(c, '__iter__') if c else None
            if m is not None:
                return v.elem()
            return STR          # iterating a dictionary gives its keys
        if v.t == 'dict':
            return STR
        return v.elem()

    def objclass(self, v):
        if v.t and v.t.startswith('obj:'):
            return self.p.classes.get(v.t[4:])
        return None

    def ev(self, e, env):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return NEW

    def ev_Constant(self, e, env):
        v = e.value
        return STR if isinstance(v, (str, bytes)) else BOOL if isinstance(v, bool) else NONEV if v is None else NUM

    def ev_JoinedStr(self, e, env):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value, env)
        return STR

    def ev_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        try:
            r = self.p.resolve_expr(e, self.fn.mod, self.fn)
        except Exception:
            r = None
        if r is None and self.fn.parent is not None:
            pass
        return self.static(r, e)

    def static(self, r, e):
        if r is None:
            return NEW
        if r[0] == 'var':
            m, name = r[1], r[2]
            s = m.syms.get(name)
            val = s[1] if s and s[0] == 'var' else None
            if val is not None and not isinstance(val, ast.Constant) and (mutable_literal(val) or isinstance(val, (ast.Name, ast.Attribute, ast.Subscript))):
                t = 'list' if isinstance(val, (ast.List, ast.ListComp)) else 'dict' if isinstance(val, (ast.Dict, ast.DictComp)) else None
                b = 'G:%s.%s' % (m.name, name)
                return V(frozenset([b + '#0']), frozenset([b + '#1']), frozenset([b + '#2']), t)
            if val is not None and isinstance(val, ast.Constant) and val.value is None:
                b = 'G:%s.%s' % (m.name, name)
                return V(frozenset([b + '#0']), frozenset([b + '#1']), frozenset([b + '#2']))
            return NEW
        if r[0] == 'class':
            return V(frozenset(['C:' + r[1].key + '#0']), E, E, 'class')
        if r[0] == 'classattr':
            return self.classattr(r[1], r[2])
        if r[0] == 'func':
            return V(t='func')
        return NEW

    def classattr(self, c, attr):
        d = self.p.class_attr(c, attr)
        if d is None:
            return NEW
        owner, val = d
        if isinstance(val, ast.Constant) or not mutable_literal(val):
            return NEW
        b = 'K:%s.%s' % (owner.key, attr)
        t = 'list' if isinstance(val, (ast.List, ast.ListComp)) else 'dict' if isinstance(val, (ast.Dict, ast.DictComp)) else None
        return V(frozenset([b + '#0']), frozenset([b + '#1']), frozenset([b + '#2']), t)

    def ev_Attribute(self, e, env):
        k = self.selfkey(e)
        if k and k in env:
            return env[k]
        b = self.ev(e.value, env)
        c = self.objclass(b)
        if c is None and e.attr == '__class__' and b.t is None:
            return V(frozenset(['C:an object#0']), E, E, 'class')
        if c is not None:
            m = self.p.method(c, e.attr)
            if m is not None and m.is_property:
                return self.apply(m, c, [b], {}, e, env)
            if m is not None:
                return V(t='func')
            if e.attr == '__dict__':
                return b
            if e.attr == '__class__':
                return V(frozenset(['C:' + c.key + '#0']), E, E, 'class')
            key = 'self.' + e.attr
            d = self.p.class_attr(c, e.attr)
            if d is not None and not self.e.instance_attr(c, e.attr):
                v = self.classattr(c, e.attr)
                if v.all():
                    return v
                if isinstance(d[1], ast.Constant):
                    return NEW
            return b.elem(self.e.attr_type(c, key))
        if b.t == 'class':
            try:
                r = self.p.resolve_expr(e, self.fn.mod, self.fn)
            except Exception:
                r = None
            return self.static(r, e) if r and r[0] in ('classattr', 'func') else NEW
        if not b.all() and isinstance(e.value, (ast.Name, ast.Attribute)):
            try:
                r = self.p.resolve_expr(e, self.fn.mod, self.fn)
            except Exception:
                r = None
            if r is not None:
                return self.static(r, e)
        if e.attr in ('shape', 'size', 'ndim', 'dtype', 'name', 'names', 'columns', 'index'):
            if e.attr in ('columns', 'index'):
                return NEW
            return NEW.typed('shape' if e.attr == 'shape' else 'size' if e.attr == 'size' else None)
        if e.attr in VIEW_ATTRS:
            if b.t in ('df', 'ser') or b.t is None and e.attr in ('values', 'iloc', 'loc', 'at', 'iat'):
                return V(b.mem(), b.l1 | b.l2, b.l2, 'df' if e.attr in ('T', 'iloc', 'loc') else 'arr', b.bf)
            return V(b.l0, b.l1, b.l2, b.t)
        return b.elem()

    def index_kind(self, i, env):
        """'copy' when the index makes a selection (list, mask), 'slice', 'item'"""
        if isinstance(i, ast.Slice):
            return 'slice'
        if isinstance(i, (ast.List, ast.ListComp, ast.Compare)):
            return 'copy'
        if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.Invert):
            return 'copy'
        if isinstance(i, ast.BinOp) and isinstance(i.op, (ast.BitAnd, ast.BitOr)):
            return 'copy'
        if isinstance(i, ast.Tuple):
            ks = [self.index_kind(x, env) for x in i.elts]
            if 'copy' in ks:
                return 'copy'
            if 'slice' in ks:
                return 'slice'
            return 'item'
        if isinstance(i, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
            t = self.ev(i, env).t
            if t in ('list', 'arr', 'ser', 'set', 'numlist', 'strlist'):
                return 'copy'
        return 'item'

    def ev_Subscript(self, e, env):
        k = self.selfkey(e) or self.localkey(e, env)
        if k and k in env:
            return env[k]
        b = self.ev(e.value, env)
        if not isinstance(e.slice, ast.Slice):
            self.ev(e.slice, env)
        c = self.objclass(b)
        if c is not None:
            m = self.p.method(c, '__getitem__')
            if m is not None:
                return self.apply(m, c, [b, NEW], {}, e, env)
            t = None
            if isinstance(e.slice, ast.Constant):
                t = self.e.attr_type(c, 'self[%r]' % (e.slice.value,))
            return b.elem(t)
        if b.t in ('str', 'num'):
            return STR
        if b.t == 'shape':
            return SIZE
        if not b.mem():
            kind = self.index_kind(e.slice, env)
            return V(t=b.t if kind != 'item' and b.t in ('arr', 'df', 'list') else 'str' if b.t == 'strlist' else None)
        kind = self.index_kind(e.slice, env)
        if kind == 'copy':
            if b.t in ('dict', 'list'):
                return b.elem()
            return V(t=b.t)
        if kind == 'slice':
            if b.t in ('arr', 'df', 'ser'):
                return b
            if isinstance(e.slice, ast.Tuple):
                return b.typed('arr')           # a multi-dimensional slice: an array view
            if b.t in ('list', 'tuple'):
                return b.copy1(b.t)
            return V(E, b.l1, b.l2, None, b.bf)      # unknown: a copy for lists, a view for arrays (not assumed)
        if b.t == 'df':
            return V(b.l1 | b.l2 | b.bf, b.l2, b.l2, 'ser', b.bf)
        return b.elem()

    def ev_Starred(self, e, env):
        return self.ev(e.value, env)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env, e.value)
        return v

    def ev_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, ast.Mod) and a.t == 'str':
            return STR
        if a.t == 'str' or b.t == 'str' and isinstance(e.op, ast.Add):
            return STR
        if isinstance(e.op, ast.Add) and (a.t in ('list', 'tuple') or b.t in ('list', 'tuple')):
            return V(E, a.l1 | b.l1, a.l2 | b.l2, 'list')
        if isinstance(e.op, ast.Mult) and 'list' in (a.t, b.t):
            return V(E, a.l1 | b.l1, a.l2 | b.l2, 'list')
        if 'df' in (a.t, b.t):
            return V(t='df')
        if 'arr' in (a.t, b.t):
            return V(t='arr')
        if a.t in ('num', 'size') and b.t in ('num', 'size'):
            return NUM
        return NEW

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        return BOOL if isinstance(e.op, ast.Not) else V(t=v.t if v.t in ('num', 'arr') else None)

    def ev_BoolOp(self, e, env):
        r = None
        for x in e.values:
            v = self.ev(x, env)
            r = v if r is None else r.join(v)
        return r

    def ev_Compare(self, e, env):
        v = self.ev(e.left, env)
        for x in e.comparators:
            w = self.ev(x, env)
            if v.t == 'arr' or w.t == 'arr':
                v = w = V(t='arr')
        return V(t='arr') if v.t == 'arr' else NEW

    def ev_IfExp(self, e, env):
        self.ev(e.test, env)
        a, b = dict(env), dict(env)
        self.refine(e.test, a, True)
        self.refine(e.test, b, False)
        return self.ev(e.body, a).join(self.ev(e.orelse, b))

    def seq(self, e, env, t):
        l1 = l2 = bf = E
        for x in e.elts:
            v = self.ev(x, env)
            bf |= v.bf
            if isinstance(x, ast.Starred):
                l1, l2 = l1 | v.l1, l2 | v.l2
            else:
                l1, l2 = l1 | v.l0, l2 | v.l1 | v.l2
        return V(E, l1, l2, t, bf)

    def ev_List(self, e, env):
        return self.seq(e, env, 'list')

    def ev_Tuple(self, e, env):
        return self.seq(e, env, 'tuple')

    def ev_Set(self, e, env):
        return self.seq(e, env, 'set')

    def ev_Dict(self, e, env):
        l1 = l2 = bf = E
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, env)
            bf |= v.bf
            if k is None:
                l1, l2 = l1 | v.l1, l2 | v.l2
            else:
                self.ev(k, env)
                l1, l2 = l1 | v.l0, l2 | v.l1 | v.l2
        return V(E, l1, l2, 'dict', bf)

    def comp(self, e, env, elts, t):
        env2 = dict(env)
        for g in e.generators:
            self.iter_assign(g.target, g.iter, env2)
            for c in g.ifs:
                self.ev(c, env2)
        l1 = l2 = bf = E
        for x in elts:
            v = self.ev(x, env2)
            l1, l2, bf = l1 | v.l0, l2 | v.l1 | v.l2, bf | v.bf
        return V(E, l1, l2, t, bf)

    def ev_ListComp(self, e, env):
        return self.comp(e, env, [e.elt], 'list')

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, env):
        return self.comp(e, env, [e.elt], 'set')

    def ev_DictComp(self, e, env):
        self.comp(e, env, [e.key], 'dict')
        return self.comp(e, env, [e.value], 'dict')

    def ev_Lambda(self, e, env):
        return V(t='func')

    def ev_Yield(self, e, env):
        if e.value is not None:
            v = self.ev(e.value, env).wrap('list')
            self.s.ret = v if self.s.ret is None else self.s.ret.join(v)
        return NEW

    def ev_YieldFrom(self, e, env):
        v = self.ev(e.value, env)
        self.s.ret = v if self.s.ret is None else self.s.ret.join(v)
        return NEW

    # ------------------------------------------------------------------ calls
    def special(self, b, name, args, kw, node, env):
        c = self.objclass(b)
        if c is None:
            return False
        m = self.p.method(c, name)
        if m is None:
            return False
        self.apply(m, c, [b] + args, kw, node, env)
        return True

    def ev_Call(self, e, env):
        f = e.func
        args = [self.ev(a, env) for a in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        star = any(isinstance(a, ast.Starred) for a in e.args)
        # super().m(...) / Base.m(self, ...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            top = self.fn
            while top.parent is not None:
                top = top.parent
            sv = env.get(top.params[0]) if top.params else None
            c = self.cls or top.cls
            if c is not None and sv is not None:
                m = self.p.method(c, f.attr, after=top.cls)
                if m is not None:
                    return self.apply(m, c, [sv] + args, kw, e, env)
                if f.attr in MUTATORS:
                    self.mut(sv.l0, '%s of the object itself' % f.attr, e, '[...]')
                elif f.attr in ('get', '__getitem__'):
                    return sv.elem()
                elif f.attr in ('values',):
                    return sv.copy1('list')
                elif f.attr == 'items':
                    return V(E, E, sv.l1 | sv.l2, 'list')
                elif f.attr == 'keys':
                    return V(t='list')
                return NEW
            return NEW
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, env)
            # nested functions bound to attributes are not followed
            c = self.objclass(b)
            if c is not None:
                m = self.p.method(c, f.attr)
                if m is not None and not m.is_property:
                    if m.is_static:
                        return self.apply(m, c, args, kw, e, env, star)
                    return self.apply(m, c, [b] + args, kw, e, env, star)
                return self.method(b, f, args, kw, e, env)
            if not b.all() or b.t == 'class':
                try:
                    r = self.p.resolve_expr(f, self.fn.mod, self.fn)
                except Exception:
                    r = None
                if r is not None and r[0] == 'func':
                    fn = r[1]
                    return self.apply(fn, fn.cls if fn.cls is None or self.cls is None or fn.cls not in self.p.mro(self.cls) else self.cls, args, kw, e, env, star)
                if r is not None and r[0] == 'class':
                    return self.construct(r[1], args, kw, e, env, star)
                if r is not None and r[0] == 'ext':
                    if r[1].startswith('dict.') and args:
                        if f.attr in MUTATORS:
                            self.mut(args[0].l0, '%s of the object itself' % f.attr, e, '[...]')
                        elif f.attr in ('get', '__getitem__'):
                            return args[0].elem()
                        elif f.attr == 'fromkeys':
                            return V(t='dict')
                        return NEW
                    return self.external(r[1], args, kw, e, env)
            return self.method(b, f, args, kw, e, env)
        if isinstance(f, ast.Name):
            if f.id in env and env[f.id].t not in ('nested', 'func', None):
                pass
            g = self.fn
            while g is not None:
                if f.id in g.nested:
                    return self.inline(g.nested[f.id], args, kw, e, env)
                g = g.parent
            try:
                r = self.p.resolve_expr(f, self.fn.mod, self.fn)
            except Exception:
                r = None
            if r is not None and r[0] == 'func':
                return self.apply(r[1], r[1].cls, args, kw, e, env, star)
            if r is not None and r[0] == 'class':
                return self.construct(r[1], args, kw, e, env, star)
            if r is not None and r[0] == 'ext':
                return self.external(r[1], args, kw, e, env)
            return NEW
        self.ev(f, env)
        return NEW

    def construct(self, c, args, kw, e, env, star):
        m = self.p.method(c, '__init__')
        obj = V(t='obj:' + c.key)
        if m is not None:
            s = self.apply(m, c, [obj] + args, kw, e, env, star)
            # what the constructor keeps of its arguments
            l1 = E
            for k, v in self.e.summary(m, c).stores.items():
                w = self.subst(v, self.binding(m, [obj] + args, kw))
                l1 |= w.all()
            if l1:
                obj = V(E, l1, l1, obj.t)
        return obj

    def inline(self, nf, args, kw, e, env):
        if self.depth > 3:
            return NEW
        self.depth += 1
        saved, self.fn = self.fn, nf
        sret, self.s.ret = self.s.ret, None
        br, co = self.breaks, self.conts
        self.breaks, self.conts = [], []
        env2 = dict(env)
        for p in nf.params + nf.kwonly:
            env2[p] = NEW
        for p, v in zip(nf.params, args):
            env2[p] = v
        for k, v in kw.items():
            if k in nf.params or k in nf.kwonly:
                env2[k] = v
        if nf.vararg:
            env2[nf.vararg] = NEW
        if nf.kwarg:
            env2[nf.kwarg] = NEW
        try:
            self.block(nf.node.body, env2)
            r = self.s.ret
        finally:
            self.fn = saved
            self.s.ret = sret
            self.breaks, self.conts = br, co
            self.depth -= 1
        return r if r is not None else NONEV

    def binding(self, fn, args, kw):
        b = {}
        ps = fn.params
        for p, v in zip(ps, args):
            b[p] = v
        rest = args[len(ps):]
        if fn.vararg:
            l1 = l2 = E
            for v in rest:
                l1, l2 = l1 | v.l0, l2 | v.l1 | v.l2
            b[fn.vararg] = V(E, l1, l2, 'tuple')
        extra = []
        for k, v in kw.items():
            if k in ps or k in fn.kwonly:
                b[k] = v
            else:
                extra.append((k, v))
        for k, v in extra:
            if k is None:       # **kwargs passed on: any parameter may get an element
                for p in list(ps[1:] if fn.is_method else ps) + fn.kwonly:
                    if p not in b:
                        b[p] = v.elem()
                if fn.kwarg:
                    b[fn.kwarg] = (b.get(fn.kwarg) or NEW).join(V(E, v.l1, v.l2, 'dict'))
            elif fn.kwarg:
                o = b.get(fn.kwarg) or V(t='dict')
                b[fn.kwarg] = V(E, o.l1 | v.l0, o.l2 | v.l1 | v.l2, 'dict')
        return b

    def subst_labels(self, ls, b):
        out = set()
        for l in ls:
            if l.startswith('p:'):
                name, _, lev = l[2:].rpartition('#')
                v = b.get(name)
                if v is not None:
                    out |= v.bf if lev == 'b' else (v.l0, v.l1, v.l2)[int(lev)]
            else:
                out.add(l)
        return frozenset(out)

    def subst(self, v, b):
        if v is None:
            return NONEV
        return V(self.subst_labels(v.l0, b), self.subst_labels(v.l1, b), self.subst_labels(v.l2, b), v.t, self.subst_labels(v.bf, b))

    def apply(self, fn, cls, args, kw, e, env, star=False):
        if fn.is_classmethod and fn.is_method:
            args = [V(t='class')] + [a for a in args if a.t != 'class'] if args and args[0].t != 'class' else args
        s = self.e.summary(fn, cls)
        b = self.binding(fn, args, kw)
        site = '%s:%s' % (self.fn.key, getattr(e, 'lineno', '?'))
        own = bool(args and self.selfname and 'p:%s#0' % self.selfname in args[0].l0)
        via = self.attr_of(e.func.value) if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) else self.attr_of(e) if isinstance(e, (ast.Attribute, ast.Subscript)) else None
        for m in s.muts.values():
            for l in self.subst_labels([m.label], b):
                attr = m.attr
                if not own and attr not in ('filename', '_filename') and l.startswith('p:'):
                    attr = via
                val = m.val
                if isinstance(val, tuple):
                    v = b.get(val[1])
                    val = None
                    if v is not None and v.t == 'size':
                        val = 'size'
                    elif v is not None and len(v.l0) == 1 and next(iter(v.l0)).startswith('p:') and next(iter(v.l0)).endswith('#0'):
                        val = ('p', next(iter(v.l0))[2:-2])
                mm = Mut(l, m.what, attr, m.fn, m.line, (site,) + tuple(m.chain)[:8], val)
                if len(self.s.muts) < 400:
                    self.s.muts.setdefault(mm.key, mm)
        # what the callee changes through an attribute of our own object, where that attribute holds something known here
        if fn.is_method and not fn.is_static and args and self.selfname and fn.params and 'p:%s#0' % self.selfname in args[0].l0:
            for m in s.muts.values():
                if m.attr and m.label.startswith('p:%s#' % fn.params[0]) and not m.label.endswith('#0'):
                    k = 'self' + m.attr if m.attr.startswith('[') else 'self.' + m.attr
                    if k in env and k != 'self.filename':
                        v = env[k]
                        ls = v.l0 if m.label.endswith('#1') else v.bf if m.label.endswith('#b') else v.l1 | v.l2
                        for l in ls:
                            if not l.startswith('p:%s#' % self.selfname):
                                mm = Mut(l, m.what, None, m.fn, m.line, (site,) + tuple(m.chain)[:8], None)
                                if len(self.s.muts) < 400:
                                    self.s.muts.setdefault(mm.key, mm)
        # attributes the callee stored on our own object
        if fn.is_method and not fn.is_static and args and self.selfname and fn.params and 'p:%s#0' % self.selfname in args[0].l0:
            for k, v in s.stores.items():
                w = self.subst(v, b)
                env[k] = w.join(env[k]) if k in env else w.join(self.selfdefault(k))
                self.s.stores[k] = w if k not in self.s.stores else self.s.stores[k].join(w)
        return self.subst(s.ret, b)

    def method(self, b, f, args, kw, e, env):
        """method of a value that is not an object of the package (or of unknown type)"""
        a = f.attr
        inplace = any(k.arg == 'inplace' and isinstance(k.value, ast.Constant) and k.value.value for k in e.keywords)
        if inplace:
            self.mut(b.l0, '%s(inplace=True)' % a, e, self.attr_of(f.value))
            return NONEV
        if 'out' in kw:
            self.mut(kw['out'].l0, 'out= of %s' % a, e)
        if a in MUTATORS and b.t not in IMM and not (a == 'update' and not args and not kw) and not (a in ('pop', 'insert', 'remove', 'add', 'resize', 'put', 'partition', 'index')
                                                                                                   and b.t in ('str', 'num')):
            if not (b.t is None and a == 'partition'):
                self.mut(b.l0, '.%s()' % a, e, self.attr_of(f.value) or ('[...]' if b.t and b.t.startswith('obj:') else None))
            for v in args + list(kw.values()):
                if a in ('extend', 'update', '__iadd__'):
                    v = v.elem()
                self.absorb(f.value, v, env)
            if a in ('pop', 'popitem', 'popleft'):
                return b.elem()
            if a == 'setdefault':
                return b.elem().join(args[1]) if len(args) > 1 else b.elem()
            return NONEV
        if a == 'copy':
            if b.t in ('dict', 'list', 'set') or b.t and b.t.startswith('obj:'):
                return b.copy1('dict' if b.t.startswith('obj:') else b.t)
            return V(t=b.t)
        if a in VIEW_METHODS:
            if b.t == 'df':
                return V(b.mem(), b.l2, b.l2, 'arr')
            return b
        if a == 'get':
            r = b.elem()
            return r.join(args[1]) if len(args) > 1 else r
        if a == 'values':
            return b.copy1('list')
        if a == 'items':
            return V(E, E, b.l1 | b.l2, 'list', b.bf)
        if a == 'keys':
            return V(t='list')
        if a == 'astype':
            cp = next((k.value for k in e.keywords if k.arg == 'copy'), None)
            if cp is not None and isinstance(cp, ast.Constant) and not cp.value:
                return b
            return V(t=b.t or 'arr')
        if a in NEW_METHODS_STR:
            return STR if b.t != 'df' and b.t != 'arr' else V(t=b.t)
        if a in NEW_METHODS_LIST:
            return V(t='list')
        if a in NEW_METHODS_NUM:
            return NUM
        if a == 'sheet_names':
            return V(t='list')
        if a == 'iterrows':
            return V(t='list')
        # a method of the package, found by name
        cands = self.e.g.byname.get(a, [])
        if b.t is None and a not in COMMON and not a.startswith('__') and 0 < len(cands) <= 3:
            r = None
            for m, c in cands:
                if m.is_property:
                    continue
                v = self.apply(m, c, ([] if m.is_static else [b]) + args, kw, e, env)
                r = v if r is None else r.join(v)
            return r or NEW
        return V(t='df' if b.t == 'df' else None)

    def external(self, nm, args, kw, e, env):
        if 'out' in kw:
            self.mut(kw['out'].l0, 'out= of %s' % nm, e)
        a0 = args[0] if args else NEW
        if nm in ('list', 'tuple', 'sorted', 'reversed', 'iter', 'set', 'frozenset', 'collections.deque'):
            t = {'list': 'list', 'sorted': 'list', 'tuple': 'tuple', 'set': 'set', 'frozenset': 'set'}.get(nm)
            if a0.t == 'df' or a0.t == 'dict' or a0.t and a0.t.startswith('obj:'):
                return V(t=t)
            return a0.copy1(t or 'list')
        if nm in ('dict', 'collections.OrderedDict', 'collections.defaultdict'):
            l1 = a0.l1
            l2 = a0.l2
            for v in kw.values():
                l1, l2 = l1 | v.l0, l2 | v.l1 | v.l2
            return V(E, l1 | (a0.l2 if a0.t == 'list' else E), l2, 'dict')
        if nm in ('zip', 'enumerate', 'itertools.product', 'itertools.zip_longest'):
            l = E
            for v in args:
                l |= v.l1 | v.l2
            return V(E, E, l, 'list')
        if nm in ('map', 'filter'):
            return V(E, a0.l1, a0.l2, 'list') if nm == 'filter' and False else V(E, args[1].l1 if nm == 'filter' and len(args) > 1 else E, E, 'list')
        if nm in ('range', 'numpy.arange'):
            return V(t='list' if nm == 'range' else 'arr')
        if nm == 'len':
            return SIZE
        if nm in ('int', 'float', 'abs', 'sum', 'round', 'hash', 'id', 'ord', 'complex'):
            return NUM
        if nm in ('min', 'max', 'next'):
            r = NEW
            if nm == 'next':
                return a0.elem()
            return NEW
        if nm == 'type' and len(args) == 1 and a0.t and a0.t.startswith('obj:'):
            return V(frozenset(['C:' + a0.t[4:] + '#0']), E, E, 'class')
        if nm == 'type' and len(args) == 1 and a0.t is None:
            return V(frozenset(['C:an object#0']), E, E, 'class')
        if nm in ('str', 'repr', 'format', 'chr', 'bytes', 'os.path.join', 'os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.getcwd', 'type') or nm.startswith('os.path.'):
            return STR if nm != 'os.path.splitext' and nm != 'type' else NEW
        if nm in ('isinstance', 'hasattr', 'bool', 'callable', 'any', 'all', 'issubclass'):
            return BOOL
        if nm in ('setattr', 'delattr'):
            at = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
            self.mut(a0.l0, nm, e, at or '[...]')
            if len(args) > 2 and self.selfname and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == self.selfname and at:
                env['self.' + at] = args[2]
                self.s.stores['self.' + at] = args[2]
            return NONEV
        if nm == 'getattr':
            return a0.elem()
        if nm in ('vars',):
            return a0
        if nm == 'copy.copy':
            return a0.copy1()
        if nm == 'copy.deepcopy':
            return V(t=a0.t)
        if nm == 'types.MethodType':
            return V(t='func')
        if nm in ('open', 'io.open', 'codecs.open'):
            return V(t='file')
        if nm in ('random.shuffle', 'heapq.heappush', 'heapq.heapify', 'heapq.heappop', 'bisect.insort', 'bisect.insort_left'):
            self.mut(a0.l0, nm, e)
            return NEW
        if nm.startswith('numpy.'):
            n = nm[6:]
            if n in NP_INPLACE0:
                self.mut(a0.l0, nm, e)
                return NONEV
            if n in NP_ALIAS:
                return a0.typed('arr') if a0.t not in ('list', 'tuple') else V(t='arr')
            if n in NP_PARTS:
                return V(E, a0.l0, a0.l1 | a0.l2, 'list')
            if n in ('array', 'nan_to_num'):
                cp = next((k.value for k in e.keywords if k.arg == 'copy'), None)
                if cp is not None and isinstance(cp, ast.Constant) and cp.value in (False, None):
                    if n == 'nan_to_num':
                        self.mut(a0.l0, 'nan_to_num(copy=False)', e)
                    return a0.typed('arr') if a0.t not in ('list', 'tuple') else V(t='arr')
                if any(k.arg == 'dtype' and 'object' in ast.unparse(k.value) for k in e.keywords):
                    return V(E, a0.l1, a0.l2, 'arr')
                return V(t='arr')
            if n.endswith('.at') and a0.l0:
                self.mut(a0.l0, nm, e)
            if n in ('min', 'max', 'sum', 'mean', 'std', 'argmin', 'argmax', 'size', 'ndim', 'median', 'float64', 'float32', 'int32', 'prod', 'any', 'all', 'trapz'):
                return NEW
            return V(t='arr')
        if nm in ('pandas.DataFrame', 'pandas.Series', 'xarray.DataArray', 'xarray.Dataset'):
            d = kw.get('data', a0)
            t = 'df' if nm == 'pandas.DataFrame' else 'ser' if nm == 'pandas.Series' else None
            cp = next((k.value for k in e.keywords if k.arg == 'copy'), None)
            if d.t in ('dict', 'list', 'tuple') or cp is not None and isinstance(cp, ast.Constant) and cp.value:
                return V(t=t)
            return V(E, E, E, t, d.mem())
        if nm.startswith('pandas.'):
            return V(t='df')
        return NEW


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Mod: '%', ast.BitOr: '|', ast.BitAnd: '&', ast.Pow: '**', ast.FloorDiv: '//'}
E_ = E
