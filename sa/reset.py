"""What an object keeps when it reads again: definite-assignment and upward-exposed-use analysis of the state of `self` over a call of `read`.

Locations are the attributes of the object (('a', name)) and, for dict-like classes, its items (('i', key); ('i', None) is an item under an unknown key).
The analysis walks `read` with all methods and functions that get the object expanded in place.  A state holds the locations certainly replaced on this path (must),
those possibly replaced or changed (may), constant or aliasing values of local names, and the outcome of the tests taken (facts), so that a later test on the
same unchanged operands takes the same branch.
"""
import ast
from .consteval import fold, Env, Unknown

ITEMS = ('items',)
MUTATORS = {'append', 'extend', 'insert', 'update', 'setdefault', 'add', 'appendleft', 'extendleft', 'push'}
READ = ('read',)          # marker: read() has run
SELF = ('self',)
UNK = ('?',)
PURE = {'isinstance', 'len', 'hasattr', 'bool', 'int', 'str', 'type', 'callable', 'any', 'all'}
PUREM = {'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'find', 'split', 'isdigit', 'get', 'keys', 'count'}
MAXST = 60


class GiveUp(Exception):
    pass


class St:
    __slots__ = ('must', 'may', 'env', 'facts')

    def __init__(self, must=frozenset(), may=frozenset(), env=None, facts=None):
        self.must, self.may, self.env, self.facts = must, may, env or {}, facts or {}

    def copy(self):
        return St(self.must, self.may, dict(self.env), dict(self.facts))

    def key(self):
        return (self.must, READ in self.may, frozenset((k, repr(v)) for k, v in self.env.items() if v[0] in ('k', 'self', 'ref', 'lit', 'dk')))


def join(a, b):
    return St(a.must & b.must, a.may | b.may, {k: v for k, v in a.env.items() if b.env.get(k) == v}, {k: v for k, v in a.facts.items() if b.facts.get(k) == v})


def dedupe(sts):
    out = {}
    for s in sts:
        k = s.key()
        if k in out:
            # a remembered test matters only where it separates states that differ
            out[k] = join(out[k], s)
        else:
            out[k] = s
    res = list(out.values())
    if len(res) > MAXST:
        by = {}
        for s in res:
            by[s.must] = join(by[s.must], s) if s.must in by else s
        res = list(by.values())
        if len(res) > MAXST:
            s = res[0]
            for t in res[1:]:
                s = join(s, t)
            res = [s]
    return res


def dedupe_v(outs):
    by = {}
    for v, s in outs:
        by.setdefault(repr(v), (v, []))[1].append(s)
    return [(v, s) for v, ss in by.values() for s in dedupe(ss)]


class Reset:
    def __init__(self, proj, cls):
        self.p, self.cls = proj, cls
        self.writes, self.exposed = {}, {}
        self.chain, self.fn = [], None
        self.values = {}         # location -> the values written to it (constants, or UNK)
        self.after = []          # locations written after read() has run
        self.reader = None       # the function that is `read` (to set the marker)
        self.dictlike = any(isinstance(b, ast.Name) and b.id in ('dict', 'OrderedDict', 'UserDict') or isinstance(b, ast.Attribute) and b.attr in ('OrderedDict', 'UserDict')
                            for c in proj.mro(cls) for b in c.node.bases)
        self.ncalls = 0

    # ------------------------------------------------------------------ locations
    def wr(self, loc, st, node, full=True):
        """replace (full) or change a location; returns the new state"""
        s = st.copy()
        self.writes.setdefault(loc, []).append((node, self.fn, full))
        self.values.setdefault(loc, set()).add(UNK)
        s.may = s.may | {loc}
        if not full and loc not in s.must:
            s.may = s.may | {('changed', loc)}
        if full and not (loc[0] == 'i' and loc[1] is None):
            s.must = s.must | {loc}
        self.forget(s, loc)
        return s

    def restore(self, loc, st):
        """the value from before read() is put back"""
        s = st.copy()
        s.may = s.may - {loc}
        s.must = s.must - {loc}
        self.forget(s, loc)
        return s

    def kill(self, loc, st):
        """certainly removed"""
        s = st.copy()
        s.must = s.must | {loc}
        self.forget(s, loc)
        return s

    def forget(self, s, loc):
        nm = 'self.' + loc[1] if loc[0] == 'a' else 'self['
        s.facts = {k: v for k, v in s.facts.items() if nm not in k[0]}

    def rd(self, loc, st, node):
        if loc in st.must or loc in st.may:
            return
        if loc[0] == 'i':
            if ITEMS in st.must or ('i', None) in st.may or loc[1] is None and any(x[0] == 'i' for x in st.may):
                return
        self.exposed.setdefault(loc, []).append((node, self.fn))

    # ------------------------------------------------------------------ statements
    def block(self, body, sts):
        """-> list of (kind, state, value)"""
        outs = []
        for s in body:
            nxt = []
            for st in sts:
                for k, s2, v in self.stmt(s, st):
                    if k == 'fall':
                        nxt.append(s2)
                    else:
                        outs.append((k, s2, v))
            sts = dedupe(nxt)
            if not sts:
                break
        return outs + [('fall', s, None) for s in sts]

    def stmt(self, n, st):
        t = type(n).__name__
        if t in ('Expr',):
            return [('fall', s, None) for v, s in self.ev(n.value, st)]
        if t == 'Return':
            if n.value is None:
                return [('return', st, ('k', None))]
            return [('return', s, v) for v, s in self.ev(n.value, st)]
        if t == 'Assign':
            out = []
            for v, s in self.ev(n.value, st):
                ss = [s]
                for tg in n.targets:
                    ss = [y for x in ss for y in self.assign(tg, v, x, n.value)]
                out += [('fall', x, None) for x in ss]
            return out
        if t == 'AnnAssign':
            if n.value is None:
                return [('fall', st, None)]
            return [('fall', x, None) for v, s in self.ev(n.value, st) for x in self.assign(n.target, v, s, n.value)]
        if t == 'AugAssign':
            load = ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target) if isinstance(n.target, ast.Name) else n.target
            out = []
            for v, s in self.ev(n.value, st):
                for v2, s2 in self.ev(load, s):
                    if isinstance(n.target, ast.Name):
                        if v2[0] == 'ref':
                            s2 = self.wr(v2[1], s2, n, False)
                            s2 = self.setname(n.target.id, v2, s2)
                        else:
                            s2 = self.setname(n.target.id, UNK, s2)
                        out.append(('fall', s2, None))
                    else:
                        loc = self.loc(n.target, s2)
                        if loc is not None:
                            # the old value is part of the new one: replaced only if it was already
                            s2 = self.wr(loc, s2, n, False)
                            out.append(('fall', s2, None))
                        else:
                            out += [('fall', x, None) for x in self.assign(n.target, UNK, s2, n.value)]
            return out
        if t == 'Delete':
            ss = [st]
            for tg in n.targets:
                nx = []
                for s in ss:
                    loc = self.loc(tg, s)
                    if loc is not None:
                        nx.append(self.kill(loc, s))
                    elif isinstance(tg, ast.Name):
                        nx.append(self.setname(tg.id, UNK, s))
                    elif isinstance(tg, ast.Subscript):
                        nx += [x for v, x in self.ev(tg.value, s)]
                    else:
                        nx.append(s)
                ss = nx
            return [('fall', s, None) for s in ss]
        if t == 'If':
            a, b = self.branch(n.test, st)
            return (self.block(n.body, dedupe(a)) if a else []) + (self.block(n.orelse, dedupe(b)) if b else [])
        if t in ('For', 'AsyncFor'):
            return self.for_(n, st)
        if t == 'While':
            return self.while_(n, st)
        if t in ('With', 'AsyncWith'):
            ss = [st]
            for it in n.items:
                nx = []
                for s in ss:
                    for v, s2 in self.ev(it.context_expr, s):
                        if it.optional_vars is not None:
                            nx += self.assign(it.optional_vars, UNK, s2, None)
                        else:
                            nx.append(s2)
                ss = dedupe(nx)
            return self.block(n.body, ss)
        if t == 'Try' or t == 'TryStar':
            return self.try_(n, st)
        if t == 'Raise':
            return [('raise', st, None)]
        if t == 'Assert':
            a, b = self.branch(n.test, st)
            return [('fall', s, None) for s in a] + [('raise', s, None) for s in b]
        if t == 'Break':
            return [('break', st, None)]
        if t == 'Continue':
            return [('continue', st, None)]
        if t in ('FunctionDef', 'AsyncFunctionDef'):
            return [('fall', self.setname(n.name, ('clo', n), st), None)]
        if t in ('Import', 'ImportFrom'):
            s = st
            for a in n.names:
                s = self.setname(a.asname or a.name.split('.')[0], UNK, s)
            return [('fall', s, None)]
        if t == 'ClassDef':
            return [('fall', self.setname(n.name, UNK, st), None)]
        return [('fall', st, None)]

    def havoc(self, body, st):
        s = st.copy()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    s.env.pop(x.id, None)
                    s.env[x.id] = UNK
                    s.facts = {k: v for k, v in s.facts.items() if x.id not in k[1]}
        # whatever the body does to the object may have happened
        s.facts = {k: v for k, v in s.facts.items() if 'self' not in k[1]}
        return s

    def for_(self, n, st):
        out = []
        if self.clears(n, st):
            s = st.copy()
            s.must = s.must | {ITEMS}
            return [('fall', s, None)]
        for v, s in self.ev(n.iter, st):
            if v == SELF:
                self.rd(('i', None), s, n)
            if v[0] != 'lit' and any(isinstance(x, ast.Name) and s.env.get(x.id) == SELF for b in n.body for x in ast.walk(b)):
                q = self.seq(n.iter, s)
                v = ('lit', tuple(q)) if q is not None else v
            if v[0] == 'lit' and len(v[1]) <= 40:
                sts, brk = [s], []
                for x in v[1]:
                    nx = []
                    for s2 in sts:
                        for s3 in self.assign(n.target, x, s2, None):
                            for k, s4, v2 in self.block(n.body, [s3]):
                                if k in ('fall', 'continue'):
                                    nx.append(s4)
                                elif k == 'break':
                                    brk.append(s4)
                                else:
                                    out.append((k, s4, v2))
                    sts = dedupe(nx)
                if n.orelse:
                    out += self.block(n.orelse, sts)
                else:
                    brk += sts
                out += [('fall', x, None) for x in dedupe(brk)]
                continue
            h = self.havoc([n], s)
            sts, exits, brk = [h], [h], []
            for it in range(2):
                nx = []
                for s2 in sts:
                    for s3 in self.assign(n.target, UNK, s2, None):
                        for k, s4, v2 in self.block(n.body, [s3]):
                            if k in ('fall', 'continue'):
                                nx.append(self.havoc([n], s4))
                            elif k == 'break':
                                brk.append(s4)
                            else:
                                out.append((k, s4, v2))
                sts = dedupe(nx)
                exits += sts
            exits = dedupe(exits)
            if n.orelse:
                out += self.block(n.orelse, exits)
            else:
                brk += exits
            out += [('fall', x, None) for x in dedupe(brk)]
        return out

    def clears(self, n, st):
        """for k in list(self): del self[k]"""
        it = n.iter
        while isinstance(it, ast.Call) and (isinstance(it.func, ast.Name) and it.func.id in ('list', 'tuple', 'sorted', 'set') and len(it.args) == 1
                                            or isinstance(it.func, ast.Attribute) and it.func.attr in ('keys', 'copy') and not it.args):
            it = it.args[0] if it.args else it.func.value
        if not (self.dictlike and self.isself(it, st) and it is not n.iter and isinstance(n.target, ast.Name) and len(n.body) == 1):
            return False
        b = n.body[0]
        if isinstance(b, ast.Delete) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript):
            o, k = b.targets[0].value, b.targets[0].slice
        elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr in ('pop', '__delitem__') and b.value.args:
            o, k = b.value.func.value, b.value.args[0]
        else:
            return False
        return self.isself(o, st) and isinstance(k, ast.Name) and k.id == n.target.id

    def seq(self, e, st, depth=0):
        """the elements a loop runs over, when their number (and some of them) can be told"""
        if depth > 4:
            return None

        def conv(x):
            if isinstance(x, (list, tuple)):
                return ('lit', tuple(conv(y) for y in x))
            return ('k', x) if isinstance(x, (str, int, float, bool, type(None))) else UNK
        if isinstance(e, ast.Name) and st.env.get(e.id, UNK)[0] == 'lit':
            return list(st.env[e.id][1])
        if isinstance(e, ast.Name) and st.env.get(e.id, UNK)[0] == 'dk':
            return [('k', k) for k in st.env[e.id][1]]
        if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) for k in e.keys):
            return [('k', k.value) for k in e.keys]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
            if e.func.id == 'zip':
                ps = [self.seq(a, st, depth + 1) for a in e.args if not isinstance(a, ast.Starred)]
                ks = [p for p in ps if p is not None]
                if ks and len(ps) == len(e.args):
                    n = min(len(k) for k in ks)
                    return [('lit', tuple(p[i] if p is not None else UNK for p in ps)) for i in range(n)]
                return None
            if e.func.id == 'enumerate' and len(e.args) == 1:
                p = self.seq(e.args[0], st, depth + 1)
                return None if p is None else [('lit', (('k', i), x)) for i, x in enumerate(p)]
            if e.func.id in ('list', 'tuple', 'sorted', 'reversed', 'set') and len(e.args) == 1:
                return self.seq(e.args[0], st, depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'keys', 'values') and not e.args:
            p = self.seq(e.func.value, st, depth + 1) if isinstance(e.func.value, (ast.Dict, ast.Name)) else None
            if p is None:
                try:
                    d = fold(e.func.value, Env(self.p, self.fn.mod, self.fn, self.cls))
                    p = [conv(k) for k in d] if isinstance(d, dict) else None
                except Unknown:
                    p = None
            return None if p is None else p if e.func.attr == 'keys' else [UNK] * len(p) if e.func.attr == 'values' else [('lit', (k, UNK)) for k in p]
        if self.fn is None or isinstance(e, ast.Constant):
            return None
        if isinstance(e, ast.Name) and e.id in st.env and st.env[e.id] != UNK:
            return None
        ca = None
        if isinstance(e, ast.Attribute) and self.isself(e.value, st) and ('a', e.attr) not in st.may:
            ca = self.p.class_attr(self.cls, e.attr)
        try:
            x = fold(ca[1], Env(self.p, ca[0].mod)) if ca is not None else fold(e, Env(self.p, self.fn.mod, self.fn, self.cls))
        except (Unknown, AttributeError, TypeError):
            return None
        if isinstance(x, dict):
            return [conv(k) for k in x]
        if isinstance(x, (list, tuple)) and len(x) <= 40:
            return [conv(y) for y in x]
        return None

    def while_(self, n, st):
        out, brk, exits = [], [], []
        sts = [self.havoc([n], st)]
        # the first test sees the values from before the loop
        first = [st]
        for it in range(3):
            nx = []
            for s in (first if it == 0 else sts):
                a, b = self.branch(n.test, s)
                exits += b
                for k, s4, v2 in self.block(n.body, dedupe([self.havoc([n], x) if it == 0 else x for x in a])) if a else []:
                    if k in ('fall', 'continue'):
                        nx.append(self.havoc([n], s4))
                    elif k == 'break':
                        brk.append(s4)
                    else:
                        out.append((k, s4, v2))
            sts = dedupe(nx)
            if not sts:
                break
        if n.orelse:
            out += self.block(n.orelse, dedupe(exits))
        else:
            brk += exits
        return out + [('fall', x, None) for x in dedupe(brk)]

    def risky(self, n):
        return any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.Raise, ast.Attribute)) and not isinstance(getattr(x, 'ctx', None), ast.Store) for x in ast.walk(n))

    def try_(self, n, st):
        outs = []
        sts, i = [st], 0
        while i < len(n.body) and not self.risky(n.body[i]):
            nx = []
            for s in sts:
                for k, s2, v in self.stmt(n.body[i], s):
                    if k == 'fall':
                        nx.append(s2)
                    else:
                        outs.append((k, s2, v))
            sts = dedupe(nx)
            i += 1
        before = sts
        body = self.block(n.body[i:], sts)
        mays = frozenset().union(*[s.may for k, s, v in body]) if body else frozenset()
        falls = [s for k, s, v in body if k == 'fall']
        raises = [s for k, s, v in body if k == 'raise']
        outs += [(k, s, v) for k, s, v in body if k not in ('fall', 'raise')]
        if n.orelse:
            r = self.block(n.orelse, falls) if falls else []
            falls = [s for k, s, v in r if k == 'fall']
            outs += [x for x in r if x[0] != 'fall']
        hs = []
        for h in n.handlers:
            for s in before:
                s2 = self.havoc(n.body, s)
                s2.may = s2.may | mays
                if h.name:
                    s2 = self.setname(h.name, UNK, s2)
                for k, s3, v in self.block(h.body, [s2]):
                    if k == 'fall':
                        hs.append(s3)
                    else:
                        outs.append((k, s3, v))
        if not n.handlers:
            outs += [('raise', s, None) for s in raises]
        falls = dedupe(falls + hs)
        if n.finalbody:
            res = []
            for k, s, v in outs + [('fall', s, None) for s in falls]:
                for k2, s2, v2 in self.block(n.finalbody, [s]):
                    res.append((k, s2, v) if k2 == 'fall' else (k2, s2, v2))
            return res
        return outs + [('fall', s, None) for s in falls]

    # ------------------------------------------------------------------ assignment
    def setname(self, name, v, st):
        s = st.copy()
        s.env[name] = v
        s.facts = {k: x for k, x in s.facts.items() if name not in k[1]}
        return s

    def loc(self, t, st):
        """the location an Attribute/Subscript target denotes, if it is one of the object itself"""
        if isinstance(t, ast.Attribute) and self.isself(t.value, st):
            return ('a', t.attr)
        if isinstance(t, ast.Subscript) and self.isself(t.value, st) and self.dictlike and self.p.method(self.cls, '__setitem__') is None:
            v = self.constof(t.slice, st)
            return ('i', v[1] if v[0] == 'k' else None)
        return None

    def isself(self, n, st):
        return isinstance(n, ast.Name) and st.env.get(n.id) == SELF

    def constof(self, n, st):
        if isinstance(n, ast.Constant):
            return ('k', n.value)
        if isinstance(n, ast.Name):
            v = st.env.get(n.id)
            if v is not None and v[0] == 'k':
                return v
        if isinstance(n, (ast.BinOp, ast.JoinedStr)) and not any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)) for x in ast.walk(n)):
            v = self.ev(n, st)
            if len(v) == 1:
                return v[0][0] if v[0][0][0] == 'k' else UNK
        return UNK

    def assign(self, t, v, st, node):
        """-> list of states"""
        if isinstance(t, ast.Name):
            return [self.setname(t.id, v, st)]
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if v[0] == 'lit' and len(v[1]) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts) else [UNK] * len(t.elts)
            ss = [st]
            for e, x in zip(t.elts, vs):
                ss = [z for y in ss for z in self.assign(e.value if isinstance(e, ast.Starred) else e, x, y, None)]
            return ss
        loc = self.loc(t, st)
        if loc is not None:
            if loc[0] == 'a':
                f = self.p.setter(self.cls, loc[1])
                if f is not None:
                    return [s for _, s in self.call(f, f.node, [SELF, v], {}, st, t)]
            if v[0] == 'ref' and len(v) == 3 and v[1] == loc and ('changed', loc) not in st.may:
                return [self.restore(loc, st)]
            known = self.values.setdefault(loc, set())
            had = UNK in known
            s = self.wr(loc, st, t)
            if v[0] == 'k' and not had:
                known.discard(UNK)
                known.add(('k', repr(v[1])))
            if READ in s.may:
                same = v[0] == 'k' and st.facts.get(('self.%s == %r' % (loc[1], v[1]), ('self',))) if loc[0] == 'a' else False
                self.after.append((loc, t, self.fn, v[0] == 'k', node, same))
            if v[0] == 'k' and loc[0] == 'a':
                s.facts[('self.%s == %r' % (loc[1], v[1]), ('self',))] = True
                s.facts[('self.%s' % loc[1], ('self',))] = bool(v[1])
                s.facts[('self.%s is None' % loc[1], ('self',))] = v[1] is None
            return [s]
        if isinstance(t, ast.Subscript):
            if self.isself(t.value, st):
                f = self.p.method(self.cls, '__setitem__')
                if f is not None:
                    out = []
                    for k, s in self.ev(t.slice, st):
                        out += [s2 for _, s2 in self.call(f, f.node, [SELF, k, v], {}, s, t)]
                    return out
                return [st]
            out = []
            for b, s in self.ev(t.value, st):
                for _, s2 in self.ev(t.slice, s) if not isinstance(t.slice, ast.Slice) else [(None, s)]:
                    if b[0] == 'dk' and isinstance(t.value, ast.Name):
                        k2 = self.constof(t.slice, s2)
                        s2 = self.setname(t.value.id, ('dk', b[1] + (k2[1],)) if k2[0] == 'k' else UNK, s2)
                    if b[0] == 'ref':
                        full = isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None
                        out.append(self.wr(b[1], s2, t, full))
                    else:
                        out.append(s2)
            return dedupe(out)
        if isinstance(t, ast.Attribute):
            out = []
            for b, s in self.ev(t.value, st):
                out.append(self.wr(b[1], s, t, False) if b[0] == 'ref' else s)
            return dedupe(out)
        return [st]

    # ------------------------------------------------------------------ tests
    def branch(self, test, st):
        """-> (states where true, states where false)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.branch(test.operand, st)
            return b, a
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            cur, done = [st], []
            for x in test.values:
                nx = []
                for s in cur:
                    a, b = self.branch(x, s)
                    nx += a if isand else b
                    done += b if isand else a
                cur = dedupe(nx)
            return (cur, dedupe(done)) if isand else (dedupe(done), cur)
        T, Fa = [], []
        for v, s in self.ev(test, st):
            if v[0] == 'k':
                (T if v[1] else Fa).append(s)
                continue
            if v[0] in ('self', 'clo'):
                T.append(s)
                continue
            if v[0] == 'lit':
                (T if v[1] else Fa).append(s)
                continue
            key, flip, names = self.normal(test, s)
            if key is None:
                T.append(s)
                Fa.append(s)
                continue
            known = s.facts.get((key, names))
            if known is None and ' == ' in key:
                l, r = key.split(' == ', 1)
                if r[:1] in '\'"0123456789' and any(k[0].startswith(l + ' == ') and k[0] != key and k[0][len(l) + 4:][:1] in '\'"0123456789' and val for k, val in s.facts.items()):
                    known = False
            if known is not None:
                ((T if known != flip else Fa)).append(s)
                continue
            a, b = s.copy(), s.copy()
            a.facts[(key, names)] = not flip
            b.facts[(key, names)] = flip
            T.append(a)
            Fa.append(b)
        return T, Fa

    def normal(self, test, st):
        flip = False
        n = test
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = n.ops[0]
            inv = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
            if type(op) in inv:
                flip = True
                n = ast.Compare(n.left, [inv[type(op)]()], n.comparators)
        names = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                names.add(x.id)
            elif isinstance(x, ast.Call):
                f = x.func
                if not (isinstance(f, ast.Name) and f.id in PURE or isinstance(f, ast.Attribute) and f.attr in PUREM):
                    return None, False, ()
            elif isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Await, ast.Yield, ast.NamedExpr)):
                return None, False, ()
        txt = ast.unparse(n)
        for nm in sorted(names):
            if st.env.get(nm) == SELF and nm != 'self':
                return None, False, ()
        # the names of the frame: a call has its own
        return '%d|' % len(self.chain) + txt if not (names <= {'self'}) else txt, flip, tuple(sorted(names))

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is not None:
            return dedupe_v(m(n, st))
        return self.children(n, st)

    def children(self, n, st):
        sts = [st]
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.Slice)):
                sts = dedupe([s2 for s in sts for _, s2 in (self.ev(c, s) if isinstance(c, ast.expr) else self.children(c, s))])
        return [(UNK, s) for s in sts]

    def e_Constant(self, n, st):
        return [(('k', n.value), st)]

    def e_Name(self, n, st):
        v = st.env.get(n.id)
        return [(v if v is not None else ('name', n.id), st)]

    def e_Lambda(self, n, st):
        return [(('clo', n), st)]

    def e_List(self, n, st):
        outs = [([], st)]
        for e in n.elts:
            if isinstance(e, ast.Starred):
                return self.children(n, st)
            outs = [(l + [v], s2) for l, s in outs for v, s2 in self.ev(e, s)]
        return [(('lit', tuple(l)), s) for l, s in outs]
    e_Tuple = e_List

    def e_Dict(self, n, st):
        ks = [self.constof(k, st) if k is not None else UNK for k in n.keys]
        r = self.children(n, st)
        return [(('dk', tuple(k[1] for k in ks)) if all(k[0] == 'k' for k in ks) else UNK, s) for _, s in r]

    def e_BinOp(self, n, st):
        out = []
        for a, s in self.ev(n.left, st):
            for b, s2 in self.ev(n.right, s):
                r = UNK
                if a[0] == b[0] == 'k' and isinstance(n.op, ast.Add) and isinstance(a[1], str) and isinstance(b[1], str):
                    r = ('k', a[1] + b[1])
                out.append((r, s2))
        return out

    def e_JoinedStr(self, n, st):
        outs = [('', st)]
        for x in n.values:
            nx = []
            for t, s in outs:
                for v, s2 in self.ev(x.value if isinstance(x, ast.FormattedValue) else x, s):
                    plain = not isinstance(x, ast.FormattedValue) or x.conversion == -1 and x.format_spec is None
                    nx.append((t + str(v[1]) if t is not None and plain and v[0] == 'k' else None, s2))
            outs = nx
        return [(('k', t) if t is not None else UNK, s) for t, s in outs]

    def e_IfExp(self, n, st):
        a, b = self.branch(n.test, st)
        return [x for s in a for x in self.ev(n.body, s)] + [x for s in b for x in self.ev(n.orelse, s)]

    def e_BoolOp(self, n, st):
        a, b = self.branch(n, st)
        return [(UNK, s) for s in dedupe(a + b)]

    def e_UnaryOp(self, n, st):
        out = []
        for v, s in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not) and v[0] == 'k':
                out.append((('k', not v[1]), s))
            elif isinstance(n.op, ast.USub) and v[0] == 'k' and isinstance(v[1], (int, float)):
                out.append((('k', -v[1]), s))
            else:
                out.append((UNK, s))
        return out

    def e_Compare(self, n, st):
        out = []
        for v, s in self.ev(n.left, st):
            sts = [(v, s)]
            for c in n.comparators[:-1]:
                sts = [(UNK, s3) for _, s2 in sts for _, s3 in self.ev(c, s2)]
            for v1, s2 in sts:
                for v2, s3 in self.ev(n.comparators[-1], s2):
                    if v2 == SELF and isinstance(n.ops[-1], (ast.In, ast.NotIn)):
                        self.rd(('i', v1[1] if v1[0] == 'k' else None), s3, n)
                    r = UNK
                    if len(n.ops) == 1:
                        op = n.ops[0]
                        if isinstance(op, (ast.Is, ast.IsNot)) and v2 == ('k', None) and v1[0] in ('k', 'self', 'lit', 'clo'):
                            r = ('k', (v1 == ('k', None)) == isinstance(op, ast.Is))
                        elif v1[0] == 'k' and v2[0] == 'k':
                            try:
                                r = ('k', {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.Gt: lambda a, b: a > b,
                                           ast.LtE: lambda a, b: a <= b, ast.GtE: lambda a, b: a >= b, ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b,
                                           ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b}[type(op)](v1[1], v2[1]))
                            except Exception:
                                r = UNK
                        elif v1[0] == 'k' and v2[0] == 'lit' and all(x[0] == 'k' for x in v2[1]) and isinstance(op, (ast.In, ast.NotIn)):
                            r = ('k', (v1 in v2[1]) == isinstance(op, ast.In))
                    out.append((r, s3))
        return out

    def e_NamedExpr(self, n, st):
        return [(v, s2) for v, s in self.ev(n.value, st) for s2 in self.assign(n.target, v, s, n.value)]

    def e_Attribute(self, n, st):
        out = []
        for b, s in self.ev(n.value, st):
            if b == SELF:
                m = self.p.method(self.cls, n.attr)
                if m is not None:
                    if m.is_property:
                        # which file is to be read again may come from the state of before
                        save = {k: list(v) for k, v in self.exposed.items()} if n.attr == 'filename' else None
                        out += self.call(m, m.node, [SELF], {}, s, n)
                        if save is not None:
                            self.exposed = save
                    else:
                        out.append((('meth', m), s))
                    continue
                if n.attr == '__dict__':
                    out.append((('dict',), s))
                    continue
                if n.attr.startswith('__'):
                    out.append((UNK, s))
                    continue
                self.rd(('a', n.attr), s, n)
                k = s.facts.get(('self.%s is None' % n.attr, ('self',)))
                loc = ('a', n.attr)
                # a value not written yet is the one from before read()
                out.append((('k', None) if k else ('ref', loc) if loc in s.may else ('ref', loc, 'old'), s))
            elif b[0] == 'ref':
                out.append((b[:2], s))
            else:
                out.append((('dot', b, n.attr) if b[0] in ('name', 'dot') else UNK, s))
        return out

    def e_Subscript(self, n, st):
        out = []
        for b, s in self.ev(n.value, st):
            for k, s2 in (self.ev(n.slice, s) if not isinstance(n.slice, ast.Slice) else self.children(n.slice, s)):
                if b == SELF:
                    f = self.p.method(self.cls, '__getitem__')
                    if f is not None:
                        out += self.call(f, f.node, [SELF, k], {}, s2, n)
                    else:
                        loc = ('i', k[1] if k[0] == 'k' else None)
                        self.rd(loc, s2, n)
                        out.append((('ref', loc), s2))
                elif b[0] == 'ref':
                    out.append((b[:2], s2))
                elif b[0] == 'lit' and k[0] == 'k' and isinstance(k[1], int) and -len(b[1]) <= k[1] < len(b[1]):
                    out.append((b[1][k[1]], s2))
                else:
                    out.append((UNK, s2))
        return out

    def comp(self, n, st, elts):
        s = st
        outs = [s]
        for g in n.generators:
            nx = []
            for s in outs:
                for v, s2 in self.ev(g.iter, s):
                    if v == SELF:
                        self.rd(('i', None), s2, n)
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            s2 = self.setname(x.id, UNK, s2)
                    for c in g.ifs:
                        s2 = self.merge([y for _, y in self.ev(c, s2)])
                    nx.append(s2)
            outs = dedupe(nx)
        res = []
        for s in outs:
            for e in elts:
                s = self.merge([s] + [y for _, y in self.ev(e, s)])
            s = s.copy()
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        if x.id in st.env:
                            s.env[x.id] = st.env[x.id]
                        else:
                            s.env.pop(x.id, None)
            res.append((UNK, s))
        return res

    def merge(self, ss):
        r = ss[0]
        for s in ss[1:]:
            r = join(r, s)
        return r

    def e_ListComp(self, n, st):
        return self.comp(n, st, [n.elt])
    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, st):
        return self.comp(n, st, [n.key, n.value])

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        f = n.func
        out = []
        if isinstance(f, ast.Attribute):
            # super().m(...)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                cls = self.fn.cls if self.fn is not None else None
                m = self.p.method(self.cls, f.attr, after=cls) if cls is not None else None
                for a, k, s in self.args(n, st):
                    if m is not None:
                        out += self.call(m, m.node, [SELF] + a, k, s, n)
                    else:
                        out += self.dictop(f.attr, a, k, s, n)
                return out
            for b, s0 in self.ev(f.value, st) if not self.isself(f.value, st) else [(SELF, st)]:
                for a, k, s in self.args(n, s0):
                    if b == SELF:
                        m = self.p.method(self.cls, f.attr)
                        if m is not None:
                            if m.is_property:
                                out += [(UNK, s2) for _, s2 in self.call(m, m.node, [SELF], {}, s, n)]
                            else:
                                out += self.call(m, m.node, ([] if m.is_static else [SELF]) + a, k, s, n)
                        elif self.dictlike and hasattr(dict, f.attr):
                            out += self.dictop(f.attr, a, k, s, n)
                        else:
                            self.rd(('a', f.attr), s, n)
                            out.append((UNK, s))
                    elif b[0] == 'ref':
                        if f.attr == 'clear':
                            s = self.wr(b[1], s, n, isinstance(f.value, (ast.Attribute, ast.Name)) and not self.nested(f.value))
                        elif f.attr in MUTATORS:
                            s = self.wr(b[1], s, n, False)
                        out.append((UNK, s))
                    elif b == ('dict',):
                        if f.attr == 'clear':
                            s = s.copy()
                            s.must = s.must | {('all',)}
                        elif f.attr == 'update':
                            ks = self.updkeys(n, a, k, s)
                            if ks is None:
                                raise GiveUp('attributes under computed names: ' + ast.unparse(n)[:60])
                            for x in ks:
                                s = self.wr(('a', x), s, n)
                        elif f.attr == 'pop' and a and a[0][0] == 'k':
                            s = self.kill(('a', a[0][1]), s)
                        out.append((UNK, s))
                    elif b[0] in ('name', 'dot'):
                        out += self.extcall(n, f, a, k, s)
                    else:
                        out.append((UNK, s))
            return out
        for fv, s0 in self.ev(f, st):
            for a, k, s in self.args(n, s0):
                if fv[0] == 'clo':
                    out += self.call(None, fv[1], a, k, s, n)
                elif fv[0] == 'meth':
                    m = fv[1]
                    out += self.call(m, m.node, ([] if m.is_static else [SELF]) + a, k, s, n)
                elif fv[0] in ('name', 'dot'):
                    out += self.extcall(n, f, a, k, s)
                else:
                    out.append((UNK, s))
        return out

    def nested(self, v):
        """self.x.y.clear() clears a part only"""
        return isinstance(v, ast.Attribute) and isinstance(v.value, (ast.Attribute, ast.Subscript))

    def args(self, n, st):
        outs = [([], {}, st)]
        for x in n.args:
            if isinstance(x, ast.Starred):
                outs = [(a + [UNK], dict(k, **{'*': UNK}), s2) for a, k, s in outs for _, s2 in self.ev(x.value, s)]
            else:
                outs = [(a + [v], k, s2) for a, k, s in outs for v, s2 in self.ev(x, s)]
        for x in n.keywords:
            outs = [(a, dict(k, **{x.arg or '**': v}), s2) for a, k, s in outs for v, s2 in self.ev(x.value, s)]
        return outs

    def extcall(self, n, f, a, k, s):
        name = f.id if isinstance(f, ast.Name) else f.attr
        if isinstance(f, ast.Name) and a and a[0] == SELF:
            if name in ('getattr', 'hasattr') and len(a) > 1:
                if a[1][0] == 'k':
                    if self.p.method(self.cls, a[1][1]) is None:
                        self.rd(('a', a[1][1]), s, n)
                        if name == 'hasattr' and ('a', a[1][1]) in s.must and (('a', a[1][1]) in s.may):
                            return [(('k', True), s)]
                        if name == 'getattr':
                            return [(('ref', ('a', a[1][1])), s)]
                return [(UNK, s)]
            if name == 'setattr' and len(a) == 3:
                if a[1][0] == 'k':
                    return [(('k', None), self.wr(('a', a[1][1]), s, n))]
                raise GiveUp('attribute under a computed name: ' + ast.unparse(n)[:60])
            if name == 'vars':
                return [(('dict',), s)]
            if name == 'delattr' and len(a) == 2 and a[1][0] == 'k':
                return [(('k', None), self.kill(('a', a[1][1]), s))]
            if name in ('len', 'list', 'dict', 'sorted', 'iter', 'tuple', 'enumerate'):
                self.rd(('i', None), s, n)
                return [(UNK, s)]
        r = self.p.resolve_expr(f, self.fn.mod, None) if self.fn is not None else None
        if r is None and isinstance(f, ast.Name) and self.fn is not None:
            r = self.p.resolve_expr(f, self.fn.mod, self.fn)
        if SELF in a or SELF in k.values() or any(v[0] == 'ref' for v in a):
            if r and r[0] == 'func':
                return self.call(r[1], r[1].node, a, k, s, n)
            if isinstance(f, ast.Attribute) and a and a[0] == SELF:
                # Base.method(self, ...)
                if r and r[0] in ('func',):
                    return self.call(r[1], r[1].node, a, k, s, n)
                b = f.value
                if isinstance(b, ast.Name) and b.id in ('dict', 'OrderedDict'):
                    return self.dictop(f.attr, a[1:], k, s, n)
            if isinstance(f, ast.Attribute) and a and a[0] == SELF and r is None:
                raise GiveUp('call with the object: ' + ast.unparse(n)[:60])
        return [(UNK, s)]

    def dictop(self, m, a, k, s, n):
        if m == 'clear':
            s = s.copy()
            s.must = s.must | {ITEMS}
            return [(('k', None), s)]
        if m == '__init__':
            return [(('k', None), s)]
        if m in ('update',):
            ks = self.updkeys(n, a, k, s)
            if ks is None and ITEMS not in s.must:
                raise GiveUp('entries under computed names: ' + ast.unparse(n)[:60])
            for key in [None] if ks is None else ks:
                s = self.wr(('i', key), s, n)
            return [(('k', None), s)]
        if m in ('__setitem__',) and len(a) == 2:
            return [(('k', None), self.wr(('i', a[0][1] if a[0][0] == 'k' else None), s, n))]
        if m in ('setdefault',):
            loc = ('i', a[0][1] if a and a[0][0] == 'k' else None)
            self.rd(loc, s, n)
            return [(('ref', loc), self.wr(loc, s, n, False))]
        if m in ('pop', '__delitem__'):
            loc = ('i', a[0][1] if a and a[0][0] == 'k' else None)
            return [(UNK, self.kill(loc, s) if loc[1] is not None else s)]
        if m in ('get', '__getitem__', '__contains__', 'has_key'):
            loc = ('i', a[0][1] if a and a[0][0] == 'k' else None)
            self.rd(loc, s, n)
            return [(('ref', loc), s)]
        if m in ('keys', 'values', 'items', 'copy', '__iter__', '__len__', '__repr__', '__str__'):
            self.rd(('i', None), s, n)
            return [(UNK, s)]
        return [(UNK, s)]

    def updkeys(self, n, a, k, s):
        """keys given to update(), None if they cannot be told"""
        if '*' in k or '**' in k or len(a) > 1:
            return None
        out = list(k)
        if a:
            e = n.args[-1] if n.args else None
            if a[0][0] == 'dk':
                out += a[0][1]
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'dict' and not e.args and all(x.arg for x in e.keywords):
                out += [x.arg for x in e.keywords]
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('zip', 'dict') and e.args:
                q = self.seq(e if e.func.id == 'zip' else e.args[0], s)
                if q is None or not all(x[0] == 'lit' and x[1] and x[1][0][0] == 'k' for x in q):
                    return None
                out += [x[1][0][1] for x in q]
            elif a[0][0] == 'lit' and all(x[0] == 'lit' and x[1] and x[1][0][0] == 'k' for x in a[0][1]):
                out += [x[1][0][1] for x in a[0][1]]
            else:
                return None
        return out

    def touches(self, node, env, seen=()):
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                v = env.get(x.id)
                if v is None:
                    continue
                if v[0] in ('self', 'ref', 'meth'):
                    return True
                if v[0] == 'clo' and v[1] is not node and v[1] not in seen and self.touches(v[1], env, seen + (node,)):
                    return True
            elif isinstance(x, ast.Nonlocal):
                return True
        return False

    def call(self, fn, node, args, kwargs, st, n):
        key = node
        if fn is None and not any(v[0] in ('self', 'ref', 'clo') for v in list(args) + list(kwargs.values())) and not self.touches(node, st.env):
            return [(UNK, st)]
        if key in self.chain or len(self.chain) > 12:
            return [(UNK, st)]
        if isinstance(node, ast.AsyncFunctionDef):
            return [(UNK, st)]
        self.ncalls += 1
        if self.ncalls > 20000:
            raise GiveUp('too many calls')
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        pos = a.posonlyargs + a.args
        dfl = {p.arg: d for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
        dfl.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        env = dict(st.env) if fn is None else {}
        for p in params + [x.arg for x in a.kwonlyargs]:
            d = dfl.get(p)
            env[p] = ('k', d.value) if isinstance(d, ast.Constant) and not ('*' in kwargs or '**' in kwargs) else UNK
        if a.vararg:
            env[a.vararg.arg] = ('lit', tuple(args[len(params):])) if '*' not in kwargs else UNK
        for p, v in zip(params, args):
            env[p] = v
        rest = {}
        for kk, v in kwargs.items():
            if kk in env and kk in params + [x.arg for x in a.kwonlyargs]:
                env[kk] = v
            elif kk not in ('*', '**'):
                rest[kk] = v
        if a.kwarg:
            env[a.kwarg.arg] = UNK
        s = st.copy()
        caller = s.env
        s.env = env
        save = self.fn
        if fn is not None:
            self.fn = fn
        self.chain.append(key)
        try:
            if isinstance(node, ast.Lambda):
                outs = [('return', s2, v) for v, s2 in self.ev(node.body, s)]
            else:
                outs = self.block(node.body, [s])
        finally:
            self.chain.pop()
            self.fn = save
        depth = len(self.chain) + 1
        res = []
        for k, s2, v in outs:
            if k in ('fall', 'return'):
                s3 = s2.copy()
                if fn is not None and fn is self.reader:
                    s3.may = s3.may | {READ}
                s3.env = dict(caller)
                s3.facts = {x: y for x, y in s3.facts.items() if not x[0].startswith('%d|' % depth)}
                v = ('k', None) if k == 'fall' else v
                res.append((v if v[0] in ('k', 'ref', 'self', 'lit', 'dk') else UNK, s3))
            # an exception ends read(), or is handled where the call is: the handler starts from the state before the try
        return dedupe_v(res)

    def run(self, m, args):
        return self.call(m, m.node, args, {}, St(), m.node)
