"""Abstract interpretation over dictionary records with known keys.

Used for the entries of the OpenFAST input files (C21). The values followed are: constants, constant lists and dictionaries, record
objects (dictionaries whose set of keys is known), symbolic linear integers, string concatenations with a symbolic part, and opaque
values that carry the set of record fields they were computed from.  Unknown conditions fork the path; loops over unknown counts run
their body from a state in which everything the loop assigns is unknown; `TABLE.index(x)` of an unknown x forks over the rows of TABLE.
Nothing of the analysed program is executed.
"""
import ast
from .model import walk_own

NO = frozenset()
MAXSTATES = 30000


class GiveUp(Exception):
    pass


def K(v, t=NO):
    return ('k', v, t)


def U(name, notnone=True, t=NO):
    return ('u', name, notnone, t)


NONE = K(None)


def taint(v, heap=None):
    k = v[0]
    if k in ('k',):
        return v[2]
    if k == 'u':
        return v[3]
    if k in ('cat', 'row', 'slice'):
        return v[-1]
    if k == 'lin':
        return v[3]
    if k == 'seq':
        t = NO
        for x in v[2]:
            t |= taint(x, heap)
        return t
    if k in ('rec', 'coll') and heap is not None and v[1] in heap:
        h = heap[v[1]]
        if h[0] == 'C':
            return h[1]
        t = NO
        for _, x in h[1]:
            if x[0] not in ('rec',):
                t |= taint(x, heap)
        return t
    return NO


def is_const(v):
    return v[0] == 'k' or v[0] == 'row' or v[0] == 'seq' and all(is_const(x) for x in v[2])


def pyval(v):
    if v[0] in ('k', 'row'):
        return v[1]
    if v[0] == 'seq':
        x = [pyval(y) for y in v[2]]
        return tuple(x) if v[1] == 'tuple' else set(x) if v[1] == 'set' else x
    raise ValueError


def fromval(x, t=NO):
    if isinstance(x, (list, tuple, set, frozenset)):
        kind = 'tuple' if isinstance(x, tuple) else 'set' if isinstance(x, (set, frozenset)) else 'list'
        return ('seq', kind, tuple(fromval(y, t) for y in x))
    return K(x, t)


def lin(v):
    """value -> (terms dict, const) or None"""
    k = v[0]
    if k in ('k', 'row'):
        if isinstance(v[1], bool) or not isinstance(v[1], int):
            return None
        return {}, v[1]
    if k == 'lin':
        return dict(v[1]), v[2]
    if k == 'u':
        return {v[1]: 1}, 0
    if k == 'cat' and all(not isinstance(p, str) for p in v[1]):
        d = {}
        for p in v[1]:
            d[p[1]] = d.get(p[1], 0) + 1
        return d, 0
    return None


def mklin(d, c, t=NO):
    d = {k: x for k, x in d.items() if x}
    if not d:
        return K(c, t)
    if c == 0 and len(d) == 1 and list(d.values()) == [1]:
        return U(list(d)[0], True, t)
    return ('lin', tuple(sorted(d.items())), c, t)


def catparts(v):
    if v[0] == 'k' and isinstance(v[1], str):
        return (v[1],) if v[1] else ()
    if v[0] == 'cat':
        return v[1]
    if v[0] == 'u':
        return (('s', v[1]),)
    return None


def mkcat(parts, t=NO):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    if not out:
        return K('', t)
    if len(out) == 1:
        return K(out[0], t) if isinstance(out[0], str) else U(out[0][1], True, t)
    return ('cat', tuple(out), t)


def with_taint(v, t):
    if not t:
        return v
    k = v[0]
    if k == 'k':
        return K(v[1], v[2] | t)
    if k == 'u':
        return ('u', v[1], v[2], v[3] | t)
    if k == 'row':
        return ('row', v[1], v[2], v[3] | t)
    if k == 'cat':
        return ('cat', v[1], v[2] | t)
    if k == 'lin':
        return ('lin', v[1], v[2], v[3] | t)
    if k == 'slice':
        return v[:-1] + (v[-1] | t,)
    return v


class St:
    __slots__ = ('env', 'heap', 'emitted', 'ev', 'facts', 'stack', 'depth')

    def __init__(self):
        self.env, self.heap, self.emitted, self.ev, self.facts, self.stack, self.depth = {}, {}, (), (), NO, (), 0

    def copy(self):
        s = St()
        s.env, s.heap = dict(self.env), dict(self.heap)
        s.emitted, s.ev, s.facts, s.stack, s.depth = self.emitted, self.ev, self.facts, self.stack, self.depth
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), self.emitted, self.ev, self.facts, self.stack)

    def subst(self, name, val):
        """the opaque value `name` is val"""
        def f(v):
            k = v[0]
            if k == 'u':
                return with_taint(val, v[3]) if v[1] == name else v
            if k == 'cat' and val[0] in ('k', 'cat', 'u') and any(p == ('s', name) for p in v[1]):
                ps = catparts(val)
                if ps is None:
                    return v
                out = []
                for p in v[1]:
                    out.extend(ps if p == ('s', name) else (p,))
                return mkcat(out, v[2])
            if k == 'lin' and any(n == name for n, _ in v[1]):
                l = lin(val)
                if l is None:
                    return v
                d, c = {}, v[2]
                for n, x in v[1]:
                    if n == name:
                        c += x * l[1]
                        for m, y in l[0].items():
                            d[m] = d.get(m, 0) + x * y
                    else:
                        d[n] = d.get(n, 0) + x
                return mklin(d, c, v[3])
            if k == 'seq':
                return ('seq', v[1], tuple(f(x) for x in v[2]))
            if k == 'slice':
                return ('slice', v[1], f(v[2]) if v[2] else v[2], f(v[3]) if v[3] else v[3], v[4])
            return v
        s = self.copy()
        s.ev = tuple(('slice', e[1], f(e[2]), f(e[3])) if e[0] == 'slice' else e for e in self.ev)
        s.env = {n: f(v) for n, v in self.env.items()}
        s.stack = tuple(frozenset((n, f(v)) for n, v in e) for e in self.stack)
        s.heap = {i: (('R', tuple((a, f(b)) for a, b in h[1]), h[2]) if h[0] == 'R' else h) for i, h in self.heap.items()}
        return s

    def gc(self, extra=()):
        seen, todo = set(), []

        def push(v):
            if v[0] in ('rec', 'coll', 'seq'):
                todo.append(v)
        for v in self.env.values():
            push(v)
        for e in self.stack:
            for _, v in e:
                push(v)
        for v in extra:
            push(v)
        for i in self.emitted:
            push(('rec', i))
        for i in self.heap:
            if isinstance(i, str):
                push(('rec', i))
        while todo:
            v = todo.pop()
            if v[0] == 'seq':
                for x in v[2]:
                    push(x)
            elif v[1] not in seen:
                seen.add(v[1])
                h = self.heap.get(v[1])
                if h and h[0] == 'R':
                    for _, x in h[1]:
                        push(x)
        self.heap = {i: h for i, h in self.heap.items() if i in seen}


def isrec(v, st):
    return v[0] == 'rec' and st.heap.get(v[1], ('C',))[0] == 'R'


def dedupe(states):
    seen, out = set(), []
    for s in states:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) > MAXSTATES:
        raise GiveUp('too many states')
    return out


SELF = ('self',)
STRM = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'split', 'splitlines', 'find', 'count', 'format', 'join', 'title', 'capitalize',
        'index', 'isdigit', 'zfill', 'ljust', 'rjust', 'partition'}


class Interp:
    def __init__(self, proj, cls, data=None, taint_fields=False, stop=(), inline_self=None):
        """data: None (entries are collected) or a list of heap records that `self.data` consists of"""
        self.p, self.cls, self.data = proj, cls, data
        self.stop = set(stop)
        self.inline_self = inline_self or (lambda name: True)
        self.emissions = {}          # (fields tuple, exact, row event) -> (state, function)
        self.lookups = {}            # (kind, key value, row event) -> (line, state)
        self.errors = {}             # (node, msg) -> state
        self.iter_end = None         # hook(state, loopnode)
        self.slices = []
        self.modenv = {}
        self.ctx = ()
        self.tries = 0
        self.gaps = set()
        self.nstates = 0
        self.rows = {}               # (origin, k) -> const
        self.rowuse = {}             # origin -> set of list names subscripted by its rows
        self.calls, self.emitlines = set(), set()
        self.live, self.lived = {}, set()
        self.chain, self.extra = [], {}
        self.memo, self.nostack = {}, False
        self.alias = {}

    # ------------------------------------------------------------------ entry
    def run(self, fn, args=(), kwargs=None, st=None):
        st = st or St()
        return self.call_func(fn, [SELF] + list(args) if fn.bound_self() and not fn.is_classmethod else list(args), kwargs or {}, st, fn.node)

    def nm(self, node, what=''):
        return '%s%s:%s%s' % (''.join('%s/' % c for c in self.ctx), getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), what)

    def opaque(self, node, t=NO, notnone=True, what=''):
        return U(self.nm(node, what), notnone, t)

    def err(self, node, msg, st):
        if not self.tries:
            self.errors.setdefault((node.lineno, node.col_offset, msg), (node, msg, self.fn, st))
        return ('err', msg)

    # ------------------------------------------------------------------ blocks
    def block(self, body, states):
        """-> list of (kind, state, value); kind in fall, return, break, continue, raise"""
        out = []
        cur = list(states)
        for s in body:
            nxt = []
            for st in cur:
                for k, s2, v in self.stmt(s, st):
                    if k == 'fall':
                        nxt.append(s2)
                    else:
                        out.append((k, s2, v))
            live = self.live.get(s)
            if live is not None:
                for x in nxt:
                    if any(k not in live for k in x.env):
                        x.env = {k: v for k, v in x.env.items() if k in live}
                    if x.emitted:
                        self.finish(x)
            if len(nxt) > 8:
                for x in nxt:
                    if x.facts:
                        self.gcfacts(x)
            cur = dedupe(nxt)
            self.nstates += len(cur)
            if self.nstates > self.maxtotal:
                raise GiveUp('too many states in all')
            if not cur:
                break
        return out + [('fall', s, None) for s in cur]

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            out = []
            for v, s2 in self.ev(s.value, st):
                if v[0] == 'err':
                    out.append(('raise', s2, v))
                    continue
                sts = [s2]
                bad = []
                for t in s.targets:
                    nxt = []
                    for x in sts:
                        for k, y in self.assign(t, v, x):
                            (nxt if k else bad).append(y)
                    sts = nxt
                out += [('fall', x, None) for x in sts] + [('raise', x, ('err', '')) for x in bad]
            return out
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [('fall', st, None)]
            return self.stmt(ast.copy_location(ast.Assign([s.target], s.value), s), st)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.op, ast.Add):
                # self.data += [...]
                cur = self.ev(self.load(s.target), st)
                out = []
                for c, s1 in cur:
                    if c[0] == 'selfdata':
                        for v, s2 in self.ev(s.value, s1):
                            if v[0] == 'seq':
                                for x in v[2]:
                                    s2 = self.emit(x, s2, s)
                            out.append(('fall', s2, None))
                        continue
                    for v, s2 in self.ev(s.value, s1):
                        if v[0] == 'err':
                            out.append(('raise', s2, v))
                            continue
                        if c[0] == 'coll':
                            s2 = self.addcoll(c, taint(v, s2.heap), s2)
                            out.append(('fall', s2, None))
                            continue
                        r = self.add(c, v, s, s2)
                        for k, y in self.assign(s.target, r, s2):
                            out.append(('fall' if k else 'raise', y, None))
                return out
            node = ast.copy_location(ast.Assign([s.target], ast.copy_location(ast.BinOp(self.load(s.target), s.op, s.value), s)), s)
            return self.stmt(node, st)
        if isinstance(s, ast.Expr):
            return [('raise' if v[0] == 'err' else 'fall', s2, v if v[0] == 'err' else None) for v, s2 in self.ev(s.value, st)]
        if isinstance(s, ast.If):
            t, f, bad = self.branch(s.test, st)
            out = self.block(s.body, t) if t else []
            out += self.block(s.orelse, f) if f else []
            return out + [('raise', x, ('err', '')) for x in bad]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [('return', st, NONE)]
            return [('raise' if v[0] == 'err' else 'return', s2, v) for v, s2 in self.ev(s.value, st)]
        if isinstance(s, ast.Raise):
            return [('raise', st, ('exc',))]
        if isinstance(s, ast.Break):
            return [('break', st, None)]
        if isinstance(s, ast.Continue):
            return [('continue', st, None)]
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            return [('fall', st, None)]
        if isinstance(s, ast.Assert):
            t, f, bad = self.branch(s.test, st)
            return [('fall', x, None) for x in t] + [('raise', x, ('exc',)) for x in f + bad]
        if isinstance(s, (ast.FunctionDef,)):
            st = st.copy()
            st.env[s.name] = ('clo', s)
            return [('fall', st, None)]
        if isinstance(s, ast.Delete):
            return self.delete(s, st)
        if isinstance(s, ast.While):
            return self.loop(s, st, None)
        if isinstance(s, ast.For):
            return self.for_(s, st)
        if isinstance(s, ast.With):
            cur = [st]
            for it in s.items:
                nxt = []
                for x in cur:
                    for v, y in self.ev(it.context_expr, x):
                        if it.optional_vars is not None:
                            nxt += [z for k, z in self.assign(it.optional_vars, U(self.nm(it.context_expr, 'with')), y)]
                        else:
                            nxt.append(y)
                cur = nxt
            return self.block(s.body, cur)
        if isinstance(s, ast.Try):
            return self.try_(s, st)
        self.gaps.add(type(s).__name__)
        return [('fall', self.havoc(assigned([s]), st, s), None)]

    def finish(self, x, all_=False):
        """entries that nothing refers to any more have their final form"""
        refs = set()
        for vals in [x.env.values()] + [[v for _, v in e] for e in x.stack]:
            for v in vals:
                if v[0] == 'rec':
                    refs.add(v[1])
                elif v[0] == 'seq':
                    refs |= {y[1] for y in v[2] if y[0] == 'rec'}
        keep = []
        for i in x.emitted:
            if i in refs and not all_:
                keep.append(i)
            elif isrec(('rec', i), x):
                self.emission(x.heap[i], x)
                if i not in refs:
                    x.heap = {k: v for k, v in x.heap.items() if k != i}
        x.emitted = tuple(keep)

    def gcfacts(self, x):
        used = set()
        for vals in [x.env.values()] + [[v for _, v in e] for e in x.stack] + [[v for _, v in h[1]] for h in x.heap.values() if h[0] == 'R']:
            for v in vals:
                used.update(names(v))
        def keep(f):
            if f[0] in ('true', 'false'):
                return f[1][f[1].find('(') + 1:f[1].rfind(',')] in used
            return any(y in used for y in names(f[1] + (NO,)))
        x.facts = frozenset(f for f in x.facts if keep(f))

    def emission(self, h, st):
        row = [e for e in st.ev if e[0] == 'row']
        self.emissions.setdefault((h[1], h[2], row[-1] if row else None), (st, self.fn))

    def load(self, t):
        import copy
        n = copy.copy(t)
        n.ctx = ast.Load()
        return n

    def try_(self, s, st):
        self.tries += 1 if s.handlers else 0
        try:
            outs = self.block(s.body, [st])
        finally:
            self.tries -= 1 if s.handlers else 0
        res, raised = [], []
        for o in outs:
            if o[0] == 'raise' and s.handlers:
                raised.append(o[1])
            elif o[0] == 'fall' and s.orelse:
                res += self.block(s.orelse, [o[1]])
            else:
                res.append(o)
        if s.handlers:
            h0 = self.havoc(assigned(s.body), st, s)
            hs = dedupe(raised + [h0])
            for h in s.handlers:
                for x in hs:
                    y = x.copy()
                    if h.name:
                        y.env[h.name] = U(self.nm(h, 'exc'))
                    res += self.block(h.body, [y])
        if s.finalbody:
            out = []
            for k, x, v in res:
                for k2, y, v2 in self.block(s.finalbody, [x]):
                    out.append((k, y, v) if k2 == 'fall' else (k2, y, v2))
            res = out
        return res

    # ------------------------------------------------------------------ loops
    def havoc(self, names, st, node, notnone=()):
        s = st.copy()
        for n in names:
            v = s.env.get(n)
            s.env[n] = U(self.nm(node, 'havoc.' + n), n in notnone, NO)
        return s

    def for_(self, s, st):
        out = []
        for it, s1 in self.ev(s.iter, st):
            if it[0] == 'err':
                out.append(('raise', s1, it))
                continue
            if it[0] == 'k' and it[1] is None:
                out.append(('raise', s1, self.err(s.iter, 'iterates over None', s1)))
                continue
            if it[0] == 'seq' and len(it[2]) <= 64:
                cur, done = [s1], []
                names_ = [e.id if isinstance(e, ast.Name) else None for e in s.iter.elts] if isinstance(s.iter, (ast.Tuple, ast.List)) and len(s.iter.elts) == len(it[2]) else []
                for ix, x in enumerate(it[2]):
                    nxt = []
                    if isinstance(s.target, ast.Name) and not (names_ and names_[ix]):
                        self.alias.pop(s.target.id, None)
                        if x[0] == 'seq':
                            self.alias[s.target.id] = None
                    elif isinstance(s.target, ast.Name):
                        self.alias[s.target.id] = names_[ix]
                    for y in cur:
                        for k, z in self.assign(s.target, x, y):
                            for o in self.block(s.body, [z]) if k else [('raise', z, ('err', ''))]:
                                if o[0] in ('fall', 'continue'):
                                    nxt.append(o[1])
                                elif o[0] == 'break':
                                    done.append(o[1])
                                else:
                                    out.append(o)
                    cur = dedupe(nxt)
                if s.orelse:
                    out += self.block(s.orelse, cur) if cur else []
                else:
                    out += [('fall', x, None) for x in cur]
                out += [('fall', x, None) for x in done]
                continue
            out += self.loop(s, s1, it)
        return out

    def loop(self, s, st, it):
        names = assigned(s.body) | ({n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if isinstance(s, ast.For) else set())
        # collections known element by element stop being so
        st = st.copy()
        for n in assigned_items(s.body):
            v = st.env.get(n)
            if v and isrec(v, st):
                h = st.heap[v[1]]
                st.heap[v[1]] = ('R', tuple((a, U(self.nm(s, 'havoc.' + n + '.' + str(a)), False, taint(b, st.heap))) for a, b in h[1]), False)
            elif v and v[0] == 'seq' and n not in names:
                names.add(n)
        at_least_one = False
        if isinstance(s, ast.For) and it is not None and it[0] == 'range':
            l = it[1]
            if ('ne0', l) in st.facts:
                at_least_one = True
        names = {n for n in names}
        nn = {n for n in names if n in st.env and not maybe_none(st.env[n])}
        for _ in range(4):
            h = self.havoc(names, st, s, nn)
            bad = set()
            # what the loop concatenates keeps the fields it was built from
            for _2 in range(3):
                entry = self.retaint(h, st, names)
                outs = []
                if isinstance(s, ast.While):
                    t, f, b = self.branch(s.test, entry)
                    outs += [('raise', x, ('err', '')) for x in b]
                    t = t or []
                else:
                    t = []
                    elem = U(self.nm(s, 'item'), True, taint(it, entry.heap) if it is not None else NO)
                    if it is not None and it[0] == 'enum':
                        elem = ('seq', 'tuple', (U(self.nm(s, 'enum')), elem))
                    for k, x in self.assign(s.target, elem, entry):
                        t.append(x)
                    f = []
                for x in t:
                    x.ev = tuple(e for e in x.ev if e[0] == 'mark') + (('loop', self.nm(s)),)
                outs += self.block(s.body, t)
                ends = [o[1] for o in outs if o[0] in ('fall', 'continue')]
                grown = False
                for x in ends:
                    for n in names:
                        tn = taint(x.env[n], x.heap) if n in x.env else NO
                        if tn - self.extra.get((self.nm(s), n), NO) - taint(entry.env.get(n, NONE), entry.heap):
                            self.extra[(self.nm(s), n)] = self.extra.get((self.nm(s), n), NO) | tn
                            grown = True
                if not grown:
                    break
            for x in ends:
                for n in nn:
                    if n in x.env and maybe_none(x.env[n]):
                        bad.add(n)
            if not bad:
                break
            nn -= bad
        res = []
        if self.iter_end:
            for k, x, v in outs:
                if k in ('fall', 'continue', 'break', 'return'):
                    self.iter_end(x, s, k, entry)
        after = [o[1] for o in outs if o[0] == 'break']
        for x in ends:
            if isinstance(s, ast.While):
                t2, f2, b2 = self.branch(s.test, x)
                after += f2
            else:
                after.append(x)
        if isinstance(s, ast.While):
            t0, f0, b0 = self.branch(s.test, st)
            after += f0
        elif not at_least_one:
            after.append(st)
        for x in after:
            x2 = x.copy()
            x2.ev = st.ev
            res.append(('fall', x2, None))
        for k, x, v in outs:
            if k in ('return', 'raise'):
                res.append((k, x, v))
        if getattr(s, 'orelse', None):
            out = []
            for k, x, v in res:
                if k == 'fall':
                    out += self.block(s.orelse, [x])
                else:
                    out.append((k, x, v))
            res = out
        d = dedupe([x for k, x, v in res if k == 'fall'])
        return [('fall', x, None) for x in d] + [o for o in res if o[0] != 'fall']

    extra = {}

    def retaint(self, h, st, names):
        s = h.copy()
        for n in names:
            t = self.extra.get((h.env[n][1].rsplit('havoc.', 1)[0] if h.env[n][0] == 'u' else '', n), NO)
            if n in st.env:
                t = t | taint(st.env[n], st.heap)
            s.env[n] = with_taint(h.env[n], t)
        return s

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        """-> list of (ok, state)"""
        if isinstance(t, ast.Name):
            s = st.copy()
            s.env[t.id] = v
            return [(True, s)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, U(self.nm(t)), st)
        if isinstance(t, (ast.Tuple, ast.List)):
            if v[0] == 'k' and v[1] is None:
                self.err(t, 'unpacks None', st)
                return [(False, st)]
            items = v[2] if v[0] == 'seq' and len(v[2]) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts) else \
                [U(self.nm(e, 'unpack'), False, taint(v, st.heap)) for e in t.elts]
            cur = [st]
            for e, x in zip(t.elts, items):
                nxt = []
                for y in cur:
                    nxt += [z for k, z in self.assign(e, x, y) if k]
                cur = nxt
            return [(True, x) for x in cur]
        if isinstance(t, ast.Attribute):
            out = []
            for b, s in self.ev(t.value, st):
                if b == SELF:
                    s = s.copy()
                    if t.attr == 'data' and self.data is None:
                        if v[0] == 'seq':
                            for x in v[2]:
                                s = self.emit(x, s, t)
                    elif self.data is not None:
                        s.heap[('self', t.attr)] = ('A', v)
                out.append((True, s))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, s in self.ev(t.value, st):
                for i, s2 in self.ev(t.slice, s):
                    s2 = s2.copy()
                    if b[0] == 'rec' and b[1] in s2.heap and s2.heap[b[1]][0] == 'C':
                        s2 = self.addcoll(b, taint(v, s2.heap) | frozenset('@' + x for x in taint(i, s2.heap)), s2)
                    elif b[0] == 'rec' and b[1] in s2.heap:
                        h = s2.heap[b[1]]
                        if i[0] == 'k':
                            f = dict(h[1])
                            f[i[1]] = v
                            s2.heap[b[1]] = ('R', tuple(sorted(f.items(), key=lambda x: str(x[0]))), h[2])
                        else:
                            s2.heap[b[1]] = ('C', taint(b, s2.heap) | taint(v, s2.heap) | frozenset('@' + x for x in taint(i, s2.heap)), True)
                    elif b[0] == 'coll':
                        s2 = self.addcoll(b, taint(v, s2.heap) | frozenset('@' + x for x in taint(i, s2.heap)), s2)
                    elif b[0] == 'seq' and isinstance(t.value, ast.Name):
                        if i[0] in ('k', 'row') and isinstance(i[1], int) and -len(b[2]) <= i[1] < len(b[2]):
                            l = list(b[2])
                            l[i[1]] = v
                            s2.env[t.value.id] = ('seq', b[1], tuple(l))
                        else:
                            s2.env[t.value.id] = U(self.nm(t, 'wk'), True, taint(b) | taint(v, s2.heap))
                    elif isinstance(t.value, ast.Name) and b[0] == 'u':
                        s2.env[t.value.id] = with_taint(b, taint(v, s2.heap))
                    out.append((True, s2))
            return out
        return [(True, st)]

    def addcoll(self, c, t, st):
        s = st.copy()
        h = s.heap.get(c[1], ('C', NO, False))
        s.heap[c[1]] = ('C', (h[1] if h[0] == 'C' else taint(('rec', c[1]), s.heap)) | t, True)
        return s

    def delete(self, d, st):
        cur = [st]
        for t in d.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Subscript):
                    for b, s1 in self.ev(t.value, s):
                        for i, s2 in self.ev(t.slice, s1):
                            nxt.append(self.remove(t.value, b, i, s2))
                else:
                    nxt.append(s)
            cur = nxt
        return [('fall', s, None) for s in cur]

    def remove(self, target, b, i, st):
        s = st.copy()
        if i[0] == 'row' and b[0] in ('seq',):
            nm = ast.unparse(target)
            nm = self.alias.get(nm, nm) or '?'
            s.ev = s.ev + (('del', i[2], i[1], nm),)
            if nm != '?':
                self.rowuse.setdefault(i[2], {}).setdefault(nm, set()).add('del')
        elif b[0] == 'rec' and i[0] == 'k' and isrec(b, s):
            h = s.heap[b[1]]
            s.heap[b[1]] = ('R', tuple((a, x) for a, x in h[1] if a != i[1]), h[2])
        elif b[0] == 'seq' and isinstance(target, ast.Name):
            if i[0] == 'k' and isinstance(i[1], int) and -len(b[2]) <= i[1] < len(b[2]):
                l = list(b[2])
                del l[i[1]]
                s.env[target.id] = ('seq', b[1], tuple(l))
            else:
                s.env[target.id] = U(self.nm(target, 'del'), True, taint(b))
        return s

    def emit(self, v, st, node):
        if not isrec(v, st):
            s = st.copy()
            self.gaps.add('entry not a record at line %s' % node.lineno)
            return s
        s = st.copy()
        s.emitted = s.emitted + (v[1],)
        self.emitlines.add((self.fn, node.lineno))
        return s

    def newid(self, node, st, what=''):
        base = self.nm(node, what)
        n = 0
        while (base, n) in st.heap:
            n += 1
        return (base, n)

    # ------------------------------------------------------------------ conditions
    def branch(self, test, st):
        """-> (true states, false states, failed states)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f, b = self.branch(test.operand, st)
            return f, t, b
        if isinstance(test, ast.BoolOp):
            cur, done, bad = [st], [], []
            isand = isinstance(test.op, ast.And)
            for v in test.values:
                nxt = []
                for s in cur:
                    t, f, b = self.branch(v, s)
                    bad += b
                    if isand:
                        nxt += t
                        done += f
                    else:
                        nxt += f
                        done += t
                cur = dedupe(nxt)
            done = dedupe(done)
            return (cur, done, bad) if isand else (done, cur, bad)
        T, F, B = [], [], []
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            for a, s1 in self.ev(test.left, st):
                if a[0] == 'err':
                    B.append(s1)
                    continue
                for b, s2 in self.ev(test.comparators[0], s1):
                    if b[0] == 'err':
                        B.append(s2)
                        continue
                    r = self.compare(test.ops[0], a, b, s2, test)
                    if r is True:
                        T.append(s2)
                    elif r is False:
                        F.append(s2)
                    elif r == 'err':
                        B.append(s2)
                    else:
                        T += r[0]
                        F += r[1]
            return T, F, B
        for v, s in self.ev(test, st):
            if v[0] == 'err':
                B.append(s)
                continue
            r = self.truth(v, s)
            if r is True:
                T.append(s)
            elif r is False:
                F.append(s)
            else:
                if v[0] == 'u' and ('true', v[1]) in s.facts:
                    T.append(s)
                elif v[0] == 'u' and ('false', v[1]) in s.facts:
                    F.append(s)
                else:
                    a, b = s, s
                    if v[0] == 'u' and v[1].endswith('?stable'):
                        a, b = s.copy(), s.copy()
                        a.facts, b.facts = s.facts | {('true', v[1])}, s.facts | {('false', v[1])}
                    if v[0] == 'u' and not v[2]:
                        a = s.subst(v[1], ('u', v[1], True, v[3]))
                    T.append(a)
                    F.append(b)
        return T, F, B

    def truth(self, v, st):
        if v[0] in ('k', 'row'):
            return bool(v[1])
        if v[0] == 'seq':
            return len(v[2]) > 0
        if v[0] == 'rec':
            h = st.heap.get(v[1])
            return (bool(h[1]) if h[2] else None) if h and h[0] == 'R' else None
        if v[0] == 'coll':
            h = st.heap.get(v[1])
            return False if h and not h[2] else None
        if v[0] == 'cat':
            return True if any(isinstance(p, str) for p in v[1]) else None
        if v[0] in ('self', 'fn', 'clo', 'selfdata', 'cls'):
            return True if v[0] != 'selfdata' else None
        return None

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if b[0] == 'k' and b[1] is None or a[0] == 'k' and a[1] is None:
                x = a if b[0] == 'k' and b[1] is None else b
                if x[0] == 'k':
                    r = x[1] is None
                elif not maybe_none(x):
                    r = False
                else:
                    yes = st.subst(x[1], K(None, x[3]))
                    no = st.subst(x[1], ('u', x[1], True, x[3]))
                    return ([no], [yes]) if neg else ([yes], [no])
                return r != neg
            if is_const(a) and is_const(b):
                return (pyval(a) is pyval(b)) != neg
            return ([st], [st])
        if isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            if is_const(a) and is_const(b):
                return (pyval(a) == pyval(b)) != neg
            la, lb = lin(a), lin(b)
            if la and lb:
                d = dict(la[0])
                for k, x in lb[0].items():
                    d[k] = d.get(k, 0) - x
                d = {k: x for k, x in d.items() if x}
                c = la[1] - lb[1]
                if not d:
                    return (c == 0) != neg
                key = mklin(d, c)[:3]
                if ('eq0', key) in st.facts:
                    return not neg
                if ('ne0', key) in st.facts:
                    return neg
                y, n = st.copy(), st.copy()
                if len(key) and not a[0] == 'u' or b[0] != 'k':
                    y.facts, n.facts = st.facts | {('eq0', key)}, st.facts | {('ne0', key)}
                else:
                    n.facts = st.facts | {('ne0', key)}
                    y = st.subst(a[1], b) if a[0] == 'u' else y
                return ([n], [y]) if neg else ([y], [n])
            for x, c in ((a, b), (b, a)):
                if x[0] == 'u' and c[0] == 'k':
                    if c[1] is None and x[2]:
                        return neg
                    y = st.subst(x[1], c)
                    return ([st], [y]) if neg else ([y], [st])
                if x[0] == 'cat' and c[0] == 'k' and isinstance(c[1], str):
                    first, last = x[1][0], x[1][-1]
                    if isinstance(first, str) and not c[1].startswith(first) or isinstance(last, str) and not c[1].endswith(last):
                        return neg
                if c[0] == 'k' and c[1] is None and x[0] in ('seq', 'rec', 'coll', 'lin', 'cat'):
                    return neg
            return ([st], [st])
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            if b[0] == 'k' and b[1] is None:
                self.err(node, 'searches in None', st)
                return 'err'
            if b[0] == 'seq' and is_const(a) and all(is_const(x) for x in b[2]):
                return (pyval(a) in [pyval(x) for x in b[2]]) != neg
            if b[0] == 'seq' and not b[2]:
                return neg
            if b[0] == 'k' and isinstance(b[1], str) and a[0] == 'k' and isinstance(a[1], str):
                return (a[1] in b[1]) != neg
            if b[0] == 'rec' and a[0] == 'k' and isrec(b, st):
                h = st.heap[b[1]]
                if h[2]:
                    return (a[1] in dict(h[1])) != neg
            if b[0] == 'seq':
                self.note_search(node.comparators[0] if isinstance(node, ast.Compare) else None, b, st)
                if a[0] == 'u' and all(is_const(x) for x in b[2]):
                    if len(b[2]) <= 8:          # small constant set: fork over it
                        y = [st.subst(a[1], x) for x in b[2]]
                        return ([st], y) if neg else (y, [st])
            return ([st], [st])
        if is_const(a) and is_const(b):
            try:
                x, y = pyval(a), pyval(b)
                r = x < y if isinstance(op, ast.Lt) else x <= y if isinstance(op, ast.LtE) else x > y if isinstance(op, ast.Gt) else x >= y
                return bool(r)
            except TypeError:
                self.err(node, 'compares %r with %r' % (pyval(a), pyval(b)), st)
                return 'err'
        la, lb = lin(a), lin(b)
        if la and lb and la[0] == lb[0]:
            x, y = la[1], lb[1]
            return x < y if isinstance(op, ast.Lt) else x <= y if isinstance(op, ast.LtE) else x > y if isinstance(op, ast.Gt) else x >= y
        return ([st], [st])

    def note_search(self, node, b, st):
        pass

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.gaps.add(type(n).__name__)
            return [(self.opaque(n, notnone=False), st)]
        return m(n, st)

    def evs(self, nodes, st):
        """-> list of ([values], state); an error value stops"""
        cur = [([], st)]
        for n in nodes:
            nxt = []
            for vs, s in cur:
                if vs and vs[-1][0] == 'err':
                    nxt.append((vs, s))
                    continue
                for v, s2 in self.ev(n, s):
                    nxt.append((vs + [v], s2))
            cur = nxt
        return cur

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, (str, int, float, bool, bytes)) or v is None:
            return [(K(v), st)]
        return [(self.opaque(n), st)]

    def e_Name(self, n, st):
        if n.id in st.env:
            return [(st.env[n.id], st)]
        if self.closure_ok:
            for e in reversed(st.stack):
                d = dict(e)
                if n.id in d:
                    return [(d[n.id], st)]
        r = self.p.resolve_sym(self.fn.mod, n.id)
        return [(self.resolved(r, n), st)]

    def resolved(self, r, n):
        if r is None:
            return U('global ' + (n.id if isinstance(n, ast.Name) else n.attr), False)
        if r[0] == 'func':
            return ('fn', r[1], None)
        if r[0] == 'class':
            return ('cls', r[1])
        if r[0] == 'var':
            return self.modvars(r[1]).get(r[2], U('global ' + r[2], False))
        if r[0] == 'module':
            return ('mod', r[1])
        if r[0] == 'ext':
            return ('ext', r[1])
        return U('global ' + str(r), False)

    def modvars(self, m):
        if m.name not in self.modenv:
            self.modenv[m.name] = {}
            sub = Interp(self.p, self.cls)
            sub.modenv = self.modenv

            class F:
                mod = m
                name = '<module>'
                qual = '<module>'
                node = m.tree
            sub.fn = F
            st = St()
            for s in m.tree.body:
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    try:
                        o = [x for x in sub.stmt(s, st) if x[0] == 'fall']
                        if len(o) == 1:
                            st = o[0][1]
                            self.modenv[m.name] = {k: v for k, v in st.env.items() if v[0] in ('k', 'seq', 'u', 'cat', 'lin')}
                    except GiveUp:
                        pass
            self.modheap = st.heap
            for k, v in st.env.items():
                if v[0] == 'rec' and v[1] in st.heap:
                    self.modenv[m.name][k] = ('cdict', st.heap[v[1]][1])
            self.fixconst(m)
        return self.modenv[m.name]

    def fixconst(self, m):
        """names assigned anywhere else (global statements, conditional definitions) are unknown"""
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.modenv[m.name].pop(x, None)

    def e_Tuple(self, n, st):
        return self._seq(n, st, 'tuple')

    def e_List(self, n, st):
        return self._seq(n, st, 'list')

    def e_Set(self, n, st):
        return self._seq(n, st, 'set')

    def _seq(self, n, st, kind):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            out = []
            for vs, s in self.evs([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st):
                if vs and vs[-1][0] == 'err':
                    out.append((vs[-1], s))
                    continue
                items, ok = [], True
                for e, v in zip(n.elts, vs):
                    if isinstance(e, ast.Starred):
                        if v[0] == 'seq':
                            items += v[2]
                        else:
                            ok = False
                    else:
                        items.append(v)
                out.append((('seq', kind, tuple(items)) if ok else self.opaque(n, frozenset().union(*[taint(v, s.heap) for v in vs])), s))
            return out
        out = []
        for vs, s in self.evs(n.elts, st):
            if vs and vs[-1][0] == 'err':
                out.append((vs[-1], s))
            elif not vs and kind == 'list':
                out.append((('seq', 'list', ()), s))
            else:
                out.append((('seq', kind, tuple(vs)), s))
        return out

    def e_Dict(self, n, st):
        if not n.keys:
            s = st.copy()
            i = self.newid(n, s)
            s.heap[i] = ('R', (), True)
            return [(('rec', i), s)]
        out = []
        for vs, s in self.evs([k if k is not None else ast.Constant(value=None) for k in n.keys], st):
            if vs[-1][0] == 'err':
                out.append((vs[-1], s))
                continue
            for ws, s2 in self.evs(n.values, s):
                if ws[-1][0] == 'err':
                    out.append((ws[-1], s2))
                    continue
                s2 = s2.copy()
                f, exact = {}, True
                for kn, k, w in zip(n.keys, vs, ws):
                    if kn is None:
                        if isrec(w, s2):
                            f.update(dict(s2.heap[w[1]][1]))
                            exact = exact and s2.heap[w[1]][2]
                        elif w[0] == 'cdict':
                            f.update(dict(w[1]))
                        else:
                            exact = False
                    elif k[0] == 'k':
                        f[k[1]] = w
                    else:
                        exact = False
                i = self.newid(n, s2)
                s2.heap[i] = ('R', tuple(sorted(f.items(), key=lambda x: str(x[0]))), exact)
                out.append((('rec', i), s2))
        return out

    def e_JoinedStr(self, n, st):
        out = []
        parts = [v for v in n.values]
        for vs, s in self.evs([v.value if isinstance(v, ast.FormattedValue) else v for v in parts], st):
            if vs and vs[-1][0] == 'err':
                out.append((vs[-1], s))
                continue
            t = frozenset().union(*[taint(v, s.heap) for v in vs]) if vs else NO
            ps, ok = [], True
            for node, v in zip(parts, vs):
                if isinstance(node, ast.FormattedValue) and (node.format_spec is not None or node.conversion != -1):
                    ok = False
                elif v[0] in ('k', 'row'):
                    ps.append(str(v[1]))
                else:
                    c = catparts(v)
                    if c is None:
                        ok = False
                    else:
                        ps += c
            out.append((mkcat(ps, t) if ok else self.opaque(n, t), s))
        return out

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            t, f, b = self.branch(n, st)
            return [(K(True), s) for s in t] + [(K(False), s) for s in f] + [(('err', ''), s) for s in b]
        out = []
        for v, s in self.ev(n.operand, st):
            if v[0] == 'err':
                out.append((v, s))
            elif v[0] == 'k' and isinstance(n.op, ast.USub) and isinstance(v[1], (int, float)):
                out.append((K(-v[1], v[2]), s))
            else:
                l = lin(v)
                if l and isinstance(n.op, ast.USub):
                    out.append((mklin({k: -x for k, x in l[0].items()}, -l[1], taint(v)), s))
                else:
                    out.append((self.opaque(n, taint(v, s.heap)), s))
        return out

    def e_BoolOp(self, n, st):
        # value semantics only matter for `a or b`; decided when the first operand is
        out = []
        isand = isinstance(n.op, ast.And)
        cur = [st]
        for i, e in enumerate(n.values):
            nxt = []
            for s in cur:
                for v, s2 in self.ev(e, s):
                    if v[0] == 'err' or i == len(n.values) - 1:
                        out.append((v, s2))
                        continue
                    r = self.truth(v, s2)
                    if r is None:
                        out.append((v if v[0] != 'u' else ('u', v[1], v[2] or not isand, v[3]), s2))
                        nxt.append(s2)
                    elif r == isand:
                        nxt.append(s2)
                    else:
                        out.append((v, s2))
            cur = nxt
        return out

    def e_Compare(self, n, st):
        if len(n.ops) == 1:
            t, f, b = self.branch(n, st)
            if len(t) == 1 and len(f) == 1 and t[0] is f[0]:
                tt = NO
                for vs, s in self.evs([n.left] + n.comparators, st):
                    tt |= frozenset().union(*[taint(v, s.heap) for v in vs])
                return [(self.opaque(n, tt), st)]
            return [(K(True), s) for s in t] + [(K(False), s) for s in f] + [(('err', ''), s) for s in b]
        out = []
        for vs, s in self.evs([n.left] + n.comparators, st):
            out.append((self.opaque(n, frozenset().union(*[taint(v, s.heap) for v in vs])), s))
        return out

    def e_IfExp(self, n, st):
        t, f, b = self.branch(n.test, st)
        out = []
        for s in t:
            out += self.ev(n.body, s)
        for s in f:
            out += self.ev(n.orelse, s)
        return out + [(('err', ''), s) for s in b]

    def e_BinOp(self, n, st):
        out = []
        for vs, s in self.evs([n.left, n.right], st):
            if vs[-1][0] == 'err':
                out.append((vs[-1], s))
                continue
            a, b = vs
            if isinstance(n.op, ast.Add):
                out.append((self.add(a, b, n, s), s))
                continue
            t = taint(a, s.heap) | taint(b, s.heap)
            if a[0] == 'k' and b[0] == 'k' and isinstance(n.op, ast.Mod) and isinstance(a[1], str):
                try:
                    out.append((K(a[1] % b[1], t), s))
                    continue
                except Exception:
                    pass
            if a[0] == 'k' and a[1] is None or b[0] == 'k' and b[1] is None and not (isinstance(n.op, ast.Mod) and a[0] == 'k' and isinstance(a[1], str)):
                out.append((self.err(n, 'computes with None', s), s))
                continue
            la, lb = lin(a), lin(b)
            if la and lb:
                if isinstance(n.op, ast.Sub):
                    d = dict(la[0])
                    for k, x in lb[0].items():
                        d[k] = d.get(k, 0) - x
                    out.append((mklin(d, la[1] - lb[1], t), s))
                    continue
                if isinstance(n.op, ast.Mult) and (not la[0] or not lb[0]):
                    c = la[1] if not la[0] else lb[1]
                    o = lb if not la[0] else la
                    out.append((mklin({k: c * x for k, x in o[0].items()}, c * o[1], t), s))
                    continue
            if isinstance(n.op, ast.Mult):
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'seq' and y[0] == 'k' and isinstance(y[1], int) and len(x[2]) * y[1] <= 64:
                        out.append((('seq', x[1], x[2] * y[1]), s))
                        break
                    if x[0] == 'k' and isinstance(x[1], str) and y[0] == 'k' and isinstance(y[1], int) and y[1] < 200:
                        out.append((K(x[1] * y[1], t), s))
                        break
                else:
                    out.append((self.opaque(n, t), s))
                continue
            out.append((self.opaque(n, t), s))
        return out

    def add(self, a, b, node, st):
        t = taint(a, st.heap) | taint(b, st.heap)
        if a[0] == 'seq' and b[0] == 'seq':
            return ('seq', a[1], a[2] + b[2])
        if a[0] in ('k', 'row') and b[0] in ('k', 'row'):
            try:
                return K(a[1] + b[1], t)
            except TypeError:
                return self.err(node, 'adds %s and %s' % (type(a[1]).__name__, type(b[1]).__name__), st)
        if a[0] == 'k' and a[1] is None or b[0] == 'k' and b[1] is None:
            return self.err(node, 'adds None', st)
        if a[0] == 'k' and isinstance(a[1], str) or b[0] == 'k' and isinstance(b[1], str) or 'cat' in (a[0], b[0]) and not \
                (a[0] in ('k', 'lin', 'row') or b[0] in ('k', 'lin', 'row')) or a[0] == 'u' and b[0] == 'u':
            ca, cb = catparts(a), catparts(b)
            if ca is not None and cb is not None and len(ca) + len(cb) <= 8:
                return mkcat(ca + cb, t)
            return self.opaque(node, t)
        la, lb = lin(a), lin(b)
        if la and lb:
            d = dict(la[0])
            for k, x in lb[0].items():
                d[k] = d.get(k, 0) + x
            return mklin(d, la[1] + lb[1], t)
        return self.opaque(node, t)

    def e_Subscript(self, n, st):
        out = []
        for b, s in self.ev(n.value, st):
            if b[0] == 'err':
                out.append((b, s))
                continue
            if b[0] == 'k' and b[1] is None:
                out.append((self.err(n, 'subscripts None', s), s))
                continue
            if isinstance(n.slice, ast.Slice):
                for vs, s2 in self.evs([x for x in (n.slice.lower, n.slice.upper) if x is not None], s):
                    if vs and vs[-1][0] == 'err':
                        out.append((vs[-1], s2))
                        continue
                    lo = vs[0] if n.slice.lower is not None else None
                    hi = vs[-1] if n.slice.upper is not None else None
                    out.append((self.slice(n, b, lo, hi, n.slice.step, s2), s2))
                continue
            for i, s2 in self.ev(n.slice, s):
                if i[0] == 'err':
                    out.append((i, s2))
                    continue
                out += self.item(n, b, i, s2)
        return out

    def slice(self, n, b, lo, hi, step, s):
        t = taint(b, s.heap)
        if b[0] == 'seq' and step is None and all(x is None or x[0] in ('k', 'row') for x in (lo, hi)):
            return ('seq', b[1], b[2][(lo[1] if lo else None):(hi[1] if hi else None)])
        if b[0] == 'k' and isinstance(b[1], str) and step is None and all(x is None or x[0] == 'k' for x in (lo, hi)):
            return K(b[1][(lo[1] if lo else None):(hi[1] if hi else None)], b[2])
        if b[0] == 'u' and step is None and lo is not None and hi is not None and lin(lo) and lin(hi):
            if any(e[0] == 'row' for e in s.ev) and any('havoc.' in x for x in names(lo)):
                s.ev = tuple(e for e in s.ev if e[0] != 'slice') + (('slice', b[1], lo, hi),)
            return ('slice', b[1], lo, hi, t)
        return self.opaque(n, t)

    def item(self, n, b, i, s):
        t = taint(b, s.heap)
        if b[0] == 'seq':
            if i[0] in ('k', 'row') and isinstance(i[1], int):
                if i[0] == 'row':
                    self.rowuse.setdefault(i[2], {}).setdefault(ast.unparse(n.value), set()).add(len(b[2]))
                if -len(b[2]) <= i[1] < len(b[2]):
                    return [(b[2][i[1]], s)]
                if b[2] and b[2][0] == ('rec', '$rec'):
                    return [(self.opaque(n, notnone=True), s)]
                return [(self.err(n, 'index %d of a list of %d' % (i[1], len(b[2])), s), s)]
            if b[2] and len(b[2]) <= 1 and self.data is not None:
                return [(b[2][0], s)]
            return [(self.opaque(n, t, notnone=not any(maybe_none(x) for x in b[2])), s)]
        if isrec(b, s):
            h = s.heap[b[1]]
            if i[0] == 'k':
                f = dict(h[1])
                if i[1] in f:
                    return [(f[i[1]], s)]
                if h[2]:
                    return [(self.err(n, 'entry has no key %r' % (i[1],), s), s)]
            elif h[2] and h[1] and len(h[1]) <= 64:
                return [(v, s.subst(i[1], K(k)) if i[0] == 'u' else s) for k, v in h[1]]
            return [(self.opaque(n, t, notnone=False), s)]
        if b[0] == 'cdict':
            f = dict(b[1])
            if i[0] == 'k':
                if i[1] in f:
                    return [(f[i[1]], s)]
                return [(self.err(n, 'no key %r' % (i[1],), s), s)]
            return [(v, s.subst(i[1], K(k)) if i[0] == 'u' else s) for k, v in b[1]] or [(self.opaque(n), s)]
        if b[0] == 'k' and isinstance(b[1], str) and i[0] == 'k' and isinstance(i[1], int):
            if -len(b[1]) <= i[1] < len(b[1]):
                return [(K(b[1][i[1]], b[2]), s)]
            return [(('err', 'index'), s)]
        if b == SELF:
            return self.self_item(n, i, s)
        if b[0] == 'selfdata':
            return [(U(self.nm(n, 'selfdata'), True), s)]
        nm = None
        if b[0] == 'u' and i[0] in ('k', 'row'):
            nm = '%s[%r]' % (b[1], i[1])
        elif b[0] == 'u' and i[0] == 'u':
            nm = '%s[%s]' % (b[1], i[1])
        return [(U(nm or self.nm(n), True, t), s)]

    def lookup(self, kind, v, n, st):
        row = [e for e in st.ev if e[0] == 'row']
        self.lookups.setdefault((kind, v, row[-1] if row else None), (n.lineno, st, self.fn))

    def self_item(self, n, i, s):
        if self.data is None:
            ps = catparts(i)
            self.lookup('item', i, n, s)
            if ps is None:
                return [(U(self.nm(n, 'lookup')), s)]
            return [(U('self[' + '+'.join(p if isinstance(p, str) else '<%s>' % p[1] for p in ps) + ']'), s)]
        f = self.p.method(self.cls, '__getitem__')
        if f is not None:
            return [(v, s2) for v, s2 in self.call_func(f, [SELF, i], {}, s, n)]
        return [(self.opaque(n), s)]

    def e_Attribute(self, n, st):
        out = []
        for b, s in self.ev(n.value, st):
            if b[0] == 'err':
                out.append((b, s))
                continue
            if b[0] == 'k' and b[1] is None:
                out.append((self.err(n, 'uses None.%s' % n.attr, s), s))
                continue
            if b == SELF:
                if n.attr == 'data':
                    if self.data is None:
                        out.append((('selfdata',), s))
                    else:
                        out.append((('seq', 'list', tuple(('rec', i) for i in self.data)), s))
                    continue
                h = s.heap.get(('self', n.attr))
                if h:
                    out.append((h[1], s))
                    continue
                m = self.p.method(self.cls, n.attr)
                if m is not None:
                    if m.is_property:
                        out += self.call_func(m, [SELF], {}, s, n)
                    else:
                        out.append((('fn', m, SELF if not m.is_static else None), s))
                    continue
                a = self.p.class_attr(self.cls, n.attr)
                if a is not None:
                    sub = a[1]
                    if sub is not None:
                        save = self.fn

                        class F:
                            mod = a[0].mod
                            name = qual = '<class>'
                            node = a[0].node
                        self.fn = F
                        try:
                            out += self.ev(sub, s)
                        finally:
                            self.fn = save
                        continue
                out.append((U('self.' + n.attr, False), s))
                continue
            if b[0] == 'mod':
                out.append((self.resolved(self.p.lookup_module(b[1].name, n.attr), n), s))
                continue
            if b[0] == 'cls':
                m = self.p.method(b[1], n.attr)
                if m is not None:
                    out.append((('fn', m, ('cls', b[1]) if m.is_classmethod else None), s))
                else:
                    a = self.p.class_attr(b[1], n.attr)
                    if a and a[1] is not None:
                        out += self.ev(a[1], s)
                    else:
                        out.append((self.opaque(n, notnone=False), s))
                continue
            if b[0] == 'ext':
                out.append((('ext', b[1] + '.' + n.attr), s))
                continue
            out.append((U((b[1] if b[0] == 'u' else self.nm(n)) + '.' + n.attr, True, taint(b, s.heap)), s))
        return out

    def e_Lambda(self, n, st):
        return [(('clo', n), st)]

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_NamedExpr(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            s = s.copy()
            s.env[n.target.id] = v
            out.append((v, s))
        return out

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    # comprehensions
    def comp(self, n, st, elts, kind):
        res = []
        for items, s, ok, t in self._gens(n.generators, 0, st, elts):
            if ok == 'err':
                res.append((('err', ''), s))
            elif ok:
                res.append((('seq', kind, tuple(items)), s))
            else:
                res.append((self.opaque(n, t), s))
        return res

    def _gens(self, gens, gi, st, elts):
        """-> list of (items, state, exact, taint)"""
        if gi == len(gens):
            out = []
            for vs, s in self.evs(elts, st):
                if vs[-1][0] == 'err':
                    out.append(([], s, 'err', NO))
                else:
                    v = vs[0] if len(vs) == 1 else ('seq', 'tuple', tuple(vs))
                    out.append(([v], s, True, taint(v, s.heap)))
            return out
        g = gens[gi]
        out = []
        for it, s in self.ev(g.iter, st):
            if it[0] == 'err':
                out.append(([], s, 'err', NO))
                continue
            if it[0] == 'k' and it[1] is None:
                self.err(g.iter, 'iterates over None', s)
                out.append(([], s, 'err', NO))
                continue
            if it[0] == 'seq' and len(it[2]) <= 64:
                cur = [([], s, True, NO)]
                for x in it[2]:
                    nxt = []
                    for items, s1, ok, t in cur:
                        for k, s2 in self.assign(g.target, x, s1):
                            T, F, B = [s2], [], []
                            for c in g.ifs:
                                T2 = []
                                for s3 in T:
                                    a, b, e = self.branch(c, s3)
                                    T2 += a
                                    F += b
                                    B += e
                                T = dedupe(T2)
                            for s3 in T:
                                for it2, s4, ok2, t2 in self._gens(gens, gi + 1, s3, elts):
                                    nxt.append((items + it2, s4, 'err' if ok2 == 'err' else ok and ok2, t | t2))
                            for s3 in dedupe(F):
                                nxt.append((items, s3, ok, t))
                            for s3 in B:
                                nxt.append((items, s3, 'err', t))
                    done = [c for c in nxt if c[2] == 'err']
                    out += done
                    cur = [c for c in nxt if c[2] != 'err']
                    if len(cur) > 200:
                        raise GiveUp('comprehension')
                out += cur
                continue
            elem = U(self.nm(g.iter, 'item'), True, taint(it, s.heap))
            if it[0] == 'enum':
                elem = ('seq', 'tuple', (U(self.nm(g.iter, 'n')), elem))
            for k, s2 in self.assign(g.target, elem, s):
                T, B = [s2], []
                for c in g.ifs:
                    T2 = []
                    for s3 in T:
                        a, b, e = self.branch(c, s3)
                        T2 += a
                        B += e
                    T = dedupe(T2)
                got = False
                for s3 in T:
                    for it2, s4, ok2, t2 in self._gens(gens, gi + 1, s3, elts):
                        s5 = s.copy()
                        s5.ev = s4.ev
                        got = True
                        out.append(([], s5, 'err' if ok2 == 'err' else False, t2 | taint(it, s.heap)))
                if not got:
                    out.append(([], s, False, NO))
                for s3 in B:
                    out.append(([], s, 'err', NO))
        return out

    def _clean(self, n, st, res):
        """comprehension variables do not leak"""
        out = []
        targets = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for v, s in res:
            s = s.copy()
            for t in targets:
                if t in st.env:
                    s.env[t] = st.env[t]
                else:
                    s.env.pop(t, None)
            out.append((v, s))
        return self.merge(out)

    def merge(self, res):
        seen, out = set(), []
        for v, s in res:
            k = (v, s.key())
            if k not in seen:
                seen.add(k)
                out.append((v, s))
        return out

    def e_ListComp(self, n, st):
        return self._clean(n, st, self.comp(n, st, [n.elt], 'list'))

    def e_GeneratorExp(self, n, st):
        return self._clean(n, st, self.comp(n, st, [n.elt], 'list'))

    def e_SetComp(self, n, st):
        return self._clean(n, st, self.comp(n, st, [n.elt], 'set'))

    def e_DictComp(self, n, st):
        res = []
        for v, s in self.comp(n, st, [n.key, n.value], 'list'):
            if v[0] == 'seq' and all(x[0] == 'seq' and x[2][0][0] in ('k', 'row') for x in v[2]):
                s = s.copy()
                i = self.newid(n, s)
                s.heap[i] = ('R', tuple(sorted({x[2][0][1]: x[2][1] for x in v[2]}.items(), key=lambda x: str(x[0]))), True)
                res.append((('rec', i), s))
            elif v[0] == 'err':
                res.append((v, s))
            else:
                s = s.copy()
                i = self.newid(n, s)
                s.heap[i] = ('C', taint(v, s.heap), True)
                res.append((('coll', i), s))
        return self._clean(n, st, res)

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        f = n.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            owner = self.fn.cls or self.cls
            m = self.p.method(self.cls, f.attr, after=owner)
            if m is not None:
                return self.call_args(n, st, lambda a, k, s: self.call_func(m, [SELF] + a, k, s, n))
            return [(self.opaque(n), st)]
        if isinstance(f, ast.Attribute):
            out = []
            for b, s in self.ev(f.value, st):
                if b[0] == 'err':
                    out.append((b, s))
                elif b[0] == 'k' and b[1] is None:
                    out.append((self.err(n, 'calls None.%s()' % f.attr, s), s))
                else:
                    out += self.call_args(n, s, lambda a, k, s2, b=b: self.method_call(n, b, f, a, k, s2))
            return self.merge(out)
        out = []
        for fv, s in self.ev(f, st):
            out += self.call_args(n, s, lambda a, k, s2, fv=fv: self.call_value(n, fv, a, k, s2))
        return self.merge(out)

    def call_args(self, n, st, go):
        out = []
        names = [k.arg for k in n.keywords]
        for vs, s in self.evs(list(n.args) + [k.value for k in n.keywords], st):
            if vs and vs[-1][0] == 'err':
                out.append((vs[-1], s))
                continue
            a, k = [], {}
            for node, v in zip(n.args, vs):
                if isinstance(node, ast.Starred):
                    if v[0] == 'seq':
                        a += list(v[2])
                    else:
                        k['*'] = v
                else:
                    a.append(v)
            for nm, v in zip(names, vs[len(n.args):]):
                if nm is None:
                    if isrec(v, s):
                        k.update({x: y for x, y in s.heap[v[1]][1] if isinstance(x, str)})
                    elif v[0] == 'cdict':
                        k.update(dict(v[1]))
                    else:
                        k['**'] = v
                else:
                    k[nm] = v
            out += go(a, k, s)
        return out

    def call_value(self, n, fv, a, k, st):
        if fv[0] == 'fn':
            m = fv[1]
            args = ([fv[2]] if fv[2] is not None else []) + a
            return self.call_func(m, args, k, st, n)
        if fv[0] == 'clo':
            return self.call_clo(fv[1], a, k, st, n)
        if fv[0] == 'ext':
            return self.builtin(n, fv[1], a, k, st)
        t = NO
        for v in list(a) + list(k.values()):
            t |= taint(v, st.heap)
        st = self.escape(a, k, st, n)
        if fv[0] == 'cls':
            return [(self.opaque(n, t), st)]
        return [(self.opaque(n, t | taint(fv, st.heap), notnone=False), st)]

    def escape(self, a, k, st, n):
        """records handed to unknown code may be changed there"""
        for v in list(a) + list(k.values()):
            if v[0] == 'rec' and v[1] in st.heap and st.heap[v[1]][0] == 'R':
                st = st.copy()
                h = st.heap[v[1]]
                st.heap[v[1]] = ('R', tuple((x, U(self.nm(n, 'esc.%s' % x), False, taint(y, st.heap))) for x, y in h[1]), False)
        return st

    def call_func(self, fn, args, kwargs, st, n):
        self.calls.add(fn.key)
        t = NO
        for v in list(args) + list(kwargs.values()):
            t |= taint(v, st.heap)
        if fn.name in self.stop or st.depth >= 9 or any(c == fn.key for c in self.chain):
            return [(U(self.nm(n, 'call'), False, t), self.escape(args, kwargs, st, n))]
        vals = list(args) + list(kwargs.values())
        if self.data is not None or not all(plain(v) for v in vals):
            return self.enter(fn, fn.node, fn.params, fn.kwonly, fn.vararg, fn.kwarg, fn.defaults, args, kwargs, st, n, False)
        # a call on plain values: analysed once per set of arguments, in a state that holds only the names it depends on
        syms = sorted({x for v in vals for x in names(v)})
        rel = frozenset(f for f in st.facts if any(x in str(f[1]) for x in syms))
        key = (fn.key, self.ctx, n, tuple(args), tuple(sorted(kwargs.items())), rel, bool(self.tries))
        if key not in self.memo:
            mini = St()
            mini.facts, mini.depth = rel, st.depth
            mini.env = {'$%d' % i: U(x, False) for i, x in enumerate(syms)}
            keep = self.nostack
            self.nostack = True
            try:
                self.memo[key] = self.enter(fn, fn.node, fn.params, fn.kwonly, fn.vararg, fn.kwarg, fn.defaults, args, kwargs, mini, n, False)
            finally:
                self.nostack = keep
        out = []
        for v, m in self.memo[key]:
            s = st
            for i, x in enumerate(syms):
                new = m.env.get('$%d' % i)
                if new is not None and new != U(x, False):
                    s = s.subst(x, new)
            s = s.copy()
            s.facts = s.facts | m.facts
            ren = {}
            for i, h in m.heap.items():
                j = i
                while j in s.heap:
                    j = (j[0], j[1] + 1)
                ren[i] = j
            for i, h in m.heap.items():
                s.heap[ren[i]] = ('R', tuple((a, rename(x, ren)) for a, x in h[1]), h[2]) if h[0] == 'R' else h
            out.append((rename(v, ren), s))
        return out

    def call_clo(self, node, args, kwargs, st, n):
        if st.depth >= 9 or node in self.chain:
            return [(self.opaque(n, notnone=False), st)]
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        defaults = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        return self.enter(None, node, params, [x.arg for x in a.kwonlyargs], a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None,
                          defaults, args, kwargs, st, n, True)

    def enter(self, fn, node, params, kwonly, vararg, kwarg, defaults, args, kwargs, st, n, closure):
        env, sts = {}, st
        for p, v in zip(params, args):
            env[p] = v
        if vararg:
            env[vararg] = ('seq', 'tuple', tuple(args[len(params):]))
        rest = {}
        for kk, v in kwargs.items():
            if kk in params or kk in kwonly:
                env[kk] = v
            elif kk not in ('*', '**'):
                rest[kk] = v
        s = st.copy()
        for p in list(params) + list(kwonly):
            if p not in env:
                if p in defaults and not ('*' in kwargs or '**' in kwargs):
                    d = defaults[p]
                    save, self.fn = self.fn, (fn or self.fn)
                    try:
                        r = self.ev(d, s)
                    finally:
                        self.fn = save
                    env[p] = r[0][0]
                    s = r[0][1]
                else:
                    env[p] = U(self.nm(n, 'arg.' + p), False)
        if kwarg:
            i = self.newid(n, s, 'kw')
            s.heap[i] = ('R', tuple(sorted(rest.items())), '**' not in kwargs)
            env[kwarg] = ('rec', i)
        s.stack = st.stack + (frozenset(st.env.items()),)
        s.env = env
        s.depth = st.depth + 1
        save = (self.fn, self.ctx, self.closure_ok)
        if fn is not None:
            self.fn = fn
        self.closure_ok = closure
        self.ctx = self.ctx + ('%s.%s' % (getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)),)
        if not isinstance(node, ast.Lambda) and node not in self.lived:
            self.lived.add(node)
            liveness(node, self.live)
        self.chain.append(fn.key if fn is not None else node)
        try:
            if isinstance(node, ast.Lambda):
                outs = [('return' if v[0] != 'err' else 'raise', s2, v) for v, s2 in self.ev(node.body, s)]
            else:
                outs = self.block(node.body, [s])
        finally:
            self.fn, self.ctx, self.closure_ok = save
            self.chain.pop()
        res = []
        prefix = ''.join('%s/' % c for c in save[1] + ('%s.%s' % (getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)),))
        for k, s2, v in outs:
            s3 = s2.copy()
            s3.env = dict(s2.stack[-1])
            if closure:
                # the closure may rebind nothing of ours (nonlocal is not supported)
                pass
            s3.stack = s2.stack[:-1]
            s3.depth = st.depth
            if k in ('fall', 'return'):
                v = v if k == 'return' else NONE
                v = self.canon(v, s3, prefix, n)
                if s3.facts:
                    s3.facts = frozenset(f for f in s3.facts if prefix not in str(f[1]))
                s3.gc([v])
                res.append((v, s3))
            elif k == 'raise':
                s3.gc()
                res.append((('err', 'raised'), s3))
        return self.merge(res)

    def canon(self, v, st, prefix, n, what='', depth=0):
        """names of unknown values made inside a call are reduced to one name per place in its result (st is owned by the caller)"""
        k = v[0]
        if k == 'u':
            return ('u', self.nm(n, 'ret' + what), v[2], v[3]) if prefix in v[1] else v
        if k == 'cat':
            return ('u', self.nm(n, 'ret' + what), True, v[2]) if any(not isinstance(p, str) and prefix in p[1] for p in v[1]) else v
        if k == 'lin':
            return ('u', self.nm(n, 'ret' + what), True, v[3]) if any(prefix in p for p, _ in v[1]) else v
        if k == 'slice':
            return ('u', self.nm(n, 'ret' + what), True, v[4]) if any(prefix in p for p in names(v)) else v
        if k == 'seq' and depth < 2:
            if v[1] == 'tuple' or all(x[0] not in ('u', 'cat', 'lin') for x in v[2]):
                return ('seq', v[1], tuple(self.canon(x, st, prefix, n, '%s.%d' % (what, i), depth + 1) for i, x in enumerate(v[2])))
            if any(prefix in y for x in v[2] for y in names(x)):
                return ('u', self.nm(n, 'ret' + what), True, taint(v))
            return v
        if k == 'rec' and isrec(v, st) and depth < 2:
            h = st.heap[v[1]]
            st.heap[v[1]] = ('R', tuple((a, self.canon(x, st, prefix, n, '%s.%s' % (what, a), depth + 1)) for a, x in h[1]), h[2])
        return v

    def builtin(self, n, name, a, k, st):
        t = NO
        if name == 'dict.fromkeys' and a and a[0][0] == 'seq' and all(x[0] == 'k' for x in a[0][2]):
            s = st.copy()
            i = self.newid(n, s)
            s.heap[i] = ('R', tuple(sorted(((x[1], a[1] if len(a) > 1 else NONE) for x in a[0][2]), key=lambda x: str(x[0]))), True)
            return [(('rec', i), s)]
        for v in list(a) + list(k.values()):
            t |= taint(v, st.heap)
        none = [v for v in a if v[0] == 'k' and v[1] is None]
        if name in ('len', 'sum', 'max', 'min', 'sorted', 'list', 'tuple', 'set', 'enumerate', 'zip', 'reversed', 'iter', 'any', 'all', 'map', 'filter') and none and \
                not (name in ('max', 'min') and len(a) > 1) and not (name in ('map', 'filter')):
            return [(self.err(n, '%s(None)' % name, st), st)]
        if name == 'len' and a:
            v = a[0]
            if v[0] == 'seq':
                return [(K(len(v[2])), st)]
            if v[0] == 'k' and isinstance(v[1], str):
                return [(K(len(v[1]), v[2]), st)]
            if v[0] == 'slice':
                return [(self.sub(v[3], v[2], n), st)]
            if isrec(v, st) and st.heap[v[1]][2]:
                return [(K(len(st.heap[v[1]][1])), st)]
            if v[0] == 'coll':
                return [(self.opaque(n, t), st)]
            if v[0] == 'u':
                return [(U('len(%s)' % v[1], True, v[3]), st)]
            return [(self.opaque(n, t), st)]
        if name == 'range' and a:
            if all(v[0] in ('k', 'row') and isinstance(v[1], int) for v in a):
                r = range(*[v[1] for v in a])
                if len(r) <= 64:
                    return [(('seq', 'list', tuple(K(x) for x in r)), st)]
            lo, hi = (K(0), a[0]) if len(a) == 1 else (a[0], a[1])
            d = self.sub(hi, lo, n)
            return [(('range', d[:3] if d[0] != 'u' else d[:2] + (True,), t), st)]
        if name == 'isinstance' and len(a) == 2:
            v, ty = a
            cls = {'str': str, 'int': int, 'float': float, 'list': list, 'dict': dict, 'tuple': tuple, 'bool': bool}
            tys = [x for x in (ty[2] if ty[0] == 'seq' else [ty])]
            if all(x[0] == 'ext' and x[1].split('.')[-1] in cls for x in tys):
                want = tuple(cls[x[1].split('.')[-1]] for x in tys)
                if v[0] in ('k', 'row'):
                    return [(K(isinstance(v[1], want)), st)]
                if v[0] == 'cat' and any(isinstance(p, str) for p in v[1]):
                    return [(K(str in want), st)]
                if v[0] == 'seq':
                    return [(K((list if v[1] == 'list' else tuple) in want), st)]
                if v[0] == 'rec':
                    return [(K(dict in want), st)]
                if v[0] == 'lin':
                    return [(K(int in want), st)]
                if v[0] == 'u' and isinstance(v[1], str):
                    return [(U('isinstance(%s,%s)?stable' % (v[1], ','.join(x.__name__ for x in want)), True, t), st)]
            return [(self.opaque(n, t), st)]
        if name == 'str' and len(a) == 1:
            if a[0][0] in ('k', 'row'):
                return [(K(str(a[0][1]), t), st)]
            if a[0][0] == 'u':
                return [(U('str(%s)' % a[0][1], True, t), st)]
            return [(self.opaque(n, t), st)]
        if name in ('int', 'float') and len(a) == 1 and a[0][0] == 'u':
            return [(U(a[0][1], True, t) if name == 'int' else self.opaque(n, t), st)]
        if name in ('list', 'tuple', 'set', 'sorted', 'reversed', 'frozenset', 'iter'):
            if not a:
                return [(('seq', name if name in ('list', 'tuple', 'set') else 'list', ()), st)]
            v = a[0]
            if v[0] == 'seq':
                items = tuple(reversed(v[2])) if name == 'reversed' else v[2]
                if name == 'sorted' and not k:
                    if not is_const(v):
                        return [(self.opaque(n, t), st)]
                    try:
                        items = tuple(sorted(items, key=pyval))
                    except TypeError:
                        return [(self.opaque(n, t), st)]
                return [(('seq', name if name in ('list', 'tuple', 'set') else 'list', items), st)]
            if isrec(v, st) and st.heap[v[1]][2]:
                return [(('seq', 'list', tuple(K(x) for x, _ in st.heap[v[1]][1])), st)]
            return [(self.opaque(n, t), st)]
        if name == 'dict':
            if not a:
                s = st.copy()
                i = self.newid(n, s)
                s.heap[i] = ('R', tuple(sorted(k.items())), '**' not in k)
                return [(('rec', i), s)]
            v = a[0]
            items = None
            if v[0] == 'rec' and v[1] in st.heap and st.heap[v[1]][0] == 'R':
                items = dict(st.heap[v[1]][1])
                exact = st.heap[v[1]][2]
            elif v[0] == 'cdict':
                items, exact = dict(v[1]), True
            elif v[0] == 'seq' and all(x[0] == 'seq' and len(x[2]) == 2 and x[2][0][0] in ('k', 'row') for x in v[2]):
                items, exact = {x[2][0][1]: x[2][1] for x in v[2]}, True
            if items is not None:
                items.update(k)
                s = st.copy()
                i = self.newid(n, s)
                s.heap[i] = ('R', tuple(sorted(items.items(), key=lambda x: str(x[0]))), exact)
                return [(('rec', i), s)]
            return [(self.opaque(n, t), st)]
        if name == 'enumerate' and a:
            if a[0][0] == 'seq':
                o = a[1][1] if len(a) > 1 and a[1][0] == 'k' else 0
                return [(('seq', 'list', tuple(('seq', 'tuple', (K(i + o), x)) for i, x in enumerate(a[0][2]))), st)]
            return [(('enum', a[0], t), st)]
        if name == 'zip' and a:
            if all(v[0] == 'seq' for v in a):
                return [(('seq', 'list', tuple(('seq', 'tuple', x) for x in zip(*[v[2] for v in a]))), st)]
            return [(self.opaque(n, t), st)]
        if name == 'next' and a and a[0][0] == 'seq':
            if a[0][2]:
                return [(a[0][2][0], st)]
            if len(a) > 1:
                return [(a[1], st)]
            return [(('err', 'StopIteration'), st)]
        if name in ('any', 'all') and a and a[0][0] == 'seq':
            rs = [self.truth(x, st) for x in a[0][2]]
            if None not in rs:
                return [(K(any(rs) if name == 'any' else all(rs)), st)]
            return [(self.opaque(n, t), st)]
        if name in ('print', 'warnings.warn') or name.startswith('logging.'):
            return [(NONE, st)]
        if name in ('getattr', 'eval', 're.match', 're.search', 're.fullmatch', 'os.environ.get', 'dict.get', 'next'):
            return [(self.opaque(n, t, notnone=False), self.escape(a, k, st, n))]
        if name in ('copy.copy', 'copy.deepcopy') and a:
            if a[0][0] == 'rec':
                return self.builtin(n, 'dict', a[:1], {}, st)
            return [(a[0], st)]
        if name == 'object' or name == 'super':
            return [(self.opaque(n), st)]
        return [(self.opaque(n, t), self.escape(a, k, st, n))]

    def sub(self, x, y, n):
        lx, ly = lin(x), lin(y)
        if lx and ly:
            d = dict(lx[0])
            for kk, c in ly[0].items():
                d[kk] = d.get(kk, 0) - c
            return mklin(d, lx[1] - ly[1])
        return self.opaque(n)

    def method_call(self, n, b, f, a, k, st):
        m = f.attr
        t = taint(b, st.heap)
        for v in list(a) + list(k.values()):
            t |= taint(v, st.heap)
        if b == SELF:
            h = st.heap.get(('self', m))
            if h:
                return self.call_value(n, h[1], a, k, st)
            fn = self.p.method(self.cls, m)
            if fn is None:
                return [(self.opaque(n, t, notnone=False), self.escape(a, k, st, n))]
            if self.data is None and not self.inline_self(m):
                if m in ('getID', 'getIDSafe', 'getIDs') and a:
                    self.lookup(m, a[0], n, st)
                return [(U(self.nm(n, 'self.' + m), m != 'get', t), self.escape(a, k, st, n))]
            return self.call_func(fn, ([] if fn.is_static else [SELF]) + a, k, st, n)
        if b[0] == 'selfdata':
            if m == 'append' and a:
                return [(NONE, self.emit(a[0], st, n))]
            if m == 'insert' and len(a) == 2:
                return [(NONE, self.emit(a[1], st, n))]
            if m == 'extend' and a:
                s = st
                if a[0][0] == 'seq':
                    for x in a[0][2]:
                        s = self.emit(x, s, n)
                return [(NONE, s)]
            return [(self.opaque(n, t), st)]
        if b[0] in ('mod', 'cls', 'ext'):
            out = []
            for fv, s in self.ev(f, st):
                out += self.call_value(n, fv, a, k, s)
            return out
        if b[0] == 'seq':
            nmnode = f.value
            if m == 'index' and len(a) >= 1:
                if is_const(a[0]) and all(is_const(x) for x in b[2]):
                    vals = [pyval(x) for x in b[2]]
                    if pyval(a[0]) in vals:
                        org = ast.unparse(nmnode)
                        i = vals.index(pyval(a[0]))
                        self.rows[(org, i)] = pyval(a[0])
                        self.rowuse.setdefault(org, {}).setdefault(org, set()).add(len(b[2]))
                        s = st.copy()
                        s.ev = s.ev + (('row', org, i, pyval(a[0])),)
                        return [(('row', i, org, NO), s)]
                    return [(('err', 'ValueError'), st)]
                if all(is_const(x) for x in b[2]) and b[2]:
                    org = ast.unparse(nmnode)
                    out, seen = [], set()
                    for i, x in enumerate(b[2]):
                        self.rows[(org, i)] = pyval(x)
                        self.rowuse.setdefault(org, {}).setdefault(org, set()).add(len(b[2]))
                        s = st.subst(a[0][1], x) if a[0][0] == 'u' else st.copy()
                        s.ev = s.ev + (('row', org, i, pyval(x)),)
                        out.append((('row', i, org, NO), s))
                    return out
                return [(self.opaque(n, t), st)]
            if m in ('append', 'extend', 'insert', 'remove', 'pop', 'sort', 'reverse', 'clear') and isinstance(nmnode, (ast.Name, ast.Attribute)):
                if m == 'pop' and a and a[0][0] == 'row':
                    s = self.remove(nmnode, b, a[0], st)
                    return [(b[2][a[0][1]] if a[0][1] < len(b[2]) else self.opaque(n), s)]
                s = st.copy()
                new = None
                ret = NONE
                if m == 'append' and a:
                    new = ('seq', b[1], b[2] + (a[0],))
                elif m == 'extend' and a and a[0][0] == 'seq':
                    new = ('seq', b[1], b[2] + a[0][2])
                elif m == 'insert' and len(a) == 2 and a[0][0] == 'k':
                    l = list(b[2])
                    l.insert(a[0][1], a[1])
                    new = ('seq', b[1], tuple(l))
                elif m == 'pop' and b[2] and (not a or a[0][0] == 'k'):
                    l = list(b[2])
                    try:
                        ret = l.pop(a[0][1] if a else -1)
                    except IndexError:
                        return [(('err', 'IndexError'), st)]
                    new = ('seq', b[1], tuple(l))
                elif m == 'clear':
                    new = ('seq', b[1], ())
                if new is None or len(new[2]) > 200:
                    new = U(self.nm(n, 'mut'), True, t)
                    ret = self.opaque(n, t) if m == 'pop' else NONE
                if isinstance(nmnode, ast.Name):
                    s.env[nmnode.id] = new
                else:
                    return [(ret, self.assign(nmnode, new, s)[0][1])]
                return [(ret, s)]
            if m == 'copy':
                return [(b, st)]
            if m == 'count' and a and is_const(a[0]) and is_const(b):
                return [(K(pyval(b).count(pyval(a[0]))), st)]
            return [(self.opaque(n, t), st)]
        if isrec(b, st):
            h = st.heap[b[1]]
            if m == 'get' and a and a[0][0] == 'k':
                fl = dict(h[1])
                if a[0][1] in fl:
                    return [(fl[a[0][1]], st)]
                if h[2]:
                    return [(a[1] if len(a) > 1 else k.get('default', NONE), st)]
                return [(self.opaque(n, t, notnone=False), st)]
            if m == 'update':
                fl, exact = dict(h[1]), h[2]
                for v in a:
                    if isrec(v, st):
                        fl.update(dict(st.heap[v[1]][1]))
                        exact = exact and st.heap[v[1]][2]
                    elif v[0] == 'cdict':
                        fl.update(dict(v[1]))
                    else:
                        exact = False
                fl.update({x: y for x, y in k.items() if x != '**'})
                s = st.copy()
                s.heap[b[1]] = ('R', tuple(sorted(fl.items(), key=lambda x: str(x[0]))), exact and '**' not in k)
                return [(NONE, s)]
            if m == 'setdefault' and len(a) == 2 and a[0][0] == 'k':
                fl = dict(h[1])
                if a[0][1] in fl:
                    return [(fl[a[0][1]], st)]
                fl[a[0][1]] = a[1]
                s = st.copy()
                s.heap[b[1]] = ('R', tuple(sorted(fl.items(), key=lambda x: str(x[0]))), h[2])
                return [(a[1], s)]
            if m == 'copy':
                return self.builtin(n, 'dict', [b], {}, st)
            if m in ('keys',) and h[2]:
                return [(('seq', 'list', tuple(K(x) for x, _ in h[1])), st)]
            if m == 'values' and h[2]:
                return [(('seq', 'list', tuple(x for _, x in h[1])), st)]
            if m == 'items' and h[2]:
                return [(('seq', 'list', tuple(('seq', 'tuple', (K(x), y)) for x, y in h[1])), st)]
            if m == 'pop' and a and a[0][0] == 'k':
                fl = dict(h[1])
                v = fl.pop(a[0][1], a[1] if len(a) > 1 else None)
                s = st.copy()
                s.heap[b[1]] = ('R', tuple(sorted(fl.items(), key=lambda x: str(x[0]))), h[2])
                return [(v or ('err', 'KeyError'), s)]
            return [(self.opaque(n, t, notnone=False), st)]
        if b[0] == 'cdict':
            fl = dict(b[1])
            if m == 'get' and a:
                dflt = a[1] if len(a) > 1 else NONE
                if a[0][0] == 'k':
                    return [(fl.get(a[0][1], dflt), st)]
                if a[0][0] == 'u':
                    return [(v, st.subst(a[0][1], K(x))) for x, v in b[1]] + [(dflt, st)]
                return [(v, st) for x, v in b[1]] + [(dflt, st)]
            if m in ('keys', 'values', 'items'):
                return [(('seq', 'list', tuple(K(x) if m == 'keys' else y if m == 'values' else ('seq', 'tuple', (K(x), y)) for x, y in b[1])), st)]
            return [(self.opaque(n, t, notnone=False), st)]
        if b[0] in ('coll', 'rec'):
            s = self.addcoll(b, t, st)
            return [(self.opaque(n, t), s)]
        if b[0] == 'k' and isinstance(b[1], str) and m in STRM:
            none = [v for v in a if v[0] == 'k' and v[1] is None]
            if m == 'join' and none:
                return [(self.err(n, 'joins None', st), st)]
            if all(is_const(v) for v in a) and all(is_const(v) for v in k.values()):
                try:
                    return [(fromval(getattr(b[1], m)(*[pyval(v) for v in a], **{x: pyval(y) for x, y in k.items()}), t), st)]
                except Exception:
                    return [(self.opaque(n, t), st)]
            if m == 'format' and b[1].count('{}') == len(a) and not k and '{' not in b[1].replace('{}', ''):
                ps, ok = [], True
                chunks = b[1].split('{}')
                for i, c in enumerate(chunks):
                    ps.append(c)
                    if i < len(a):
                        if a[i][0] in ('k', 'row'):
                            ps.append(str(a[i][1]))
                        else:
                            cp = catparts(a[i])
                            if cp is None:
                                ok = False
                                break
                            ps += cp
                if ok and len(ps) <= 12:
                    return [(mkcat(ps, t), st)]
            return [(self.opaque(n, t), st)]
        if b[0] == 'cat' and m in ('lower', 'upper', 'strip', 'lstrip', 'rstrip') and not a:
            ps = tuple(getattr(p, m)() if isinstance(p, str) and m in ('lower', 'upper') else p if isinstance(p, str) else ('s', '%s(%s)' % (m, p[1])) for p in b[1])
            return [(mkcat(ps, t), st)]
        if b[0] == 'u':
            if m in ('lower', 'upper', 'strip') and not a:
                return [(U('%s(%s)' % (m, b[1]), True, t), st)]
            if m == 'append' and isinstance(f.value, ast.Name):
                s = st.copy()
                s.env[f.value.id] = with_taint(b, t)
                return [(NONE, s)]
            if m in ('append', 'extend', 'add', 'update', 'write', 'insert') and isinstance(f.value, ast.Name):
                s = st.copy()
                s.env[f.value.id] = with_taint(b, t)
                return [(NONE, self.escape(a, k, s, n))]
        return [(self.opaque(n, t, notnone=m not in ('get', 'group')), self.escape(a, k, st, n))]

    fn = None
    closure_ok = False
    chain = []
    maxtotal = 2000000


def plain(v):
    if v[0] == 'seq':
        return len(v[2]) < 200 and all(plain(x) for x in v[2])
    return v[0] in ('k', 'u', 'cat', 'lin', 'row', 'slice', 'cdict', 'ext')


def rename(v, ren):
    if v[0] in ('rec', 'coll') and v[1] in ren:
        return (v[0], ren[v[1]])
    if v[0] == 'seq':
        return ('seq', v[1], tuple(rename(x, ren) for x in v[2]))
    return v


def names(v):
    k = v[0]
    if k == 'slice':
        return [v[1]] + names(v[2]) + names(v[3])
    if k == 'u':
        return [v[1]]
    if k == 'cat':
        return [p[1] for p in v[1] if not isinstance(p, str)]
    if k == 'lin':
        return [p for p, _ in v[1]]
    if k == 'seq':
        return [y for x in v[2] for y in names(x)]
    return []


def liveness(fnode, out):
    """statement -> names that may be read after it"""
    def loads(n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)} | \
               {x.target.id for x in ast.walk(n) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    nested = set()
    for n in ast.walk(fnode):
        if n is not fnode and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            nested |= loads(n)

    def defs(t):
        if isinstance(t, ast.Name):
            return {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            return set().union(*[defs(e) for e in t.elts]) if t.elts else set()
        return set()

    def blk(body, after, brk, cont):
        """-> live before the block; after: live after it, brk/cont: live at the target of break/continue"""
        for s in reversed(body):
            out[s] = out.get(s, frozenset()) | after | nested
            if isinstance(s, ast.If):
                after = frozenset(loads(s.test)) | blk(s.body, after, brk, cont) | blk(s.orelse, after, brk, cont)
            elif isinstance(s, (ast.While, ast.For)):
                head = frozenset(loads(s.test if isinstance(s, ast.While) else s.iter))
                els = blk(s.orelse, after, brk, cont)
                live = head | els
                for _ in range(3):
                    b = blk(s.body, live, after, live)
                    if isinstance(s, ast.For):
                        b = b - defs(s.target)
                    live = live | b
                after = live
            elif isinstance(s, ast.Try):
                fin = blk(s.finalbody, after, brk, cont)
                hs = frozenset().union(*[blk(h.body, fin, brk, cont) for h in s.handlers]) if s.handlers else frozenset()
                els = blk(s.orelse, fin, brk, cont)
                if s.finalbody:
                    hs = hs | fin
                after = blk(s.body, els | hs, brk, cont) | hs
                for n in ast.walk(s):
                    if isinstance(n, ast.stmt) and n is not s and n in out:
                        out[n] = out[n] | hs
            elif isinstance(s, ast.With):
                u = frozenset().union(*[loads(i.context_expr) for i in s.items])
                after = u | blk(s.body, after, brk, cont)
            elif isinstance(s, (ast.Return, ast.Raise)):
                after = frozenset(loads(s))
            elif isinstance(s, ast.Break):
                after = brk
            elif isinstance(s, ast.Continue):
                after = cont
            elif isinstance(s, ast.Assign):
                d = set().union(*[defs(t) for t in s.targets])
                u = loads(s.value) | set().union(*[loads(t) for t in s.targets])
                after = (after - d) | u
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                after = after | loads(s)
            else:
                after = after | loads(s)
        return frozenset(after)
    blk(fnode.body, frozenset(), frozenset(), frozenset())


def maybe_none(v):
    if v[0] == 'k':
        return v[1] is None
    if v[0] == 'u':
        return not v[2]
    return False


def assigned(body):
    out = set()
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,)):
            out.add(n.id)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                n.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort') and not (n.func.attr == 'pop' and n.args and isinstance(n.args[0], ast.Name)):
            out.add(n.func.value.id)
        todo += list(ast.iter_child_nodes(n))
    return out


def assigned_items(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
    return out - assigned(body)
