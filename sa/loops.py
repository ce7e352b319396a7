"""termination of condition-controlled loops.

A loop is refuted when there is a path once around it that changes nothing the conditions for leaving it depend on, under the assumption that
every read from a file happens at the end of the input (reads give an empty string). The body is executed abstractly on terms: constants are
folded (so '' .strip(), .split()[0], len('') ... are known), everything else is symbolic. Three rounds along the same path are compared; counters must
move towards their bound, containers must shrink.
"""
import ast, itertools
from .model import walk_own

CAP = 1500
BEAM = 80
MAXPATHS = 4000
fresh = itertools.count()
SHRINK = {'pop', 'popleft', 'popitem', 'remove', 'clear', 'discard'}
GROW = {'append', 'extend', 'insert', 'add', 'appendleft', 'setdefault', 'update'}
CHANGE = {'sort', 'reverse', 'fill', 'resize', 'rotate'}
READ = {'readline', 'read', 'readlines', 'read1', 'recv'}
PURE = set('''strip lstrip rstrip lower upper split rsplit splitlines replace find rfind index rindex count startswith endswith join format isdigit isalpha isspace isnumeric
    encode decode title swapcase zfill ljust rjust center partition rpartition casefold keys values items get copy shape ravel flatten tolist mean sum min max astype
    reshape group groups match search findall finditer fullmatch span start end sub any all dot transpose tell isatty fileno seekable format_map expandtabs'''.split())
PUREF = set('''len int float str bool abs min max sum sorted any all isinstance hasattr getattr range enumerate zip list tuple dict set frozenset repr type ord chr round divmod
    reversed map filter hex bin callable print id hash issubclass slice complex bytes'''.split())


class Raise(Exception):
    """the evaluated expression certainly raises"""


class GiveUp(Exception):
    pass


def C(v):
    return ('c', v)


def is_c(t):
    return t[0] == 'c'


def new():
    return ('u', next(fresh))


def lin(t):
    """term -> (base, offset)"""
    if t[0] == '+':
        return t[1], t[2]
    if is_c(t) and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return None, t[1]
    return t, 0


def add(t, k):
    b, o = lin(t)
    o += k
    if b is None:
        return C(o)
    return b if o == 0 else ('+', b, o)


def diff(a, b):
    """a-b as a constant, or None"""
    (x, i), (y, j) = lin(a), lin(b)
    if x == y:
        return i - j
    return None


def contains(t, x):
    return t == x or isinstance(t, tuple) and t[:1] != ('c',) and any(contains(y, x) for y in t)


def has_fresh(t):
    if isinstance(t, tuple):
        if t and t[0] == 'u':
            return True
        return any(has_fresh(x) for x in t)
    return False


def length(t):
    if is_c(t):
        try:
            return C(len(t[1]))
        except TypeError:
            raise Raise()
    if t[0] == 'mut':
        if t[1] == 'shrink':
            return add(length(t[2]), -1)
        if t[1] == 'grow':
            return add(length(t[2]), 1)
        if t[1] == 'change':
            return length(t[2])
    if t[0] == 'tuple':
        return C(len(t) - 1)
    return ('op', 'len', t)


def truth(t):
    """canonical condition term, or a Python bool"""
    if is_c(t):
        try:
            return bool(t[1])
        except Exception:
            return t
    if t[0] == 'tuple':
        return len(t) > 1
    if t[0] == 'mut':
        return less(C(0), length(t))
    if t[0] == 'not':
        x = truth(t[1])
        return (not x) if isinstance(x, bool) else ('not', x)
    return t


def less(a, b):
    if is_c(a) and is_c(b):
        try:
            return bool(a[1] < b[1])
        except TypeError:
            raise Raise()
    d = diff(a, b)
    if d is not None:
        return d < 0
    # lengths are never negative
    for x, y, r in ((a, b, None),):
        bx, ox = lin(y)
        if is_c(x) and bx is not None and bx[:2] == ('op', 'len') and isinstance(x[1], (int, float)) and x[1] < ox:
            return True
        bx, ox = lin(x)
        if is_c(y) and bx is not None and bx[:2] == ('op', 'len') and isinstance(y[1], (int, float)) and y[1] <= ox:
            return False
    return ('<', a, b)


class Path:
    __slots__ = ('env', 'sig', 'conds', 'facts')

    def __init__(self, env, sig=(), conds=(), facts=frozenset()):
        self.env, self.sig, self.conds, self.facts = env, sig, conds, facts

    def copy(self):
        return Path(dict(self.env), self.sig, self.conds, self.facts)


class Loop:
    def __init__(self, A, fn, node):
        self.A, self.p, self.fn, self.node = A, A.p, fn, node
        self.budget = MAXPATHS
        self.beam, self.follow_calls = BEAM, True
        self.depth = 0
        self.stack = []
        self.relevant()

    # ---------------------------------------------------------------- what the exits depend on
    def names(self, e):
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                out.add(n.id)
        return out

    def exits_in(self, node, inner=False):
        """does the statement contain something that leaves the loop?"""
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, (ast.Return, ast.Raise)) or isinstance(n, ast.Break) and not inner:
                return True
            if self.exits_in(n, inner or isinstance(n, (ast.For, ast.While))):
                return True
        return False

    def relevant(self):
        R = set()
        if isinstance(self.node, ast.While):
            R |= self.names(self.node.test)
        for n in ast.walk(self.node):
            if isinstance(n, ast.If) and self.exits_in(n):
                R |= self.names(n.test)
        changed = True
        while changed:
            changed = False
            for n in ast.walk(self.node):
                tg, val = [], None
                if isinstance(n, ast.Assign):
                    tg, val = n.targets, n.value
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                    tg, val = [n.target], n.value
                elif isinstance(n, (ast.For, ast.comprehension)):
                    tg, val = [n.target], n.iter
                elif isinstance(n, ast.NamedExpr):
                    tg, val = [n.target], n.value
                if val is None:
                    continue
                if any(x.id in R for t in tg for x in ast.walk(t) if isinstance(x, ast.Name)):
                    add_ = self.names(val) - R
                    if add_:
                        R |= add_
                        changed = True
        self.R = R
        self.V = sorted(self.names(self.node.test)) if isinstance(self.node, ast.While) else []
        self.pruned = False

    # ---------------------------------------------------------------- decide
    def stuck(self):
        self.budget0 = self.budget
        """None, or the list of conditions under which one round changes nothing"""
        paths1 = self.round(Path({}))
        for p1 in paths1:
            if any(has_fresh(self.load(k, p1)) for k in self.V):
                continue         # changed in a way that is not known: may be progress
            if self.counts(p1):
                continue
            q = Path(dict(p1.env))
            r2 = self.follow(q, p1.sig)
            for p2 in r2:
                for p3 in self.follow(Path(dict(p2.env)), p1.sig):
                    if len(p2.conds) != len(p3.conds):
                        continue
                    if not any(self.progress(a, b) for a, b in zip(p2.conds, p3.conds)):
                        return p3
        return None

    def counts(self, p1):
        """does the head of the loop compare a counter that this round moved towards its bound?"""
        n = self.node
        if not isinstance(n, ast.While) or isinstance(n.test, ast.Constant):
            return False
        self.want = None
        a = [p.conds for p, b in self.branch(n.test, Path({}), True) if b]
        b = [p.conds for p, b in self.branch(n.test, Path(dict(p1.env)), True) if b]
        if len(a) != 1 or len(b) != 1 or len(a[0]) != len(b[0]):
            return False
        for x, y in zip(a[0], b[0]):
            if isinstance(x[0], tuple) and isinstance(y[0], tuple) and x[0][0] == '<' == y[0][0] and x[1] == y[1] and self.progress(x, y) \
                    and diff(y[0][1], x[0][1]) is not None and diff(y[0][2], x[0][2]) is not None:
                return True
            # moved by an amount that is not constant: the terms differ in every round
            if isinstance(x[0], tuple) and isinstance(y[0], tuple) and x[0][0] == '<' == y[0][0] and x[1] == y[1] and \
                    (diff(y[0][1], x[0][1]) is None and contains(y[0][1], x[0][1]) or diff(y[0][2], x[0][2]) is None and contains(y[0][2], x[0][2])):
                return True
        return False

    def follow(self, q, sig):
        self.budget = min(self.budget, self.budget0)
        return [p for p in self.round(q, sig) if p.sig == sig]

    def progress(self, a, b):
        (t2, want2, kind), (t3, want3, _) = a, b
        if t2 == t3:
            return False
        if isinstance(t2, tuple) and isinstance(t3, tuple) and t2[0] == '<' and t3[0] == '<':
            x = (lin(t2[1]), lin(t3[1]))
            da = diff(t3[1], t2[1])
            db = diff(t3[2], t2[2])
            if da is not None and db is not None:
                slack = db - da if want2 else da - db
                return slack < 0
        return True

    def round(self, path, sig=None):
        """all abstract paths once around, back to the head"""
        self.want = sig
        out = []
        n = self.node
        starts = [path]
        if isinstance(n, ast.While):
            starts = [p for p, b in self.branch(n.test, path, True, exit_on=False) if b]
        elif isinstance(n, ast.For):
            p = path.copy()
            self.bind(n.target, C('') if self.eof_iter(n.iter) else new(), p)
            starts = [p]
        res = self.block(n.body, starts)
        seen = {}
        for p in res.get('next', []) + res.get('continue', []):
            k = (tuple(sorted((a, repr(b)) for a, b in p.env.items() if a.split('.')[0] in self.R)), p.sig)
            seen.setdefault(k, p)
        return list(seen.values())

    def eof_iter(self, it):
        return isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'iter'

    # ---------------------------------------------------------------- statements
    def merge(self, paths):
        if len(paths) <= 1:
            return paths
        seen = {}
        for p in paths:
            k = (frozenset((a, b) for a, b in p.env.items() if a.split('.')[0] in self.R or self.depth), p.sig, p.facts)
            seen.setdefault(k, p)
        out = list(seen.values())
        if len(out) > self.beam and not self.depth:
            # keep representatives of every value of what the head of the loop tests: fewer paths are followed, each of them exactly
            groups = {}
            for p in out:
                groups.setdefault(tuple('?' if has_fresh(v) else repr(v) for k in self.V for v in [self.load(k, p)]), []).append(p)
            self.pruned = True
            per = max(4, self.beam // len(groups))
            out = [p for g in groups.values() for p in g[:per // 2] + g[per // 2:][-(per - per // 2):]]
        if len(out) > CAP:
            raise GiveUp()
        return out

    def block(self, stmts, paths):
        out = {}
        cur = list(paths)
        for s in stmts:
            if not cur:
                break
            nxt = []
            for p in cur:
                self.budget -= 1
                if self.budget < 0:
                    raise GiveUp()
                try:
                    r = self.stmt(s, p)
                except Raise:
                    r = {'raise': [p]}
                for k, v in r.items():
                    if k == 'next':
                        nxt += v
                    else:
                        out.setdefault(k, []).extend(v)
            cur = self.merge(nxt)
        if cur:
            out.setdefault('next', []).extend(cur)
        for k in out:
            out[k] = self.merge(out[k])
        return out

    def stmt(self, s, p):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is not None:
            return m(s, p)
        p = p.copy()
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                self.ev(ch, p)
        return {'next': [p]}

    def st_Pass(self, s, p):
        return {'next': [p]}
    st_Global = st_Nonlocal = st_Import = st_ImportFrom = st_FunctionDef = st_ClassDef = st_AsyncFunctionDef = st_Pass

    def st_Expr(self, s, p):
        outs = self.evs(s.value, p)
        return {'next': [q for q, _ in outs]}

    def st_Assign(self, s, p):
        out = []
        for q, v in self.evs(s.value, p):
            for t in s.targets:
                self.bind(t, v, q)
            out.append(q)
        return {'next': out}

    def st_AnnAssign(self, s, p):
        p = p.copy()
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, p), p)
        return {'next': [p]}

    def st_AugAssign(self, s, p):
        p = p.copy()
        v = self.binop(s.op, self.ev(s.target, p), self.ev(s.value, p))
        self.bind(s.target, v, p)
        return {'next': [p]}

    def st_Delete(self, s, p):
        p = p.copy()
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.mutate(t.value, 'shrink', p)
            else:
                self.bind(t, new(), p)
        return {'next': [p]}

    def st_Break(self, s, p):
        return {'break': [p]}

    def st_Continue(self, s, p):
        return {'continue': [p]}

    def st_Return(self, s, p):
        if not self.depth:
            return {'return': [p]}
        if s.value is None:
            q = p.copy()
            q.env['@ret'] = C(None)
            return {'return': [q]}
        out = []
        for q, v in self.evs(s.value, p):
            q.env['@ret'] = v
            out.append(q)
        return {'return': out}

    def st_Raise(self, s, p):
        return {'raise': [p]}

    def st_Assert(self, s, p):
        return {'next': [q for q, b in self.branch(s.test, p, self.exit_test(s)) if b]}

    def exit_test(self, s):
        return isinstance(s, ast.Assert) or self.exits_in(s)

    def st_If(self, s, p):
        out = {}
        T, F = [], []
        ex = self.exit_test(s)
        for q, b in self.branch(s.test, p, ex):
            (T if b else F).append(q)
        if T:
            for k, v in self.block(s.body, T).items():
                out.setdefault(k, []).extend(v)
        if F:
            for k, v in (self.block(s.orelse, F) if s.orelse else {'next': F}).items():
                out.setdefault(k, []).extend(v)
        return out

    def assigned(self, node):
        names, muts = set(), set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = n
                while isinstance(r, (ast.Attribute, ast.Subscript)):
                    r = r.value
                if isinstance(r, ast.Name):
                    muts.add(r.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr not in PURE:
                r = n.func.value
                while isinstance(r, (ast.Attribute, ast.Subscript)):
                    r = r.value
                if isinstance(r, ast.Name):
                    muts.add(r.id)
            if isinstance(n, ast.Call):
                for a in n.args:
                    if isinstance(a, ast.Name):
                        nm = n.func.id if isinstance(n.func, ast.Name) else None
                        if nm not in PUREF and not (isinstance(n.func, ast.Attribute) and n.func.attr in PURE):
                            muts.add(a.id)
        return names | muts

    def havoc(self, names, p):
        for n in names:
            p.env[n] = new()
            for k in list(p.env):
                if k.startswith(n + '.'):
                    p.env[k] = new()

    def st_While(self, s, p):
        out = {'next': []}
        try:
            for q, b in self.branch(s.test, p, False):
                if not b:
                    out['next'].append(q)
                else:
                    q = q.copy()
                    self.havoc(self.assigned(s), q)
                    out['next'].append(q)
        except Raise:
            return {'raise': [p]}
        if any(isinstance(n, ast.Return) for n in ast.walk(s)) and self.depth:
            q = p.copy()
            q.env['@ret'] = new()
            out['return'] = [q]
        return out

    def st_For(self, s, p):
        q = p.copy()
        it = self.ev(s.iter, q)
        if it == C('') or is_c(it) and it[1] in ((), b''):
            return {'next': [q]}
        self.havoc(self.assigned(s), q)
        out = {'next': [q]}
        if any(isinstance(n, ast.Return) for n in ast.walk(s)) and self.depth:
            r = p.copy()
            r.env['@ret'] = new()
            out['return'] = [r]
        return out

    def st_With(self, s, p):
        p = p.copy()
        for it in s.items:
            v = self.ev(it.context_expr, p)
            if it.optional_vars is not None:
                self.bind(it.optional_vars, new(), p)
        return self.block(s.body, [p])

    def st_Try(self, s, p):
        # every statement of the body that may raise can lead to the handlers, with the state before it
        out = {}
        hstates = []
        cur = [p]
        for st in s.body:
            nxt = []
            for q in cur:
                sure = False
                try:
                    r = self.stmt(st, q)
                except Raise:
                    r, sure = {}, True
                if sure or self.may_raise(st):
                    h = q.copy()
                    if isinstance(st, (ast.For, ast.While, ast.If, ast.With, ast.Try)):
                        self.havoc(self.assigned(st), h)
                    hstates.append(h)
                hstates += r.pop('raise', [])
                for k, v in r.items():
                    if k == 'next':
                        nxt += v
                    else:
                        out.setdefault(k, []).extend(v)
            cur = self.merge(nxt)
        if cur:
            for k, v in (self.block(s.orelse, cur) if s.orelse else {'next': cur}).items():
                out.setdefault(k, []).extend(v)
        hstates = self.merge(hstates)
        for i, h in enumerate(s.handlers):
            hs = []
            for q in hstates:
                q = q.copy()
                if h.name:
                    q.env[h.name] = new()
                hs.append(q)
            if hs:
                for k, v in self.block(h.body, hs).items():
                    out.setdefault(k, []).extend(v)
        if hstates and not any(h.type is None or isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException') for h in s.handlers):
            out.setdefault('raise', []).extend(hstates)
        if s.finalbody:
            fin = {}
            for k, v in out.items():
                for k2, v2 in self.block(s.finalbody, v).items():
                    fin.setdefault(k if k2 == 'next' else k2, []).extend(v2)
            out = fin
        return out

    def may_raise(self, st):
        return any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Raise, ast.Assert)) for n in ast.walk(st))

    # ---------------------------------------------------------------- binding
    def key(self, t):
        if isinstance(t, ast.Name):
            return t.id
        if isinstance(t, ast.Attribute):
            b = self.key(t.value)
            return b + '.' + t.attr if b else None
        return None

    def bind(self, t, v, p):
        k = self.key(t)
        if k:
            if isinstance(t, ast.Name):
                for x in list(p.env):
                    if x.startswith(k + '.'):
                        del p.env[x]
            p.env[k] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if v[0] == 'tuple' and not star and len(v) - 1 == len(t.elts):
                for x, w in zip(t.elts, v[1:]):
                    self.bind(x, w, p)
            else:
                if is_c(v) and isinstance(v[1], (str, tuple)) and not star and len(v[1]) != len(t.elts):
                    raise Raise()
                for i, x in enumerate(t.elts):
                    self.bind(x.value if isinstance(x, ast.Starred) else x, ('op', 'item%d' % i, v) if not has_fresh(v) else new(), p)
            return
        if isinstance(t, ast.Subscript):
            self.mutate(t.value, 'change', p)

    def mutate(self, e, how, p):
        k = self.key(e)
        if k:
            p.env[k] = ('mut', how, self.load(k, p)) if how != 'havoc' else new()
        elif isinstance(e, (ast.Subscript, ast.Attribute)):
            r = e
            while isinstance(r, (ast.Subscript, ast.Attribute)):
                r = r.value
                k = self.key(r)
                if k:
                    p.env[k] = ('mut', 'change', self.load(k, p))
                    return

    def load(self, k, p):
        if k in p.env:
            return p.env[k]
        if '.' in k:
            b, _, a = k.rpartition('.')
            base = self.load(b, p)
            if base[0] == 'u':
                return new()
            return ('op', 'attr', base, a) if base != ('s', b) else ('s', k)
        return ('s', k)

    # ---------------------------------------------------------------- conditions
    def branch(self, t, p, exit_rel, exit_on=None):
        """[(path, truth)] - conditions that can leave the loop are remembered"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return [(q, not b) for q, b in self.branch(t.operand, p, exit_rel)]
        if isinstance(t, ast.BoolOp):
            out, cur = [], [p]
            stop = isinstance(t.op, ast.Or)
            for v in t.values:
                nxt = []
                for q in cur:
                    for r, b in self.branch(v, q, exit_rel):
                        if b == stop:
                            out.append((r, b))
                        else:
                            nxt.append(r)
                cur = nxt
            return out + [(q, not stop) for q in cur]
        res = []
        for q, v in self.evs(t, p):
            c = truth(v)
            neg = False
            while isinstance(c, tuple) and c[0] == 'not':
                c, neg = truth(c[1]), not neg
            if isinstance(c, bool):
                res.append((q, c != neg))
                if exit_rel and not self.depth:
                    q.conds = q.conds + ((c, c, 'x'),)
                    q.sig = q.sig + ((id(t), c != neg),)
                continue
            known = None
            if not has_fresh(c):
                for f, b in q.facts:
                    if f == c:
                        known = b
            for b in ((known,) if known is not None else (True, False)):
                r = q.copy()
                if known is None and not has_fresh(c) and self.cond_relevant(t):
                    r.facts = r.facts | {(c, b)}
                if exit_rel and not self.depth:
                    r.conds = r.conds + ((c, b, 'x'),)
                    r.sig = r.sig + ((id(t), b != neg),)
                    if self.want is not None and self.want[:len(r.sig)] != r.sig:
                        continue
                res.append((r, b != neg))
        return res

    def cond_relevant(self, t):
        return True

    # ---------------------------------------------------------------- expressions
    def evs(self, e, p):
        """evaluate with forking at calls of functions of the package and conditional expressions"""
        q = p.copy()
        if isinstance(e, ast.IfExp):
            return [r for a, b in self.branch(e.test, q, False) for r in self.evs(e.body if b else e.orelse, a)]
        if isinstance(e, ast.Call):
            r = self.inline(e, q)
            if r is not None:
                return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(a, ('not', v)) for a, v in self.evs(e.operand, q)]
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Call):
            r = self.inline(e.left, q)
            if r is not None:
                return [(a, self.compare(e.ops[0], v, self.ev(e.comparators[0], a))) for a, v in r]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call):
            # helper(f).strip()
            r = self.inline(e.func.value, q)
            if r is not None:
                return [(a, self.method(e, e.func.attr, v, [self.ev(x, a) for x in e.args], a)) for a, v in r]
        if isinstance(e, ast.Tuple):
            outs = [(q, ())]
            for x in e.elts:
                outs = [(b, vs + (v,)) for a, vs in outs for b, v in self.evs(x, a)]
            return [(a, ('tuple',) + vs) for a, vs in outs]
        return [(q, self.ev(e, q))]

    def ev(self, e, p):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is not None:
            return m(e, p)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ev(ch, p)
        return new()

    def ev_Constant(self, e, p):
        return C(e.value) if not isinstance(e.value, bytes) else C(e.value.decode('latin-1'))

    def ev_Name(self, e, p):
        if e.id in ('True', 'False', 'None'):
            return C({'True': True, 'False': False, 'None': None}[e.id])
        return self.load(e.id, p)

    def ev_Attribute(self, e, p):
        k = self.key(e)
        if k:
            return self.load(k, p)
        b = self.ev(e.value, p)
        return new() if has_fresh(b) else ('op', 'attr', b, e.attr)

    def ev_Tuple(self, e, p):
        return ('tuple',) + tuple(self.ev(x, p) for x in e.elts)

    def ev_List(self, e, p):
        return ('tuple',) + tuple(self.ev(x, p) for x in e.elts)

    def ev_JoinedStr(self, e, p):
        vs = [self.ev(v.value if isinstance(v, ast.FormattedValue) else v, p) for v in e.values]
        if any(has_fresh(v) for v in vs):
            return new()
        return ('op', 'fstr') + tuple(vs)

    def ev_Lambda(self, e, p):
        return ('op', 'lambda', id(e))

    def ev_Starred(self, e, p):
        return self.ev(e.value, p)

    def ev_NamedExpr(self, e, p):
        v = self.ev(e.value, p)
        self.bind(e.target, v, p)
        return v

    def ev_Await(self, e, p):
        return new()
    ev_Yield = ev_YieldFrom = ev_Await

    def ev_ListComp(self, e, p):
        it = self.ev(e.generators[0].iter, p)
        if it == C(''):
            return ('tuple',)
        vs = tuple(self.load(k, p) for k in sorted(self.names(e)))
        return new() if any(has_fresh(v) for v in vs) else ('op', 'comp', id(e)) + vs
    ev_SetComp = ev_GeneratorExp = ev_DictComp = ev_ListComp

    def ev_IfExp(self, e, p):
        outs = self.branch(e.test, p.copy(), False)
        vs = {self.ev(e.body if b else e.orelse, q) for q, b in outs}
        return vs.pop() if len(vs) == 1 else new() if any(has_fresh(v) for v in vs) else ('op', 'ifexp', id(e)) + tuple(sorted(vs, key=repr))

    def ev_BoolOp(self, e, p):
        vs = [self.ev(v, p) for v in e.values]
        for i, v in enumerate(vs):
            t = truth(v)
            if isinstance(t, bool):
                if t == isinstance(e.op, ast.Or):
                    return v if all(isinstance(truth(w), bool) for w in vs[:i]) else (new() if any(has_fresh(w) for w in vs) else ('op', type(e.op).__name__) + tuple(vs))
        left = [v for v in vs if not isinstance(truth(v), bool)]
        if not left:
            return vs[-1]
        if len(left) == 1 and vs[-1] is left[0]:
            return left[0]
        return new() if any(has_fresh(w) for w in vs) else ('op', type(e.op).__name__) + tuple(vs)

    def ev_UnaryOp(self, e, p):
        v = self.ev(e.operand, p)
        if isinstance(e.op, ast.Not):
            t = truth(v)
            return C(not t) if isinstance(t, bool) else ('not', v)
        if isinstance(e.op, ast.USub) and is_c(v) and isinstance(v[1], (int, float)):
            return C(-v[1])
        return v if isinstance(e.op, ast.UAdd) else (new() if has_fresh(v) else ('op', type(e.op).__name__, v))

    def ev_BinOp(self, e, p):
        return self.binop(e.op, self.ev(e.left, p), self.ev(e.right, p))

    def binop(self, op, a, b):
        if is_c(a) and is_c(b):
            try:
                f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Mod: lambda x, y: x % y,
                     ast.FloorDiv: lambda x, y: x // y, ast.Div: lambda x, y: x / y}.get(type(op))
                if f and not (isinstance(op, ast.Mult) and isinstance(a[1], (str, tuple)) and isinstance(b[1], int) and b[1] > 1000):
                    return C(f(a[1], b[1]))
            except Exception:
                raise Raise()
        num = lambda t: is_c(t) and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)
        if isinstance(op, ast.Add):
            if num(b):
                return add(a, b[1])
            if num(a):
                return add(b, a[1])
            if a[0] == 'tuple' and b[0] == 'tuple':
                return a + b[1:]
            if a == C(''):
                return b
            if b == C(''):
                return a
        if isinstance(op, ast.Sub):
            if num(b):
                return add(a, -b[1])
            d = diff(a, b)
            if d is not None:
                return C(d)
        if has_fresh(a) or has_fresh(b):
            return new()
        return ('op', type(op).__name__, a, b)

    def ev_Compare(self, e, p):
        l = self.ev(e.left, p)
        out = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, p)
            c = self.compare(op, l, rv)
            if out is None:
                out = c
            elif out == C(True):
                out = c
            elif out == C(False):
                return out
            else:
                out = ('op', 'And', out, c)
            l = rv
        return out

    def compare(self, op, a, b):
        if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            if isinstance(op, ast.Lt):
                t = less(a, b)
            elif isinstance(op, ast.Gt):
                t = less(b, a)
            elif isinstance(op, ast.GtE):
                t = less(a, b)
                t = (not t) if isinstance(t, bool) else ('not', t)
            else:
                t = less(b, a)
                t = (not t) if isinstance(t, bool) else ('not', t)
            return C(t) if isinstance(t, bool) else t
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            r = None
            if is_c(a) and is_c(b):
                if isinstance(op, (ast.Is, ast.IsNot)) and (a[1] is None or b[1] is None or isinstance(a[1], bool) or isinstance(b[1], bool)):
                    r = a[1] is b[1]
                else:
                    r = a[1] == b[1]
            else:
                d = diff(a, b)
                if d is not None:
                    r = d == 0
                elif a[0] == 'tuple' and b[0] == 'tuple' and len(a) != len(b):
                    r = False
                elif {a[0], b[0]} == {'tuple', 'c'}:
                    c, t = (a, b) if a[0] == 'c' else (b, a)
                    r = False if not isinstance(c[1], (tuple, list)) else None
                else:
                    # len(x)==0 is not 0<len(x)
                    for x, y in ((a, b), (b, a)):
                        if is_c(y) and y[1] == 0 and lin(x)[0] is not None and lin(x)[0][:2] == ('op', 'len'):
                            t = less(C(0), x)
                            if isinstance(t, bool):
                                r = not t
                            else:
                                return t if neg else ('not', t)
            if r is None:
                if has_fresh(a) or has_fresh(b):
                    return new()
                t = ('==',) + tuple(sorted((a, b), key=repr))
                return ('not', t) if neg else t
            return C(r != neg)
        if isinstance(op, (ast.In, ast.NotIn)):
            if is_c(a) and is_c(b):
                try:
                    return C((a[1] in b[1]) != neg)
                except TypeError:
                    raise Raise()
            if is_c(a) and b[0] == 'tuple' and all(is_c(x) for x in b[1:]):
                return C((a in b[1:]) != neg)
            if has_fresh(a) or has_fresh(b):
                return new()
            t = ('in', a, b)
            return ('not', t) if neg else t
        return new()

    def ev_Subscript(self, e, p):
        b = self.ev(e.value, p)
        if isinstance(e.slice, ast.Slice):
            parts = [self.ev(x, p) if x is not None else C(None) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if is_c(b) and all(is_c(x) for x in parts):
                try:
                    return C(b[1][slice(*[x[1] for x in parts])])
                except Exception:
                    raise Raise()
            if b == C(''):
                return b
            if has_fresh(b) or any(has_fresh(x) for x in parts):
                return new()
            # x[n:] with n>0 is shorter
            if parts[1] == C(None) and parts[2] == C(None) and is_c(parts[0]) and isinstance(parts[0][1], int) and parts[0][1] > 0:
                t = b
                for _ in range(min(parts[0][1], 3)):
                    t = ('mut', 'shrink', t)
                return t
            return ('op', 'slice', b) + tuple(parts)
        i = self.ev(e.slice, p)
        if is_c(b) and isinstance(b[1], str) and (is_c(i) or b[1] == ''):
            if b[1] == '':
                raise Raise()
            try:
                return C(b[1][i[1]])
            except Exception:
                raise Raise()
        if b[0] == 'tuple':
            if is_c(i) and isinstance(i[1], int):
                try:
                    return b[1:][i[1]]
                except IndexError:
                    raise Raise()
            if len(b) == 1:
                raise Raise()
        if has_fresh(b) or has_fresh(i):
            return new()
        return ('op', 'get', b, i)

    # ---------------------------------------------------------------- calls
    def ev_Call(self, e, p):
        r = self.inline(e, p)
        if r is not None:
            if len(r) == 1:
                p.env.clear()
                p.env.update(r[0][0].env)
                return r[0][1]
            # several outcomes: keep what they agree on
            keys = set().union(*[set(q.env) for q, _ in r])
            for k in keys:
                vs = {self.load(k, q) for q, _ in r}
                p.env[k] = vs.pop() if len(vs) == 1 else new()
            vs = {v for _, v in r}
            return vs.pop() if len(vs) == 1 else new()
        name = e.func.id if isinstance(e.func, ast.Name) else None
        if isinstance(e.func, ast.Attribute):
            ext = self.A.name(e.func, self.cur())
            if ext is None or ext.split('.')[0] in ('f', 'fid'):
                recv = self.ev(e.func.value, p)
                args = [self.ev(a, p) for a in e.args]
                for k in e.keywords:
                    self.ev(k.value, p)
                return self.method(e, e.func.attr, recv, args, p)
        args = [self.ev(a, p) for a in e.args] + [self.ev(k.value, p) for k in e.keywords]
        ext = self.A.name(e.func, self.cur())
        if name == 'next' or ext == 'next':
            if len(args) > 1:
                return args[1]
            raise Raise()
        if ext == 'len' and len(args) == 1:
            return length(args[0])
        if ext in ('str', 'int', 'float', 'bool') and len(args) == 1 and is_c(args[0]):
            try:
                return C({'str': str, 'int': int, 'float': float, 'bool': bool}[ext](args[0][1]))
            except Exception:
                raise Raise()
        if ext in ('list', 'tuple') and len(args) == 1:
            if args[0] == C(''):
                return ('tuple',)
            if args[0][0] == 'tuple':
                return args[0]
        if ext in ('any', 'all') and len(args) == 1 and args[0] == ('tuple',):
            return C(ext == 'all')
        if ext in ('numpy.fromfile', 'numpy.frombuffer', 'numpy.fromstring'):
            return ('tuple',)
        if ext in ('os.path.exists',) or ext and (ext in PUREF or ext.split('.')[0] in ('numpy', 'pandas', 're', 'os', 'math', 'struct', 'itertools', 'copy', 'collections')):
            if any(has_fresh(a) for a in args) or ext.startswith(('numpy.random', 'os.read')):
                return new()
            return ('op', 'call', ext) + tuple(args)
        if ext and ext.split('.')[0] in ('time', 'random', 'datetime'):
            return new()
        r = self.A.resolve(e.func, self.cur())
        if ext is None or r and r[0] in ('func', 'class'):
            self.havoc_args(e, p, r)
        if r and r[0] in ('func', 'class') and not any(has_fresh(a) for a in args) and not self.A.reads(r[1]):
            return ('op', 'call', r[1].key) + tuple(args)
        return new()

    def havoc_args(self, e, p, r):
        mod = None
        if r and r[0] == 'func':
            mod = self.A.mutated(r[1])
        for i, a in enumerate(e.args):
            k = self.key(a)
            if k and (mod is None or i in mod):
                self.havoc([k], p)
        for kw in e.keywords:
            k = self.key(kw.value)
            if k and mod is None:
                self.havoc([k], p)

    def method(self, e, m, recv, args, p):
        if m in READ:
            return C('') if m != 'readlines' else ('tuple',)
        if m in SHRINK or m in GROW or m in CHANGE:
            if recv[0] == 'tuple' and len(recv) == 1 and m in ('pop', 'popleft'):
                raise Raise()
            how = 'shrink' if m in SHRINK else 'grow' if m in GROW else 'change'
            if m == 'insert' or m in ('update', 'setdefault', 'discard', 'add', 'extend'):
                how = 'grow' if m in ('insert', 'extend', 'add', 'update', 'setdefault') else 'change'
            self.mutate(e.func.value, how, p)
            return new() if has_fresh(recv) else ('op', m, recv) + tuple(a for a in args if not has_fresh(a))
        if is_c(recv) and isinstance(recv[1], str):
            if m in ('decode', 'encode'):
                return recv
            if m == 'format':
                if all(is_c(a) for a in args) and not e.keywords:
                    try:
                        return C(recv[1].format(*[a[1] for a in args]))
                    except Exception:
                        raise Raise()
            elif m in PURE and all(is_c(a) or a[0] == 'tuple' and all(is_c(x) for x in a[1:]) for a in args) and hasattr(str, m):
                try:
                    v = getattr(recv[1], m)(*[a[1] if is_c(a) else tuple(x[1] for x in a[1:]) for a in args])
                except Exception:
                    raise Raise()
                if isinstance(v, (list, tuple)):
                    return ('tuple',) + tuple(C(x) for x in v)
                return C(v)
            if recv[1] == '' and m in ('split', 'rsplit') and not args:
                return ('tuple',)
            if recv[1] == '' and m in ('startswith', 'endswith') and args and args[0][0] in ('s', 'op'):
                return C(False)      # an empty prefix is not what anybody looks for
        if m in PURE or m == 'tell':
            if has_fresh(recv) or any(has_fresh(a) for a in args):
                return new()
            return ('op', 'm:' + m, recv) + tuple(args)
        if m in ('write', 'writelines', 'close', 'flush'):
            return C(None)
        r = self.A.method(e, self.cur())
        if r is not None:
            mod = self.A.mutated(r)
            off = 0 if r.is_static else 1
            if mod is None or (0 in mod and off):
                self.mutate(e.func.value, 'havoc', p)
            for i, a in enumerate(e.args):
                k = self.key(a)
                if k and (mod is None or i + off in mod):
                    self.havoc([k], p)
        else:
            self.mutate(e.func.value, 'havoc', p)
            for a in e.args:
                k = self.key(a)
                if k and self.container(k):
                    self.havoc([k], p)
        return new()

    def container(self, k):
        return True

    def cur(self):
        return self.stack[-1] if self.stack else self.fn

    def inline(self, e, p):
        """outcomes of a call of a function of the package: [(path, value)] or None"""
        fn, recv = None, None
        if not self.follow_calls:
            return None
        r = self.A.resolve(e.func, self.cur())
        if r and r[0] == 'func':
            fn = r[1]
        elif isinstance(e.func, ast.Attribute):
            fn = self.A.method(e, self.cur())
            recv = e.func.value
        if fn is None or fn in self.stack or self.depth >= 3 or e.keywords and any(k.arg is None for k in e.keywords) or any(isinstance(a, ast.Starred) for a in e.args):
            return None
        if fn.vararg or fn.kwarg or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fn.node)):
            return None
        if sum(1 for _ in ast.walk(fn.node)) > 900:
            return None
        params = list(fn.params)
        env = {}
        back = {}
        if recv is not None and params and not fn.is_static:
            k = self.key(recv)
            env[params[0]] = self.load(k, p) if k else new()
            if k:
                back[params[0]] = k
                for x, v in p.env.items():
                    if x.startswith(k + '.'):
                        env[params[0] + x[len(k):]] = v
            params = params[1:]
        args = []
        for a in e.args:
            args.append(self.ev(a, p))
        if len(args) > len(params):
            return None
        for a, v, node in zip(params, args, e.args):
            env[a] = v
            k = self.key(node)
            if k:
                back[a] = k
        for kw in e.keywords:
            env[kw.arg] = self.ev(kw.value, p)
        for a in params + fn.kwonly:
            if a not in env:
                d = fn.defaults.get(a)
                env[a] = C(d.value) if isinstance(d, ast.Constant) else new()
        # names of the enclosing function
        closure = {}
        if fn.parent is not None:
            own = self.p.func_scope(fn).locals
            for k, v in p.env.items():
                if k.split('.')[0] not in own:
                    env.setdefault(k, v)
                    closure[k] = k
        saved = self.budget
        self.budget = start = min(saved, 600)
        self.depth += 1
        self.stack.append(fn)
        try:
            q0 = Path(env, p.sig, p.conds, p.facts)
            o = self.block(fn.node.body, [q0])
        except GiveUp:
            return None
        finally:
            self.depth -= 1
            self.stack.pop()
            self.budget = saved - (start - max(self.budget, 0))
        outs = []
        for q in o.get('next', []):
            outs.append((q, C(None)))
        for q in o.get('return', []):
            outs.append((q, q.env.get('@ret', C(None))))
        if not outs:
            raise Raise()
        if len(outs) > 24:
            return None
        res = []
        nonlocals = set()
        for n in walk_own(fn.node):
            if isinstance(n, ast.Nonlocal):
                nonlocals |= set(n.names)
        for q, v in outs:
            z = p.copy()
            z.facts = q.facts
            for a, k in back.items():
                was, now = env[a], q.env.get(a, env[a])
                if now != was and self.mutation_of(now, was):
                    z.env[k] = now
                for x, w in q.env.items():
                    if x.startswith(a + '.') and not self.rebound(fn, a):
                        z.env[k + x[len(a):]] = w
            for k in nonlocals:
                if k in q.env:
                    z.env[k] = q.env[k]
            for k in closure:
                if k not in nonlocals and k in q.env and q.env[k] != env.get(k):
                    z.env[k] = q.env[k]
            res.append((z, v))
        seen = {}
        for z, v in res:
            seen.setdefault((frozenset(z.env.items()), v, z.facts), (z, v))
        return list(seen.values())

    def rebound(self, fn, a):
        return any(isinstance(n, ast.Name) and n.id == a and isinstance(n.ctx, ast.Store) for n in walk_own(fn.node))

    def mutation_of(self, now, was):
        while now[0] == 'mut':
            now = now[2]
            if now == was:
                return True
        return now[0] == 'u'


def decide(A, f, node, tier='quick'):
    """(stuck path or None, undecided?, explored in part?)"""
    k = 10 if tier == 'thorough' else 1
    for beam, budget, inline in ((80, 15000, True), (16, 60000, False)):
        L = Loop(A, f, node)
        L.beam, L.budget, L.follow_calls = beam * (2 if k > 1 else 1), budget * k, inline
        try:
            return L.stuck(), False, L.pruned
        except (GiveUp, RecursionError):
            pass
    return None, True, True


class Analysis:
    def __init__(self, proj):
        from .mutate import Engine
        self.p = proj
        self.eng = Engine(proj)
        self._m, self._r = {}, {}

    def resolve(self, e, fn):
        try:
            r = self.p.resolve_expr(e, fn.mod, fn)
        except Exception:
            return None
        if r and r[0] == 'func' and r[1].is_method and not r[1].is_static and not r[1].is_classmethod:
            return None
        return r

    def name(self, e, fn):
        r = self.resolve(e, fn)
        return r[1] if r and r[0] == 'ext' else None

    def method(self, e, fn):
        f = e.func
        if not isinstance(f, ast.Attribute):
            return None
        top = fn
        while top.parent is not None:
            top = top.parent
        if isinstance(f.value, ast.Name) and top.cls is not None and top.params and f.value.id == top.params[0] and not top.is_static:
            return self.p.method(top.cls, f.attr)
        return None

    def mutated(self, fn):
        """indices of the parameters that the function may change in place; None: not known"""
        if fn.key not in self._m:
            try:
                s = self.eng.summary(fn, fn.cls)
                idx = set()
                for m in s.muts.values():
                    if m.label.startswith('p:'):
                        nm = m.label[2:].rpartition('#')[0]
                        if nm in fn.params:
                            idx.add(fn.params.index(nm))
                self._m[fn.key] = idx
            except Exception:
                self._m[fn.key] = None
        return self._m[fn.key]

    def reads(self, fn):
        if fn.key not in self._r:
            self._r[fn.key] = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in READ for n in ast.walk(fn.node)) if hasattr(fn, 'params') else True
        return self._r[fn.key]


def loops(proj):
    for f in proj.funcs.values():
        for n in walk_own(f.node):
            if isinstance(n, ast.While):
                yield f, n
            elif isinstance(n, ast.For) and isinstance(n.iter, ast.Call):
                d = n.iter.func
                nm = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ''
                if nm in ('count', 'cycle') and not n.iter.args[1:] and (nm == 'count' and isinstance(d, ast.Name) or isinstance(d, ast.Attribute) and
                                                                         isinstance(d.value, ast.Name) and d.value.id == 'itertools'):
                    yield f, n
                elif nm == 'repeat' and len(n.iter.args) == 1 and not n.iter.keywords and isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and d.value.id == 'itertools':
                    yield f, n
                elif nm == 'iter' and isinstance(d, ast.Name) and len(n.iter.args) == 2:
                    s = n.iter.args[1]
                    if isinstance(s, ast.Constant) and s.value in ('', b''):
                        continue
                    yield f, n
