"""abstract interpretation over the domain of record layouts: which typed fields a function takes from, or hands to, a binary file, in which order, how often,
and how the elements of arrays relate to them. Numbers are exact symbolic expressions, arrays are element functions, loops over symbolic ranges are
summarised by one execution of their body; every path (one decision sequence) is followed separately. Nothing of the analysed code is run."""
import ast
import string
from fractions import Fraction
from .qexpr import Q, q, deep_atoms, TooBig

NATIVE = {'b': ('i', 1), 'B': ('u', 1), 'h': ('i', 2), 'H': ('u', 2), 'i': ('i', 4), 'I': ('u', 4), 'l': ('i', 4), 'L': ('u', 4), 'q': ('i', 8), 'Q': ('u', 8),
          'f': ('f', 4), 'd': ('f', 8), 's': ('u', 1), 'c': ('u', 1), '?': ('u', 1), 'e': ('f', 2), 'p': ('u', 1)}
DT = {'int8': 'i1', 'uint8': 'u1', 'int16': 'i2', 'uint16': 'u2', 'int32': 'i4', 'uint32': 'u4', 'int64': 'i8', 'uint64': 'u8', 'float16': 'f2', 'float32': 'f4',
      'float64': 'f8', 'single': 'f4', 'double': 'f8', 'float': 'f8', 'int': 'i8', 'float_': 'f8', 'int_': 'i8', 'byte': 'i1', 'ubyte': 'u1', 'short': 'i2',
      'ushort': 'u2', 'intc': 'i4', 'half': 'f2', 'b': 'i1', 'B': 'u1', 'h': 'i2', 'H': 'u2', 'i': 'i4', 'I': 'u4', 'f': 'f4', 'd': 'f8', 'l': 'i8', 'q': 'i8'}


class Raised(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Abort(Exception):
    """path given up"""


class Unk:
    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % self.why


class StrU:
    """a text whose characters are not known; its length is"""
    n = 0

    def __init__(self, key, length=None, ascii=False):
        self.key, self.length, self.ascii = key, length if length is not None else Q.atom(('sym', 'len(%s)' % key)), ascii


class FStr:
    def __init__(self, parts):
        self.parts = parts        # str | Q | ('rep', FStr, Q)


class Item:
    def __init__(self, kind, count, order='<', node=None, shape=None, fn=None, forder='C', tok=None, what=None):
        self.kind, self.count, self.order, self.node = kind, count, order, node
        self.shape, self.fn, self.forder, self.tok, self.what = shape, fn, forder, tok, what


class LoopRec:
    def __init__(self, lv, n):
        self.lv, self.n, self.delta, self.total = lv, n, None, None
        self.q = Q.atom(lv)


class Rep:
    """what one symbolic loop adds to a list, a byte string or a stream"""
    def __init__(self, rec, items):
        self.rec, self.items = rec, items

    @property
    def n(self):
        return self.rec.n

    @property
    def lv(self):
        return self.rec.lv


class Hole:
    def __init__(self, why=''):
        self.why = why


class BytesV:
    def __init__(self, items):
        self.items = items


class Place:
    """bytes taken from a stream whose meaning is fixed later"""
    def __init__(self, size, loops, node):
        self.size, self.loops, self.node, self.views = size, loops, node, {}


class RawB:
    def __init__(self, place, off, size):
        self.place, self.off, self.size = place, off, size


class ListV:
    def __init__(self, parts, level=0):
        self.parts, self.level = parts, level        # values or Rep


class SymSeq:
    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class Arr:
    def __init__(self, shape, fn, dtype=None):
        self.shape, self.fn, self.dtype = shape, fn, dtype


class Handle:
    def __init__(self, mode, path):
        self.mode, self.path, self.stream, self.broken, self.level = mode, path, [], None, 0


class Obj:
    def __init__(self, cls, attrs, keys, closed):
        self.cls, self.attrs, self.keys, self.closed = cls, attrs, keys, closed


class FuncV:
    def __init__(self, fn, env, selfv, cls):
        self.fn, self.env, self.selfv, self.cls = fn, env, selfv, cls


class Lam:
    def __init__(self, node, env, fr):
        self.node, self.env, self.fr = node, env, fr


class Meth:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Ext:
    def __init__(self, name):
        self.name = name


class StructV:
    def __init__(self, fmt):
        self.fmt = fmt


class DType:
    def __init__(self, kind, order='<'):
        self.kind, self.order = kind, order


class ClassV:
    def __init__(self, c):
        self.c = c


class Frame:
    def __init__(self, fn, env, cls, selfv, mod):
        self.fn, self.env, self.cls, self.selfv, self.mod = fn, env, cls, selfv, mod


class Env(dict):
    def __init__(self, parent=None):
        dict.__init__(self)
        self.parent = parent

    def find(self, k):
        e = self
        while e is not None:
            if k in e:
                return e
            e = e.parent
        return None


def has_unk(x):
    return any(a[0] == 'unk' for a in deep_atoms(x))


class Run:
    """one path"""
    def __init__(self, proj, decisions, cls=None):
        self.p = proj
        self.dec, self.i = decisions, 0
        self.facts, self.eq = {}, {}
        self.cnt = 0
        self.handles, self.loops = [], []
        self.car = {}
        self.special = set()
        self.convs = []
        self.depth = 0
        self.steps = 0
        self.stack = []
        self.undecided = []
        self.shapes = []          # elementwise operations on different sizes

    # ---------------------------------------------------------------- basics
    def fresh(self):
        self.cnt += 1
        return self.cnt

    def unk(self, why=''):
        return Q.atom(('unk', why, self.fresh()))

    def op(self, name, *idx):
        return Q.atom(('op', name, self.fresh()) + tuple(idx))

    def ask(self, key, options=2):
        if key is not None and key in self.facts:
            return self.facts[key]
        if self.i < len(self.dec):
            v = self.dec[self.i][0]
        else:
            v = 0
            self.dec.append([0, options])
        self.i += 1
        if key is not None:
            self.facts[key] = v
        return v

    def norm(self, x):
        """apply the equalities assumed on this path"""
        if not self.eq and not self.car:
            return x
        for _ in range(4):
            y = x.subst(lambda a: self.eq.get(a, self.car.get(a)))
            if y == x:
                break
            x = y
        return x

    def cmp(self, op, a, b):
        """truth of a op b for numbers"""
        try:
            d = self.norm(a - b)
        except TooBig:
            return None
        v = d.value()
        if v is not None:
            return {'==': v == 0, '!=': v != 0, '<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[op]
        if op == '!=':
            return not self.cmp('==', a, b)
        if op in ('>', '>='):
            return self.cmp({'>': '<', '>=': '<='}[op], b, a)
        datadep = any(x[0] in ('op', 'el', 'red') for x in deep_atoms(d))
        if op == '==':
            k = ('==', d if repr(d) <= repr(-d) else -d)
            r = self.ask(k) == 1           # default: different
            if r:
                if datadep:
                    self.special.add('equal data')
                for at in sorted(d.atoms(), key=repr):
                    lin = d.linear_in(at)
                    if lin is not None and lin[0].value() not in (None, 0) and at[0] in ('raw', 'sym', 'dim', 'op', 'el', 'red'):
                        self.eq[at] = lin[1] * -1 / lin[0]
                        break
            return r
        if op == '<' and d.positive() or op == '<=' and d.positive():
            return False
        if (-d).positive():
            return True
        return self.ask((op, d)) == 1

    def truth(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes, int, float, dict, tuple)):
            return bool(v)
        if isinstance(v, Q):
            return self.cmp('!=', v, q(0))
        if isinstance(v, Cond):
            return v.decide(self)
        if isinstance(v, ListV):
            n = self.length(v)
            return self.cmp('!=', n, q(0))
        if isinstance(v, (Handle, Obj, FuncV, Ext, ClassV, Arr, StructV, DType)):
            return True
        if isinstance(v, StrU):
            return self.ask(('str', v.key)) == 0
        if isinstance(v, FStr):
            return True
        return self.ask(None) == 0

    def length(self, v):
        if isinstance(v, (list, tuple, str, bytes, dict)):
            return q(len(v))
        if isinstance(v, ListV):
            n = q(0)
            for p in v.parts:
                if isinstance(p, Rep):
                    n = n + p.n * q(len(p.items)) if p.n is not None and not any(isinstance(x, Rep) for x in p.items) else self.unk('list length')
                elif isinstance(p, Hole):
                    return self.unk('list length in loop')
                else:
                    n = n + 1
            return n
        if isinstance(v, SymSeq):
            return v.n
        if isinstance(v, Arr):
            return v.shape[0] if v.shape else self.unk('shape')
        if isinstance(v, StrU):
            return v.length
        if isinstance(v, RawB):
            return v.size if v.size is not None else self.unk('size')
        if isinstance(v, BytesV):
            n = q(0)
            for it in v.items:
                if isinstance(it, Item) and it.count is not None:
                    n = n + it.count * int(it.kind[1:])
                else:
                    return self.unk('bytes length')
            return n
        return self.unk('len')

    def seq(self, v):
        """iterable -> ('const', [values]) or ('sym', n, fn)"""
        if isinstance(v, (list, tuple)):
            return ('const', list(v))
        if isinstance(v, dict):
            return ('const', list(v))
        if isinstance(v, str):
            return ('const', list(v)) if len(v) <= 64 else ('sym', q(len(v)), lambda i: Unk('char'))
        if isinstance(v, ListV):
            if not any(isinstance(p, (Rep, Hole)) for p in v.parts):
                return ('const', list(v.parts))
            if len(v.parts) == 1 and isinstance(v.parts[0], Rep) and len(v.parts[0].items) == 1:
                r = v.parts[0]
                return ('sym', r.n if r.n is not None else self.unk('n'), lambda i: self.bind(r.items[0], r.lv, i))
            return ('sym', self.length(v), lambda i: Unk('element'))
        if isinstance(v, SymSeq):
            n = self.norm(v.n).int()
            if n is not None and 0 <= n <= 64:
                return ('const', [v.fn(q(i)) for i in range(n)])
            return ('sym', v.n, v.fn)
        if isinstance(v, Arr) and v.shape:
            f, sh = v.fn, v.shape
            n = self.norm(sh[0]).int()

            def at(i):
                if len(sh) == 1:
                    return f((i,))
                return Arr(sh[1:], lambda idx, i=i: f((i,) + tuple(idx)), v.dtype)
            if n is not None and 0 <= n <= 16:
                return ('const', [at(q(i)) for i in range(n)])
            return ('sym', sh[0], at)
        if isinstance(v, StrU):
            return ('sym', v.length, lambda i: Unk('char'))
        if isinstance(v, RawB):
            return ('sym', self.length(v), lambda i: Unk('byte'))
        return ('sym', self.unk('iter'), lambda i: Unk('element'))

    def bind(self, v, lv, i):
        """replace a loop variable in a value"""
        if isinstance(v, Q):
            return v.subst(lambda a: i if a == lv else None)
        if isinstance(v, Arr):
            f = v.fn
            return Arr([self.bind(s, lv, i) for s in v.shape] if v.shape else v.shape, lambda idx: self.bind(f(idx), lv, i), v.dtype)
        if isinstance(v, SymSeq):
            f = v.fn
            return SymSeq(self.bind(v.n, lv, i), lambda k: self.bind(f(k), lv, i))
        if isinstance(v, tuple):
            return tuple(self.bind(x, lv, i) for x in v)
        return v

    # ---------------------------------------------------------------- formats
    def fstr(self, v):
        if isinstance(v, str):
            return FStr([v])
        if isinstance(v, FStr):
            return v
        if isinstance(v, Q):
            n = v.int()
            return FStr([str(n)]) if n is not None else FStr([v])
        if isinstance(v, bytes):
            return FStr([v.decode('latin-1')])
        return None

    def fields(self, fmt, node=None):
        """struct format -> (order, [(kind, count Q, is_string)]) or None"""
        f = self.fstr(fmt)
        if f is None:
            return None
        out, order, native = [], '<', True
        first = True

        def go(parts, mult, count=None):
            nonlocal order, native, first
            for p in parts:
                if isinstance(p, str):
                    for ch in p:
                        if first and ch in '<>=!@':
                            order = '>' if ch in '>!' else '<'
                            native = ch == '@'
                            first = False
                            continue
                        first = False
                        if ch.isdigit():
                            count = (count if count is not None else q(0)) * 10 + int(ch) if count is None or count.int() is not None else None
                            if count is None:
                                return False
                        elif ch.isspace():
                            continue
                        elif ch == 'x':
                            out.append(('u1', (count if count is not None else q(1)) * mult, 'pad'))
                            count = None
                        elif ch in NATIVE:
                            k, n = NATIVE[ch]
                            if native and ch in 'lL':
                                n = 8
                            out.append(('%s%d' % (k, n), (count if count is not None else q(1)) * mult, 'str' if ch in 'sp' else ''))
                            count = None
                        else:
                            return False
                elif isinstance(p, Q):
                    if count is not None:
                        return False
                    count = p
                    first = False
                elif isinstance(p, tuple) and p[0] == 'rep':
                    if count is not None:
                        return False
                    if first and isinstance(p[1].parts[0], str) and p[1].parts[0][:1] in ('<', '>', '=', '!', '@'):
                        return False
                    first = False
                    if not go(p[1].parts, mult * p[2]):
                        return False
                else:
                    return False
            return count is None
        if not go(f.parts, q(1)):
            return None
        if native:            # alignment
            res, pos = [], 0
            for k, c, s in out:
                size = int(k[1:])
                if pos is not None and pos % size:
                    res.append(('u1', q(size - pos % size), 'pad'))
                    pos += size - pos % size
                res.append((k, c, s))
                n = c.int()
                pos = pos + n * size if pos is not None and n is not None else (pos if pos is not None and size == 8 and pos % 8 == 0 else None)
            out = res
        return order, out

    def calcsize(self, fmt):
        r = self.fields(fmt)
        if r is None:
            return self.unk('calcsize')
        n = q(0)
        for k, c, s in r[1]:
            n = n + c * int(k[1:])
        return n

    def view(self, raw, off, flds, order, node):
        """interpret bytes of a place: -> list of Items"""
        base = raw.off + off
        k = base.int()
        key = (k if k is not None else base, tuple((a, b) for a, b, _ in flds), order)
        if key in raw.place.views:
            return raw.place.views[key]
        items = []
        for kind, cnt, what in flds:
            it = Item(kind, cnt, order, node, tok=self.fresh(), what=what)
            items.append(it)
        raw.place.views[key] = items
        return items

    def values_of(self, items, loops):
        """flat values of unpacked items: python tuple or SymSeq"""
        vals, sym = [], []
        for it in items:
            if it.what == 'pad':
                continue
            if it.what == 'str':
                vals.append(StrU('raw%d' % it.tok, it.count))
                continue

            def at(k, it=it):
                return Q.atom(('raw', it.tok, loops, q(k)))
            n = it.count.int()
            if n is not None and n <= 64:
                vals += [at(i) for i in range(n)]
            else:
                sym.append((it, at))
        if not sym:
            return tuple(vals)
        if len(sym) == 1 and not vals:
            return SymSeq(sym[0][0].count, sym[0][1])
        return Unk('mixed unpack')

    def pack(self, fmt, args, node):
        r = self.fields(fmt)
        if r is None:
            return None
        order, flds = r
        flat = []                 # ('v', value) | ('seq', n, fn)
        for a in args:
            if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == '*':
                if isinstance(a[1], Arr) and getattr(a[1], 'src', None) and len(flds) == 1 and len(args) == 1:
                    sh, f, o = a[1].src
                    n = q(1)
                    for x in sh:
                        n = n * x
                    if self.norm(n - flds[0][1]).zero():
                        return BytesV([Item(flds[0][0], flds[0][1], order, node, tuple(sh), f, o)])
                s = self.seq(a[1])
                if s[0] == 'const':
                    flat += [('v', x) for x in s[1]]
                else:
                    flat.append(('seq', s[1], s[2]))
            else:
                flat.append(('v', a))
        items = []
        for kind, cnt, what in flds:
            it = Item(kind, cnt, order, node, what=what)
            items.append(it)
            if what == 'pad':
                continue
            if what == 'str':
                if flat:
                    flat.pop(0)
                continue
            n = cnt.int()
            if flat and flat[0][0] == 'seq':
                _, m, fn = flat[0]
                if self.norm(m - cnt).zero() or len(flds) == 1:
                    flat.pop(0)
                    it.shape, it.fn = (cnt,), (lambda idx, fn=fn: fn(idx[0]))
                    if not self.norm(m - cnt).zero():
                        it.fn = None
                else:
                    flat = []
                continue
            if n is not None:
                vs = [x[1] for x in flat[:n] if x[0] == 'v']
                if len(vs) == n:
                    flat = flat[n:]
                    it.shape = (q(n),)

                    def fn(idx, vs=vs):
                        k = idx[0].int()
                        if k is None and len(vs) == 1:
                            k = 0
                        return vs[k] if k is not None and 0 <= k < len(vs) else self.unk('index')
                    it.fn = fn
                else:
                    flat = []
            else:
                flat = []
        return BytesV(items)

    # ---------------------------------------------------------------- arrays
    def dtype(self, v):
        """-> (kind, order) or None"""
        if isinstance(v, DType):
            return v.kind, v.order
        if isinstance(v, Ext):
            n = v.name.split('.')[-1]
            return (DT[n], '<') if n in DT and n not in 'bBhHiIfdlq' else None
        if isinstance(v, str):
            o = '<'
            if v[:1] in '<>=|':
                o = '>' if v[0] == '>' else '<'
                v = v[1:]
            if v in DT:
                return DT[v], o
            if len(v) == 2 and v[0] in 'iuf' and v[1].isdigit():
                return v, o
        return None

    def to_arr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, SymSeq) or isinstance(v, (list, tuple, ListV)):
            s = self.seq(v)
            if s[0] == 'sym':
                probe = s[2](Q.atom(('idx', 'probe%d' % self.fresh())))
                if isinstance(probe, Q):
                    return Arr([s[1]], lambda idx: s[2](idx[0]))
                if isinstance(probe, Arr) and probe.shape:
                    return Arr([s[1]] + list(probe.shape), lambda idx: s[2](idx[0]).fn(tuple(idx[1:])))
                return None
            if s[1] and all(isinstance(x, Q) for x in s[1]):
                return Arr([q(len(s[1]))], lambda idx, e=s[1]: self.select(e, idx[0]))
            subs = [self.to_arr(x) for x in s[1]]
            if subs and all(x is not None and x.shape and len(x.shape) == len(subs[0].shape) for x in subs):
                return Arr([q(len(subs))] + list(subs[0].shape), lambda idx: self.select([x.fn(tuple(idx[1:])) for x in subs], idx[0]))
        return None

    def select(self, elems, i):
        k = self.norm(i).int()
        if k is not None:
            return elems[k] if -len(elems) <= k < len(elems) else self.unk('index out of range')
        if all(isinstance(e, Q) and e == elems[0] for e in elems):
            return elems[0]
        return Q.atom(('sel', tuple(e if isinstance(e, Q) else self.unk('elem') for e in elems), i))

    def numeric(self, v):
        if isinstance(v, bool):
            return q(int(v))
        if isinstance(v, (int, float)):
            return q(Fraction(v)) if v == v and abs(v) != float('inf') else self.unk('nan')
        return v

    def arith(self, name, a, b):
        a, b = self.numeric(a), self.numeric(b)
        if isinstance(a, (SymSeq, ListV, list)) and isinstance(b, Arr):
            a = self.to_arr(a)
        if isinstance(b, (SymSeq, ListV, list)) and isinstance(a, Arr):
            b = self.to_arr(b)

        def f(x, y):
            if not isinstance(x, Q) or not isinstance(y, Q):
                return self.unk('arith')
            try:
                if name == '+':
                    return x + y
                if name == '-':
                    return x - y
                if name == '*':
                    return x * y
                if name in ('/', '//'):
                    if name == '//':
                        i, j = x.int(), y.int()
                        if i is not None and j:
                            return q(i // j)
                    return x / y
                if name == '**':
                    k = y.int()
                    if k is not None and 0 <= k <= 6:
                        r = q(1)
                        for _ in range(k):
                            r = r * x
                        return r
                if name == '%':
                    i, j = x.int(), y.int()
                    if i is not None and j:
                        return q(i % j)
                if name in ('<<',) and x.int() is not None and y.int() is not None:
                    return q(x.int() << y.int())
                return Q.atom(('op', name, x, y))
            except TooBig:
                return self.unk('too big')
        if isinstance(a, Q) and isinstance(b, Q):
            return f(a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if not all(isinstance(x, (Q, Arr)) for x in (a, b)) or any(isinstance(x, Arr) and (x.shape is None or x.fn is None) for x in (a, b)):
                return Unk('array arith')
            return self.broadcast([a, b], lambda xs: f(*xs))
        return Unk('arith')

    def broadcast(self, vs, f):
        nd = max(len(v.shape) for v in vs if isinstance(v, Arr))
        shape = []
        for i in range(nd):
            dims = [v.shape[i - nd + len(v.shape)] for v in vs if isinstance(v, Arr) and i - nd + len(v.shape) >= 0]
            big = [d for d in dims if d.int() != 1]
            shape.append(big[0] if big else q(1))
            for x in big[1:]:
                dd = self.norm(x - big[0])
                if not dd.zero() and not has_unk(dd):
                    if all(a[0] in ('raw', 'dim') for a in deep_atoms(dd)):
                        self.shapes.append((big[0], x, self.stack[-1] if self.stack else None))
                    return Unk('shapes do not match')
        parts = [(v.fn, v.shape) if isinstance(v, Arr) else v for v in vs]

        def fn(idx):
            xs = []
            for p in parts:
                if isinstance(p, tuple):
                    g, sh = p
                    k = len(idx) - len(sh)
                    xs.append(g(tuple(q(0) if sh[j].int() == 1 else idx[k + j] for j in range(len(sh)))))
                else:
                    xs.append(p)
            return f(xs)
        return Arr(shape, fn, next((v.dtype for v in vs if isinstance(v, Arr)), None))

    def index_spec(self, arr, ix):
        """list of per-output-axis specs; ('i', Q) | ('s', start, len, flip) | ('new',) ; None if not understood"""
        if not isinstance(ix, tuple):
            ix = (ix,)
        n = sum(1 for x in ix if x is not None and x is not Ellipsis)
        out, ax = [], 0
        if n > len(arr.shape):
            return None
        full = list(ix)
        if Ellipsis in full:
            k = full.index(Ellipsis)
            full[k:k + 1] = [slice(None)] * (len(arr.shape) - n)
        for x in full:
            if x is None:
                out.append(('new',))
                continue
            d = arr.shape[ax]
            ax += 1
            x = self.numeric(x)
            if isinstance(x, Q):
                v = x.value()
                out.append(('i', d + x if v is not None and v < 0 else x))
            elif isinstance(x, slice):
                a, b, s = x.start, x.stop, x.step
                a, b, s = [self.numeric(y) for y in (a, b, s)]
                if any(y is not None and not isinstance(y, Q) for y in (a, b, s)):
                    return None
                sv = s.int() if s is not None else 1
                if sv == -1:
                    if (a is None or a.int() == -1) and b is None:
                        out.append(('s', q(0), d, True))
                        continue
                    return None
                if sv != 1:
                    return None
                if a is None:
                    a = q(0)
                elif a.value() is not None and a.value() < 0:
                    a = d + a
                if b is None:
                    e = d
                elif b.value() is not None and b.value() < 0:
                    e = d + b
                else:
                    e = b
                out.append(('s', a, e - a, False))
            else:
                return None
        while ax < len(arr.shape):
            out.append(('s', q(0), arr.shape[ax], False))
            ax += 1
        return out

    def getitem(self, arr, ix):
        if arr.shape is None or arr.fn is None:
            return Unk('array')
        sp = self.index_spec(arr, ix)
        if sp is None:
            return Unk('index')
        f = arr.fn
        shape = []
        for s in sp:
            if s[0] == 's':
                shape.append(s[2])
            elif s[0] == 'new':
                shape.append(q(1))

        def fn(idx):
            src, k = [], 0
            for s in sp:
                if s[0] == 'i':
                    src.append(s[1])
                elif s[0] == 'new':
                    k += 1
                else:
                    src.append(s[2] - 1 - idx[k] if s[3] else idx[k] + s[1])
                    k += 1
            return f(tuple(src))
        if not shape:
            return fn(())
        return Arr(shape, fn, arr.dtype)

    def setitem(self, arr, ix, val, node):
        if arr.shape is None or arr.fn is None:
            arr.fn = None
            return
        val = self.numeric(val)
        if isinstance(val, (list, tuple, SymSeq, ListV)):
            val = self.to_arr(val)
        old = arr.fn
        sp = self.index_spec(arr, ix)
        if sp is None or not isinstance(val, (Q, Arr)) or isinstance(val, Arr) and (val.shape is None or val.fn is None):
            if isinstance(ix, Mask) and isinstance(val, Q) and old is not None:
                tag = self.fresh()
                arr.fn = lambda idx: self.masked(tag, old(idx), val)
            else:
                tag = self.fresh()
                arr.fn = lambda idx: Q.atom(('unk', 'assigned', tag))
            return
        if arr.dtype and (arr.dtype == 'f2' or arr.dtype[0] in 'iu' and int(arr.dtype[1:]) < 8):
            self.narrow(val, arr.dtype, node)
        vf = val.fn if isinstance(val, Arr) else None
        vsh = val.shape if isinstance(val, Arr) else None
        axes = [s for s in sp if s[0] != 'new']
        active = [l.lv for l in self.loops]

        def fn(idx):
            binds, vidx = {}, []
            for s, i in zip(axes, idx):
                if s[0] == 'i':
                    e = s[1]
                    d = self.norm(i - e)
                    if d.zero():
                        continue
                    lv = [a for a in active if a in e.atoms()]
                    if lv:
                        lin = e.linear_in(lv[-1])
                        if lin is not None and lin[0].value() in (1, -1) and not (set(lv) & lin[1].atoms()):
                            b = (i - lin[1]) / lin[0]
                            low = self.norm(b)
                            if (-low).positive():
                                return old(idx)
                            binds[lv[-1]] = b
                            continue
                        return self.unk('index')
                    v = d.value()
                    if v is not None or d.positive() or (-d).positive():
                        return old(idx)
                    return self.unk('index')
                else:
                    st = s[1]
                    d = self.norm(i - st)
                    if (-d).positive():
                        return old(idx)
                    n = self.norm(s[2]).int()
                    if n is not None and d.value() is not None and d.value() >= n:
                        return old(idx)
                    if not s[3] and st.zero() is False and d.value() is None and not d.positive() and not all(c > 0 for c in d.n.values()) \
                            and not any(a[0] in ('car', 'pos') for a in deep_atoms(st)):
                        return self.unk('slice')
                    vidx.append(s[2] - 1 - d if s[3] else i - st)
            if vf is None:
                r = val
            else:
                k = len(vidx) - len(vsh)
                if k < 0:
                    r = vf(tuple([q(0)] * -k + vidx))
                else:
                    r = vf(tuple(q(0) if vsh[j].int() == 1 else vidx[k + j] for j in range(len(vsh))))
            if binds and isinstance(r, Q):
                r = r.subst(lambda a: binds.get(a))
            return r
        arr.fn = fn

    def masked(self, tag, old, val):
        return Q.atom(('op', 'masked', tag, old, val)) if isinstance(old, Q) else self.unk('masked')

    def narrow(self, val, kind, node):
        """a value goes into a small integer type: note what it is"""
        if isinstance(val, Arr):
            idx = tuple(Q.atom(('idx', 'n%d' % i)) for i in range(len(val.shape)))
            x = val.fn(idx)
        else:
            x = val
        if isinstance(x, Q):
            self.convs.append((kind, x, node))

    def lin(self, shape, idx, order):
        r, mul = q(0), q(1)
        it = list(zip(shape, idx))
        if order != 'F':
            it = it[::-1]
        for d, i in it:
            r = r + i * mul
            mul = mul * d
        return r

    def reshape(self, arr, shape, order):
        if arr is None or arr.shape is None or arr.fn is None:
            return Unk('reshape')
        shape = [self.numeric(x) for x in shape]
        if any(not isinstance(x, Q) for x in shape):
            return Unk('reshape')
        total = q(1)
        for d in arr.shape:
            total = total * d
        neg = [i for i, x in enumerate(shape) if x.int() == -1]
        if neg:
            rest = q(1)
            for i, x in enumerate(shape):
                if i not in neg:
                    rest = rest * x
            shape[neg[0]] = total / rest
        f, sh = arr.fn, arr.shape
        if len(sh) == 1:
            return Arr(shape, lambda idx: f((self.lin(shape, idx, order),)), arr.dtype)
        if len(shape) == 1:
            a = Arr(shape, None, arr.dtype)
            a.src = (sh, f, order)
            g = self.unlin(sh, f, order)
            a.fn = g
            return a
        if len(shape) > len(sh) and order != 'F' and len(shape) - len(sh) == sum(x.int() == 1 for x in shape):
            keep = [i for i, x in enumerate(shape) if x.int() != 1]
            return Arr(shape, lambda idx: f(tuple(idx[i] for i in keep)), arr.dtype)
        return Unk('reshape')

    def unlin(self, sh, f, order):
        tag = self.fresh()

        def fn(idx):
            k = idx[0]
            if len(sh) == 1:
                return f((k,))
            if k.zero():
                return f(tuple(q(0) for _ in sh))
            return Q.atom(('unk', 'flat', tag))
        return fn

    def flatten(self, arr, order='C'):
        if not isinstance(arr, Arr) or arr.shape is None or arr.fn is None:
            return Unk('flatten')
        n = q(1)
        for d in arr.shape:
            n = n * d
        a = Arr([n], self.unlin(arr.shape, arr.fn, order), arr.dtype)
        a.src = getattr(arr, 'src', None) or (arr.shape, arr.fn, order)
        return a

    def bytes_of(self, arr, order, node):
        if not isinstance(arr, Arr) or arr.shape is None or arr.fn is None or not arr.dtype:
            return BytesV([Hole()])
        src = getattr(arr, 'src', None)
        sh, f, o = src if src else (arr.shape, arr.fn, order)
        n = q(1)
        for d in sh:
            n = n * d
        return BytesV([Item(arr.dtype, n, getattr(arr, 'bo', '<'), node, tuple(sh), f, o)])


class Mask:
    """elementwise condition on an array"""


class Cond:
    """a comparison whose truth is decided when it is used"""
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        self.r = None

    def decide(self, run):
        if self.r is None:
            a, b = run.numeric(self.a), run.numeric(self.b)
            if isinstance(a, Q) and isinstance(b, Q):
                r = run.cmp(self.op, a, b)
                self.r = r if r is not None else run.ask(None) == 0
            else:
                self.r = run.ask(None) == 0
        return self.r


def paths(make, limit=160, budget=400000):
    """run make(Run) for every decision sequence; yields (run, result or exception)"""
    dec, n = [], 0
    while True:
        n += 1
        run, res = make(dec)
        yield run, res
        dec = dec[:run.i]
        while dec and dec[-1][0] + 1 >= dec[-1][1]:
            dec.pop()
        if not dec or n >= limit:
            if dec and n >= limit:
                yield None, None
            return
        dec = [list(x) for x in dec]
        dec[-1][0] += 1
