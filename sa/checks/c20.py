import os
import traceback
from ..check import Finding, Result
from ..layexec import Exec, Fields
from ..layout import Abort, Arr, Brk, Cont, FuncV, Obj, Raised, Ret, StrU, SymSeq, has_unk, paths
from ..qexpr import Q, q, deep_atoms, rebuild, TooBig
from ..model import AnalysisError

RULE = ('abstract interpretation over record layouts: every path of the readers and writers of .outb, .bts and Mann box files is followed with symbolic sizes; the typed fields taken from or '
        'handed to the file (kind, width, byte order, number) and the relation between the elements of the stored arrays and those of the object are compared, as exact expressions, '
        'with the published layout; a value that becomes a 16-bit integer must be limited to its range')

DEBUG = os.environ.get('LAY_DEBUG')


def R(i, k):
    return Q.atom(('R', i, q(k)))


def D(n):
    return Q.atom(('dim', n))


def I(n):
    return Q.atom(('idx', n))


def capped(c, e):
    """is the number the expected one cut at a constant (so that longer fields are only taken in part)?"""
    for a in deep_atoms(c):
        if a[0] == 'op' and a[1] == 'min' and len(a) == 4 and (c - Q.atom(a)).zero():
            xs = [x for x in a[2:] if isinstance(x, Q)]
            if len(xs) == 2 and any((x - e).zero() for x in xs) and any(x.value() is not None for x in xs):
                return True
    return False


class Fmt:
    """common parts of one format"""
    def __init__(self, proj, name):
        self.proj, self.name = proj, name
        self.findings, self.samples = [], []
        self.n = dict(paths=0, fields=0, formulas=0, undecided=0, raising=0, conversions=0)

    def und(self, why):
        self.n['undecided'] += 1
        if len(self.samples) < 12:
            self.samples.append('undecided: %s: %s' % (self.name, why))

    def add(self, rule, fn, construct, line, msg):
        self.findings.append(Finding(rule, fn.mod.rel, fn.qual, construct, line, '%s: %s' % (self.name, msg)))

    def runs(self, fn, make_args):
        """every path of fn; make_args(run) -> (selfv, args, kw)"""
        def make(dec):
            run = Exec(self.proj, dec)
            try:
                selfv, args, kw = make_args(run)
                res = run.call_func(FuncV(fn, None, selfv, fn.cls), args, kw, fn.node)
                return run, ('ok', res, selfv)
            except Raised:
                return run, ('raised', None, None)
            except (Abort, Brk, Cont, TooBig, RecursionError) as e:
                return run, ('abort', str(e) or type(e).__name__, None)
            except Exception as e:
                if DEBUG:
                    traceback.print_exc()
                return run, ('abort', 'not understood: %s' % e, None)
        for run, res in paths(make):
            if run is None:
                self.und('not all paths of %s' % fn.qual)
                return
            self.n['paths'] += 1
            if run.shapes and not run.special:
                a, b, _ = run.shapes[0]
                hs = [h for h in run.handles if isinstance(h.mode, str) and 'r' in h.mode]
                F = Fields(run, hs[0]) if len(hs) == 1 else None
                a, b = [F.resolve(x) if F is not None and F.problem is None else x for x in (a, b)]
                self.add('shapes', fn, '%r / %r' % (a, b), fn.lineno, 'arrays with %r and %r elements along the same dimension are combined element by element' % (a, b))
            for kind, x, node in run.convs:
                if kind == 'f2' and any(a[0] in ('raw', 'el') for a in deep_atoms(x)):
                    self.add('half-precision', fn, 'f2', getattr(node, 'lineno', fn.lineno), 'values of the file are held in 16-bit floating-point numbers, which do not represent what the format stores')
                    break
            if res[0] == 'raised':
                self.n['raising'] += 1
                continue
            if res[0] == 'abort':
                self.und('%s: %s' % (fn.qual, res[1]))
                continue
            yield run, res[1], res[2]

    def fields(self, run, fn, modes):
        hs = [h for h in run.handles if isinstance(h.mode, str) and any(m in h.mode for m in modes)]
        if len(hs) != 1 or 'b' not in hs[0].mode:
            self.und('%s: %d binary files on a path' % (fn.qual, len(hs)))
            return None
        F = Fields(run, hs[0])
        if F.problem is not None:
            self.und('%s: %s' % (fn.qual, F.problem))
            return None
        return F

    def compare(self, F, spec, fn, what, value=lambda x: x):
        """regions against the layout; returns True when they agree"""
        got = [(r.kind + ('' if r.order == '<' or r.kind[1:] == '1' or r.kind == 'mixed' else ' big-endian'), value(r.count), r.node) for r in F.regions]
        exp = []
        for k, c in spec:
            c = value(q(c))
            if c.zero():
                continue
            if exp and exp[-1][0] == k:
                exp[-1] = (k, exp[-1][1] + c)
            else:
                exp.append((k, c))
        for i in range(max(len(got), len(exp))):
            self.n['fields'] += 1
            if i >= len(got):
                self.add('missing-field', fn, '%d:%s' % (i, exp[i][0]), fn.lineno, '%s stops before the field %s x %r' % (what, exp[i][0], exp[i][1]))
                return False
            k, c, node = got[i]
            line = getattr(node, 'lineno', fn.lineno)
            if any(a[0] == 'unk' for a in deep_atoms(c)):
                self.und('%s: size of field %d' % (fn.qual, i))
                return False
            if i >= len(exp):
                self.add('extra-field', fn, '%d:%s' % (i, k), line, '%s has a field %s x %r after the last one of the layout' % (what, k, c))
                return False
            if any(a[0] == 'rest' for a in deep_atoms(c)):
                if i == len(exp) - 1 and k == exp[i][0]:
                    continue
                self.und('%s: reads to the end of the file' % fn.qual)
                return False
            ek = exp[i][0]
            if k == 'mixed':
                sub = getattr(F.regions[i], 'sub', [])
                odd = [r for r in sub if r.kind != ek and r.kind != 'mixed' and not value(r.count).zero() and not any(a[0] in ('unk', 'op') for a in deep_atoms(value(r.count)))]
                if odd and all(r.kind != 'mixed' for r in sub):
                    self.add('field-type', fn, '%d:%s' % (i, odd[0].kind), getattr(odd[0].node, 'lineno', line), '%s: a loop takes %s where the layout has %s' %
                             (what, ' and '.join('%s x %r' % (r.kind, value(r.count)) for r in sub), ek))
                    return False
                self.und('%s: fields of several kinds in a loop' % fn.qual)
                return False
            if k != ek:
                self.add('field-type', fn, '%d:%s' % (i, k), line, '%s: field %d is %s x %r, the layout has %s x %r' % (what, i, k, c, ek, exp[i][1]))
                return False
            if not (c - exp[i][1]).zero():
                if any(a[0] in ('op', 'red') for a in deep_atoms(c - exp[i][1])) and not capped(c, exp[i][1]):
                    self.und('%s: number of field %d' % (fn.qual, i))
                    return False
                self.add('field-count', fn, '%d:%s' % (i, k), line, '%s: field %d is %s x %r, the layout has %s x %r' % (what, i, k, c, ek, exp[i][1]))
                return False
        return True

    def formula(self, fn, label, got, exp, F=None, strict=False):
        if F is not None:
            got = F.resolve(got) if isinstance(got, Q) else got
            exp = F.resolve(exp)
        if not isinstance(got, Q):
            self.und('%s: %s' % (fn.qual, label))
            return None
        try:
            d = got - exp
        except TooBig:
            self.und('%s: %s too big' % (fn.qual, label))
            return None
        self.n['formulas'] += 1
        if d.zero():
            if len(self.samples) < 12:
                self.samples.append('%s: %s: %s = %r' % (self.name, fn.qual, label, exp))
            return True
        if any(a[0] in ('unk', 'op', 'red', 'sel', 'car', 'raw', 'sym') for a in deep_atoms(d)):
            self.n['formulas'] -= 1
            self.und('%s: %s is %s' % (fn.qual, label, repr(got)[:100]))
            return None
        self.add('formula', fn, label, fn.lineno, '%s is %s, the layout gives %s' % (label, repr(got)[:200], repr(exp)[:200]))
        return False


def key(o, k, *idx):
    """element of what is stored under a key (or in an array)"""
    v = o.keys.get(k) if isinstance(o, Obj) else o
    if idx:
        if isinstance(v, Arr) and v.fn is not None and v.shape is not None and len(v.shape) == len(idx):
            return v.fn(tuple(q(i) for i in idx))
        if isinstance(v, SymSeq) and len(idx) == 1:
            return v.fn(q(idx[0]))
        return None
    return v if isinstance(v, Q) else None


def strip(x):
    """value before limiting and rounding -> (inner, lowest, highest)"""
    lo = hi = None
    while True:
        a = x.single()
        if not a or a[0] != 'op' or a[1] not in ('clip', 'rint', 'min', 'max', 'floor', 'ceil'):
            return x, lo, hi
        if a[1] == 'clip':
            l, h = a[3].value(), a[4].value()
            lo, hi = (l if lo is None else lo), (h if hi is None else hi)
            x = a[2]
        elif a[1] in ('rint', 'floor', 'ceil'):
            x = a[2]
        else:
            cs = [y for y in a[2:] if y.value() is not None]
            ot = [y for y in a[2:] if y.value() is None]
            if len(cs) != 1 or len(ot) != 1:
                return x, lo, hi
            if a[1] == 'min':
                hi = cs[0].value() if hi is None else hi
            else:
                lo = cs[0].value() if lo is None else lo
            x = ot[0]


def member_values(run, m, blocks):
    """relate the elements of a written array to positions of the layout.
    blocks: [(label, base Q, [(index name, extent Q, stride Q)])] -> ('ok', label, {index: Q}, value fn) | ('und', why) | ('bad', why)"""
    it, off, recs = m
    if it.fn is None or it.shape is None:
        return ('und', 'written value')
    unknowns = []
    base = run.norm(off)
    for rec in recs:
        lin = base.linear_in(rec.lv)
        if lin is None or rec.delta is not None:
            return ('und', 'position')
        unknowns.append((rec.q, rec.n, lin[0]))
        base = lin[1]
    idx = []
    mul = q(1)
    sh = list(enumerate(it.shape))
    strides = {}
    for i, d in (sh if it.forder == 'F' else sh[::-1]):
        strides[i] = mul
        mul = mul * d
    for i, d in sh:
        if run.norm(d).int() == 1:
            idx.append(q(0))
            continue
        a = Q.atom(('idx', 'e%d' % i))
        idx.append(a)
        unknowns.append((a, d, run.norm(strides[i])))
    # probe: is the value understood?
    for label, b, spec in blocks:
        if not run.norm(base - b).zero():
            continue
        m = {}
        free = list(spec)
        for u, ext, stride in unknowns:
            hit = [s for s in free if run.norm(s[2] - stride).zero() and run.norm(q(s[1]) - ext).zero()]
            if not hit:
                if any(a[0] in ('unk', 'op') for a in deep_atoms(stride) | deep_atoms(ext)):
                    return ('und', 'shape')
                # a flat index over several spec indices cannot be separated here
                if any(run.norm(s[2] - stride).zero() for s in free) and len(unknowns) < len(spec):
                    return ('und', 'flat index')
                return ('bad', 'consecutive elements are %r apart along one dimension of the written array, the layout has steps %s' %
                        (stride, ', '.join(repr(s[2]) for s in spec)), label)
            free.remove(hit[0])
            m[u.single()] = hit[0][0]
        for s in free:
            if run.norm(q(s[1])).int() != 1:
                return ('und', 'dimension')
        return ('ok', label, m, idx)
    return ('und', 'position in the record')


# ------------------------------------------------------------------------------------------------------------- TurbSim
def bts(proj):
    f = Fmt(proj, '.bts')
    C = proj.public('TurbSimFile', 'class', 'weio.turbsim_file')
    rd, wr = proj.method(C, 'read') or proj.method(C, '_read'), proj.method(C, 'write') or proj.method(C, '_write')
    f.entries = [x for x in (rd, wr) if x]
    nz, ny, nTwr, nt = [R(1, k) for k in range(4)]
    stride = nz * ny * 3 + nTwr * 3
    if rd:
        for run, res, o in f.runs(rd, lambda run: (Obj(C, {}, {}, True), [StrU('filename')] if len(rd.params) > 1 else [], {})):
            F = f.fields(run, rd, 'r')
            if F is None:
                continue
            spec = [('i2', 1), ('i4', 4), ('f4', 12), ('i4', 1), ('u1', R(3, 0)), ('i2', nt * stride)]
            if not f.compare(F, spec, rd, 'the reader', F.resolve) or run.special:
                continue
            i_t, j, k = I('it'), I('j'), I('k')
            for i in range(3):
                f.formula(rd, "u[%d]" % i, key(o, 'u', i, i_t, j, k), (R(5, i_t * stride + 3 * j + 3 * ny * k + i) - R(2, 7 + 2 * i)) / R(2, 6 + 2 * i), F)
                f.formula(rd, "uTwr[%d]" % i, key(o, 'uTwr', i, i_t, k), (R(5, i_t * stride + 3 * ny * nz + 3 * k + i) - R(2, 7 + 2 * i)) / R(2, 6 + 2 * i), F)
            for nm, dims in (('u', [q(3), nt, ny, nz]), ('uTwr', [q(3), nt, nTwr])):
                a = o.keys.get(nm)
                if isinstance(a, Arr) and a.shape is not None:
                    if len(a.shape) != len(dims):
                        f.add('formula', rd, nm + ' dimensions', rd.lineno, '%s has %d dimensions' % (nm, len(a.shape)))
                        continue
                    for x, (g, e) in enumerate(zip(a.shape, dims)):
                        f.formula(rd, 'dimension %d of %s' % (x, nm), g, e, F)
            y = [key(o, 'y', x) for x in (j + 1, j)]
            if all(isinstance(x, Q) for x in y):
                f.formula(rd, 'spacing of y', y[0] - y[1], R(2, 1), F)
            f.formula(rd, 'z', key(o, 'z', k), R(2, 5) + k * R(2, 0), F)
            f.formula(rd, 't', key(o, 't', i_t), i_t * R(2, 2), F)
            f.formula(rd, 'zTwr', key(o, 'zTwr', k), R(2, 5) - k * R(2, 0), F)
            for nm, e in (('dt', R(2, 2)), ('ID', R(0, 0)), ('zRef', R(2, 4)), ('uRef', R(2, 3))):
                f.formula(rd, nm, key(o, nm), e, F)
    if wr:
        for tower in (True, False):
            nz, ny, nTwr, nt = D('nz'), D('ny'), D('nTwr') if tower else q(0), D('nt')

            def el(nm):
                return lambda idx: Q.atom(('el', nm, tuple(idx)))

            def make(run):
                S = lambda n: Q.atom(('sym', n))
                keys = {'u': Arr([q(3), nt, ny, nz], el('u'), 'f8'), 'y': Arr([ny], lambda i: S('y0') + i[0] * S('dy'), 'f8'), 'z': Arr([nz], lambda i: S('z0') + i[0] * S('dz'), 'f8'),
                        't': Arr([nt], lambda i: i[0] * S('dt'), 'f8'), 'ID': S('ID'), 'dt': S('dt'), 'zRef': S('zRef'), 'uRef': S('uRef'), 'info': StrU('info'),
                        'zTwr': Arr([nTwr], lambda i: S('z0') - i[0] * S('dz'), 'f8')}
                if tower:
                    keys['uTwr'] = Arr([q(3), nt, nTwr], el('uTwr'), 'f8')
                return Obj(C, {'filename': StrU('filename')}, keys, True), [], {}
            for run, res, o in f.runs(wr, make):
                F = f.fields(run, wr, 'w')
                if F is None:
                    continue
                if 'handler' not in run.special:
                    conversions(f, run, wr)
                hd = Header(f, run, F, wr)
                stride = nz * ny * 3 + nTwr * 3
                n = hd.value(3, 0)
                spec = [('i2', 1), ('i4', 4), ('f4', 12), ('i4', 1), ('u1', n if n is not None else run.unk()), ('i2', nt * stride)]
                if not f.compare(F, spec, wr, 'the writer', run.norm):
                    continue
                S = lambda n: Q.atom(('sym', n))
                for k, (nm, e) in enumerate((('nz', nz), ('ny', ny), ('nTwr', nTwr), ('nt', nt))):
                    hd.expect(1, k, nm, e)
                hd.expect(0, 0, 'ID', S('ID'))
                for k, (nm, e) in enumerate((('dz', S('dz')), ('dy', S('dy')), ('dt', S('dt')), ('uHub', S('uRef')), ('zHub', S('zRef')), ('zBottom', S('z0')))):
                    if k in (3, 4) and 'handler' in run.special:
                        continue
                    hd.expect(2, k, nm, e)
                if run.special:
                    continue
                blocks = [('u', q(0), [('i', q(3), q(1)), ('j', ny, q(3)), ('k', nz, ny * 3), ('it', nt, stride)]),
                          ('uTwr', 3 * ny * nz, [('i', q(3), q(1)), ('k', nTwr, q(3)), ('it', nt, stride)])]
                for m in F.regions[5].members if len(F.regions) > 5 else []:
                    data(f, run, F, wr, m, blocks, lambda lab, ix: (lab, (ix['i'], ix['it'], ix['j'], ix['k']) if lab == 'u' else (ix['i'], ix['it'], ix['k'])),
                         lambda ix: (hd.value(2, 6 + 2 * ix['i'].int()), hd.value(2, 7 + 2 * ix['i'].int())), {'i': 3})
    return f


class Header:
    """values written to the fields of a header"""
    def __init__(self, f, run, F, fn):
        self.f, self.run, self.F, self.fn = f, run, F, fn

    def value(self, reg, pos):
        if reg >= len(self.F.regions):
            return None
        pos = q(pos)
        for it, off, recs in self.F.regions[reg].members:
            d = self.run.norm(pos - off)
            if recs or it.fn is None or it.shape is None or len(it.shape) != 1 or it.count is None:
                continue
            if any(c < 0 for c in d.n.values()):
                continue
            over = self.run.norm(d - it.count)
            if over.zero() or over.n and all(c > 0 for c in over.n.values()):
                continue
            v = it.fn((d,))
            v = self.run.numeric(v)
            return self.run.norm(v) if isinstance(v, Q) else None
        return None

    def expect(self, reg, pos, name, e):
        v = self.value(reg, pos)
        if v is None:
            self.f.und('%s: value of %s' % (self.fn.qual, name))
            return
        d = self.run.norm(v - e)
        self.f.n['formulas'] += 1
        if d.zero():
            return
        if any(a[0] in ('unk', 'op', 'red', 'sel', 'car', 'raw') for a in deep_atoms(d)):
            self.f.n['formulas'] -= 1
            self.f.und('%s: value of %s' % (self.fn.qual, name))
            return
        self.f.add('header-value', self.fn, name, self.fn.lineno, 'the writer stores %s in the field %s (expected %s)' % (repr(v)[:150], name, repr(e)[:150]))


def conversions(f, run, fn):
    for kind, x, node in run.convs:
        if kind[0] not in 'iu':
            continue
        ats = deep_atoms(x)
        if not any(a[0] == 'el' for a in ats) or any(a[0] == 'unk' for a in ats):
            continue
        f.n['conversions'] += 1
        bits = 8 * int(kind[1:])
        low, high = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if kind[0] == 'i' else (0, 2 ** bits - 1)
        inner, lo, hi = strip(x)
        if x.single() is None and not x.value() is not None:
            # arithmetic on a limited value
            if any(a[0] == 'op' and a[1] in ('clip', 'min', 'max') and any(b[0] == 'el' for b in deep_atoms(a)) for a in x.atoms()):
                f.und('%s: range of a converted value' % fn.qual)
                continue
        if lo is None or hi is None:
            f.add('wraps', fn, kind, getattr(node, 'lineno', fn.lineno), 'data is converted to a %d-bit integer without being limited to its range: rounding of scale and offset makes the largest or smallest value wrap around' % bits)
        elif lo < low or hi > high:
            f.add('wraps', fn, '%s [%s, %s]' % (kind, lo, hi), getattr(node, 'lineno', fn.lineno), 'data is limited to [%s, %s], which is not the range of a %d-bit integer' % (lo, hi, bits))


def covers(f, run, fn, lab, el, s, o, lo, hi, line):
    """the limits the scale is computed from are those of the stored data, and adding a constant to the data does not change what is stored"""
    e = el.single()
    reds = [a for a in deep_atoms(s) | deep_atoms(o) if a[0] == 'red' and a[1] in ('min', 'max')]
    for a in reds:
        for b in deep_atoms(a[2]):
            if b[0] == 'el' and b[1] == e[1] and len(b[2]) == len(e[2]):
                for x, y in zip(b[2], e[2]):
                    z = x.single()
                    if z and z[0] == 'idx' and z[1].startswith('red'):
                        continue
                    d = run.norm(x - y)
                    if not d.zero() and not any(c[0] in ('unk', 'op', 'red', 'sel', 'car') for c in deep_atoms(d)):
                        f.add('scale-of-other-data', fn, lab, line, 'scale and offset of %r are computed from the range of %r' % (el, Q.atom(b)))
                        return
    if not reds or lo is None or hi is None:
        return
    sh = Q.atom(('shift',))

    def shift(a):
        if a[0] == 'red' and a[1] in ('min', 'max', 'mean', 'median'):
            x = a[2]
            if len(x.atoms()) == 1 and x.single() and x.single()[0] == 'el':
                return Q.atom(a) + sh
        if a[0] == 'op' and a[1] in ('min', 'max', 'masked'):
            args = [x for x in a[2:] if isinstance(x, Q)]
            if a[1] == 'masked':
                args = args[:1]
            base = rebuild(a, lambda y: q(0) if y == ('shift',) else None)
            ds = [x - x.subst(lambda y: q(0) if y == ('shift',) else None) for x in args]
            if all(d.zero() for d in ds):
                return None
            if all((d - sh).zero() for d in ds) and a[1] != 'masked':
                return Q.atom(base) + sh
        return None
    try:
        s2, o2 = s.subst(shift), o.subst(shift)
        if any(('shift',) in deep_atoms(x) and x.single() is None and any(('shift',) in deep_atoms(a) and a != ('shift',) for a in x.atoms()) for x in (s2, o2)):
            return
        d1, d2 = s2 - s, o2 + sh * s - o
        for x in (d1, d2):
            if not x.zero() and not any(a[0] in ('unk', 'sel', 'car', 'raw') for a in deep_atoms(x)):
                f.add('scale-not-of-range', fn, lab, line, 'adding a constant to the data %r changes the integers stored for it (scale %s, offset %s): the data leaves the range of the integers' % (el, repr(s)[:100], repr(o)[:150]))
                return
    except TooBig:
        return


def data(f, run, F, fn, m, blocks, elem, scale, enum):
    r = member_values(run, m, blocks)
    line = getattr(m[0].node, 'lineno', fn.lineno)
    if r[0] == 'und':
        f.und('%s: written data: %s' % (fn.qual, r[1]))
        return
    if r[0] == 'bad':
        f.add('element-order', fn, r[2], line, 'the elements of %s are written in another order than the layout: %s' % (r[2], r[1]))
        return
    _, lab, mp, idx = r
    name = next(iter(enum), None)
    for c in range(enum[name]) if name else [None]:
        ix = {n: I(n) for n, _, _ in next(b for b in blocks if b[0] == lab)[2]}
        for n, ext, _ in next(b for b in blocks if b[0] == lab)[2]:
            if run.norm(q(ext)).int() == 1:
                ix[n] = q(0)
        if name:
            ix[name] = q(c)
        sub = {u: ix[n] for u, n in mp.items()}
        args = tuple(x.subst(lambda a: sub.get(a)) for x in idx)
        w = m[0].fn(args)
        if not isinstance(w, Q):
            f.und('%s: written data' % fn.qual)
            return
        w = run.norm(w.subst(lambda a: sub.get(a)))
        w, lo, hi = strip(w)
        if scale is not None:
            s, o = scale(ix)
            if s is not None and o is not None:
                covers(f, run, fn, lab, Q.atom(('el',) + (lambda t: (t[0], tuple(q(x) for x in t[1])))(elem(lab, ix))), s, o, lo, hi, line)
            if s is None or o is None:
                f.und('%s: scale of the written data' % fn.qual)
                return
            try:
                got = run.norm((w - o) / s)
            except TooBig:
                f.und('%s: written data too big' % fn.qual)
                return
        else:
            got = w
        nm, e = elem(lab, ix)
        exp = Q.atom(('el', nm, tuple(q(x) for x in e)))
        f.n['formulas'] += 1
        d = run.norm(got - exp)
        if d.zero():
            if len(f.samples) < 12:
                f.samples.append('%s: %s: decode(written %s) = %r' % (f.name, fn.qual, lab, exp))
            continue
        if any(a[0] in ('unk', 'sel', 'car', 'raw') or a[0] == 'op' and a[1] in ('clip', 'rint') for a in deep_atoms(d)) or \
                not any(a[0] == 'el' for a in deep_atoms(got)):
            f.n['formulas'] -= 1
            f.und('%s: written %s' % (fn.qual, lab))
            return
        f.add('written-data', fn, '%s[%s]' % (lab, c if c is not None else ''), line, 'what the reader decodes for %r is %s' % (exp, repr(got)[:250]))
        return


# ------------------------------------------------------------------------------------------------------------- Mann box
def mann(proj):
    f = Fmt(proj, 'Mann box')
    C = proj.public('MannBoxFile', 'class', 'weio.mannbox_file')
    rd, wr = proj.method(C, 'read') or proj.method(C, '_read'), proj.method(C, 'write') or proj.method(C, '_write')
    f.entries = [x for x in (rd, wr) if x]
    nx, ny, nz = D('nx'), D('ny'), D('nz')
    if rd:
        S = lambda n: Q.atom(('sym', n))
        kw = {'N': (nx, ny, nz), 'dy': S('dy'), 'dz': S('dz'), 'y0': S('y0'), 'z0': S('z0'), 'zMid': S('zMid')}
        for run, res, o in f.runs(rd, lambda run: (Obj(C, {}, {}, True), [StrU('filename')] if len(rd.params) > 1 else [], {k: v for k, v in kw.items() if k in rd.params})):
            F = f.fields(run, rd, 'r')
            if F is None:
                continue
            if not f.compare(F, [('f4', nx * ny * nz)], rd, 'the reader', F.resolve) or run.special:
                continue
            ix, j, k = I('ix'), I('j'), I('k')
            f.formula(rd, 'field', key(o, 'field', ix, j, k), R(0, ix * ny * nz + (ny - 1 - j) * nz + k), F)
            a = o.keys.get('field')
            if isinstance(a, Arr) and a.shape is not None and len(a.shape) == 3:
                for x, (g, e) in enumerate(zip(a.shape, (nx, ny, nz))):
                    f.formula(rd, 'dimension %d of field' % x, g, e, F)
            for nm in ('dy', 'dz', 'y0', 'z0', 'zMid'):
                v = o.keys.get(nm)
                if isinstance(v, Q) and nm in rd.params and v.single() and v.single()[0] == 'sym' and v != S(nm):
                    f.add('formula', rd, nm, rd.lineno, 'the key %s holds %r' % (nm, v))
    if wr:
        def make(run):
            return Obj(C, {'filename': StrU('filename')}, {'field': Arr([nx, ny, nz], lambda idx: Q.atom(('el', 'field', tuple(idx))), 'f4')}, False), [], {}
        for run, res, o in f.runs(wr, make):
            F = f.fields(run, wr, 'w')
            if F is None:
                continue
            conversions(f, run, wr)
            if not f.compare(F, [('f4', nx * ny * nz)], wr, 'the writer', run.norm) or run.special:
                continue
            for m in F.regions[0].members:
                data(f, run, F, wr, m, [('field', q(0), [('ix', nx, ny * nz), ('jj', ny, nz), ('k', nz, q(1))])],
                     lambda lab, x: ('field', (x['ix'], ny - 1 - x['jj'], x['k'])), None, {})
    return f


# ------------------------------------------------------------------------------------------------------------- OpenFAST binary output
def outb(proj):
    f = Fmt(proj, '.outb')
    rd, wr = proj.public('load_binary_output', 'func', 'weio.fast_output_file'), proj.public('writeBinary', 'func', 'weio.fast_output_file')
    f.entries = [rd, wr]
    seen = set()
    for opt in ([True, False] if 'use_buffer' in rd.params else [None]):
        kw = {} if opt is None else {'use_buffer': opt}
        for run, res, _ in f.runs(rd, lambda run: (None, [StrU('filename')], dict(kw))):
            F = f.fields(run, rd, 'r')
            if F is None:
                continue
            fid = F.resolve(R(0, 0)) if False else None
            t0 = next((t for t, (reg, off, recs) in F.tok.items() if reg == 0 and off.zero() and not recs), None)
            if t0 is None:
                f.und('%s: no identifier' % rd.qual)
                continue
            fid = run.norm(Q.atom(('raw', t0, (), q(0)))).int()
            if fid not in (1, 2, 3, 4):
                if fid is not None:
                    f.add('field-type', rd, 'id %s' % fid, rd.lineno, 'the reader accepts the unknown file identifier %s' % fid)
                else:
                    f.und('%s: file identifier' % rd.qual)
                continue
            seen.add((fid, opt))
            N, NT = R(1, 0), R(1, 1)
            dat = ('f8', NT * N) if fid == 3 else ('i2', NT * N)
            if fid == 3:
                spec = [('i2', 1), ('i4', 2), ('f8', 2), ('i4', 1), ('u1', R(3, 0) + (N + 1) * 20), dat]
            else:
                spec = [('i2', 2 if fid == 4 else 1), ('i4', 2), ('f8', 2), ('f4', N * 2), ('i4', 1), ('u1', R(4, 0) + (N + 1) * 2 * (R(0, 1) if fid == 4 else 10))]
                spec += ([('i4', NT)] if fid == 1 else []) + [dat]
            if not f.compare(F, spec, rd, 'the reader (file identifier %d)' % fid, F.resolve) or run.special:
                continue
            arr = res[0] if isinstance(res, tuple) and res else res
            it, j = I('it'), I('j')
            lab = 'identifier %d%s' % (fid, '' if opt in (None, True) else ', unbuffered')
            if fid == 3:
                f.formula(rd, 'data (%s)' % lab, key(arr, None, it, j + 1), R(5, it * N + j), F)
            else:
                f.formula(rd, 'data (%s)' % lab, key(arr, None, it, j + 1), (R(7 if fid == 1 else 6, it * N + j) - R(3, N + j)) / R(3, j), F)
            if fid == 1:
                f.formula(rd, 'time (%s)' % lab, key(arr, None, it, 0), (R(6, it) - R(2, 1)) / R(2, 0), F)
            else:
                f.formula(rd, 'time (%s)' % lab, key(arr, None, it, 0), R(2, 0) + it * R(2, 1), F)
            if isinstance(arr, Arr) and arr.shape is not None:
                for x, e in zip(arr.shape, (NT, N + 1)):
                    f.formula(rd, 'shape (%s)' % lab, x, e, F)
    f.n['variants'] = len(seen)
    N, nT = D('N'), D('nT')
    S = lambda n: Q.atom(('sym', n))

    def make(run):
        def el(idx):
            j = run.norm(idx[1])
            if j.zero():
                return S('t0') + idx[0] * S('dt')
            return Q.atom(('el', 'ch', (idx[0], j)))
        names = SymSeq(N + 1, lambda i: StrU('name', Q.atom(('sym', 'len(name)'))))
        units = SymSeq(N + 1, lambda i: StrU('unit', Q.atom(('sym', 'len(unit)'))))
        return None, [StrU('filename'), Arr([nT, N + 1], el, 'f8'), names, units], {}
    for run, res, _ in f.runs(wr, make):
        F = f.fields(run, wr, 'w')
        if F is None:
            continue
        conversions(f, run, wr)
        hd = Header(f, run, F, wr)
        n = hd.value(4, 0)
        spec = [('i2', 1), ('i4', 2), ('f8', 2), ('f4', N * 2), ('i4', 1), ('u1', (n if n is not None else run.unk()) + (N + 1) * 20), ('i2', nT * N)]
        if not f.compare(F, spec, wr, 'the writer', run.norm):
            continue
        for reg, pos, nm, e in ((0, 0, 'file identifier', q(2)), (1, 0, 'number of channels', N), (1, 1, 'number of time steps', nT), (2, 0, 'start time', S('t0')), (2, 1, 'time step', S('dt'))):
            hd.expect(reg, pos, nm, e)
        if run.special - {'equal data'}:
            continue
        for m in F.regions[6].members:
            data(f, run, F, wr, m, [('ch', q(0), [('it', nT, N), ('j', N, q(1))])], lambda lab, x: ('ch', (x['it'], x['j'] + 1)),
                 lambda ix: (hd.value(3, ix['j']), hd.value(3, N + ix['j'])), {})
    return f


def check(proj, tier):
    fs, samples = [], []
    tot = {}
    for g in (outb, bts, mann):
        f = g(proj)
        fs += f.findings
        samples += f.samples[:6]
        for k, v in f.n.items():
            tot[k] = tot.get(k, 0) + v
    return Result(fs, RULE, tot, samples=samples,
                  assumptions=['sizes and indices are not negative; a machine with little-endian byte order', 'conversions between float widths are exact',
                               'paths taken only for NaN scale factors, constant data or after an exception are checked for the order of fields, not for values'],
                  minimum=dict(paths=3))
