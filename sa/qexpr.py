"""exact rational functions over atoms (nested tuples); used as the scalar domain of the layout analysis"""
from fractions import Fraction


def _mono_mul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=_akey))


_AK = {}


def _akey(p):
    k = p[0]
    r = _AK.get(k)
    if r is None:
        if len(_AK) > 200000:
            _AK.clear()
        r = _AK[k] = repr(k)
    return r


class TooBig(Exception):
    pass


def _pmul(p, q):
    out = {}
    if len(p) * len(q) > 4000:
        raise TooBig()
    for m, c in p.items():
        for n, d in q.items():
            k = _mono_mul(m, n)
            v = out.get(k, 0) + c * d
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    return out


def _padd(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        v = out.get(m, 0) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


class Q:
    __slots__ = ('n', 'd', '_h')

    def __init__(self, n, d=None):
        if d is None:
            d = {(): Fraction(1)}
        if not n:
            d = {(): Fraction(1)}
        else:
            # cancel common monomials and the scale of the denominator
            common = None
            for p in (n, d):
                for m in p:
                    s = dict(m)
                    common = s if common is None else {k: min(e, s[k]) for k, e in common.items() if k in s}
                    if not common:
                        break
                if not common:
                    break
            if common:
                inv = tuple((k, -e) for k, e in common.items())
                n = {_mono_mul(m, inv): c for m, c in n.items()}
                d = {_mono_mul(m, inv): c for m, c in d.items()}
            lead = d[min(d, key=repr)] if len(d) > 1 else next(iter(d.values()))
            if lead != 1:
                n = {m: c / lead for m, c in n.items()}
                d = {m: c / lead for m, c in d.items()}
            if len(d) > 1 and len(n) == len(d):      # equal up to a factor
                f = None
                for m, c in n.items():
                    if m not in d or f is not None and c / d[m] != f:
                        break
                    f = c / d[m]
                else:
                    n, d = {(): f}, {(): Fraction(1)}
        self.n, self.d = n, d
        self._h = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Q({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Q({((a, 1),): Fraction(1)})

    def __add__(self, o):
        o = q(o)
        if self.d == o.d:
            return Q(_padd(self.n, o.n), self.d)
        return Q(_padd(_pmul(self.n, o.d), _pmul(o.n, self.d)), _pmul(self.d, o.d))

    def __sub__(self, o):
        return self + q(o) * -1

    def __mul__(self, o):
        o = q(o)
        return Q(_pmul(self.n, o.n), _pmul(self.d, o.d))

    def __truediv__(self, o):
        o = q(o)
        if not o.n:
            return Q.atom(('unk', 'division by zero'))
        return Q(_pmul(self.n, o.d), _pmul(self.d, o.n))
    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return q(o) - self

    def __neg__(self):
        return self * -1

    def zero(self):
        return not self.n

    def same(self, o):
        return (self - q(o)).zero()

    def value(self):
        """constant value or None"""
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and len(self.d) == 1 and () in self.n and () in self.d:
            return self.n[()] / self.d[()]
        return None

    def int(self):
        v = self.value()
        return int(v) if v is not None and v.denominator == 1 else None

    def atoms(self):
        return {k for p in (self.n, self.d) for m in p for k, _ in m}

    def single(self):
        """the atom if this is exactly one atom"""
        if len(self.n) == 1 and self.d == {(): 1}:
            (m, c), = self.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def linear_in(self, a):
        """(coefficient, rest) if self = coefficient*a + rest with a polynomial (no division), else None"""
        if len(self.d) != 1 or () not in self.d:
            return None
        co, rest = {}, {}
        for m, c in self.n.items():
            e = dict(m).get(a, 0)
            if e == 0:
                rest[m] = c
            elif e == 1:
                co[tuple(x for x in m if x[0] != a)] = c
            else:
                return None
        return Q(co, self.d), Q(rest, self.d)

    def positive(self):
        """definitely > 0 when every atom is >= 0"""
        return bool(self.n) and all(c > 0 for c in self.n.values()) and all(c > 0 for c in self.d.values()) and () in self.n

    def subst(self, f):
        """f(atom) -> Q or None; applied bottom-up, also inside atoms"""
        memo = {}

        def at(a):
            if a in memo:
                return memo[a]
            b = rebuild(a, f)
            r = f(b)
            if r is None:
                r = Q.atom(b)
            memo[a] = r
            return r

        def poly(p):
            out = Q({})
            plain = {}
            for m, c in p.items():
                if all(at(k).single() == k for k, _ in m):
                    plain[m] = c
                    continue
                t = Q.const(c)
                for k, e in m:
                    for _ in range(e):
                        t = t * at(k)
                out = out + t
            return out + Q(plain) if plain else out
        return poly(self.n) / poly(self.d)

    def __eq__(self, o):
        return isinstance(o, Q) and self.n == o.n and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash((frozenset(self.n.items()), frozenset(self.d.items())))
        return self._h

    def __repr__(self):
        def mono(m):
            return '*'.join(show(k) + ('^%d' % e if e != 1 else '') for k, e in m)

        def poly(p):
            if not p:
                return '0'
            out = []
            for m, c in sorted(p.items(), key=lambda x: repr(x[0])):
                s = mono(m)
                out.append(s if c == 1 and s else ('%s*%s' % (c, s) if s else str(c)))
            return ' + '.join(out)
        if self.d == {(): 1}:
            return poly(self.n)
        return '(%s)/(%s)' % (poly(self.n), poly(self.d))


def show(a):
    if isinstance(a, Q):
        return repr(a)
    if isinstance(a, tuple):
        if a and a[0] == 'el':
            return '%s[%s]' % (a[1], ', '.join(show(x) for x in a[2]))
        if a and a[0] in ('sym', 'dim', 'idx'):
            return str(a[1]) if len(a) == 2 else '%s.%s' % (a[1], a[2])
        return '%s(%s)' % (a[0] if a else '', ', '.join(show(x) for x in a[1:]))
    return str(a)


def rebuild(a, f):
    if isinstance(a, Q):
        return a.subst(f)
    if isinstance(a, tuple):
        return tuple(rebuild(x, f) for x in a)
    return a


def q(x):
    if isinstance(x, Q):
        return x
    return Q.const(x)


def deep_atoms(x, out=None):
    """every atom, also the ones inside atoms"""
    out = set() if out is None else out
    if isinstance(x, Q):
        for a in x.atoms():
            if a not in out:
                out.add(a)
                deep_atoms(a, out)
    elif isinstance(x, tuple):
        for y in x:
            deep_atoms(y, out)
    return out
