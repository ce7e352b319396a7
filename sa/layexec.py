"""the interpreter of the layout analysis: statements, expressions, calls of package functions and a table of library functions"""
import ast
from fractions import Fraction
from .qexpr import Q, q, deep_atoms, TooBig
from .layout import (Abort, Arr, Brk, BytesV, ClassV, Cond, Cont, DT, DType, Env, Ext, FStr, Frame, FuncV, Handle, Hole, Item, Lam, ListV, LoopRec, Mask, Meth, Obj, Place,
                     Raised, RawB, Rep, Ret, Run, StrU, StructV, SymSeq, Unk, has_unk)

CAST = {'float', 'int', 'numpy.float32', 'numpy.float64', 'numpy.single', 'numpy.double', 'numpy.int32', 'numpy.int64', 'numpy.uint32', 'numpy.uint64', 'numpy.longlong',
        'complex', 'numpy.intp', 'operator.index'}
SMALL = {'numpy.int16': 'i2', 'numpy.uint16': 'u2', 'numpy.int8': 'i1', 'numpy.uint8': 'u1', 'numpy.short': 'i2'}
REDUCE = {'min', 'max', 'mean', 'sum', 'std', 'var', 'amin', 'amax', 'nanmin', 'nanmax', 'nanmean', 'median', 'ptp', 'prod', 'any', 'all', 'argmin', 'argmax', 'average', 'nanstd'}
ELEM = {'abs', 'absolute', 'fabs', 'sqrt', 'exp', 'log', 'sin', 'cos', 'floor', 'ceil', 'sign', 'nan_to_num', 'tan', 'square', 'arctan2', 'hypot', 'deg2rad', 'rad2deg'}
ROUND = {'round', 'rint', 'around', 'round_', 'trunc', 'fix'}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|',
       ast.BitAnd: '&', ast.BitXor: '^'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}


class ModV:
    def __init__(self, m):
        self.m = m


class KeysV:
    def __init__(self, obj):
        self.obj = obj


class AskV:
    """a condition keyed by what it asks about"""
    def __init__(self, key, special=None):
        self.key, self.special = key, special


def hk(v):
    if isinstance(v, Q):
        x = v.value()
        return x if x is not None else ('q', repr(v))
    if isinstance(v, (str, bytes, bool)) or v is None:
        return v
    if isinstance(v, tuple):
        return tuple(hk(x) for x in v)
    if isinstance(v, StrU):
        return ('StrU', v.key)
    return ('id', id(v))


class Exec(Run):
    max_depth = 12
    max_steps = 60000

    # ---------------------------------------------------------------- streams, lists
    def nest(self, parts, level):
        """the list of parts the current loops contribute to"""
        for rec in self.loops[level:]:
            if parts and isinstance(parts[-1], Rep) and parts[-1].rec is rec:
                parts = parts[-1].items
            else:
                r = Rep(rec, [])
                parts.append(r)
                parts = r.items
        return parts

    def emit(self, h, item):
        self.nest(h.stream, h.level).append(item)

    def lvs(self):
        return tuple(l.q for l in self.loops)

    def new_handle(self, mode, path):
        h = Handle(mode, path)
        h.level = len(self.loops)
        self.handles.append(h)
        return h

    # ---------------------------------------------------------------- statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Abort('steps')
        k = type(st).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Abort('statement ' + k)
        m(st, fr)

    def s_Pass(self, st, fr):
        pass

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Assert = s_Pass

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                e = fr.env.find(t.id)
                if e is not None:
                    e.pop(t.id, None)

    def s_Expr(self, st, fr):
        if not isinstance(st.value, ast.Constant):
            self.ev(st.value, fr)

    def s_Return(self, st, fr):
        raise Ret(self.ev(st.value, fr) if st.value is not None else None)

    def s_Raise(self, st, fr):
        raise Raised()

    def s_Break(self, st, fr):
        raise Brk()

    def s_Continue(self, st, fr):
        raise Cont()

    def s_FunctionDef(self, st, fr):
        f = fr.fn.nested.get(st.name) if fr.fn is not None else None
        fr.env[st.name] = FuncV(f, fr.env, None, fr.cls) if f is not None and f.node is st else Unk('def')

    def s_ClassDef(self, st, fr):
        fr.env[st.name] = Unk('class')

    def s_If(self, st, fr):
        self.block(st.body if self.truth(self.ev(st.test, fr)) else st.orelse, fr)

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        load = ast.copy_location({ast.Name: lambda: ast.Name(t.id, ast.Load()), ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t)](), t)
        old = self.ev(load, fr)
        v = self.ev(st.value, fr)
        op = BIN.get(type(st.op))
        if isinstance(old, Arr):
            new = self.binop(op, old, v)
            if isinstance(new, Arr) and new.fn is not None:
                old.fn, old.shape = new.fn, new.shape
                if getattr(old, 'base', None) is not None:
                    b, ix = old.base
                    self.setitem(b, ix, Arr(new.shape, new.fn, old.dtype), st)
                if old.dtype and old.dtype[0] in 'iu' and int(old.dtype[1:]) < 8:
                    self.narrow(new, old.dtype, st)
            else:
                old.fn = None
            self.assign(t, old, fr)
            return
        if isinstance(old, ListV) and op == '+':
            s = self.seq(v)
            if s[0] == 'const':
                self.nest(old.parts, old.level).extend(s[1])
            else:
                rec = LoopRec(('idx', 'X%d' % self.fresh()), s[1])
                self.nest(old.parts, old.level).append(Rep(rec, [s[2](rec.q)]))
            self.assign(t, old, fr)
            return
        self.assign(t, self.binop(op, old, v), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            e = fr.env
            if fr.fn is not None and fr.fn.parent is not None and t.id in self.nonlocals(fr.fn):
                e = fr.env.parent.find(t.id) if fr.env.parent is not None else fr.env
                e = e if e is not None else fr.env
            e[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Unk('starred'), fr)
                return
            if isinstance(v, (Unk, Meth)):
                for e in t.elts:
                    self.assign(e, Unk('unpacked'), fr)
                return
            s = self.seq(v)
            if s[0] == 'const':
                if len(s[1]) != n:
                    raise Raised()
                vals = s[1]
            else:
                d = self.norm(s[1] - n)
                if d.int() is not None and d.int() != 0 and not has_unk(d):
                    raise Raised()
                vals = [s[2](q(i)) for i in range(n)]
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            if isinstance(o, Obj):
                st = self.p.setter(o.cls, t.attr) if o.cls is not None else None
                if st is not None:
                    self.call_func(FuncV(st, None, o, st.cls), [v], {}, t)
                else:
                    o.attrs[t.attr] = v
            elif isinstance(o, Arr) and t.attr == 'shape':
                r = self.reshape(o, list(v) if isinstance(v, tuple) else [v], 'C')
                if isinstance(r, Arr):
                    o.shape, o.fn = r.shape, r.fn
                    o.src = getattr(r, 'src', None)
                else:
                    o.fn = None
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.index(t.slice, fr)
            if isinstance(o, Obj):
                k = hk(ix)
                if isinstance(k, tuple):
                    raise Abort('unknown key')
                o.keys[k] = v
            elif isinstance(o, dict):
                o[hk(ix)] = v
            elif isinstance(o, Arr):
                if getattr(o, 'base', None) is not None:
                    self.setitem(o, ix, v, t)
                    b, bix = o.base
                    self.setitem(b, bix, Arr(o.shape, o.fn, o.dtype), t)
                else:
                    self.setitem(o, ix, v, t)
                o.src = None
            elif isinstance(o, ListV):
                k = ix.int() if isinstance(ix, Q) else None
                if k is not None and not any(isinstance(p, (Rep, Hole)) for p in o.parts) and -len(o.parts) <= k < len(o.parts) and len(self.loops) == o.level:
                    o.parts[k] = v
                else:
                    o.parts[:] = [Hole('assigned')]
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def nonlocals(self, fn):
        r = getattr(fn, '_nonlocals', None)
        if r is None:
            r = fn._nonlocals = {x for n in ast.walk(fn.node) if isinstance(n, ast.Nonlocal) for x in n.names}
        return r

    def s_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(st.body, fr)

    def s_Try(self, st, fr):
        if st.handlers:
            if self.ask(None) == 0:
                try:
                    self.block(st.body, fr)
                except Raised:
                    if self.only_raises(st.handlers[0].body):
                        raise
                    self.special.add('handler')
                    self.handler(st, fr)
                else:
                    self.block(st.orelse, fr)
            else:
                if all(self.only_raises(h.body) for h in st.handlers):
                    raise Raised()
                self.special.add('handler')
                self.handler(st, fr)
        else:
            self.block(st.body, fr)
            self.block(st.orelse, fr)
        self.block(st.finalbody, fr)

    def only_raises(self, body):
        return bool(body) and isinstance(body[-1], ast.Raise)

    def handler(self, st, fr):
        hs = [h for h in st.handlers if not self.only_raises(h.body)] or st.handlers
        h = hs[0]
        if h.name:
            fr.env[h.name] = Unk('exception')
        self.block(h.body, fr)

    def carried(self, st, fr):
        """numbers and byte strings the loop body changes"""
        names = set()
        for b in st.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
        out = {}
        for nm in names:
            e = fr.env.find(nm)
            if e is None:
                continue
            v = e[nm]
            if isinstance(v, Q):
                a = ('car', self.fresh(), nm)
                out[nm] = (e, a, v)
                e[nm] = Q.atom(a)
            elif isinstance(v, (BytesV, bytes)):
                h = Hole('carry')
                out[nm] = (e, h, v)
                e[nm] = BytesV([h])
        return out

    def after(self, car, rec, last):
        """values after a loop; last(v) = the value of the final iteration"""
        for nm, (e, a, v0) in car.items():
            v1 = e.get(nm)
            if isinstance(a, Hole):
                if isinstance(v1, BytesV) and v1.items and v1.items[0] is a:
                    base = v0.items if isinstance(v0, BytesV) else ([Item('u1', q(len(v0)))] if v0 else [])
                    e[nm] = BytesV(base + ([Rep(rec, v1.items[1:])] if len(v1.items) > 1 else []))
                elif isinstance(v1, BytesV) and any(i is a for i in v1.items):
                    e[nm] = BytesV([Hole('carry')])
                continue
            if not isinstance(v1, Q):
                self.car[a] = self.unk('carried')
                continue
            ats = {x for x in deep_atoms(v1) if x[0] == 'car'}
            if a in v1.atoms():
                d = v1 - Q.atom(a)
                cars = {c[1] for c in car.values() if not isinstance(c[1], Hole)}
                bad = deep_atoms(d) & (cars | {rec.lv})
                r = self.step(d, rec)
                if r is not None and not (deep_atoms(r) & (cars | {rec.lv})):
                    self.car[a] = v0 + rec.q * r
                    e[nm] = v0 + rec.total * r
                    continue
                self.car[a] = self.unk('carried')
                e[nm] = self.unk('carried') if bad or r is None else e[nm]
            else:
                self.car[a] = self.unk('previous')
                e[nm] = last(v1) if not ats else self.unk('carried')

    def step(self, d, rec):
        """increment of a carried number per unit of the loop position"""
        if rec.delta is None:
            return d
        try:
            return d / rec.delta
        except TooBig:
            return None

    def s_For(self, st, fr):
        it = self.seq(self.ev(st.iter, fr))
        if it[0] == 'const':
            for v in it[1]:
                self.assign(st.target, v, fr)
                try:
                    self.block(st.body, fr)
                except Brk:
                    return
                except Cont:
                    pass
            self.block(st.orelse, fr)
            return
        n, fn = it[1], it[2]
        rec = LoopRec(('idx', 'L%d' % self.fresh()), n)
        rec.total = n
        car = self.carried(st, fr)
        self.loops.append(rec)
        self.assign(st.target, fn(rec.q), fr)
        try:
            self.block(st.body, fr)
        except Brk:
            raise Abort('break in a symbolic loop')
        except Cont:
            pass
        finally:
            self.loops.pop()
        self.after(car, rec, lambda v: self.bind(v, rec.lv, n - 1))
        self.block(st.orelse, fr)

    def s_While(self, st, fr):
        car = self.carried(st, fr)
        c = self.ev(st.test, fr)
        if not isinstance(c, (Cond, Q)):
            raise Abort('while condition')
        if isinstance(c, Q):
            a, b, op = c, q(0), '!='
        else:
            a, b, op = self.numeric(c.a), self.numeric(c.b), c.op
        if not isinstance(a, Q) or not isinstance(b, Q):
            raise Abort('while condition')
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        rem = b - a                      # still to do
        if op == '!=' and any(x in (car[k][1] for k in car) for x in (-rem).atoms()) and not all(v > 0 for v in rem.n.values()):
            lin = [rem.linear_in(v[1]) for v in car.values() if not isinstance(v[1], Hole) and v[1] in rem.atoms()]
            if isinstance(c, Q):
                rem = c
        cars = {v[1]: v[2] for v in car.values() if not isinstance(v[1], Hole)}
        rec = LoopRec(('pos', 'W%d' % self.fresh()), None)
        self.loops.append(rec)
        try:
            self.block(st.body, fr)
        except Brk:
            raise Abort('break in a while loop')
        except Cont:
            pass
        finally:
            self.loops.pop()
        new = {v[1]: v[0].get(nm) for nm, v in car.items() if not isinstance(v[1], Hole)}
        if any(not isinstance(x, Q) for x in new.values()):
            raise Abort('while: carried')
        if isinstance(c, Q):
            rem = c
        rem1 = rem.subst(lambda x: new.get(x))
        total = rem.subst(lambda x: cars.get(x))
        if op == '!=' and not isinstance(c, Q):
            d = rem - rem1
            if d.value() is not None and d.value() < 0 or all(v < 0 for v in d.n.values()):
                rem, rem1, total = -rem, -rem1, -total
        if op == '<=':
            rem, rem1, total = rem + 1, rem1 + 1, total + 1
        delta = rem - rem1
        if delta.zero():
            raise Abort('while: no progress')
        if delta.int() == 1:
            rec.n = rec.total = total        # an index loop
            rec.delta = None
        else:
            m = delta.single()
            if not (m and m[0] == 'op' and m[1] == 'min' and any((x - rem).zero() for x in m[2:] if isinstance(x, Q))):
                raise Abort('while: step')
            rec.delta, rec.total = delta, total
        self.after(car, rec, lambda v: self.unk('last'))
        self.block(st.orelse, fr)

    # ---------------------------------------------------------------- expressions
    def ev(self, node, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Abort('steps')
        m = getattr(self, 'e_' + type(node).__name__, None)
        return m(node, fr) if m is not None else Unk(type(node).__name__)

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return self.numeric(v)
        return v

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            x = self.ev(v.value if isinstance(v, ast.FormattedValue) else v, fr)
            f = self.fstr(x)
            if f is None:
                return StrU('f%d' % self.fresh())
            parts += f.parts
        return self.simplify(parts)

    def simplify(self, parts):
        out = ''
        for p in parts:
            if not isinstance(p, str):
                return FStr(parts)
            out += p
        return out

    def e_Tuple(self, n, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return Unk('starred')
        return tuple(self.ev(e, fr) for e in n.elts)

    def e_List(self, n, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return Unk('starred')
        return ListV([self.ev(e, fr) for e in n.elts], len(self.loops))

    def e_Set(self, n, fr):
        return tuple(self.ev(e, fr) for e in n.elts)

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                return Unk('dict')
            d[hk(self.ev(k, fr))] = self.ev(v, fr)
        return d

    def e_Lambda(self, n, fr):
        return Lam(n, fr.env, fr)

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_BoolOp(self, n, fr):
        v = None
        for x in n.values:
            v = self.ev(x, fr)
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t or isinstance(n.op, ast.Or) and t:
                return v if not isinstance(v, (Cond, AskV)) else t
        return v if not isinstance(v, (Cond, AskV)) else self.truth(v)

    def truth(self, v):
        if isinstance(v, AskV):
            r = self.ask(v.key) == 1
            if r and v.special:
                self.special.add(v.special)
            return r
        if isinstance(v, SymSeq):
            return self.cmp('!=', v.n, q(0))
        if isinstance(v, Mask):
            self.special.add('mask')
        return Run.truth(self, v)

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return self.binop('*', q(-1), v) if not isinstance(v, bool) else q(-int(v))
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(v, (Arr, Mask)):
            return Mask()
        return Unk('~')

    def e_BinOp(self, n, fr):
        a, b = self.ev(n.left, fr), self.ev(n.right, fr)
        return self.binop(BIN.get(type(n.op)), a, b)

    def binop(self, op, a, b):
        if isinstance(a, Mask) or isinstance(b, Mask):
            return Mask()
        if op == '%' and isinstance(a, (str, FStr)):
            return self.percent(a, b)
        if op == '+':
            if isinstance(a, (str, FStr)) and isinstance(b, (str, FStr)):
                return self.simplify(self.fstr(a).parts + self.fstr(b).parts)
            if isinstance(a, (str, FStr, StrU)) and isinstance(b, (str, FStr, StrU)):
                n = q(0)
                for x in (a, b):
                    n = n + (q(len(x)) if isinstance(x, str) else x.length if isinstance(x, StrU) else self.unk('len'))
                return StrU('cat%d' % self.fresh(), n, all(isinstance(x, str) or getattr(x, 'ascii', False) for x in (a, b)))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            la, lb = self.aslist(a), self.aslist(b)
            if la is not None and lb is not None and not isinstance(a, Arr) and not isinstance(b, Arr):
                return ListV(la + lb, len(self.loops))
            ba, bb = self.asbytes(a), self.asbytes(b)
            if ba is not None and bb is not None:
                return BytesV(ba + bb)
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (str, FStr)) and isinstance(y, Q):
                    k = y.int()
                    if k is not None and isinstance(x, str):
                        return x * min(k, 4096)
                    return FStr([('rep', self.fstr(x), y)])
                if isinstance(x, tuple) and isinstance(y, Q) and y.int() is not None and y.int() < 64:
                    return x * y.int()
                if isinstance(x, StrU) and isinstance(y, Q):
                    return StrU('mul%d' % self.fresh(), x.length * y)
                if isinstance(x, ListV) and isinstance(y, Q):
                    k = self.norm(y).int()
                    if k is not None and k <= 64:
                        return ListV(list(x.parts) * max(k, 0), len(self.loops))
                    rec = LoopRec(('idx', 'X%d' % self.fresh()), y)
                    return ListV([Rep(rec, list(x.parts))], len(self.loops))
                if isinstance(x, bytes) and isinstance(y, Q):
                    return BytesV([Item('u1', y * len(x))])
        if isinstance(a, (tuple, ListV, SymSeq)) and isinstance(b, Arr):
            a = self.to_arr(a) or a
        if isinstance(b, (tuple, ListV, SymSeq)) and isinstance(a, Arr):
            b = self.to_arr(b) or b
        return self.arith(op, a, b)

    def aslist(self, v):
        if isinstance(v, ListV):
            return list(v.parts)
        if isinstance(v, SymSeq):
            rec = LoopRec(('idx', 'X%d' % self.fresh()), v.n)
            return [Rep(rec, [v.fn(rec.q)])]
        return None

    def asbytes(self, v):
        if isinstance(v, BytesV):
            return list(v.items)
        if isinstance(v, bytes):
            return [Item('u1', q(len(v)))] if v else []
        return None

    def percent(self, s, arg):
        if not isinstance(s, str):
            return StrU('pct%d' % self.fresh())
        args = list(arg) if isinstance(arg, tuple) else [arg]
        import re
        parts, pos = [], 0
        for m in re.finditer(r'%(%|[-+ 0#]*\d*(?:\.\d+)?[a-zA-Z])', s):
            parts.append(s[pos:m.start()])
            pos = m.end()
            if m.group(1) == '%':
                parts.append('%')
                continue
            if not args:
                return StrU('pct%d' % self.fresh())
            f = self.fstr(args.pop(0)) if m.group(1) in ('d', 'i', 's') else None
            if f is None:
                return StrU('pct%d' % self.fresh())
            parts += f.parts
        parts.append(s[pos:])
        return self.simplify(parts)

    def format(self, s, args, kw):
        if not isinstance(s, str):
            return StrU('fmt%d' % self.fresh())
        import string
        parts, auto = [], 0
        try:
            for lit, name, spec, conv in string.Formatter().parse(s):
                parts.append(lit)
                if name is None:
                    continue
                if spec not in ('', 'd', 's'):
                    return StrU('fmt%d' % self.fresh())
                if name == '':
                    v = args[auto]
                    auto += 1
                elif name.isdigit():
                    v = args[int(name)]
                else:
                    v = kw[name]
                f = self.fstr(v)
                if f is None:
                    return StrU('fmt%d' % self.fresh())
                parts += f.parts
        except (IndexError, KeyError, ValueError):
            return StrU('fmt%d' % self.fresh())
        return self.simplify(parts)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            if len(n.ops) == 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        o = CMP.get(type(op))
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if a is None or b is None:
                x = b if a is None else a
                if x is None:
                    return not neg
                if not isinstance(x, (Unk, AskV)):
                    return neg
                return AskV(('isnone', id(x))) if not neg else self.ask(('isnone', id(x))) == 0
            if isinstance(a, bool) and isinstance(b, bool):
                return (a is b) != neg
            return Unk('is')
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else (not self.truth(r))
        if isinstance(a, (Arr, Mask)) or isinstance(b, (Arr, Mask)):
            return Mask()
        if isinstance(a, bool):
            a = q(int(a))
        if isinstance(b, bool):
            b = q(int(b))
        if isinstance(a, Q) and isinstance(b, Q):
            return Cond(o, a, b)
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return {'==': a == b, '!=': a != b}.get(o, Unk('cmp'))
        if isinstance(a, StrU) and isinstance(b, str) or isinstance(b, StrU) and isinstance(a, str):
            k = ('streq', a.key, b) if isinstance(a, StrU) else ('streq', b.key, a)
            if o == '==':
                return AskV(k)
            if o == '!=':
                return not self.truth(AskV(k))
        if isinstance(a, tuple) and isinstance(b, tuple) and o in ('==', '!='):
            if len(a) != len(b):
                return o == '!='
            ok = all(self.truth(self.compare(ast.Eq(), x, y)) for x, y in zip(a, b))
            return ok if o == '==' else not ok
        if (a is None) != (b is None) and o in ('==', '!=') and not isinstance(a, Unk) and not isinstance(b, Unk):
            return o == '!='
        return Unk('cmp')

    def contains(self, a, b):
        if isinstance(b, (KeysV, Obj)):
            o = b.obj if isinstance(b, KeysV) else b
            k = hk(a)
            if k in o.keys:
                return True
            if o.closed:
                return False
            return AskV(('has', k))
        if isinstance(b, dict):
            return hk(a) in b
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, (tuple, ListV)) and not (isinstance(b, ListV) and any(isinstance(p, (Rep, Hole)) for p in b.parts)):
            for x in (b if isinstance(b, tuple) else b.parts):
                r = self.compare(ast.Eq(), a, x)
                if isinstance(r, Unk):
                    return r
                if self.truth(r):
                    return True
            return False
        return Unk('in')

    def e_Name(self, n, fr):
        e = fr.env.find(n.id)
        if e is not None:
            return e[n.id]
        return self.resolved(self.p.resolve_expr(n, fr.mod, fr.fn), n.id)

    def resolved(self, r, name=''):
        if r is None:
            return Unk(name)
        if r[0] == 'func':
            return FuncV(r[1], None, None, r[1].cls)
        if r[0] == 'class':
            return ClassV(r[1])
        if r[0] == 'module':
            return ModV(r[1])
        if r[0] == 'ext':
            if r[1] in ('numpy.newaxis',):
                return None
            if r[1] in ('numpy.nan', 'math.nan', 'numpy.NaN', 'numpy.pi', 'math.pi', 'numpy.inf', 'math.inf'):
                return Q.atom(('sym', r[1]))
            return Ext(r[1])
        if r[0] == 'var':
            s = r[1].syms.get(r[2])
            if s and s[0] == 'var' and s[1] is not None:
                key = ('modvar', r[1].rel, r[2])
                if key in self.stack:
                    return Unk('module variable')
                self.stack.append(key)
                try:
                    return self.ev(s[1], Frame(None, Env(), None, None, r[1]))
                finally:
                    self.stack.pop()
        return Unk(str(r[0]))

    def e_Attribute(self, n, fr):
        v = self.ev(n.value, fr)
        return self.getattr(v, n.attr, n, fr)

    def getattr(self, v, attr, node, fr):
        if isinstance(v, ModV):
            return self.resolved(self.p.lookup_module(v.m.name, attr), attr)
        if isinstance(v, Ext):
            return self.resolved(('ext', v.name + '.' + attr))
        if isinstance(v, Obj):
            if attr in v.attrs:
                return v.attrs[attr]
            m = self.p.method(v.cls, attr) if v.cls is not None else None
            if m is not None:
                if m.is_property:
                    return self.call_func(FuncV(m, None, v, m.cls), [], {}, node)
                return FuncV(m, None, None if m.is_static else (ClassV(v.cls) if m.is_classmethod else v), m.cls)
            ca = self.p.class_attr(v.cls, attr) if v.cls is not None else None
            if ca:
                return self.ev(ca[1], Frame(None, Env(), None, None, ca[0].mod))
            if attr in ('keys', 'items', 'values', 'get', 'update', 'clear', 'pop', 'setdefault', 'copy'):
                return Meth(v, attr)
            return Unk('attr ' + attr) if not v.closed else Unk('attr ' + attr)
        if isinstance(v, ClassV):
            m = self.p.method(v.c, attr)
            if m is not None:
                return FuncV(m, None, ClassV(v.c) if m.is_classmethod else None, m.cls)
            ca = self.p.class_attr(v.c, attr)
            if ca:
                return self.ev(ca[1], Frame(None, Env(), None, None, ca[0].mod))
            return Unk('class attr')
        if isinstance(v, Arr):
            if v.shape is None:
                return Unk('shape') if attr in ('shape', 'size', 'T', 'ndim') else Meth(v, attr)
            if attr == 'shape':
                return tuple(v.shape)
            if attr == 'size':
                n = q(1)
                for s in v.shape:
                    n = n * s
                return n
            if attr == 'ndim':
                return q(len(v.shape))
            if attr == 'T':
                return self.transpose(v, None)
            if attr == 'dtype':
                return DType(v.dtype or 'f8')
            if attr in ('values', 'real'):
                return v
            if attr == 'itemsize':
                return q(int((v.dtype or 'f8')[1:]))
            if attr == 'nbytes':
                n = q(int((v.dtype or 'f8')[1:]))
                for s in v.shape:
                    n = n * s
                return n
            if attr == 'flat':
                return self.flatten(v)
            return Meth(v, attr)
        if isinstance(v, StructV):
            if attr == 'size':
                return self.calcsize(v.fmt)
            return Meth(v, attr)
        if isinstance(v, DType):
            if attr == 'itemsize':
                return q(int(v.kind[1:]))
            return Meth(v, attr)
        if isinstance(v, Unk):
            return Unk(attr)
        if isinstance(v, Q) and attr in ('real', 'T'):
            return v
        return Meth(v, attr)

    def index(self, sl, fr):
        if isinstance(sl, ast.Slice):
            return slice(*[self.ev(x, fr) if x is not None else None for x in (sl.lower, sl.upper, sl.step)])
        if isinstance(sl, ast.Tuple):
            return tuple(self.index(e, fr) for e in sl.elts)
        return self.ev(sl, fr)

    def e_Subscript(self, n, fr):
        v = self.ev(n.value, fr)
        ix = self.index(n.slice, fr)
        return self.subscript(v, ix)

    def subscript(self, v, ix):
        if isinstance(v, Obj):
            k = hk(ix)
            if k in v.keys:
                return v.keys[k]
            g = self.p.method(v.cls, '__getitem__') if v.cls is not None else None
            if v.closed and not g and not isinstance(k, tuple):
                raise Raised()
            return Unk('key')
        if isinstance(v, dict):
            k = hk(ix)
            if k in v:
                return v[k]
            if isinstance(k, tuple):
                return Unk('key')
            raise Raised()
        if isinstance(v, Arr):
            if isinstance(ix, (Mask, Unk)) or isinstance(ix, tuple) and any(isinstance(x, (Mask, Unk, ListV, Arr)) for x in ix) or isinstance(ix, (ListV, Arr)):
                return Unk('fancy index')
            if isinstance(ix, tuple):
                ix = tuple(self.norm(x) if isinstance(x, Q) else x for x in ix)
            elif isinstance(ix, Q):
                ix = self.norm(ix)
            r = self.getitem(v, ix)
            if isinstance(r, Arr):
                r.base = (v, ix)
                r.bo = getattr(v, 'bo', '<')
            return r
        if isinstance(ix, Q) and isinstance(v, (tuple, str, bytes)) or isinstance(ix, Q) and isinstance(v, ListV) and not any(isinstance(p, (Rep, Hole)) for p in v.parts):
            seq = v.parts if isinstance(v, ListV) else v
            k = self.norm(ix).int()
            if k is None:
                if isinstance(v, (tuple, ListV)) and seq and all(isinstance(x, Q) for x in seq):
                    return self.select(list(seq), ix)
                return Unk('index')
            if not -len(seq) <= k < len(seq):
                raise Raised()
            r = seq[k]
            return q(r) if isinstance(v, bytes) else r
        if isinstance(v, (ListV, SymSeq)) and isinstance(ix, Q):
            if isinstance(v, ListV) and isinstance(v.parts[0] if v.parts else None, Q) and ix.int() == 0:
                return v.parts[0]
            s = self.seq(v)
            if s[0] == 'const':
                return self.subscript(tuple(s[1]), ix)
            k = ix.value()
            return s[2](s[1] + ix if k is not None and k < 0 else ix)
        if isinstance(ix, slice):
            a, b, c = [self.numeric(x) if x is not None else None for x in (ix.start, ix.stop, ix.step)]
            ci = [None if x is None else (self.norm(x).int() if isinstance(x, Q) else 'x') for x in (a, b, c)]
            known = all(x is None or ci[i] is not None and ci[i] != 'x' for i, x in enumerate((a, b, c)))
            if isinstance(v, (str, tuple, bytes)) and known:
                return v[slice(*ci)]
            if isinstance(v, ListV) and known and not any(isinstance(p, (Rep, Hole)) for p in v.parts):
                return ListV(v.parts[slice(*ci)], len(self.loops))
            if ci[2] in (None, 1) and all(x is None or isinstance(x, Q) for x in (a, b)):
                n = self.length(v)
                st = q(0) if a is None else (n + a if ci[0] is not None and ci[0] < 0 else a)
                en = n if b is None else (n + b if ci[1] is not None and ci[1] < 0 else b)
                if isinstance(v, RawB):
                    return RawB(v.place, v.off + st, en - st)
                if isinstance(v, StrU):
                    if a is None and b is not None and ci[1] is not None and ci[1] >= 0:
                        return StrU('sl%d' % self.fresh())
                    return StrU('sl%d' % self.fresh(), en - st, v.ascii)
                if isinstance(v, (ListV, SymSeq)):
                    s = self.seq(v)
                    fn = (lambda i: self.subscript(tuple(s[1]), st + i)) if s[0] == 'const' else (lambda i: s[2](st + i))
                    return SymSeq(en - st, fn)
            if isinstance(v, (StrU, FStr)):
                return StrU('sl%d' % self.fresh())
        return Unk('subscript')

    def comp(self, n, fr, elt):
        if len(n.generators) != 1:
            return Unk('comprehension')
        g = n.generators[0]
        it = self.seq(self.ev(g.iter, fr))
        env = Env(fr.env)
        f2 = Frame(fr.fn, env, fr.cls, fr.selfv, fr.mod)
        if it[0] == 'const':
            out = []
            for v in it[1]:
                self.assign_in(g.target, v, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    out.append(elt(f2))
            return ListV(out, len(self.loops))
        rec = LoopRec(('idx', 'L%d' % self.fresh()), it[1])
        rec.total = it[1]
        self.loops.append(rec)
        try:
            self.assign_in(g.target, it[2](rec.q), f2)
            v = elt(f2)
        finally:
            self.loops.pop()
        if g.ifs:
            return SymSeq(self.unk('filtered'), lambda i: Unk('filtered'))
        return SymSeq(it[1], lambda i: self.bind(v, rec.lv, i))

    def assign_in(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        else:
            self.assign(t, v, fr)

    def e_ListComp(self, n, fr):
        return self.comp(n, fr, lambda f: self.ev(n.elt, f))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, fr):
        return Unk('set')

    def e_DictComp(self, n, fr):
        return Unk('dict')

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, fr):
        f = self.ev(n.func, fr)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(('*', self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, dict):
                    kw.update({x: y for x, y in v.items() if isinstance(x, str)})
            else:
                kw[k.arg] = v
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return ('super', fr)
        return self.call(f, args, kw, n, fr)

    def call(self, f, args, kw, node, fr):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, node)
        if isinstance(f, Lam):
            env = Env(f.env)
            ps = [a.arg for a in f.node.args.args]
            for p, v in zip(ps, args):
                env[p] = v
            for p, d in zip(ps[len(ps) - len(f.node.args.defaults):], f.node.args.defaults):
                if p not in env:
                    env[p] = self.ev(d, f.fr)
            env.update(kw)
            return self.ev(f.node.body, Frame(f.fr.fn, env, f.fr.cls, f.fr.selfv, f.fr.mod))
        if isinstance(f, Ext):
            return self.ext(f.name, args, kw, node)
        if isinstance(f, Meth):
            return self.meth(f.recv, f.name, args, kw, node)
        if isinstance(f, ClassV):
            if f.c.name in ('WrongFormatError', 'EmptyFileError') or f.c.name.endswith('Error'):
                return Unk('exception')
            o = Obj(f.c, {}, {}, True)
            m = self.p.method(f.c, '__init__')
            if m is not None:
                self.call_func(FuncV(m, None, o, m.cls), args, kw, node)
            return o
        if isinstance(f, DType):
            return Unk('cast')
        if any(isinstance(a, Handle) for a in args):
            for a in args:
                if isinstance(a, Handle):
                    a.broken = 'passed to an unknown function'
        return Unk('call')

    def call_func(self, f, args, kw, node):
        fn = f.fn
        if len(self.stack) > self.max_depth or self.stack.count(fn.key) > 1:
            raise Abort('depth')
        flat = []
        for a in args:
            if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == '*':
                s = self.seq(a[1])
                if s[0] != 'const':
                    raise Abort('star')
                flat += s[1]
            else:
                flat.append(a)
        if f.selfv is not None:
            flat.insert(0, f.selfv)
        env = Env(f.env)
        params = list(fn.params)
        for p, v in zip(params, flat):
            env[p] = v
        if len(flat) > len(params):
            if fn.vararg:
                env[fn.vararg] = tuple(flat[len(params):])
            else:
                raise Raised()
        elif fn.vararg:
            env[fn.vararg] = ()
        extra = {}
        for k, v in kw.items():
            if k in params or k in fn.kwonly:
                env[k] = v
            else:
                extra[k] = v
        if fn.kwarg:
            env[fn.kwarg] = extra
        fr = Frame(fn, env, fn.cls or f.cls, flat[0] if fn.is_method and flat and not fn.is_static else f.selfv, fn.mod)
        for p in params + list(fn.kwonly):
            if p not in env:
                d = fn.defaults.get(p)
                if d is None:
                    raise Raised()
                env[p] = self.ev(d, Frame(None, Env(f.env), None, None, fn.mod))
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node)):
            return Unk('generator')
        self.stack.append(fn.key)
        try:
            self.block(fn.node.body, fr)
        except Ret as r:
            return r.v
        finally:
            self.stack.pop()
        return None

    # ---------------------------------------------------------------- methods of values
    def transpose(self, a, axes):
        if a.shape is None or a.fn is None:
            return Unk('transpose')
        n = len(a.shape)
        ax = list(range(n))[::-1] if axes is None else axes
        if sorted(ax) != list(range(n)):
            return Unk('axes')
        f = a.fn

        def fn(idx):
            src = [None] * n
            for i, x in enumerate(ax):
                src[x] = idx[i]
            return f(tuple(src))
        return Arr([a.shape[x] for x in ax], fn, a.dtype)

    def axes_of(self, v, n):
        if v is None:
            return None
        if isinstance(v, Q):
            v = (v,)
        s = self.seq(v) if isinstance(v, (tuple, ListV)) else None
        if s is None or s[0] != 'const':
            return 'bad'
        out = []
        for x in s[1]:
            k = x.int() if isinstance(x, Q) else None
            if k is None:
                return 'bad'
            out.append(k + n if k < 0 else k)
        return out

    def flip(self, a, axes):
        if not isinstance(a, Arr) or a.shape is None or a.fn is None or axes == 'bad':
            return Unk('flip')
        f, sh = a.fn, a.shape
        ax = set(range(len(sh)) if axes is None else axes)
        return Arr(list(sh), lambda idx: f(tuple(sh[i] - 1 - x if i in ax else x for i, x in enumerate(idx))), a.dtype)

    def reduce(self, name, a, axis):
        if isinstance(a, (tuple, ListV, SymSeq)):
            a = self.to_arr(a)
        if not isinstance(a, Arr) or a.shape is None:
            return Unk('reduce')
        tag = self.fresh()
        name = {'amin': 'min', 'amax': 'max', 'nanmin': 'min', 'nanmax': 'max'}.get(name, name)
        red = [Q.atom(('idx', 'red%d' % i)) for i in range(len(a.shape))]

        def elem(idx):
            v = a.fn(tuple(idx)) if a.fn is not None else None
            return v if isinstance(v, Q) else self.unk('element')
        if axis is None:
            return Q.atom(('red', name, elem(red)))
        k = axis.int() if isinstance(axis, Q) else None
        if k is None:
            return Unk('axis')
        k = k + len(a.shape) if k < 0 else k
        sh = [s for i, s in enumerate(a.shape) if i != k]
        if not sh:
            return Q.atom(('red', name, elem(red)))
        return Arr(sh, lambda idx: Q.atom(('red', name, elem(list(idx[:k]) + [red[k]] + list(idx[k:])))), a.dtype)

    def elementwise(self, name, vs):
        vs = [self.numeric(v) for v in vs]
        vs = [self.to_arr(v) if isinstance(v, (tuple, ListV, SymSeq)) else v for v in vs]
        if any(not isinstance(v, (Q, Arr)) for v in vs) or any(isinstance(v, Arr) and (v.shape is None or v.fn is None) for v in vs):
            return Unk(name)

        def f(xs):
            if any(not isinstance(x, Q) for x in xs):
                return self.unk(name)
            if all(x.value() is not None for x in xs) and name in ('min', 'max'):
                return q({'min': min, 'max': max}[name](x.value() for x in xs))
            if name in ('min', 'max'):
                xs = sorted(xs, key=repr)
            return Q.atom(('op', name) + tuple(xs))
        if all(isinstance(v, Q) for v in vs):
            return f(vs)
        return self.broadcast(vs, f)

    def cast(self, v, kind, node):
        """conversion to a number type"""
        if isinstance(v, bool):
            return q(int(v))
        if isinstance(v, (tuple, ListV, SymSeq)):
            v = self.to_arr(v)
        if isinstance(v, (Q, Arr)):
            small = kind and (kind == 'f2' or kind[0] in 'iu' and int(kind[1:]) < 4)
            if small and not (isinstance(v, Arr) and v.fn is None):
                self.narrow(v, kind, node)
            if isinstance(v, Arr):
                r = Arr(v.shape, v.fn, kind or v.dtype)
                r.src = getattr(v, 'src', None)
                return r
            return v
        return Unk('cast')

    def raw_values(self, raw, fmt, off, node):
        r = self.fields(fmt)
        if r is None or not isinstance(raw, RawB):
            if isinstance(raw, RawB):
                raw.place.views['?'] = None
            return Unk('unpack')
        items = self.view(raw, off, r[1], r[0], node)
        return self.values_of(items, raw.place.loops)

    def meth(self, v, name, args, kw, node):
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == 'super':
            fr = v[1]
            o = fr.selfv
            if isinstance(o, Obj) and fr.cls is not None:
                m = self.p.method(o.cls, name, after=fr.cls)
                if m is not None:
                    return self.call_func(FuncV(m, None, o, m.cls), args, kw, node)
                return self.meth_obj(o, name, args, kw)
            return Unk('super')
        if isinstance(v, Handle):
            return self.meth_handle(v, name, args, kw, node)
        if isinstance(v, Obj):
            return self.meth_obj(v, name, args, kw)
        if isinstance(v, StructV):
            return self.ext('struct.' + name, [v.fmt] + args, kw, node)
        if isinstance(v, DType):
            if name == 'newbyteorder':
                o = args[0] if args else 'S'
                return DType(v.kind, '>' if o in ('>', 'B', 'big') else ('<' if o in ('<', '=', 'L', 'N', 'little', 'native') else ('<' if v.order == '>' else '>')))
            return Unk('dtype')
        if isinstance(v, Arr):
            return self.meth_arr(v, name, args, kw, node)
        if isinstance(v, ListV):
            return self.meth_list(v, name, args, kw)
        if isinstance(v, dict):
            if name == 'get':
                k = hk(args[0])
                return v.get(k, args[1] if len(args) > 1 else None) if not isinstance(k, tuple) else Unk('get')
            if name == 'keys':
                return tuple(v)
            if name == 'values':
                return tuple(v.values())
            if name == 'items':
                return tuple(v.items())
            if name == 'update' and args and isinstance(args[0], dict):
                v.update(args[0])
                return None
            return Unk('dict')
        if isinstance(v, (bytes, BytesV, RawB)):
            return self.meth_bytes(v, name, args, kw, node)
        if isinstance(v, (str, StrU, FStr)):
            return self.meth_str(v, name, args, kw)
        if isinstance(v, Q):
            if name in ('astype',):
                d = self.dtype(args[0] if args else kw.get('dtype'))
                return self.cast(v, d[0] if d else None, node)
            if name in ('item', 'copy', 'squeeze', 'conjugate'):
                return v
            if name == 'tobytes':
                return BytesV([Hole('scalar')])
            if name == 'to_bytes' and args and isinstance(args[0], Q):
                bo = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
                n = args[0].int()
                if n:
                    return BytesV([Item(('i' if kw.get('signed') is True else 'u') + str(n), q(1), '>' if bo == 'big' else '<', node, (q(1),), lambda idx: v)])
            return Unk('number method')
        if isinstance(v, SymSeq):
            if name == 'index':
                return Q.atom(('sym', 'index#%d' % self.fresh()))
            return Unk('seq method')
        if isinstance(v, tuple):
            if name == 'index' and args:
                for i, x in enumerate(v):
                    if self.truth(self.compare(ast.Eq(), x, args[0])):
                        return q(i)
                raise Raised()
            return Unk('tuple')
        for a in args:
            if isinstance(a, Handle):
                a.broken = 'passed to an unknown method'
        return Unk('method ' + name)

    def meth_obj(self, o, name, args, kw):
        if name == 'keys':
            return KeysV(o)
        if name == 'get':
            k = hk(args[0]) if args else None
            if k in o.keys:
                return o.keys[k]
            if o.closed:
                return args[1] if len(args) > 1 else None
            return Unk('get')
        if name == 'update' and args and isinstance(args[0], dict):
            o.keys.update(args[0])
            return None
        if name == 'update' and kw:
            o.keys.update(kw)
            return None
        if name == 'clear':
            o.keys.clear()
            return None
        if name == 'setdefault' and args:
            return o.keys.setdefault(hk(args[0]), args[1] if len(args) > 1 else None)
        if name == 'pop':
            return o.keys.pop(hk(args[0]), args[1] if len(args) > 1 else Unk('pop')) if args else Unk('pop')
        if name == '__init__':
            return None
        return Unk('object method')

    def meth_handle(self, h, name, args, kw, node):
        if name in ('__enter__', 'flush', 'close', 'fileno', '__exit__', 'readable', 'writable'):
            return h
        if name == 'read':
            size = args[0] if args else None
            if isinstance(size, Q) and size.value() is not None and size.value() < 0:
                size = None
            if size is not None and not isinstance(size, Q):
                h.broken = 'read of an unknown size'
                return Unk('read')
            if h.mode and 'b' not in h.mode:
                h.broken = 'text'
                return StrU('read%d' % self.fresh())
            p = Place(size, self.lvs(), node)
            self.emit(h, p)
            return RawB(p, q(0), size)
        if name == 'readinto' and args and isinstance(args[0], Arr):
            a = args[0]
            it = self.from_stream(h, a.dtype or 'f8', '<', a.shape, node)
            a.fn = it
            return Unk('n')
        if name in ('write', 'writelines'):
            v = args[0] if args else None
            if name == 'writelines':
                h.broken = 'writelines'
                return None
            if isinstance(v, Arr):
                v = self.bytes_of(v, 'C', node)
            b = self.asbytes(v)
            if b is None and isinstance(v, RawB):
                b = [Item('u1', v.size, node=node)] if v.size is not None else None
            if b is None:
                b = [Hole('written value')]
            for it in b:
                if isinstance(it, Item) and it.node is None:
                    it.node = node
                self.emit(h, it)
            return Unk('n')
        if name == 'getvalue':
            return BytesV(list(h.stream))
        if name in ('getbuffer',):
            return BytesV(list(h.stream))
        if name == 'seek':
            k = args[0].int() if args and isinstance(args[0], Q) else None
            if not (k == 0 and not h.stream):
                h.broken = 'seek'
            return Unk('pos')
        if name == 'tell':
            return self.unk('tell')
        h.broken = name
        return Unk('handle ' + name)

    def from_stream(self, h, kind, order, shape, node):
        n = q(1)
        for s in shape:
            n = n * s
        it = Item(kind, n, order, node, tok=self.fresh())
        self.emit(h, it)
        lv = self.lvs()
        return lambda idx: Q.atom(('raw', it.tok, lv, self.lin(shape, idx, 'C')))

    def meth_list(self, v, name, args, kw):
        if name == 'append':
            self.nest(v.parts, v.level).append(args[0] if args else None)
            return None
        if name == 'extend' and args:
            s = self.seq(args[0])
            if s[0] == 'const':
                self.nest(v.parts, v.level).extend(s[1])
            else:
                rec = LoopRec(('idx', 'X%d' % self.fresh()), s[1])
                self.nest(v.parts, v.level).append(Rep(rec, [s[2](rec.q)]))
            return None
        if name == 'copy':
            return ListV(list(v.parts), len(self.loops))
        if name == 'index':
            if not any(isinstance(p, (Rep, Hole)) for p in v.parts) and args:
                return self.meth(tuple(v.parts), 'index', args, kw, None)
            return Q.atom(('sym', 'index#%d' % self.fresh()))
        if name in ('insert', 'pop', 'remove', 'sort', 'reverse', 'clear'):
            if name == 'insert' and len(args) == 2 and isinstance(args[0], Q) and args[0].int() == 0 and len(self.loops) == v.level:
                v.parts.insert(0, args[1])
                return None
            if name == 'clear':
                v.parts[:] = []
                return None
            v.parts[:] = [Hole(name)]
            return Unk(name)
        return Unk('list ' + name)

    def meth_bytes(self, v, name, args, kw, node):
        if name in ('decode', 'strip', 'rstrip', 'lstrip', 'hex'):
            n = self.length(v)
            return StrU('dec%d' % self.fresh(), n if name == 'decode' else None)
        if name == 'ljust' and args and isinstance(args[0], Q):
            return BytesV([Item('u1', args[0], node=node)])        # given that the text is not longer
        if name == 'join' and isinstance(v, bytes) and not v and args:
            out = self.join(args[0])
            return BytesV(out) if out is not None else BytesV([Hole('join')])
        if name in ('extend', 'append') and isinstance(v, BytesV):
            b = self.asbytes(args[0]) if args and name == 'extend' else None
            self.nest(v.items, getattr(v, 'level', len(self.loops))).extend(b if b is not None else [Hole('extend')])
            return None
        return Unk('bytes ' + name)

    def join(self, seq):
        if isinstance(seq, ListV):
            def conv(parts):
                out = []
                for p in parts:
                    if isinstance(p, Rep):
                        s = conv(p.items)
                        if s is None:
                            return None
                        out.append(Rep(p.rec, s))
                    else:
                        b = self.asbytes(p)
                        if b is None:
                            return None
                        out += b
                return out
            return conv(seq.parts)
        if isinstance(seq, SymSeq):
            rec = LoopRec(('idx', 'X%d' % self.fresh()), seq.n)
            b = self.asbytes(seq.fn(rec.q))
            return [Rep(rec, b)] if b is not None else None
        return None

    def meth_str(self, v, name, args, kw):
        if name == 'format':
            return self.format(v, args, kw)
        if name == 'encode':
            if isinstance(v, str):
                return v.encode('utf-8', 'replace')
            enc = args[0] if args else kw.get('encoding', 'utf-8')
            n = v.length if isinstance(v, StrU) else None
            single = isinstance(enc, str) and enc.lower().replace('_', '-') in ('ascii', 'latin-1', 'latin1', 'iso-8859-1', 'cp1252', 'us-ascii')
            if isinstance(v, StrU) and not single and not v.ascii:
                n = Q.atom(('sym', 'encoded length of %s' % v.key))
            return BytesV([Item('u1', n if n is not None else self.unk('len'))])
        if name == 'join':
            return StrU('join%d' % self.fresh())
        if isinstance(v, str) and all(isinstance(a, str) for a in args) and name in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'startswith', 'endswith'):
            return getattr(v, name)(*args)
        if name in ('ljust', 'rjust', 'center', 'zfill') and args and isinstance(args[0], Q):
            return StrU('pad%d' % self.fresh(), args[0], getattr(v, 'ascii', False))   # given that the text is not longer
        if name in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'title', 'capitalize'):
            k = v.key if isinstance(v, StrU) else 's'
            return StrU('%s.%s%d' % (k, name, self.fresh()))
        if name in ('startswith', 'endswith', 'isdigit'):
            return Unk(name)
        return Unk('str ' + name)

    def meth_arr(self, a, name, args, kw, node):
        if a.shape is None or a.fn is None and name not in ('astype', 'copy', 'reshape', 'flatten', 'ravel'):
            if name == 'tofile' and args and isinstance(args[0], Handle):
                self.emit(args[0], Hole('array'))
                return None
            if name in ('tobytes', 'tostring'):
                return BytesV([Hole('array')])
            return Unk('array')
        if name == 'astype':
            d = self.dtype(args[0] if args else kw.get('dtype'))
            if d is None:
                return Arr(a.shape, a.fn, None)
            if isinstance(a.fn, type(None)):
                return Arr(a.shape, None, d[0])
            r = self.cast(a, d[0], node)
            if isinstance(r, Arr):
                r.bo = d[1]
            return r
        if name in ('copy', 'squeeze', 'conj', 'byteswap', 'view') and name != 'squeeze':
            if name in ('view', 'byteswap'):
                return Unk(name)
            r = Arr(a.shape, a.fn, a.dtype)
            r.bo, r.src = getattr(a, 'bo', '<'), getattr(a, 'src', None)
            return r
        order = kw.get('order', 'C')
        if name in ('flatten', 'ravel'):
            return self.flatten(a, args[0] if args and isinstance(args[0], str) else order)
        if name == 'reshape':
            sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, ListV)) else tuple(args)
            if isinstance(sh, ListV):
                sh = tuple(sh.parts)
            return self.np_reshape(a, sh, order)
        if name == 'transpose':
            ax = args[0] if len(args) == 1 and isinstance(args[0], (tuple, ListV)) else (tuple(args) or None)
            ax = self.axes_of(ax, len(a.shape))
            return self.transpose(a, ax) if ax != 'bad' else Unk('axes')
        if name == 'swapaxes' and len(args) == 2:
            x = self.axes_of(tuple(args), len(a.shape))
            if x == 'bad':
                return Unk('axes')
            ax = list(range(len(a.shape)))
            ax[x[0]], ax[x[1]] = ax[x[1]], ax[x[0]]
            return self.transpose(a, ax)
        if name == 'clip':
            return self.clip(a, args, kw)
        if name in REDUCE:
            return self.reduce(name, a, args[0] if args else kw.get('axis'))
        if name == 'round':
            return self.elementwise('rint', [a])
        if name in ('tobytes', 'tostring'):
            return self.bytes_of(a, args[0] if args and isinstance(args[0], str) else order, node)
        if name == 'tofile':
            h = args[0] if args else None
            if not isinstance(h, Handle):
                h = self.new_handle('wb', h)
            for it in self.bytes_of(a, 'C', node).items:
                self.emit(h, it)
            return None
        if name == 'tolist':
            return self.as_seq(a)
        if name == 'item' and not args:
            return a.fn(tuple(q(0) for _ in a.shape))
        if name == 'fill' and args:
            v = self.numeric(args[0])
            a.fn = (lambda idx: v) if isinstance(v, Q) else None
            return None
        return Unk('array ' + name)

    def as_seq(self, a):
        if len(a.shape) == 1:
            return SymSeq(a.shape[0], lambda i: a.fn((i,)))
        return SymSeq(a.shape[0], lambda i: Arr(a.shape[1:], lambda idx: a.fn((i,) + tuple(idx)), a.dtype))

    def np_reshape(self, a, sh, order):
        r = self.reshape(a, list(sh) if isinstance(sh, tuple) else [sh], order)
        if isinstance(r, Arr):
            r.bo = getattr(a, 'bo', '<')
            if len(r.shape) == 1 and getattr(a, 'src', None):
                r.src = a.src
        return r

    def clip(self, a, args, kw):
        lo = args[0] if args else kw.get('a_min', kw.get('min'))
        hi = args[1] if len(args) > 1 else kw.get('a_max', kw.get('max'))
        if lo is None or hi is None:
            return Unk('clip')
        return self.elementwise('clip', [a, lo, hi])

    # ---------------------------------------------------------------- library functions
    def shape_of(self, v):
        if isinstance(v, Q):
            return [v]
        if isinstance(v, (tuple, ListV)):
            s = self.seq(v)
            if s[0] == 'const' and all(isinstance(x, Q) for x in s[1]):
                return list(s[1])
        return None

    def ext(self, name, args, kw, node):
        short = name.split('.')[-1]
        np = name.startswith('numpy.')
        if name.startswith('struct.'):
            return self.ext_struct(short, args, kw, node)
        if any(isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == '*' for a in args):
            return Unk('star')
        if name in ('open', 'io.open', 'builtins.open', 'codecs.open', 'os.fdopen', 'gzip.open', 'bz2.open'):
            mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
            h = self.new_handle(mode if isinstance(mode, str) else '?', args[0] if args else None)
            if short != 'open' or name.split('.')[0] not in ('open', 'io', 'builtins'):
                h.broken = 'not a plain file'
            return h
        if name in ('io.BytesIO',):
            h = Handle('mem', None)
            h.level = len(self.loops)
            return h
        if name in ('range', 'numpy.arange', 'xrange', 'numpy.ndindex') and short in ('range', 'arange', 'xrange'):
            a = [self.numeric(x) for x in args]
            if any(not isinstance(x, Q) for x in a) or not a:
                return Unk('range')
            start, stop, step = (q(0), a[0], q(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else q(1))
            n = (stop - start) / step
            if len(a) > 2 and step.int() != 1:
                i, j, k = start.int(), stop.int(), step.int()
                if None in (i, j, k):
                    if step.int() == -1 and short == 'range':
                        return SymSeq(start - stop, lambda i: start - i)
                    n = self.unk('range') if short == 'range' else Q.atom(('sym', 'arange#%d' % self.fresh()))
                else:
                    n = q(len(range(i, j, k)))
            if short == 'arange':
                return Arr([n], lambda idx: start + idx[0] * step)
            return SymSeq(n, lambda i: start + i * step)
        if name == 'len' and args:
            return self.length(args[0])
        if name in ('min', 'max') and args:
            xs = args
            if len(args) == 1:
                s = self.seq(args[0]) if not isinstance(args[0], Arr) else ('sym',)
                if s[0] != 'const':
                    return self.reduce(short, args[0], None)
                xs = s[1]
            return self.elementwise(short, list(xs)) if all(isinstance(self.numeric(x), Q) for x in xs) else Unk(short)
        if name in ('list', 'tuple', 'iter', 'sorted', 'reversed', 'numpy.atleast_1d'):
            if not args:
                return ListV([], len(self.loops))
            if name == 'sorted':
                return Unk('sorted')
            v = args[0]
            if name == 'reversed':
                s = self.seq(v)
                return ListV(s[1][::-1], len(self.loops)) if s[0] == 'const' else SymSeq(s[1], lambda i: s[2](s[1] - 1 - i))
            if name == 'list' and isinstance(v, (ListV, tuple)):
                return ListV(list(v.parts if isinstance(v, ListV) else v), len(self.loops))
            if name == 'tuple' and isinstance(v, ListV) and not any(isinstance(p, (Rep, Hole)) for p in v.parts):
                return tuple(v.parts)
            if isinstance(v, StrU):
                return SymSeq(v.length, lambda i: Unk('char'))
            return v
        if name == 'enumerate' and args:
            s = self.seq(args[0])
            st = self.numeric(args[1]) if len(args) > 1 else q(0)
            if s[0] == 'const':
                return ListV([(st + i, x) for i, x in enumerate(s[1])], len(self.loops))
            return SymSeq(s[1], lambda i: (st + i, s[2](i)))
        if name == 'zip' and args:
            ss = [self.seq(a) for a in args]
            if all(s[0] == 'const' for s in ss):
                return ListV(list(zip(*[s[1] for s in ss])), len(self.loops))
            sy = [s for s in ss if s[0] == 'sym']
            ok = all((self.norm(s[1] - sy[0][1])).zero() for s in sy[1:]) and len(sy) == len(ss)
            n = sy[0][1] if ok else self.unk('zip')
            return SymSeq(n, lambda i: tuple(s[2](i) if s[0] == 'sym' else Unk('zip') for s in ss))
        if name == 'map' and len(args) == 2:
            s = self.seq(args[1])
            if s[0] == 'const':
                return ListV([self.call(args[0], [x], {}, node, None) for x in s[1]], len(self.loops))
            return SymSeq(s[1], lambda i: self.call(args[0], [s[2](i)], {}, node, None))
        if name == 'ord' or name == 'chr':
            return Q.atom(('op', 'ord', self.fresh())) if name == 'ord' else StrU('chr%d' % self.fresh(), q(1))
        if name in ('print', 'warnings.warn', 'setattr', 'time.sleep', 'gc.collect'):
            return None
        if name in ('isinstance', 'hasattr', 'callable', 'issubclass'):
            return Unk(name)
        if name == 'str':
            v = args[0] if args else ''
            if isinstance(v, (str, StrU)):
                return v
            f = self.fstr(v)
            return self.simplify(f.parts) if f is not None else StrU('str%d' % self.fresh())
        if name == 'bytes' or name == 'bytearray':
            if not args:
                b = BytesV([])
                b.level = len(self.loops)
                return b
            v = args[0]
            if isinstance(v, (BytesV, bytes, RawB)):
                return v
            if isinstance(v, Q):
                return BytesV([Item('u1', v)])
            if isinstance(v, (ListV, tuple, SymSeq)):
                return BytesV([Item('u1', self.length(v))])
            if isinstance(v, (str, StrU)):
                return self.meth_str(v, 'encode', args[1:], kw)
            return BytesV([Hole('bytes')])
        if name in ('time.strftime', 'time.ctime', 'time.asctime'):
            return StrU('time%d' % self.fresh())
        if name in ('os.path.basename', 'os.path.splitext', 'os.path.join', 'os.path.abspath', 'os.path.dirname', 'os.fspath'):
            return StrU('path%d' % self.fresh()) if short != 'splitext' else (StrU('path%d' % self.fresh()), StrU('ext%d' % self.fresh()))
        if name in ('os.path.getsize',):
            return self.unk('file size')
        if name in CAST or name in SMALL:
            if not args:
                return q(0)
            v = args[0]
            if isinstance(v, (str, StrU)):
                return self.unk('number text')
            return self.cast(v, SMALL.get(name), node)
        if name in ('abs', 'round', 'pow', 'divmod', 'math.ceil', 'math.floor', 'math.sqrt'):
            v = self.numeric(args[0]) if args else None
            if isinstance(v, (Q, Arr)) and name != 'divmod':
                if name in ('round',):
                    return self.elementwise('rint', [v])
                return self.elementwise(short, [v])
            return Unk(name)
        if name == 'sum' and args:
            s = self.seq(args[0])
            if s[0] == 'const':
                t = q(0)
                for x in s[1]:
                    t = self.binop('+', t, x)
                return t
            return self.unk('sum')
        if name == 'getattr' and len(args) >= 2 and isinstance(args[1], str):
            return self.getattr(args[0], args[1], node, None)
        if np or name.startswith('math.'):
            return self.ext_np(short, name, args, kw, node)
        if name in ('os.path.isfile', 'os.path.exists'):
            return Unk('isfile')
        for a in args:
            if isinstance(a, Handle):
                a.broken = 'passed to ' + name
        return Unk(name)

    def ext_struct(self, short, args, kw, node):
        fmt = args[0] if args else kw.get('fmt')
        if short == 'Struct':
            return StructV(fmt)
        if short == 'calcsize':
            return self.calcsize(fmt)
        if short == 'pack':
            b = self.pack(fmt, args[1:], node)
            return b if b is not None else BytesV([Hole('pack')])
        if short in ('unpack', 'unpack_from', 'iter_unpack'):
            buf = args[1] if len(args) > 1 else kw.get('buffer')
            off = (args[2] if len(args) > 2 else kw.get('offset', q(0))) if short == 'unpack_from' else q(0)
            if not isinstance(off, Q) or short == 'iter_unpack':
                if isinstance(buf, RawB):
                    buf.place.views['?'] = None
                return Unk('unpack')
            return self.raw_values(buf, fmt, off, node)
        return Unk('struct')

    def ext_np(self, short, name, args, kw, node):
        dt = self.dtype(kw['dtype']) if 'dtype' in kw else None
        if short in ('zeros', 'ones', 'empty', 'full') and args:
            sh = self.shape_of(args[0] if 'shape' not in kw else kw['shape'])
            k = 2 if short == 'full' else 1
            if len(args) > k and dt is None:
                dt = self.dtype(args[k])
            if sh is None:
                return Arr(None, None, dt[0] if dt else 'f8')
            v = {'zeros': q(0), 'ones': q(1), 'empty': None}.get(short, self.numeric(args[1]) if len(args) > 1 else None)
            if short == 'empty':
                tag = self.fresh()
                fn = (lambda idx: Q.atom(('op', 'uninitialised', tag) + tuple(idx)))
            else:
                fn = (lambda idx: v) if isinstance(v, Q) else None
            a = Arr(sh, fn, dt[0] if dt else 'f8')
            a.bo = dt[1] if dt else '<'
            return a
        if short in ('zeros_like', 'ones_like', 'empty_like', 'full_like') and args and isinstance(args[0], Arr):
            return self.ext_np(short[:-5], name, [tuple(args[0].shape) if args[0].shape is not None else Unk('shape')] + args[1:], kw or {}, node) \
                if dt or not args[0].dtype else self.ext_np(short[:-5], name, [tuple(args[0].shape or ())] + args[1:], {'dtype': args[0].dtype}, node)
        if short in ('array', 'asarray', 'ascontiguousarray', 'asfortranarray', 'asanyarray', 'copy', 'atleast_1d', 'atleast_2d', 'asfarray') and args:
            v = args[0]
            if len(args) > 1 and dt is None:
                dt = self.dtype(args[1])
            if isinstance(v, (ListV, tuple, SymSeq)):
                v2 = self.to_arr(v)
                if v2 is None:
                    return Unk('array')
                v = v2
            if isinstance(v, bool):
                v = q(int(v))
            if isinstance(v, Q):
                if dt and (dt[0] == 'f2' or dt[0][0] in 'iu' and int(dt[0][1:]) < 4):
                    self.narrow(v, dt[0], node)
                x = v
                a = Arr([], lambda idx: x, dt[0] if dt else None)
                a.bo = dt[1] if dt else '<'
                return a
            if isinstance(v, Arr):
                if v.fn is not None and v.shape is not None and dt:
                    r = self.cast(v, dt[0], node)
                    if isinstance(r, Arr):
                        r.bo = dt[1]
                    return r
                r = Arr(v.shape, v.fn, v.dtype)
                r.bo, r.src = getattr(v, 'bo', '<'), getattr(v, 'src', None)
                if short in ('asarray', 'asanyarray', 'ascontiguousarray'):
                    r.base = getattr(v, 'base', None)
                return r
            return Unk('array')
        if short == 'frombuffer' and args:
            raw = args[0]
            if not dt and len(args) > 1:
                dt = self.dtype(args[1])
            if 'dtype' not in kw and len(args) < 2:
                dt = ('f8', '<')
            off = kw.get('offset', args[3] if len(args) > 3 else q(0))
            cnt = kw.get('count', args[2] if len(args) > 2 else None)
            if not isinstance(raw, RawB) or dt is None or not isinstance(off, Q):
                if isinstance(raw, RawB):
                    raw.place.views['?'] = None
                return Unk('frombuffer')
            if isinstance(cnt, Q) and cnt.int() == -1:
                cnt = None
            if cnt is None:
                cnt = (raw.size - off) / int(dt[0][1:]) if raw.size is not None else Q.atom(('rest', self.fresh()))
            items = self.view(raw, off, [(dt[0], cnt, '')], dt[1], node)
            lv, it = raw.place.loops, items[0]
            return Arr([cnt], lambda idx: Q.atom(('raw', it.tok, lv, idx[0])), dt[0])
        if short == 'fromfile' and args:
            h = args[0]
            if not dt and len(args) > 1:
                dt = self.dtype(args[1])
            if 'dtype' not in kw and len(args) < 2:
                dt = ('f8', '<')
            cnt = kw.get('count', args[2] if len(args) > 2 else None)
            if dt is None or 'offset' in kw or 'sep' in kw:
                if isinstance(h, Handle):
                    h.broken = 'fromfile'
                return Unk('fromfile')
            if not isinstance(h, Handle):
                h = self.new_handle('rb', h)
            if cnt is None or isinstance(cnt, Q) and cnt.int() == -1:
                cnt = Q.atom(('rest', self.fresh()))
            if not isinstance(cnt, Q):
                h.broken = 'fromfile'
                return Unk('fromfile')
            return Arr([cnt], self.from_stream(h, dt[0], dt[1], [cnt], node), dt[0])
        if short == 'dtype' and args:
            d = self.dtype(args[0])
            return DType(*d) if d else Unk('dtype')
        if short == 'reshape' and len(args) > 1:
            a = self.to_arr(args[0])
            sh = args[1]
            return self.np_reshape(a, tuple(sh.parts) if isinstance(sh, ListV) else (sh if isinstance(sh, tuple) else (sh,)), args[2] if len(args) > 2 else kw.get('order', 'C')) \
                if a is not None else Unk('reshape')
        if short in ('transpose', 'flip', 'fliplr', 'flipud', 'swapaxes', 'moveaxis', 'ravel', 'squeeze', 'expand_dims', 'rollaxis') and args:
            a = self.to_arr(args[0])
            if a is None or a.shape is None or a.fn is None:
                return Unk(short)
            n = len(a.shape)
            if short == 'transpose':
                ax = self.axes_of(args[1] if len(args) > 1 else kw.get('axes'), n)
                return self.transpose(a, ax) if ax != 'bad' else Unk('axes')
            if short == 'flip':
                return self.flip(a, self.axes_of(args[1] if len(args) > 1 else kw.get('axis'), n))
            if short == 'flipud':
                return self.flip(a, [0])
            if short == 'fliplr':
                return self.flip(a, [1])
            if short == 'ravel':
                return self.flatten(a, kw.get('order', 'C'))
            if short == 'swapaxes':
                return self.meth_arr(a, 'swapaxes', args[1:], kw, node)
            if short == 'moveaxis' and len(args) == 3:
                s, d = self.axes_of(args[1], n), self.axes_of(args[2], n)
                if s == 'bad' or d == 'bad' or len(s) != len(d):
                    return Unk('axes')
                rest = [i for i in range(n) if i not in s]
                out = [None] * n
                for x, y in zip(s, d):
                    out[y] = x
                out = [x if x is not None else rest.pop(0) for x in out]
                return self.transpose(a, out)
            return Unk(short)
        if short in ('concatenate', 'hstack', 'vstack', 'column_stack', 'append', 'insert', 'stack') and args:
            return self.concat(short, args, kw)
        if short == 'clip' and args:
            return self.clip(args[0], args[1:], kw)
        if short in ('minimum', 'fmin'):
            return self.elementwise('min', args)
        if short in ('maximum', 'fmax'):
            return self.elementwise('max', args)
        if short in ROUND:
            return self.elementwise('rint', args[:1])
        if short in ('multiply', 'add', 'subtract', 'divide', 'true_divide', 'floor_divide') and len(args) == 2:
            return self.binop({'multiply': '*', 'add': '+', 'subtract': '-', 'divide': '/', 'true_divide': '/', 'floor_divide': '//'}[short], args[0], args[1])
        if short == 'outer' and len(args) == 2:
            a, b = self.to_arr(args[0]), self.to_arr(args[1])
            if a is not None and b is not None and len(a.shape) == len(b.shape) == 1:
                return Arr([a.shape[0], b.shape[0]], lambda idx: self.arith('*', a.fn((idx[0],)), b.fn((idx[1],))))
            return Unk('outer')
        if short == 'linspace' and len(args) >= 3 and all(isinstance(x, Q) for x in args[:3]):
            a, b, n = args[:3]
            return Arr([n], lambda idx: a + (b - a) * idx[0] / (n - 1))
        if short in ('isnan', 'isinf', 'isfinite') and args:
            v = self.numeric(args[0])
            if isinstance(v, Arr) and v.fn is not None and v.shape is not None and all(d.int() == 1 for d in v.shape):
                v = v.fn(tuple(q(0) for _ in v.shape))
            if isinstance(v, Q):
                if v.value() is not None:
                    return short == 'isfinite'
                if short == 'isfinite':
                    return not self.truth(AskV(('isnan', v), 'isnan'))
                return AskV(('isnan', v), 'isnan')
            return Mask()
        if short == 'where' and len(args) == 3:
            if isinstance(args[0], (Mask, Unk)):
                return Unk('where')
            return args[1] if self.truth(args[0]) else args[2]
        if short in ('all', 'any', 'allclose', 'array_equal', 'isclose'):
            return Unk(short)
        if short == 'shape' and args:
            a = self.to_arr(args[0])
            return tuple(a.shape) if a is not None and a.shape is not None else Unk('shape')
        if short == 'size' and args:
            a = self.to_arr(args[0])
            return self.getattr(a, 'size', node, None) if a is not None else Unk('size')
        if short == 'ndim' and args:
            a = self.to_arr(args[0])
            return q(len(a.shape)) if a is not None and a.shape is not None else Unk('ndim')
        if short in REDUCE and args:
            return self.reduce(short, args[0], args[1] if len(args) > 1 else kw.get('axis'))
        if short in ELEM and args:
            return self.elementwise(short, args)
        if short == 'diff' and args:
            a = self.to_arr(args[0])
            if a is not None and a.shape is not None and len(a.shape) == 1 and a.fn is not None:
                return Arr([a.shape[0] - 1], lambda idx: a.fn((idx[0] + 1,)) - a.fn((idx[0],)))
            return Unk('diff')
        if short == 'iinfo' and args:
            d = self.dtype(args[0])
            if d and d[0][0] in 'iu':
                b = 8 * int(d[0][1:])
                o = Obj(None, {'min': q(-2 ** (b - 1) if d[0][0] == 'i' else 0), 'max': q(2 ** (b - 1) - 1 if d[0][0] == 'i' else 2 ** b - 1)}, {}, True)
                return o
        return Unk(name)

    def concat(self, short, args, kw):
        if short in ('append', 'insert'):
            return Unk(short)
        parts = self.seq(args[0])
        ax = args[1] if len(args) > 1 else kw.get('axis', q(0))
        if parts[0] != 'const':
            return Unk('concatenate')
        arrs = [self.to_arr(x) for x in parts[1]]
        if not arrs or any(a is None or a.shape is None or a.fn is None for a in arrs):
            return Unk('concatenate')
        if short == 'column_stack':
            arrs = [Arr([a.shape[0], q(1)], lambda idx, a=a: a.fn((idx[0],)), a.dtype) if len(a.shape) == 1 else a for a in arrs]
            ax = q(1)
        if short == 'vstack':
            arrs = [Arr([q(1), a.shape[0]], lambda idx, a=a: a.fn((idx[1],)), a.dtype) if len(a.shape) == 1 else a for a in arrs]
            ax = q(0)
        if short == 'stack':
            return Unk('stack')
        if short == 'hstack':
            ax = q(0) if len(arrs[0].shape) == 1 else q(1)
        k = ax.int() if isinstance(ax, Q) else None
        n = len(arrs[0].shape)
        if k is None or any(len(a.shape) != n for a in arrs):
            return Unk('concatenate')
        k = k + n if k < 0 else k
        starts, tot = [], q(0)
        for a in arrs:
            starts.append(tot)
            tot = tot + a.shape[k]
        sh = list(arrs[0].shape)
        sh[k] = tot

        def fn(idx):
            i = self.norm(idx[k])
            for a, s in reversed(list(zip(arrs, starts))):
                d = self.norm(i - s)
                if d.zero() or d.positive() or d.value() is not None and d.value() >= 0 or s.zero() or all(c > 0 for c in d.n.values()):
                    if s.zero() and len(arrs) > 1 and a is arrs[0]:
                        lim = self.norm(i - starts[1])
                        if not (-lim).positive() and not (lim.value() is not None and lim.value() < 0):
                            return self.unk('concatenate')
                    return a.fn(tuple(d if j == k else x for j, x in enumerate(idx)))
                if (-d).positive() or d.value() is not None:
                    continue
                return self.unk('concatenate')
            return self.unk('concatenate')
        return Arr(sh, fn, arrs[0].dtype)


# ---------------------------------------------------------------- results
class Region:
    def __init__(self, kind, order, count, members, node):
        self.kind, self.order, self.count, self.members, self.node = kind, order, count, members, node      # members: (item, offset, [LoopRec])


class Fields:
    """the flat layout of a stream"""
    def __init__(self, run, h):
        self.run, self.problem = run, h.broken
        self.regions = []
        if self.problem is None:
            r = self.flat(h.stream)
            if r is not None:
                self.regions = r
        self.tok = {}
        for i, r in enumerate(self.regions):
            for it, off, recs in r.members:
                if it.tok is not None:
                    self.tok[it.tok] = (i, off, recs)

    def fail(self, why):
        if self.problem is None:
            self.problem = why
        return None

    def place(self, p):
        run = self.run
        if '?' in p.views:
            return self.fail('bytes used in an unknown way')
        if not p.views:
            return [Item('u1', p.size, '<', p.node)] if p.size is not None else self.fail('rest of the file not interpreted')
        views = list(p.views.items())
        pos = q(0)
        out = []
        todo = [(q(k[0]), items) for k, items in views]
        while todo:
            nxt = [v for v in todo if run.norm(v[0] - pos).zero()]
            if not nxt:
                return self.fail('bytes used in an unknown order')
            v = nxt[0]
            todo.remove(v)
            for it in v[1]:
                out.append(it)
                pos = pos + it.count * int(it.kind[1:])
        if p.size is not None:
            rest = run.norm(p.size - pos)
            if not rest.zero():
                if has_unk(rest) or any(a[0] == 'rest' for a in deep_atoms(rest)):
                    return self.fail('size of a read')
                it = Item('u1', rest, '<', p.node)
                it.gap = True
                out.append(it)
        return out

    def flat(self, stream):
        run = self.run
        out = []

        def add(kind, order, count, members, node):
            if count.zero():
                return
            if order == '>' and kind[1:] == '1':
                order = '<'
            if out and out[-1].kind == kind and out[-1].order == order and kind != 'mixed':
                last = out[-1]
                for it, off, recs in members:
                    last.members.append((it, off + last.count, recs))
                last.count = last.count + count
            else:
                out.append(Region(kind, order, count, list(members), node))
        for e in stream:
            if isinstance(e, Hole):
                return self.fail('written value not understood: ' + e.why)
            if isinstance(e, Place):
                its = self.place(e)
                if its is None:
                    return None
            elif isinstance(e, Item):
                its = [e]
            elif isinstance(e, Rep):
                sub = self.flat(e.items)
                if sub is None:
                    return None
                if not sub:
                    continue
                rec = e.rec
                n = rec.n
                if len(sub) > 1 or sub[0].kind == 'mixed':
                    if n is None or has_unk(run.norm(n)):
                        return self.fail('repetition')
                    add('mixed', '<', run.norm(n), [], sub[0].node)
                    out[-1].sub = sub
                    continue
                s = sub[0]
                c = run.norm(s.count)
                if rec.delta is not None:
                    d = run.norm(rec.delta)
                    r = c / d
                    if deep_atoms(r) & (deep_atoms(d) | {rec.lv}) and not r.value():
                        return self.fail('chunked access')
                    if len(s.members) > 1:
                        return self.fail('chunked access')
                    add(s.kind, s.order, run.norm(rec.total) * r, [(it, off + rec.q * r, [rec] + recs) for it, off, recs in s.members], s.node)
                    continue
                if n is None or rec.lv in deep_atoms(c):
                    return self.fail('repetition of a varying size')
                add(s.kind, s.order, run.norm(n) * c, [(it, off + rec.q * c, [rec] + recs) for it, off, recs in s.members], s.node)
                continue
            else:
                return self.fail('stream')
            for it in its:
                if it.count is None or has_unk(run.norm(it.count)):
                    return self.fail('size of a field')
                add(it.kind, it.order, run.norm(it.count), [(it, q(0), [])], it.node)
        return out

    def resolve(self, x):
        """stream values -> ('R', region, index)"""
        run = self.run

        def f(a):
            if a[0] == 'raw' and a[1] in self.tok:
                reg, off, recs = self.tok[a[1]]
                m = {rec.lv: v for rec, v in zip(recs, a[2])} if len(recs) <= len(a[2]) else {}
                if len(a[2]) > len(recs):
                    m = {rec.lv: v for rec, v in zip(recs, a[2][len(a[2]) - len(recs):])}
                o = off.subst(lambda b: m.get(b)) + a[3]
                return Q.atom(('R', reg, o))
            return None
        for _ in range(6):
            try:
                y = run.norm(run.norm(x).subst(f))
            except TooBig:
                return run.unk('too big')
            if y == x:
                break
            x = y
        return x
