"""class-context call graph: nodes are (function, class the receiver belongs to or None)"""
import ast
from .model import walk_own

# method names that builtin containers, arrays, frames, strings and file objects have: not resolved by name on unknown receivers
COMMON = set('''append extend insert pop remove clear copy update get keys values items setdefault sort reverse index count add discard
    read write readline readlines writelines close seek tell flush open format join split strip lstrip rstrip replace lower upper find startswith
    endswith encode decode astype reshape ravel flatten mean std min max sum tolist transpose dot squeeze fill tofile tostring to_csv to_excel
    set_index reset_index rename drop insert apply map plot group groups match search sub isdigit load dump save title name size shape data
    filename comment'''.split())


class Graph:
    def __init__(self, proj):
        self.p = proj
        self.byname = {}
        for c in proj.classes.values():
            for m in c.methods.values():
                self.byname.setdefault(m.name, []).append((m, c))
        self.cache = {}
        self.types = {}

    def local_types(self, fn):
        """names of locals bound (only) to instances of one package class"""
        if fn.key in self.types:
            return self.types[fn.key]
        out, bad = {}, set()
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        r = None
                        if isinstance(n.value, ast.Call):
                            r = self.resolve(n.value.func, fn)
                        if r and r[0] == 'class' and (t.id not in out or out[t.id] is r[1]):
                            out[t.id] = r[1]
                        else:
                            bad.add(t.id)
            elif isinstance(n, (ast.For, ast.comprehension)):
                bad |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        for b in bad:
            out.pop(b, None)
        self.types[fn.key] = out
        return out

    def resolve(self, e, fn):
        try:
            return self.p.resolve_expr(e, fn.mod, fn)
        except Exception:
            return None

    def receiver(self, e, fn, cls):
        """class of a receiver expression, or None"""
        top = fn
        while top.parent is not None:
            top = top.parent
        if isinstance(e, ast.Name):
            if cls is not None and top.params and e.id == top.params[0] and top.is_method and not top.is_static:
                return cls
            return self.local_types(fn).get(e.id) or (self.local_types(top).get(e.id) if top is not fn else None)
        if isinstance(e, ast.Call):
            r = self.resolve(e.func, fn)
            if r and r[0] == 'class':
                return r[1]
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and cls is not None and top.params and e.value.id == top.params[0]:
            return self.attr_class(cls, e.attr)
        return None

    def attr_class(self, cls, attr):
        k = (cls.key, attr)
        if k not in self.types:
            found, other = set(), False
            for c in self.p.mro(cls):
                for m in c.methods.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Assign):
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and m.params and t.value.id == m.params[0]:
                                    r = self.resolve(n.value.func, m) if isinstance(n.value, ast.Call) else None
                                    if r and r[0] == 'class':
                                        found.add(r[1].key)
                                    elif not (isinstance(n.value, ast.Constant) and n.value.value is None):
                                        other = True
            self.types[k] = self.p.classes[found.pop()] if len(found) == 1 and not other else None
        return self.types[k]

    def succ(self, fn, cls):
        """[(fn, cls, node)]"""
        k = (fn.key, cls.key if cls else None)
        if k in self.cache:
            return self.cache[k]
        out = []
        top = fn
        while top.parent is not None:
            top = top.parent
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super' and cls is not None and top.cls:
                    m = self.p.method(cls, n.attr, after=top.cls)
                    if m:
                        out.append((m, cls, n))
                    continue
                rc = self.receiver(n.value, fn, cls)
                if rc is not None:
                    m = self.p.method(rc, n.attr)
                    if m:
                        out.append((m, rc, n))
                    continue
                r = self.resolve(n, fn)
                if r and r[0] == 'func':
                    out.append((r[1], r[1].cls if r[1].cls and cls is None else (cls if r[1].cls and cls and r[1].cls in self.p.mro(cls) else r[1].cls), n))
                elif r and r[0] == 'class':
                    self.ctor(r[1], n, out)
                elif (r is None or r[0] == 'var') and n.attr not in COMMON and not n.attr.startswith('__') and n.attr in self.byname \
                        and len(self.byname[n.attr]) <= 6:
                    for m, c in self.byname[n.attr]:
                        out.append((m, c, n))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = self.resolve(n, fn)
                if r and r[0] == 'func' and r[1] is not fn:
                    if r[1].parent is None:
                        out.append((r[1], r[1].cls, n))
                elif r and r[0] == 'class':
                    self.ctor(r[1], n, out)
            elif isinstance(n, (ast.Subscript,)) and cls is not None:
                rc = self.receiver(n.value, fn, cls)
                if rc is not None:
                    m = self.p.method(rc, {ast.Load: '__getitem__', ast.Store: '__setitem__', ast.Del: '__delitem__'}[type(n.ctx)])
                    if m:
                        out.append((m, rc, n))
        self.cache[k] = out
        return out

    def ctor(self, c, node, out):
        m = self.p.method(c, '__init__')
        if m:
            out.append((m, c, node))

    def reach(self, roots, stop=lambda f, c: False):
        """{(key, clskey): (fn, cls, predecessor key)}"""
        seen, todo = {}, []
        for f, c in roots:
            k = (f.key, c.key if c else None)
            if k not in seen:
                seen[k] = (f, c, None)
                todo.append((f, c))
        while todo:
            f, c = todo.pop(0)
            k = (f.key, c.key if c else None)
            if stop(f, c):
                continue
            for g, gc, n in self.succ(f, c):
                gk = (g.key, gc.key if gc else None)
                if gk not in seen:
                    seen[gk] = (g, gc, k)
                    todo.append((g, gc))
        return seen

    def path(self, seen, k):
        out = []
        while k is not None:
            f, c, prev = seen[k]
            out.append('%s%s' % (f.key, ' (as %s)' % c.name if c is not None and f.cls is not c else ''))
            k = prev
        return list(reversed(out))
