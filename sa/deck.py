"""input decks: which file a module is read from and which file it is written to

read side : self.<data>[M] = self._read(<path>)      the last part of <path> comes from self.<data>[O][K]   ->  module M is found through key K of module O
write side: X = copy of self.<data>[O];  X[K] = ...<file>...;  self.<data>[M].write(<file>)  (or a copy of it)
"""
import ast
from itertools import product

WRAP = {'deepcopy', 'copy'}


def const(e):
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None


class Deck:
    def __init__(self, proj, c):
        self.proj, self.c = proj, c
        self.meths = {}
        for b in reversed(proj.mro(c)):
            self.meths.update(b.methods)

    # -------------------------------------------------------------- values of names
    @staticmethod
    def binds(fn):
        d = {}
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        d.setdefault(t.id, []).append(n.value)
        return d

    def reaching(self, use, fn):
        """values that a name may have where it is used: the last assignment that is always passed before, and those on branches after it"""
        parents = {c: p for p in ast.walk(fn.node) for c in ast.iter_child_nodes(p)}
        if use not in parents:
            return self.binds(fn).get(use.id, [])
        up = [use]
        while up[-1] in parents:
            up.append(parents[up[-1]])
        found = []
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign) and n not in up and any(isinstance(t, ast.Name) and t.id == use.id for t in n.targets) and n.lineno <= use.lineno:
                found.append((n.lineno, n.col_offset, any(n in getattr(a, b, ()) for a in up for b in ('body', 'orelse', 'finalbody') if isinstance(getattr(a, b, None), list)
                                                          and any(x in getattr(a, b) for x in up)), n.value))
        found.sort(key=lambda x: x[:2])
        last = max([i for i, x in enumerate(found) if x[2]], default=0)
        return [x[3] for x in found[last:]]

    def strings(self, e, fn, d=0):
        """constant strings an expression may be (None: unknown)"""
        if const(e) is not None:
            return {const(e)}
        if isinstance(e, ast.IfExp):
            a, b = self.strings(e.body, fn, d), self.strings(e.orelse, fn, d)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.Name) and d < 4:
            vs = self.binds(fn).get(e.id, [])
            out = set()
            a = fn.node.args
            ps = [x.arg for x in a.args]
            if e.id in ps:
                i = ps.index(e.id) - len(ps) + len(a.defaults)
                vals = [a.defaults[i]] if i >= 0 else []
                for g in self.meths.values():
                    for n in ast.walk(g.node):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == fn.name:
                            for k in n.keywords:
                                if k.arg == e.id:
                                    s = self.strings(k.value, g, d + 1)
                                    if s is None:
                                        return None
                                    out |= s
                vs = vs + vals
            for v in vs:
                s = self.strings(v, fn, d + 1)
                if s is None:
                    return None
                out |= s
            return out or None
        return None

    def module(self, e, fn, env, d=0):
        """modules self.<data>[M] an expression may be (also copies of them)"""
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and isinstance(e.value.value, ast.Name) and e.value.value.id == 'self':
            return self.strings(self.sub(e.slice, env), fn) or set()
        if isinstance(e, ast.Call) and e.args and (e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', '')) in WRAP:
            return self.module(e.args[0], fn, env, d)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in WRAP and not e.args:
            return self.module(e.func.value, fn, env, d)
        if isinstance(e, ast.Name) and d < 4:
            if e.id in env:
                return self.module(env[e.id], fn, env, d + 1)
            out = set()
            for v in self.binds(fn).get(e.id, []):
                out |= self.module(v, fn, env, d + 1)
            return out
        return set()

    @staticmethod
    def sub(e, env):
        return env.get(e.id, e) if isinstance(e, ast.Name) else e

    # -------------------------------------------------------------- read side
    def source(self, e, fn, d=0):
        """(O, K) the last part of a path comes from"""
        if d > 6:
            return set()
        if isinstance(e, ast.Subscript):
            k = self.strings(e.slice, fn)
            o = self.module(e.value, fn, {})
            return {(a, b) for a in o for b in k} if k else set()
        if isinstance(e, ast.Name):
            out = set()
            for v in self.reaching(e, fn):
                out |= self.source(v, fn, d + 1)
            return out
        if isinstance(e, ast.IfExp):
            return self.source(e.body, fn, d + 1) | self.source(e.orelse, fn, d + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            if e.func.attr == 'join' and e.args:
                return self.source(e.args[-1], fn, d + 1)
            if e.func.attr in ('replace', 'strip'):
                return self.source(e.func.value, fn, d + 1)
            if isinstance(e.func.value, ast.Name) and e.func.value.id == 'self':
                g = self.meths.get(e.func.attr)
                if g is not None and len(e.args) == 1:
                    return self.source(e.args[0], fn, d + 1)
            return set()
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
            g = self.meths.get(e.attr)
            out = set()
            if g is not None:
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        out |= self.source(n.value, g, d + 1)
            return out
        return set()

    def found_through(self):
        out, n = {}, 0
        for fn in self.meths.values():
            for s in ast.walk(fn.node):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                        isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == 'self' and 'read' in s.value.func.attr.lower() and s.value.args:
                    ms = self.module(s.targets[0], fn, {})
                    src = self.source(s.value.args[0], fn)
                    n += 1
                    for m in ms:
                        out.setdefault(m, set()).update(src)
        return out, n

    # -------------------------------------------------------------- write side
    def statements(self, body, env):
        """simple statements in source order, loops over literal tables unrolled; (statement, env, alternative path)"""
        for s in body:
            if isinstance(s, ast.For):
                rows = self.rows(s.iter, env)
                names = [s.target] if isinstance(s.target, ast.Name) else list(s.target.elts) if isinstance(s.target, ast.Tuple) else None
                if rows is None or names is None or any(not isinstance(x, ast.Name) for x in names):
                    self.blur = True
                    yield from self.statements(s.body, env)
                else:
                    for r in rows:
                        vals = [r] if isinstance(s.target, ast.Name) else list(r.elts) if isinstance(r, (ast.Tuple, ast.List)) else []
                        if len(vals) != len(names):
                            self.blur = True
                            continue
                        yield from self.statements(s.body, dict(env, **{x.id: v for x, v in zip(names, vals)}))
            elif isinstance(s, (ast.If, ast.While)):
                yield from self.statements(s.body, env)
                yield from self.statements(s.orelse, env)
            elif isinstance(s, ast.With):
                yield from self.statements(s.body, env)
            elif isinstance(s, ast.Try):
                for b in [s.body] + [h.body for h in s.handlers] + [s.orelse, s.finalbody]:
                    yield from self.statements(b, env)
            elif not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                yield s, env

    def rows(self, it, env):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and not it.args:
            v = self.local(it.func.value)
            return [ast.Tuple([k, x], ast.Load()) for k, x in zip(v.keys, v.values)] if isinstance(v, ast.Dict) and all(v.keys) else None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip' and it.args:
            cols = [self.rows(a, env) for a in it.args]
            return None if any(c is None for c in cols) else [ast.Tuple(list(r), ast.Load()) for r in zip(*cols)]
        it = self.local(it)
        return list(it.elts) if isinstance(it, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in it.elts) else None

    def local(self, e):
        if isinstance(e, ast.Name):
            vs = self.binds(self.fn).get(e.id, [])
            return vs[0] if len(vs) == 1 else e
        return e

    def token(self, e, env):
        """names of files: variables, entries of a table"""
        e = self.sub(e, env)
        if isinstance(e, ast.Name):
            vs = self.binds(self.fn).get(e.id, [])
            if len(vs) == 1 and isinstance(vs[0], (ast.Name, ast.Subscript)):
                return self.token(vs[0], env)
            return e.id
        if isinstance(e, (ast.Subscript, ast.Attribute)):
            if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Name):
                e = ast.Subscript(e.value, self.sub(e.slice, env), ast.Load())
            return ast.unparse(e)
        return None

    def fold(self, e, env, d=0):
        """(folder, base name) of a path or of the name of a file, as sequences of parts; None: unknown.  Quotes do not count"""
        if d > 10:
            return None
        if const(e) is not None:
            return (), (e.value.replace('"', ''),)
        if isinstance(e, ast.Name):
            if e.id in env:
                return self.fold(env[e.id], env, d + 1)
            vs = self.binds(self.fn).get(e.id, [])
            n = sum(1 for x in ast.walk(self.fn.node) if isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store))
            if len(vs) == n == 1 and not any(x.arg == e.id for x in self.fn.node.args.args + self.fn.node.args.kwonlyargs):
                return self.fold(vs[0], env, d + 1)
            return (), ('$' + e.id,)
        if isinstance(e, ast.Subscript):
            v = self.local(e.value)
            k = self.sub(e.slice, env)
            if isinstance(v, ast.Dict) and const(k) is not None and all(x is not None and const(x) is not None for x in v.keys):
                m = {const(x): y for x, y in zip(v.keys, v.values)}
                return self.fold(m[const(k)], env, d + 1) if const(k) in m else None
            return None
        if isinstance(e, ast.IfExp):
            x, y = const(e.body), const(e.orelse)
            if (x is None) != (y is None):
                return self.fold(e.body if x is None else e.orelse, env, d + 1)
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.fold(e.left, env, d + 1), self.fold(e.right, env, d + 1)
            return None if a is None or b is None or b[0] else (a[0], a[1] + b[1])
        if isinstance(e, ast.JoinedStr):
            out = ((), ())
            for v in e.values:
                x = self.fold(v.value if isinstance(v, ast.FormattedValue) else v, env, d + 1)
                if x is None or x[0] or isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1):
                    return None
                out = ((), out[1] + x[1])
            return out
        if isinstance(e, ast.Call) and not e.keywords:
            f = e.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if name == 'basename' and len(e.args) == 1:
                x = self.fold(e.args[0], env, d + 1)
                if x is None and isinstance(e.args[0], (ast.Attribute, ast.Subscript)):
                    x = (), ('$basename(%s)' % ast.unparse(e.args[0]),)
                return x and ((), x[1])
            if name == 'join' and len(e.args) >= 2 and isinstance(f, ast.Attribute) and isinstance(f.value, (ast.Attribute, ast.Name)):
                x = self.fold(e.args[-1], env, d + 1)
                if x is None or x[0]:
                    return None
                return tuple(ast.unparse(self.sub(y, env)) for y in e.args[:-1]), x[1]
            if name == 'replace' and isinstance(f, ast.Attribute) and len(e.args) == 2 and const(e.args[0]) == '"':
                return self.fold(f.value, env, d + 1)
            if name == 'format' and isinstance(f, ast.Attribute) and const(f.value) is not None:
                ps = f.value.value.split('{}')
                if len(ps) != len(e.args) + 1 or any('{' in x or '}' in x for x in ps):
                    return None
                out = (ps[0].replace('"', ''),)
                for x, t in zip(e.args, ps[1:]):
                    y = self.fold(x, env, d + 1)
                    if y is None or y[0]:
                        return None
                    out += y[1] + (t.replace('"', ''),)
                return (), out
            if isinstance(f, ast.Attribute) and name in ('lower', 'upper', 'strip', 'title', 'capitalize') and not e.args:
                x = self.fold(f.value, env, d + 1)
                mark = lambda v: v + '.' + name if v.startswith('$') else getattr(v, name)()
                return x and (tuple(v + '.' + name for v in x[0]), tuple(mark(v) for v in x[1]))
            # a small helper: one return of an expression of its parameters
            g = None
            if isinstance(f, ast.Name):
                vs = self.binds(self.fn).get(f.id, [])
                g = vs[0] if len(vs) == 1 and isinstance(vs[0], ast.Lambda) else next((x for x in ast.walk(self.fn.node) if isinstance(x, ast.FunctionDef) and x.name == f.id), None) or \
                    next((x for x in self.fn.mod.tree.body if isinstance(x, ast.FunctionDef) and x.name == f.id), None)
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and f.attr in self.meths:
                g = self.meths[f.attr].node
            if g is not None:
                ret = [g.body] if isinstance(g, ast.Lambda) else [x.value for x in g.body if isinstance(x, ast.Return)]
                plain = isinstance(g, ast.Lambda) or all(isinstance(x, ast.Return) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) for x in g.body)
                ps = [x.arg for x in g.args.args]
                if ps and ps[0] == 'self':
                    ps = ps[1:]
                if plain and len(ret) == 1 and ret[0] is not None and len(ps) == len(e.args):
                    vals = [env.get(x.id, x) if isinstance(x, ast.Name) else x for x in e.args]
                    if all(not isinstance(v, ast.Name) or v.id not in ps for v in vals):
                        return self.fold(ret[0], dict(env, **dict(zip(ps, vals))), d + 1)
            return None
        return None

    def alts(self, e):
        """the values a conditional expression may have (those that name no file are left out)"""
        if isinstance(e, ast.IfExp):
            out = [(v, e.test) for x in (e.body, e.orelse) for v, _ in self.alts(x)]
            return [x for x in out if const(x[0]) is None] or out
        return [(e, None)]

    @staticmethod
    def joined(parts):
        out = []
        for x in parts:
            if x == '':
                continue
            if out and not x.startswith('$') and not out[-1].startswith('$'):
                out[-1] += x
            else:
                out.append(x)
        return tuple(out)

    def obj(self, e, env):
        """which object: the module itself or the copy with that name"""
        if isinstance(e, ast.Name):
            if e.id in env:
                return self.obj(env[e.id], env)
            vs = self.binds(self.fn).get(e.id, [])
            if len(vs) == 1 and isinstance(vs[0], ast.Call):
                return 'copy ' + e.id
            if len(vs) == 1:
                return self.obj(vs[0], env)
            return None
        return 'itself' if isinstance(e, ast.Subscript) else None

    def check(self, fn):
        """(findings, counts) of one method that writes"""
        self.fn, self.blur = fn, False
        through, nread = self.found_through()
        out, decided, either = [], 0, {}
        sets, writes = [], []           # (O, K, tokens, parts, object, order, node), (M, token, parts, object, order, node)
        for i, (s, env) in enumerate(self.statements(fn.node.body, {})):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Subscript):
                        o = self.module(t.value, fn, env)
                        k = self.strings(self.sub(t.slice, env), fn)
                        if o and not k:
                            self.blur = True
                        if not o or not k:
                            continue
                        toks = {self.token(x, env) for x in ast.walk(s.value) if isinstance(x, (ast.Name, ast.Subscript, ast.Attribute))} - {None}
                        toks |= {self.token(env[x.id], env) for x in ast.walk(s.value) if isinstance(x, ast.Name) and x.id in env} - {None}
                        for a in o:
                            for b in k:
                                sets.append((a, b, toks, self.fold(s.value, env), self.obj(t.value, env), i, s))
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    for recv, test in self.alts(x.func.value):
                        o = self.module(recv, fn, env)
                        if not o:
                            continue
                        if x.func.attr == 'write' and len(x.args) + len(x.keywords) == 1:
                            for v, _ in self.alts((x.args + [k.value for k in x.keywords])[0]):
                                for m in o:
                                    writes.append((m, self.token(v, env), self.fold(v, env), self.obj(recv, env), i, x))
                                    if test is not None:
                                        either.setdefault(x, []).append((m, self.obj(recv, env), test))
                        elif x.func.attr in ('update', 'setdefault', '__setitem__'):
                            self.blur = True
        for x, al in either.items():
            for m, ob, test in al:
                mine = [s for s in sets if s[0] == m]
                here = [s for s in mine if s[4] == ob or s[4] is None or ob is None]
                if mine and not here and not all(any(ast.unparse(test) == ast.unparse(g.test) and any(y is s[6] for y in ast.walk(g)) for g in ast.walk(fn.node) if isinstance(g, ast.If)) for s in mine):
                    out.append(('other-object', '%s' % m, x.lineno, 'the entries of %s are set in %s, but when %s is %s, another object is written' %
                                (m, 'a copy' if mine[0][4].startswith('copy') else 'the object', ast.unparse(test), 'false')))
        targets = {t for _, t, *_ in writes if t}
        folders = {}
        for m, t, parts, _, i, node in writes:
            if through.get(m) and parts and parts[0]:
                folders.setdefault(parts[0], []).append((m, node))
        if len(folders) > 1:
            usual = max(folders, key=lambda k: len(folders[k]))
            for k, v in folders.items():
                if k != usual and len(v) < len(folders[usual]):
                    for m, node in v:
                        own = [x for x in sets if (x[0], x[1]) in through[m]]
                        if own and all(x[3] is not None and not x[3][0] for x in own):
                            out.append(('other-folder', m, node.lineno, '%s is written to the folder %s, the other files to %s, and is entered without its folder' % (m, '/'.join(k), '/'.join(usual))))
        for m, t, parts, _, i, node in writes:
            src = through.get(m, set())
            if not src or t is None and parts is None:
                continue
            mine = [x for x in sets if (x[0], x[1]) in src]
            if not mine:
                if not self.blur:
                    out.append(('not-referred', m, node.lineno, 'the file into which %s is written is not entered anywhere: %s still names another file' %
                                (m, ' / '.join('%s[%r]' % k for k in sorted(src)))))
                continue
            for o, k, toks, p2, ob, j, st in mine:
                if p2 is not None and parts is not None:
                    decided += 1
                    if self.joined(p2[1]) != self.joined(parts[1]):
                        show = lambda x: '+'.join(x)
                        out.append(('other-file-named', '%s %s' % (m, k), st.lineno, '%s is written to the file %s, but %s[%r], through which it is found when the deck is read, is set to %s' %
                                    (m, show(self.joined(parts[1])), o, k, show(self.joined(p2[1])))))
                else:
                    named = toks & targets
                    if not named or t is None or self.blur and len(named) > 1:
                        continue
                    decided += 1
                    if t not in named:
                        out.append(('other-file-named', '%s %s' % (m, k), st.lineno, '%s is written to %s, but %s[%r], through which it is found when the deck is read, names %s' %
                                    (m, t, o, k, ', '.join(sorted(named)))))
                ws = [w for w in writes if w[0] == o]
                same = [w for w in ws if w[3] == ob or w[3] is None or ob is None]
                if ws and not same:
                    out.append(('other-object', '%s %s' % (o, k), st.lineno, '%s[%r] is set in %s, but what is written is another object (line %d)' %
                                (o, k, 'a copy' if ob.startswith('copy') else 'the object', ws[0][5].lineno)))
                elif same and all(w[4] < j for w in same):
                    out.append(('entered-late', '%s %s' % (o, k), st.lineno, '%s[%r] is set after %s has been written' % (o, k, o)))
        return out, dict(modules_read=nread, modules_written=len(writes), references=len(sets), decided=decided)
