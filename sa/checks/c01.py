"""C01: abstract interpretation of construction, read and re-read of every format class in four file-system cases
(missing, directory, empty file, non-empty file)"""
import ast
from ..check import Finding, Result
from ..absint import Interp, Machine, St, _Facts, merge, relevance, UNK, NONE
from ..model import AnalysisError
from ..par import pmap

RULE = ('for every format class, the constructor with a path, read(path) and read() on a stored path are interpreted abstractly in the cases '
        'missing / directory / empty / non-empty: in the first two every outcome is an OSError, for an empty file every outcome is '
        'EmptyFileError and no reader is handed the path before, for a non-empty file no path raises EmptyFileError or (before any '
        'content was read) OSError because of the file itself')

F = ('path', 'F', 'same')
S = ('path', 'S', 'same')


class FS(Machine):
    exact = True

    def __init__(self, case):
        self.case = case
        self.name = 'F'
        self.prune = case == 'full'
        self.reads = False
        self.early = []          # constructs that hand an empty file to a reader

    def isF(self, p):
        return p[0] == 'path' and p[1] == self.name and p[2] == 'same'

    def stat(self, st, what, path):
        if not self.isF(path):
            return UNK
        c = self.case
        if what == 'isfile':
            return ('const', c in ('empty', 'full'))
        if what == 'exists':
            return ('const', c != 'missing')
        if what == 'isdir':
            return ('const', c == 'dir')
        return UNK

    def event(self, st, ev, node, frame):
        kind, p = ev[0], ev[1]
        c = self.case
        if kind == 'stat' and self.isF(p):
            if ev[2] == 'size':
                if c == 'missing':
                    return [(st, None, 'FileNotFoundError')]
                return [(st, ('const', 0) if c == 'empty' else (('size', p) if c == 'full' else UNK), None)]
            if ev[2] == 'stat' and c == 'missing':
                return [(st, None, 'FileNotFoundError')]
            if c == 'full' and st.m == '':
                st = st.setm('checked')
            return [(st, None, None)]
        if kind == 'open' and self.isF(p):
            if c == 'missing' and not set(str(ev[2])) & set('wax?'):
                return [(st, None, 'FileNotFoundError')]
            if c == 'dir':
                return [(st, None, 'IsADirectoryError')]
            return [(st, None, None)]
        if kind == 'access' and self.isF(p):
            if c == 'missing':
                return [(st, None, 'FileNotFoundError')]
            if c == 'dir':
                return [(st, None, 'OSError')]
            if c == 'empty':
                self.early.append((node, frame, 'is handed to %s' % ev[2]))
            return self.content(st)
        if kind in ('consume', 'use') and p[0] == 'handle' and self.isF(p[1]):
            if c == 'empty':
                if kind == 'use' and ev[2] not in ('list', 'enumerate', 'zip', 'sorted', 'map', 'tuple', 'iter', 'seek', 'tell', 'detach', 'name'):
                    self.early.append((node, frame, 'is handed to %s' % ev[2]))
                if ev[2] in ('readlines', 'list', 'tuple', 'sorted'):
                    return [(st, ('list', ()), None)]
                if ev[2] in ('iter',):
                    return [(st, UNK, None)]
                if ev[2] == '__next__':
                    return [(st, None, 'StopIteration')]
                b = 'b' in str(p[2])
                return [(st, ('const', b'' if b else ''), None)]
            return self.content(st)
        return [(st, None, None)]

    def content(self, st):
        """content of the non-empty file is read: nothing after this point can refuse it as missing or empty"""
        self.reads = True
        return [] if self.prune else [(st.setm('read'), None, None)]

    def getattr(self, ip, v, attr, st, frame, node):
        if v[0] == 'stat' and self.isF(v[1]) and attr == 'st_size':
            c = self.case
            return [(st, ('const', 0) if c == 'empty' else (('size', v[1]) if c == 'full' else UNK))]
        return None

    def truth(self, v):
        return True if v[0] == 'size' and self.isF(v[1]) else None

    def compare(self, ip, op, a, b, st):
        if a[0] == 'size' and b[0] == 'const' and isinstance(b[1], (int, float)):
            pos, n = True, b[1]
        elif b[0] == 'size' and a[0] == 'const' and isinstance(a[1], (int, float)):
            pos, n = False, a[1]
        else:
            return None
        t = type(op)
        if not pos:
            t = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(t, t)
        # size is an integer >= 1
        if t is ast.Eq:
            return False if n < 1 else None
        if t is ast.NotEq:
            return True if n < 1 else None
        if t is ast.Lt:
            return False if n <= 1 else None
        if t is ast.GtE:
            return True if n <= 1 else None
        if t is ast.LtE:
            return False if n < 1 else None
        if t is ast.Gt:
            return True if n < 1 else None
        return None

    def loop(self, ip, s, heads, itervals, fr):
        if self.case == 'empty' and isinstance(s, ast.For) and itervals and all(
                v[0] == 'handle' and self.isF(v[1]) or v == ('list', ()) for v in itervals):
            r = ip.empty()
            if s.orelse:
                return ip.block(s.orelse, heads, fr)
            r['next'] = heads
            return r
        return None

    def subscript(self, ip, v, k, st, fr, e):
        if self.case == 'empty' and k[0] == 'const' and isinstance(k[1], int) and \
                (v == ('list', ()) or v[0] == 'const' and v[1] in ('', b'')):
            fr.raised.append((st, 'IndexError'))
            return []
        return None

    def raised(self, ip, st, exc, node, fr):
        inner = st.m[4] if isinstance(st.m, tuple) else st.m
        return st.setm(('raise', exc, fr.fn.key, node.lineno, inner))


def is_oserror(ip, e):
    return e != '?' and ip.exc_sub(e, 'OSError')


def scenarios(proj, c, rel):
    """(label, method, args, options, heap)"""
    if proj.method(c, 'read') is None:
        return
    yield 'construct', '__init__', [F], {}, [{}]
    yield 'read', 'read', [F], {}, constructed(proj, c, rel, [])
    again = constructed(proj, c, rel, [S])
    yield 're-read', 'read', [F], {}, again
    yield 'read stored', 'read', [], {}, [{k: (F if v == S else v) for k, v in h.items()} for h in again]
    o = options(proj, c, 'read')
    if o:
        yield 'read with options', 'read', [F], o, again
    o = options(proj, c, '__init__')
    if o:
        yield 'construct with options', '__init__', [F], o, [{}]


def options(proj, c, meth):
    """{option: any value} accepted by the method, through **kwargs also those of the methods it hands them to"""
    out, chain = {}, {'__init__': ['__init__', 'read', '_read'], 'read': ['read', '_read']}[meth]
    for n in chain:
        m = proj.method(c, n)
        if m is None:
            break
        ps = m.params[1:]
        for q in ps + m.kwonly:
            if 'filename' not in q.lower() and not (n != '_read' and ps and q == ps[0]):
                out[q] = UNK
        if m.kwarg is None:
            break
    return out


def constructed(proj, c, rel, args):
    """heaps of objects that were constructed with / without a (readable) path"""
    mach = FS('full')
    mach.name = 'S'
    mach.prune = False
    mach.items = True
    ip = Interp(proj, mach, rel)
    res = ip.run_method(c, '__init__', args, {}, {}, '') or []
    sts = [St({}, {k: (UNK if v[0] == 'handle' else v) for k, v in s.heap.items()}, _Facts(), '') for kind, s, v in res if kind == 'return']
    hs = [s.heap for s in merge(sts, 2)]
    return hs or [{('self', 'filename'): args[0] if args else NONE}]


def check(proj, tier):
    fs = []
    rel = relevance(proj)
    counts = dict(classes=0, scenarios=0, outcomes=0, steps=0)
    inl = set()
    empty_err = None
    for c in proj.classes.values():
        if c.name == 'EmptyFileError' and c.mod.rel.endswith('weio/file.py'):
            empty_err = c.key
    if empty_err is None:
        raise AnalysisError('EmptyFileError is no longer defined in weio/file.py')
    def one(c):
        fs = []
        counts = dict(scenarios=0, outcomes=0, steps=0, undecided=0)
        inl = set()
        for label, meth, args, opts, heaps in scenarios(proj, c, rel):
            refused = set()          # raise statements that refuse the options whatever the file: reached for a non-empty file too, before it is read
            for case in ('full', 'missing', 'dir', 'empty') if opts else ('missing', 'dir', 'empty', 'full'):
                mach = FS(case)
                ip = Interp(proj, mach, rel)
                res = [o for h in heaps for o in ip.run_method(c, meth, args, dict(opts), h, '', raw=True) or []]
                counts['scenarios'] += 1
                counts['steps'] += ip.steps
                inl |= ip.inlined
                if ip.exhausted:
                    counts['undecided'] += 1
                    continue
                counts['outcomes'] += len(res)
                if opts and case == 'full':
                    refused = {st.m[1:4] for kind, st, v in res if kind != 'return' and isinstance(st.m, tuple) and st.m[0] == 'raise' and st.m[4] == ''}
                res = [o for o in res if not (o[0] != 'return' and isinstance(o[1].m, tuple) and o[1].m[0] == 'raise' and o[1].m[1:4] in refused)]
                what = {'missing': 'a path without a file', 'dir': 'a directory', 'empty': 'an empty file', 'full': 'a non-empty file'}[case]

                def report(rule, msg, st=None, node=None, frame=None):
                    m = st.m if st is not None else None
                    line, path = 0, []
                    where = c.name
                    if isinstance(m, tuple) and m and m[0] == 'raise':
                        line = m[3]
                        path = ['raised in %s line %s' % (m[2], m[3])]
                    if node is not None:
                        line = node.lineno
                        path = ['%s line %s' % (frame.fn.key, node.lineno)]
                    fs.append(Finding(rule, c.mod.rel, where, label, line, '%s of %s: %s' % (label, what, msg), path))
                if case in ('missing', 'dir'):
                    for kind, st, v in res:
                        if kind == 'return':
                            report('missing-accepted', 'returns normally instead of raising OSError', st)
                        elif not is_oserror(ip, v):
                            report('missing-other-error', 'raises %s instead of an OSError' % v, st)
                    if not res:
                        report('missing-accepted', 'no outcome', None)
                elif case == 'empty':
                    for node, frame, msg in mach.early:
                        report('empty-interpreted', 'the empty file %s before it is refused' % msg, None, node, frame)
                    for kind, st, v in res:
                        if kind == 'return':
                            report('empty-accepted', 'returns normally instead of raising EmptyFileError', st)
                        elif v == '?' or not (v == empty_err or empty_err in ip.exc_bases(v)):
                            report('empty-other-error', 'raises %s instead of EmptyFileError' % v, st)
                else:
                    ok = mach.reads
                    for kind, st, v in res:
                        if kind == 'return':
                            ok = True
                            continue
                        m = st.m
                        inner = m[4] if isinstance(m, tuple) and m and m[0] == 'raise' else m
                        if v != '?' and empty_err in ip.exc_bases(v):
                            if inner != 'read':
                                report('full-refused', 'a path raises EmptyFileError before anything was read', st)
                        elif is_oserror(ip, v):
                            if inner not in ('read', 'checked'):
                                report('full-refused', 'a path raises %s before the file was looked at' % v, st)
                        else:
                            ok = True
                    if not ok:
                        report('full-refused', 'no path reads the file', None)
        return fs, counts, inl
    cls = list(proj.file_classes())
    for f, n, i in pmap(one, cls):
        fs += f
        inl |= i
        for k, v in n.items():
            counts[k] = counts.get(k, 0) + v
    counts['classes'] = len(cls)
    counts['functions_inlined'] = len(inl)
    samples = ['%s: construct, read, re-read, read stored x missing, directory, empty, non-empty' % c.key for c in cls]
    return Result(fs, RULE, counts, samples=samples,
                  assumptions=['os.path predicates, os.stat and open behave as documented; the file does not change during the call',
                               'third-party readers raise OSError for a missing file'],
                  minimum=dict(classes=15, scenarios=150))
