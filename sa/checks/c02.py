"""C02: which path reaches the file system in read/write, abstract interpretation with symbolic path provenance"""
import ast
from ..check import Finding, Result
from ..absint import Interp, Machine, St, _Facts, merge, relevance, UNK, NONE
from ..par import pmap
from .c01 import FS, F, S, constructed

RULE = ('read and write of every format class are interpreted abstractly with symbolic paths (F: passed by the caller, S: remembered): with F given '
        'only F or names derived from F reach open/os/reader/writer calls and the filename is F on return; with S remembered only S is used; with '
        'neither, every outcome is an exception and nothing is accessed; construction without a path accesses nothing; no literal path is used')


class PathM(Machine):
    exact = True
    items = True
    respelled = True

    def __init__(self):
        self.log = []

    def stat(self, st, what, path):
        if path[0] == 'path' and path[2] == 'same':
            return {'isfile': ('const', True), 'exists': ('const', True), 'isdir': ('const', False)}.get(what, UNK)
        return UNK
    compare = FS.compare
    patterns = True

    def handled(self, ip, st, exc, node, fr):
        return st.setm(st.m | {'!'})

    def event(self, st, ev, node, frame):
        kind, p = ev[0], ev[1]
        if kind in ('consume', 'use', 'content', 'close', 'writeobj'):
            return [(st, None, None)]
        ps = p if kind == 'delete' else (p,)
        for q in ps:
            self.log.append((kind, q, node, frame.fn))
            if q[0] == 'path' and kind in ('open', 'access', 'writepath'):
                st = st.setm(st.m | {q[1]})
            if q[0] == 'unk' and kind in ('open', 'access', 'writepath'):
                st = st.setm(st.m | {'?'})
            if kind in ('open', 'writepath') and q == NONE:
                return [(st, None, 'TypeError')]
            if kind == 'stat' and q == NONE:
                return [(st, None, 'TypeError')]
        return [(st, None, None)]


NOT_DERIVED = {'base': 'the folder of the path is dropped', 'bstem': 'the folder of the path is dropped', 'basex': 'the folder of the path is dropped',
               'ext': 'only the extension of the path is used', 'moved': 'the folder of another path is used',
               'edited': 'the text of the whole path is changed, its folder included'}


def check(proj, tier):
    rel = relevance(proj)
    cls = list(proj.file_classes())
    registered = {k.key for k in proj.registered()}

    def one(c):
        fs, n = [], dict(scenarios=0, outcomes=0, events=0, undecided=0)
        H0 = constructed(proj, c, rel, [])
        HS = constructed(proj, c, rel, [S])
        inl = set()

        def run(label, meth, args, heaps, expect):
            if proj.method(c, meth) is None:
                return
            mach = PathM()
            ip = Interp(proj, mach, rel)
            ip.loop_min1 = True
            res = [o for h in heaps for o in ip.run_method(c, meth, args, {}, h, frozenset(), raw=True) or []]
            n['scenarios'] += 1
            n['outcomes'] += len(res)
            n['events'] += len(mach.log)
            inl.update(ip.inlined)
            if ip.exhausted:
                n['undecided'] += 1
                return

            def report(rule, msg, node=None, fn=None):
                fs.append(Finding(rule, c.mod.rel, c.name, label, node.lineno if node is not None else 0, '%s: %s' % (label, msg),
                                  ['%s line %s' % (fn.key, node.lineno)] if node is not None else []))
            seen = set()
            for kind, q, node, fn in mach.log:
                if (kind, q, id(node)) in seen:
                    continue
                seen.add((kind, q, id(node)))
                what = '%s (line %s)' % (ast.unparse(node)[:60], node.lineno)
                if expect is None:
                    if q not in (NONE, UNK):
                        report('accesses-without-path', '%s is used although there is no path' % what, node, fn)
                elif q[0] == 'path' and q[1] != expect:
                    report('other-path', 'the %s path is used in %s instead of the %s one' %
                           ('remembered' if q[1] == 'S' else 'given', what, 'given' if expect == 'F' else 'remembered'), node, fn)
                elif kind == 'pattern':
                    report('path-as-pattern', '%s: the path is used as a pattern without escaping its special characters' % what, node, fn)
                elif q[0] == 'path' and q[2] in NOT_DERIVED and kind in ('open', 'access', 'writepath'):
                    report('other-path', '%s: %s' % (what, NOT_DERIVED[q[2]]), node, fn)
                elif q[0] == 'const' and isinstance(q[1], str) and kind not in ('mkdir',):
                    report('literal-path', 'literal path %r in %s' % (q[1], what), node, fn)
                elif q == NONE and kind in ('open', 'writepath', 'access'):
                    report('no-path', 'None is used as path in %s' % what, node, fn)
            rets = [(s, v) for k, s, v in res if k == 'return']
            if expect is None:
                if meth != '__init__' and rets:
                    report('returns-without-path', 'returns normally although there is no path')
                return
            if not rets:
                return
            for s, v in rets:
                if not s.m & {expect, '?', '!'} and c.key in registered:
                    report('not-accessed', 'returns without having accessed the %s path' % ('given' if expect == 'F' else 'remembered'))
                    break
            for s, v in rets:
                ip2 = Interp(proj, PathM(), rel)
                from ..absint import Frame
                obj = ('obj', c.key, 'self')
                fn = proj.method(c, meth)
                fr = Frame(fn, c, obj, 0, 0)
                vals = {x for _, x in ip2.getattr(obj, 'filename', St({}, s.heap, _Facts(), frozenset()), fr, fn.node)}
                bad = [x for x in vals if x != UNK and x != ('path', expect, 'same') and not (x[0] == 'meth')]
                if bad:
                    report('not-remembered', 'the remembered filename is %s after the call' %
                           {'none': 'None', 'path': 'another path or another spelling of the path', 'const': 'a literal'}.get(bad[0][0], 'something else'))
                    break
        run('construction without path', '__init__', [], [{}], None)
        run('construction with path', '__init__', [F], [{}], 'F')
        for meth in ('read', 'write'):
            run('%s without any path' % meth, meth, [], H0, None)
            run('%s(path) of a new object' % meth, meth, [F], H0, 'F')
            run('%s(path) of a used object' % meth, meth, [F], HS, 'F')
            run('%s() with a remembered path' % meth, meth, [], HS, 'S')
        return fs, n, inl
    fs, counts, inl = [], dict(classes=len(cls)), set()
    for f, n, i in pmap(one, cls):
        fs += f
        inl |= i
        for k, v in n.items():
            counts[k] = counts.get(k, 0) + v
    counts['functions_inlined'] = len(inl)
    return Result(fs, RULE, counts, samples=['%s: 10 call histories' % c.key for c in cls],
                  assumptions=['paths that come out of unresolved third-party calls are not tracked'],
                  minimum=dict(classes=15, scenarios=150, events=200))
