"""C04: writing touches only the requested path and names derived from it"""
from ..check import Finding, Result
from ..absint import Interp, relevance, FULL, UNK
from ..par import pmap
from ..writes import entries_of_class, other_writers, run_other, writing, WriteM, Entry
from .c01 import constructed, S

RULE = ('abstract interpretation of write of every format class, of every function with an output path and of the two comparison helpers, with the '
        'provenance of every path value: a file opened for writing is the requested path, or that path with its end edited; never the path the '
        'object was read from, a fixed name, or a name that keeps only the directory or drops it; nothing is deleted or renamed, except the '
        'temporary files of the comparison helpers; a directory is created only as parent of the requested path')

WHAT = {'dir': 'another file in the directory of the requested path', 'base': 'a file of the same name in the working directory',
        'bstem': 'a file in the working directory', 'basex': 'a file in the working directory', 'ext': 'a name made of the extension only',
        'moved': 'a file in the folder of another path',
        'edited': 'a name whose folder may differ from the one of the requested path',
        'odd': 'a name that is not the requested path with its end edited'}
HELPERS = ('test_write_read', 'test_ascii')


def judge(e, helper):
    out = []
    for kind, p, mode, node, fn, _ in e.mach.log:
        line = getattr(node, 'lineno', fn.lineno)
        if kind == 'open':
            if not writing(mode):
                continue
            if p[0] == 'const':
                out.append(('fixed-name', 'opens the fixed name %r for writing' % (p[1],), line, fn))
            elif p[0] == 'path':
                if p[1] != e.sym:
                    out.append(('other-file', 'opens the file the object was read from, not the requested one, for writing', line, fn))
                elif p[2] not in FULL:
                    out.append(('other-file', 'opens %s for writing' % WHAT.get(p[2], p[2]), line, fn))
                elif helper and p[2] == 'same':
                    out.append(('overwrites-original', 'the comparison helper writes to the original file', line, fn))
        elif kind == 'delete':
            ps = p if p and isinstance(p[0], tuple) else (p,)
            if not helper:
                out.append(('deletes', 'calls %s' % mode, line, fn))
            else:
                for q in ps:
                    if q[0] == 'const' or q[0] == 'path' and not (q[1] == 'S' and q[2] == 'derived'):
                        out.append(('deletes', 'the comparison helper calls %s on something else than its temporary files' % mode, line, fn))
        elif kind == 'mkdir':
            if p[0] == 'const' or p[0] == 'path' and not (p[1] == e.sym and p[2] == 'dir'):
                out.append(('creates', 'creates a directory that is not the parent of the requested path', line, fn))
    return out


def helpers_of(proj, c, rel):
    for name in HELPERS:
        m = proj.method(c, name)
        if m is None:
            continue
        hs = constructed(proj, c, rel, [S])
        mach = WriteM()
        ip = Interp(proj, mach, rel)
        extra = {p: UNK for p in m.params[1:]}
        res = [o for h in hs for o in ip.run_method(c, name, [], dict(extra), h, frozenset(), raw=True) or []]
        yield Entry(name, c, m, res, mach, ip.exhausted, 'S', None), ip


def check(proj, tier):
    rel = relevance(proj)
    cls = list(proj.file_classes())
    others = list(other_writers(proj, rel))

    def one(job):
        kind, x = job
        fs, n, inl = {}, dict(entry_points=0, write_sites=0, undecided=0, unknown_targets=0, helper_runs=0), set()
        if kind == 'cls':
            runs = [(e, ip, False) for e, ip in entries_of_class(proj, x, rel)] + [(e, ip, True) for e, ip in helpers_of(proj, x, rel)]
        else:
            runs = [(e, ip, False) for e, ip in (run_other(proj, rel, x[0], p) for p in x[1])]
        for e, ip, helper in runs:
            inl |= ip.inlined
            n['undecided'] += ip.exhausted
            if kind != 'cls':
                syms = {(p[1], writing(m)) for k, p, m, _, _, _ in e.mach.log if k == 'open' and p[0] == 'path'}
                if ('F', True) not in syms and (('S', True) not in syms or ('F', False) in syms):
                    continue
            n['entry_points'] += 1
            n['helper_runs'] += helper
            opens = {(p, getattr(nd, 'lineno', 0)) for k, p, m, nd, _, _ in e.mach.log if k == 'open' and writing(m)}
            n['write_sites'] += len(opens)
            n['unknown_targets'] += sum(p == UNK for p, _ in opens)
            where = x.name if kind == 'cls' else x[0].qual
            mod = x.mod if kind == 'cls' else x[0].mod
            for rule, msg, line, fn in judge(e, helper):
                k = (rule, where, msg, fn.key, line)
                fs.setdefault(k, Finding(rule, fn.mod.rel, where, fn.qual, line, '%s: %s' % (e.label, msg), ['entry %s of %s' % (e.label, where),
                                                                                                     'in %s' % fn.key]))
        return list(fs.values()), n, inl
    fs, counts, inl = [], {}, set()
    for f, n, i in pmap(one, [('cls', c) for c in cls] + [('fn', o) for o in others]):
        fs += f
        inl |= i
        for k, v in n.items():
            counts[k] = counts.get(k, 0) + v
    counts['functions_inlined'] = len(inl)
    return Result(fs, RULE, counts, samples=sorted(inl)[:12],
                  assumptions=['a path computed by an unknown call is not judged (counted as unknown_targets)'],
                  minimum=dict(entry_points=40, write_sites=20, helper_runs=4))
