"""C05: a write that returns normally has opened the target for replacement and handed the content over"""
from ..check import Finding, Result
from ..absint import relevance, FULL
from ..par import pmap
from ..writes import entries_of_class, other_writers, run_other, writing
from ..model import walk_own
import ast

RULE = ('abstract interpretation of write of every format class and of every function with an output path: on each path to a normal return the '
        'target was opened with a truncating mode (or handed to a replacing writer) and content was handed over afterwards; no append or update '
        'mode on a target that was not replaced before; no swallowed failure of a write; unsupported combinations end in raise')


def judge(e, ip):
    out = []
    sym = e.sym

    def mine(p):
        return p[0] == 'path' and p[1] == sym and p[2] in FULL
    for kind, p, mode, node, fn, replaced in e.mach.log:
        if kind == 'open' and mine(p) and ('a' in str(mode) or '+' in str(mode)) and 'w' not in str(mode) and not replaced:
            out.append(('append-mode', 'opens the target with mode %r: what was there before stays' % mode, node.lineno, fn))
    for k, s, v in e.res:
        if k != 'return':
            continue
        m = s.m
        if ('unk-write',) in m or any(x[0] == '?' and (mine(x[1]) or x[1][0] == 'unk') for x in m if len(x) > 1):
            continue
        opened = [x[1] for x in m if x[0] == 'w' and mine(x[1])]
        unk = [x for x in m if x[0] == 'w' and x[1][0] == 'unk']
        app = [x for x in m if x[0] == 'append' and mine(x[1])]
        if app:
            continue
        if not opened:
            if not unk:
                out.append(('not-written', 'a path returns normally without having opened the target for writing', 0, e.fn))
            continue
        for p in opened:
            if ('!', p) in m:
                out.append(('swallowed-failure', 'a failed write to the target is caught and the call returns normally', 0, e.fn))
            elif ('c', p) not in m:
                out.append(('nothing-written', 'a path opens the target, hands nothing over and returns normally', 0, e.fn))
    return out


def empty_only(fn):
    """does every return of the function yield the empty string?"""
    if fn is None:
        return False
    rets = [n for n in walk_own(fn.node) if isinstance(n, ast.Return)]
    if not rets or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fn.node)):
        return False

    def isempty(e):
        return isinstance(e, ast.Constant) and e.value in ('', b'')
    for r in rets:
        v = r.value
        if v is None:
            return False
        if isempty(v):
            continue
        if isinstance(v, ast.Name) and v.id not in fn.params:
            binds = [n for n in walk_own(fn.node) if isinstance(n, ast.Name) and n.id == v.id and isinstance(n.ctx, (ast.Store, ast.Del))]
            asg = [n for n in walk_own(fn.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and
                   isinstance(n.targets[0], ast.Name) and n.targets[0].id == v.id and isempty(n.value)]
            if len(binds) == len(asg) and asg:
                continue
        return False
    return True


def empty_serialisers(proj):
    """writers that hand over the result of a serialiser which can only return the empty string"""
    out = []
    for c in proj.file_classes():
        for b in proj.mro(c):
            for m in b.methods.values():
                if m.name != '_write' and m.name != 'write' or proj.method(c, m.name) is not m:
                    continue
                for n in walk_own(m.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('write', 'writelines') and n.args:
                        for a in ast.walk(n.args[0]):
                            if a is n.args[0] and isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and \
                                    isinstance(a.func.value, ast.Name) and m.params and a.func.value.id == m.params[0]:
                                t = proj.method(c, a.func.attr)
                                if empty_only(t):
                                    out.append(Finding('empty-content', c.mod.rel, c.name, m.qual, n.lineno,
                                                       '%s hands over the result of %s, which is always empty: the write returns with an empty '
                                                       'file' % (m.qual, t.qual)))
    return out


def check(proj, tier):
    rel = relevance(proj)
    cls = list(proj.file_classes())
    others = list(other_writers(proj, rel))

    def one(job):
        kind, x = job
        fs, n, inl = [], dict(entry_points=0, writers=0, outcomes=0, undecided=0), set()
        runs = entries_of_class(proj, x, rel) if kind == 'cls' else (run_other(proj, rel, x[0], p) for p in x[1])
        for e, ip in runs:
            inl |= ip.inlined
            if ip.exhausted:
                n['undecided'] += 1
                continue
            if kind != 'cls' and not any(k == 'open' and p[0] == 'path' and p[1] == 'F' and p[2] in FULL and writing(m)
                                         for k, p, m, _, _, _ in e.mach.log):
                continue
            n['entry_points'] += 1
            n['outcomes'] += len(e.res)
            n['writers'] += any(k == 'open' for k, *_ in e.mach.log)
            where = x.name if kind == 'cls' else x[0].qual
            mod = x.mod if kind == 'cls' else x[0].mod
            for rule, msg, line, fn in judge(e, ip):
                fs.append(Finding(rule, mod.rel, where, e.label, line or fn.lineno, '%s: %s' % (e.label, msg), ['in %s' % fn.key]))
        return fs, n, inl
    fs, counts, inl = [], {}, set()
    for f, n, i in pmap(one, [('cls', c) for c in cls] + [('fn', o) for o in others]):
        fs += f
        inl |= i
        for k, v in n.items():
            counts[k] = counts.get(k, 0) + v
    counts['functions_inlined'] = len(inl)
    fs += empty_serialisers(proj)
    return Result(fs, RULE, counts, samples=sorted(inl)[:12],
                  assumptions=['third-party writers (pandas, numpy, xarray) replace the file they are given or raise'],
                  minimum=dict(entry_points=40, writers=12))
