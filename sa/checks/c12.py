import ast
from ..check import Finding, Result
from ..loops import Analysis, loops, decide
from ..model import walk_own

RULE = ('every condition-controlled loop (while, and for over an endless iterator) is executed abstractly, three rounds along each path, with all reads at the end of '
        'the input (they give an empty string) and helper functions of the package inlined. The loop is reported when a path leads back to its head although nothing that the conditions '
        'for leaving it depend on has changed, or a counter or container moves away from its bound')


def grows_own_list(f):
    """for x in L: L.append(...) on every path"""
    for n in walk_own(f.node):
        if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Attribute)):
            d = ast.dump(n.iter)
            if any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(n)):
                continue
            for s in n.body:
                if isinstance(s, ast.Continue) or isinstance(s, ast.If) and any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                    break
                c = s.value if isinstance(s, ast.Expr) else None
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('append', 'extend') and ast.dump(c.func.value) == d:
                    yield n


def check(proj, tier):
    A = Analysis(proj)
    fs, n, und, part, samples = [], 0, 0, 0, []
    ordinal = {}
    for f, node in loops(proj):
        n += 1
        k = ordinal[f.key] = ordinal.get(f.key, -1) + 1
        head = 'while ' + ast.unparse(node.test) if isinstance(node, ast.While) else 'for %s in %s' % (ast.unparse(node.target), ast.unparse(node.iter))
        p, gave_up, pruned = decide(A, f, node, tier)
        if gave_up:
            und += 1
            samples.append('undecided (too many paths): %s: %s' % (f.key, head))
            continue
        part += pruned
        if p is not None:
            why = '; '.join(sorted({('%s' if b else 'not (%s)') % show(t) for t, b, _ in p.conds if not isinstance(t, bool)}))[:300]
            fs.append(Finding('no-progress', f.mod.rel, f.qual, head[:100], node.lineno,
                              'the loop `%s` can go round for ever: one round changes nothing that would end it%s' % (head[:100], (' (path: %s)' % why) if why else ', also at the end of the file')))
        elif len(samples) < 12:
            samples.append('%s: %s: every path round makes progress or leaves' % (f.key, head[:80]))
    for f in proj.funcs.values():
        for x in grows_own_list(f):
            fs.append(Finding('grows', f.mod.rel, f.qual, ast.unparse(x.iter), x.lineno, 'the loop over %s makes it longer on every iteration' % ast.unparse(x.iter)))
    return Result(fs, RULE, dict(loops=n, undecided=und, explored_in_part=part), samples=samples,
                  assumptions=['a condition that changes from round to round through a call that is not followed counts as progress', 'iteration over files, lists and arrays is finite',
                               'recursion is bounded by the interpreter'],
                  minimum=dict(loops=3))


def show(t):
    if not isinstance(t, tuple):
        return repr(t)
    if t[0] == 'c':
        return repr(t[1])
    if t[0] == 's':
        return t[1]
    if t[0] == 'u':
        return '?'
    if t[0] == '<':
        return '%s < %s' % (show(t[1]), show(t[2]))
    if t[0] == '+':
        return '%s%+g' % (show(t[1]), t[2])
    if t[0] == 'not':
        return 'not ' + show(t[1])
    if t[0] == '==':
        return '%s == %s' % (show(t[1]), show(t[2]))
    if t[0] == 'op':
        return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[2:]))
    return '%s(%s)' % (t[0], ', '.join(show(x) for x in t[1:]))
