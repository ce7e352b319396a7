import ast
from ..check import Finding, Result
from ..par import pmap
from ..reset import Reset, GiveUp, SELF, UNK, ITEMS, READ

RULE = ('for every class with a reader, the definite-assignment and upward-exposed-use analysis of the state of the object over read() shows that whatever a read may put into '
        'the object is replaced or removed on every path of the next read (nothing survives) and is not used before that (nothing of the old file decides how the new one is '
        'read); that what a method remembers on the object (cache) is dropped by read; and that the constructor adds nothing after reading that read alone would not give')

FREE = {('a', 'filename')}      # which file it is: the argument of read, or the file to read again


def txt(loc):
    if loc[0] == 'a':
        return 'self.%s' % loc[1]
    return 'self[%r]' % (loc[1],) if loc[1] is not None else 'the items of the object'


def missing(loc, s):
    return loc not in s.must and not (loc[0] == 'i' and ITEMS in s.must) and ('all',) not in s.must


def tested(fn, loc):
    """does the function decide on the location (if, while, conditional expression, hasattr)"""
    for n in ast.walk(fn.node):
        t = n.test if isinstance(n, (ast.If, ast.IfExp, ast.While)) else None
        if t is None:
            continue
        for x in ast.walk(t):
            if loc[0] == 'a' and (isinstance(x, ast.Attribute) and x.attr == loc[1] or isinstance(x, ast.Constant) and x.value == loc[1]):
                return True
            if loc[0] == 'i' and isinstance(x, ast.Constant) and x.value == loc[1]:
                return True
    return False


def job(proj, c):
    m = proj.method(c, 'read')
    fs, info = [], dict(name=c.key, locations=0, paths=0, undecided=[], methods=0, samples=[])

    def find(rule, node, fn, loc, msg, via=()):
        fs.append((rule, fn.mod.rel, fn.qual, txt(loc), getattr(node, 'lineno', 0), msg, list(via)))

    r = Reset(proj, c)
    try:
        outs = r.run(m, [SELF] + [UNK] * (len(m.params) - 1))
    except (GiveUp, RecursionError) as e:
        info['undecided'].append('%s.read: %s' % (c.name, e))
        return fs, info
    sts = [s for v, s in outs]
    W = set().union(*[s.may for s in sts]) if sts else set()
    info['paths'] = len(sts)
    for loc in sorted((x for x in r.writes if x in W and x not in FREE), key=str):
        if loc == ('a', None):
            info['undecided'].append('%s.read: attribute under a computed name' % c.name)
            continue
        info['locations'] += 1
        n, fn, _ = r.writes[loc][0]
        ex = r.exposed.get(loc)
        if ex:
            en, ef = ex[0]
            find('used-before-reset', en, ef, loc, 'reading a second file with the same %s object uses %s of the first one (set in %s, line %s) before it is replaced'
                 % (c.name, txt(loc), fn.qual, n.lineno), ['%s:%s %s' % (f.mod.rel, x.lineno, f.qual) for x, f in ex[:4]])
        elif any(missing(loc, s) for s in sts):
            find('survives', n, fn, loc, 'read() of %s puts %s into the object, but %d of %d ways through the next read() leave the one of the earlier file in place'
                 % (c.name, txt(loc), sum(missing(loc, s) for s in sts), len(sts)), ['%s:%s %s' % (f.mod.rel, x.lineno, f.qual) for x, f, _ in r.writes[loc][:4]])
    # caches
    for f in c.methods.values():
        if f.name in ('read', '_read', '__init__', '__next__') or f.is_static or not f.params or f.params[0] != 'self':
            continue
        q = Reset(proj, c)
        try:
            o2 = q.run(f, [SELF] + [UNK] * (len(f.params) - 1))
        except (GiveUp, RecursionError) as e:
            info['undecided'].append('%s: %s' % (f.qual, e))
            continue
        info['methods'] += 1
        W2 = set().union(*[s.may for v, s in o2]) if o2 else set()
        for loc in sorted((x for x in q.writes if x in W2 and x in q.exposed and x not in FREE and x[1] is not None), key=str):
            if not any(missing(loc, s) for s in sts):
                continue
            hit = [(n, fn) for n, fn, full in q.writes[loc] if tested(fn, loc)]
            if hit:
                find('kept-by-method', hit[0][0], hit[0][1], loc, '%s remembers %s on the object and uses it in the next call; reading another file does not reset it' % (f.qual, txt(loc)))
    # the constructor
    i = proj.method(c, '__init__')
    if i is not None and i.cls is not None and i.cls.key != 'weio/file.py:File':
        q = Reset(proj, c)
        q.reader = m
        try:
            q.run(i, [SELF] + [('k', 'file.ext') if ('file' in n.lower() or 'path' in n.lower()) and k == 0 else UNK for k, n in enumerate(i.params[1:])])
        except (GiveUp, RecursionError) as e:
            info['undecided'].append('%s: %s' % (i.qual, e))
        for loc, n, fn, const, value, same in q.after:
            if loc in FREE or same:
                continue
            if const and loc in r.values and r.values[loc] == {('k', repr(value.value) if isinstance(value, ast.Constant) else None)}:
                continue
            uses = value is not None and any(isinstance(x, ast.Name) and x.id == 'self' for x in ast.walk(value))
            if loc in W or uses:
                find('only-by-constructor', n, fn, loc, 'the constructor of %s sets %s after reading the file; reading another file with the object gives %s'
                     % (c.name, txt(loc), 'something else' if loc in W else 'the one of the first file'))
    info['samples'] = ['%s: %d attributes and entries, %d ways through read()' % (c.name, info['locations'], info['paths'])]
    return fs, info


def check(proj, tier):
    cs = [c for c in sorted(proj.classes.values(), key=lambda c: c.key) if proj.method(c, 'read') is not None and len(proj.method(c, 'read').params) >= 2]
    # long ones first
    cs.sort(key=lambda c: (not any(b.name == 'FASTInputFileBase' for b in proj.mro(c)), c.key))
    fs, infos = [], []
    for f, i in pmap(lambda c: job(proj, c), cs):
        fs += [Finding(*x[:6], path=x[6]) for x in f]
        infos.append(i)
    und = [u for i in infos for u in i['undecided']]
    return Result(fs, RULE, dict(reader_classes=len(cs), locations=sum(i['locations'] for i in infos), paths_through_read=sum(i['paths'] for i in infos),
                                 other_methods=sum(i['methods'] for i in infos), undecided=len(und), undecided_list=und[:20]),
                  samples=[s for i in infos for s in i['samples'] if i['locations']][:12],
                  assumptions=['a read that fails part-way leaves an unspecified object; the next successful read must still be complete',
                               'objects held by the reader and read again through their own read() are decided as classes of their own'],
                  minimum=dict(reader_classes=1))
