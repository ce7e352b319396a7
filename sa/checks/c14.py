"""C14: format detection"""
import ast
from ..check import Finding, Result
from ..absint import Interp, Machine, UNK, NONE
from ..model import AnalysisError

RULE = ('abstract interpretation of detectFormat and read (isRightFormat inlined) over a registry of three arbitrary formats; each may or may not '
        'claim the extension, and each reader may accept, raise WrongFormatError or raise any of five other errors: tries happen in registry '
        'order on exactly the claimed formats, stop at the first acceptance, go on only after WrongFormatError, get the file and the options of '
        'the caller, and end in the accepted object, the reader\'s own error, or an error if nothing accepted; constant propagation of file '
        'names (both cases) and of the declared extensions of each registered class through detectFormat and read: the reader is reached for '
        'every declared extension and not for others')
FMTS = ('list', (('fmt', 0), ('fmt', 1), ('fmt', 2)))
F = ('path', 'F', 'same')
OPT = ('opt',)


def lost(st):
    return st if ('lost',) in st.m else st.setm(st.m + (('lost',),))


class DetectM(Machine):
    values = ('fmt', 'ctor', 'exts', 'fobj', 'opt')
    no_slice = True
    no_implicit = True
    counters = True

    def __init__(self, proj):
        self.p = proj
        w = proj.public('WrongFormatError', 'class', 'weio.file')
        b = proj.public('BrokenFormatError', 'class', 'weio.file')
        e = proj.public('EmptyFileError', 'class', 'weio.file')
        self.wrong = w.key
        self.others = [b.key, e.key, 'OSError', 'ValueError', 'MemoryError', 'UnicodeDecodeError']
        ff = proj.public('fileFormats', 'func')
        self.reg = ff.key
        self.regvars = {x for n in ast.walk(ff.node) if isinstance(n, ast.Global) for x in n.names}

    def gvar(self, ip, v):
        return [NONE, FMTS] if v[2] in self.regvars else [UNK]

    def getattr(self, ip, v, attr, st, fr, node):
        if v[0] == 'fmt':
            return [(st, {'constructor': ('ctor', v[1]), 'extensions': ('exts', v[1])}.get(attr, UNK))]
        return None

    def compare_fork(self, ip, op, a, b, st, fr):
        if isinstance(op, (ast.In, ast.NotIn)) and b[0] == 'exts' and a[0] == 'path' and a[2] == 'ext':
            ev = [x for x in st.m if x[0] in ('match', 'nomatch') and x[1] == b[1]]
            yes = isinstance(op, ast.In)
            if ev:
                return [(st, ('const', (ev[0][0] == 'match') == yes))]
            return [(st.setm(st.m + (('match', b[1]),)), ('const', yes)), (st.setm(st.m + (('nomatch', b[1]),)), ('const', not yes))]
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and NONE in (a, b):
            o = b if a == NONE else a
            if o[0] in self.values:
                return [(st, ('const', isinstance(op, (ast.IsNot, ast.NotEq))))]
        return None

    def call(self, ip, fv, args, kwargs, st, fr, node, star):
        if fv[0] == 'func' and fv[1] == self.reg:
            return [(st, FMTS)]
        if fv == ('ext', 'isinstance') and len(args) == 2 and args[1][0] == 'ctor':
            if args[0][0] == 'fobj':
                return [(st, ('const', args[0][1] == args[1][1]))]
            if args[0] == NONE:
                return [(st, ('const', False))]
        if fv[0] == 'ctor' or fv[0] == 'meth' and fv[2] == 'constructor':
            if fv[0] != 'ctor':
                fr.raised.append((lost(st), '?'))
                return [(lost(st), UNK)]
            k = fv[1]
            m = st.m
            fn = args[0] if args else kwargs.get('filename', NONE)
            if fn == UNK or star:
                m = m + (('lost',),) if fn == UNK else m
            elif fn != F:
                m = m + (('badpath', k, getattr(node, 'lineno', 0), fr.fn.key),)
            if OPT not in kwargs.values() and OPT not in args and not star:
                m = m + (('noopts', k, getattr(node, 'lineno', 0), fr.fn.key),)
            if sum(x[0] == 'try' for x in m) < 5:
                fr.raised.append((st.setm(m + (('try', k, 'wrong'),)), self.wrong))
                for o in self.others:
                    fr.raised.append((st.setm(m + (('try', k, o),)), o))
            return [(st.setm(m + (('try', k, 'accept'),)), ('fobj', k))]
        if fv[0] in ('unk',) and any(v[0] in ('fmt', 'ctor') for v in list(args) + list(kwargs.values())):
            return [(lost(st), UNK)]
        return None

    def handled(self, ip, st, exc, h, fr):
        return lost(st) if exc == '?' else st


def short(e):
    return str(e).split(':')[-1]


def judge(mach, entry, k, m, v, given):
    """None or a message"""
    if ('lost',) in m:
        return None
    tries = [x for x in m if x[0] == 'try']
    for x in m:
        if x[0] == 'badpath':
            return ('path', 'format %d is tried on something else than the given file (%s line %d)' % (x[1], x[3], x[2]))
        if x[0] == 'noopts':
            return ('options', 'the reader is called without the options of the caller (%s line %d)' % (x[3], x[2]))
    idx = [t[1] for t in tries]
    if idx != sorted(set(idx)):
        return ('order', 'formats are tried in the order %s' % idx)
    for i, t in enumerate(tries):
        if t[2] == 'accept':
            if i != len(tries) - 1:
                return ('goes-on', 'detection goes on after format %d accepted the file' % t[1])
        elif t[2] != 'wrong' and i != len(tries) - 1:
            return ('swallowed', 'detection moves on after a reader raised %s' % short(t[2]))
    last = tries[-1] if tries else None
    stop = last[1] if last and last[2] != 'wrong' else 3
    if given is None:
        for x in m:
            if x[0] == 'match' and x[1] < stop and x[1] not in idx:
                return ('skipped', 'a format that claims the extension is not tried')
        seen = {x[1] for x in m if x[0] in ('match', 'nomatch', 'try')}
        if any(x[0] in ('match', 'nomatch') for x in m) and not set(range(stop)) <= seen:
            return ('skipped', 'a registered format is never considered')
    if last and last[2] == 'accept':
        if k == 'raise':
            return None if v == '?' else ('refused', 'a reader accepted the file, but %s is raised' % short(v))
        want = ('fobj', last[1])
        if entry == 'detectFormat':
            want = ('tuple', (('fmt', last[1]), want))
        if v == UNK or v[0] in ('tuple', 'list') and UNK in v[1]:
            return None
        if (v[0], ) == ('list',):
            v = ('tuple', v[1])
        if v != want:
            return ('result', 'format %d accepted the file, but %s is returned' % (last[1], v))
        return None
    if last and (last[2] != 'wrong' or given is not None):
        err = mach.wrong if last[2] == 'wrong' else last[2]
        if k == 'return':
            return ('swallowed', 'a reader raised %s, but the call returns normally' % short(err))
        if v != err and v != '?':
            return ('replaced', 'a reader raised %s, but the caller gets %s' % (short(err), short(v)))
        return None
    # nothing accepted
    if k == 'return':
        if v == UNK and given is None and not tries:
            return None
        return ('nothing', 'no format accepted the file, but the call returns normally (%s)' % (v,))
    if v in ('NameError', 'UnboundLocalError'):
        return ('nothing', 'no format accepted the file, and the error raised is a %s' % v)
    return None


def check(proj, tier):
    fs, counts = {}, dict(entries=0, outcomes=0, tries=0, undecided=0, inlined=0)
    inl = set()
    for name, extra in (('detectFormat', None), ('read', None), ('read', 'given')):
        fn = proj.public(name, 'func')
        mach = DetectM(proj)
        ip = Interp(proj, mach, lambda f, c=None: True)
        kw = {}
        if extra:
            kw[fn.params[1]] = ('fmt', 1)
        kw['option'] = OPT
        res = ip.run_function(fn, [F], kw, ())
        if ip.exhausted:
            raise AnalysisError('budget exhausted in %s' % name)
        counts['entries'] += 1
        inl |= ip.inlined
        ok = 0
        for k, s, v in res:
            counts['outcomes'] += 1
            counts['tries'] += sum(x[0] == 'try' for x in s.m)
            if ('lost',) in s.m:
                counts['undecided'] += 1
                continue
            ok += 1
            r = judge(mach, name, k, s.m, v, extra)
            if r:
                key = (name, extra, r[0])
                label = name + ('(file, format, option)' if extra else '(file, option)')
                trace = ['%s' % (x,) for x in s.m] + ['%s %s' % (k, v)]
                fs.setdefault(key, Finding(r[0], fn.mod.rel, label, r[0], fn.lineno, '%s: %s' % (label, r[1]), trace))
        counts['decided'] = counts.get('decided', 0) + ok
    from ..claims import problems
    for rule, c, x, msg in problems(proj, counts):
        fn = proj.public('detectFormat', 'func')
        fs.setdefault((rule, c.name, x), Finding(rule, fn.mod.rel, fn.qual, '%s %s' % (c.name, x), fn.lineno, msg, ['extensions of %s' % c.key]))
    return Result(list(fs.values()), RULE, counts, samples=sorted(inl),
                  assumptions=['extension patterns with * may or may not match (both are analysed)'],
                  minimum=dict(entries=3, decided=3))
