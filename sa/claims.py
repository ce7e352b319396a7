"""constant propagation through detection: does a file name with a given extension reach the reader of a format that declares it?"""
import ast
import re
import posixpath
from .absint import Interp, UNK, NONE
from .checks.c14 import DetectM
from .consteval import fold_return, Env, Unknown

STR = {'lower', 'upper', 'casefold', 'replace', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'find', 'rfind', 'split', 'rsplit',
       'partition', 'rpartition', 'count', 'index', 'title', 'swapcase', 'capitalize', 'isdigit', 'isalpha', 'isupper', 'islower',
       'removeprefix', 'removesuffix', 'join'}
RE = {'match', 'fullmatch', 'search', 'escape', 'sub'}


def up(v):
    """python value -> abstract value"""
    if v is None:
        return NONE
    if isinstance(v, (list, tuple)):
        return ('list' if isinstance(v, list) else 'tuple', tuple(up(x) for x in v))
    if isinstance(v, (str, int, float, bool)):
        return ('const', v)
    if isinstance(v, re.Match):
        return ('match', v.group(0))
    return UNK


class Open(Exception):
    pass


def down(v):
    if v == NONE:
        return None
    if v[0] == 'const':
        return v[1]
    if v[0] in ('list', 'tuple'):
        return (list if v[0] == 'list' else tuple)(down(x) for x in v[1])
    raise Open()


class ClaimM(DetectM):
    """one format, its declared extensions and the file name are constants of the source"""
    values = ('fmt', 'ctor', 'fobj', 'opt', 'match', 'pat', 'fcls')
    exact_len = 16
    keep_lists = True
    items = False

    def __init__(self, proj, exts, name):
        DetectM.__init__(self, proj)
        self.exts, self.file = up(list(exts)), name
        self.fmts = ('list', (('fmt', 0),))
        fc = proj.public('FileFormat', 'class', 'weio.file_formats')
        self.fcls = fc

    def truth(self, v):
        return True if v[0] in ('fmt', 'ctor', 'fobj', 'match', 'pat') else None

    def gvar(self, ip, v):
        return [self.fmts] if v[2] in self.regvars else [UNK]

    def getattr(self, ip, v, attr, st, fr, node):
        if v[0] == 'fmt':
            if attr in ('constructor', 'extensions'):
                return [(st, ('ctor', 0) if attr == 'constructor' else self.exts)]
            m = self.p.method(self.fcls, attr) if self.fcls else None
            return [(st, ('fmeth', m.key, attr) if m is not None and not m.is_property else UNK)]
        return None

    def compare_fork(self, ip, op, a, b, st, fr):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and NONE in (a, b):
            o = b if a == NONE else a
            if o[0] in self.values:
                return [(st, ('const', isinstance(op, (ast.IsNot, ast.NotEq))))]
        try:
            x, y = down(a), down(b)
            r = {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.In: lambda: x in y, ast.NotIn: lambda: x not in y}[type(op)]()
            return [(st, ('const', r))]
        except (Open, KeyError, TypeError):
            return None

    def binop(self, ip, op, a, b, st):
        try:
            x, y = down(a), down(b)
            if isinstance(op, ast.Add):
                return up(x + y)
            if isinstance(op, ast.Mod) and isinstance(x, str):
                return up(x % y)
        except Exception:
            pass
        return None

    def subscript(self, ip, v, k, st, fr, e):
        if isinstance(e.slice, ast.Slice):
            try:
                ks = []
                for p in (e.slice.lower, e.slice.upper, e.slice.step):
                    ks.append(None if p is None else down(ip.ev(p, st, fr)[0][1]))
                return [(st, up(down(v)[slice(*ks)]))]
            except Exception:
                return [(st, UNK)]
        try:
            return [(st, up(down(v)[down(k)]))]
        except Exception:
            return None

    def pure(self, fv, args, kwargs):
        if fv[0] == 'ext':
            n = fv[1]
            a = [down(x) for x in args]
            if n in ('os.path.splitext', 'os.path.basename', 'os.path.dirname', 'os.path.split'):
                return up(getattr(posixpath, n.split('.')[-1])(*a))
            if n in ('os.path.exists', 'os.path.isfile'):
                return ('const', True)
            if n.startswith('re.') and n[3:] in RE:
                if kwargs:
                    return None
                return up(getattr(re, n[3:])(*a))
            if n == 're.compile' and len(a) == 1 and not kwargs:
                return ('pat', a[0])
            if n in ('fnmatch.fnmatch', 'fnmatch.fnmatchcase'):
                import fnmatch
                return up(fnmatch.fnmatchcase(*a))
            if n in ('any', 'all', 'list', 'tuple', 'sorted', 'str', 'max', 'min', 'len', 'bool', 'set', 'frozenset') and len(a) == 1 and not kwargs:
                f = {'any': any, 'all': all, 'list': list, 'tuple': tuple, 'sorted': sorted, 'str': str, 'max': max, 'min': min, 'len': len,
                     'bool': bool, 'set': lambda x: list(dict.fromkeys(x)), 'frozenset': lambda x: list(dict.fromkeys(x))}[n]
                return up(f(a[0]))
        if fv[0] == 'meth':
            if fv[1][0] == 'pat' and fv[2] in RE and not kwargs:
                return up(getattr(re.compile(fv[1][1]), fv[2])(*[down(x) for x in args]))
            if fv[1][0] == 'const' and isinstance(fv[1][1], str) and fv[2] in STR and not kwargs:
                return up(getattr(fv[1][1], fv[2])(*[down(x) for x in args]))
        return None

    def call(self, ip, fv, args, kwargs, st, fr, node, star):
        if fv[0] == 'func' and fv[1] == self.reg:
            return [(st, self.fmts)]
        if fv[0] == 'fmeth':
            fn = self.p.funcs[fv[1]]
            return ip.call_function(fn, [('fmt', 0)] + list(args), kwargs, st, fr, ('fmt', 0), self.fcls, node, star)
        if fv[0] == 'meth' and fv[1][0] == 'ctor' or fv[0] == 'meth' and fv[1][0] == 'fmt':
            if fv[2] == 'defaultExtensions':
                return [(st, self.exts)]
            if fv[2] != 'constructor':
                return [(st, UNK)]
        try:
            r = None if star else self.pure(fv, args, kwargs)
            if r is not None:
                return [(st, r)]
        except Exception:
            pass
        if fv[0] == 'ext' and fv[1] in ('any', 'all', 'len', 'bool') and len(args) == 1 and args[0][0] in ('list', 'tuple'):
            ts = [ip.truth(x) for x in args[0][1]]
            if fv[1] == 'any' and (True in ts or None not in ts):
                return [(st, ('const', True in ts))]
            if fv[1] == 'all' and (False in ts or None not in ts):
                return [(st, ('const', False not in ts))]
        if fv[0] == 'ctor' or fv[0] == 'meth' and fv[2] == 'constructor':
            s = st.setm(st.m + (('try', 0, 'accept'),)) if ('try', 0, 'accept') not in st.m else st
            return [(s, ('fobj', 0))]
        return DetectM.call(self, ip, fv, args, kwargs, st, fr, node, star)


def names_of(ext):
    """file names whose extension is claimed by the declared extension"""
    if '*' in ext:
        stem = ext.replace('*', '')
        if stem.endswith('0'):
            sfx = [stem + '1', stem + '9']
        else:
            sfx = [stem + '04', stem + '1', stem + '12']
    else:
        sfx = [ext]
    return ['dir.name/file' + x for x in sfx] + ['dir.name/FILE' + x.upper() for x in sfx]


def foreign(exts):
    """file names no declared extension claims"""
    out = ['dir.zzq/file.zzq', 'dir/file']
    for x in exts:
        if '*' in x:
            continue
        out += ['dir%s/file%sq' % (x, x), 'dir/file%s.bak' % x, 'dir/file' + x[1:]]
        if len(x) > 2:
            out.append('dir/file' + x[:-1])
    pats = [x.replace('*', '') for x in exts if '*' in x]

    def claimed(n):
        e = posixpath.splitext(n)[1]
        return e in exts or any(e.startswith(p) for p in pats)
    return [n for n in out if not claimed(n)]


def run(proj, exts, name, entry='detectFormat'):
    """True: some path tries the reader (or the analysis lost track); False: none does; 'always': every path does"""
    fn = proj.public(entry, 'func')
    mach = ClaimM(proj, exts, name)
    ip = Interp(proj, mach, lambda f, c=None: not (f.cls is None and f.name in ('userFileClasses', 'fileFormats')))
    res = ip.run_function(fn, [('const', name)], {}, ())
    if ip.exhausted or not res:
        return True
    tried = [any(x[0] in ('try', 'lost') for x in s.m) for k, s, v in res]
    if not any(tried):
        return False
    if all(('try', 0, 'accept') in s.m for k, s, v in res):
        return 'always'
    return True


def extensions(proj):
    out = {}
    for c in proj.registered():
        m = proj.method(c, 'defaultExtensions')
        if m is None:
            continue
        try:
            v = fold_return(m, Env(proj, m.mod, m, c))
        except Unknown:
            continue
        if isinstance(v, list) and all(isinstance(x, str) for x in v):
            out[c] = v
    return out


USER = ['.a', '.bb', '.c3d', '.dddd', '.1eeeeeee', '.f_g', '.hh*', '.$i*', '.%j*']      # extensions a format from outside may declare


def problems(proj, counts, negative=True):
    """(rule, class, extension, message)"""
    seen, out = {}, []

    def q(exts, name, entry):
        k = (tuple(exts), name, entry)
        if k not in seen:
            seen[k] = run(proj, exts, name, entry)
        return seen[k]
    class Any:
        name, key = 'a user format', 'user format'
    jobs = sorted(extensions(proj).items(), key=lambda x: x[0].name)
    if negative:
        jobs += [(Any, USER)]
    for c, exts in jobs:
        for x in exts:
            counts['claims'] = counts.get('claims', 0) + 1
            for n in names_of(x):
                for entry in ('detectFormat', 'read'):
                    r = q(exts, n, entry)
                    counts['claims_decided'] = counts.get('claims_decided', 0) + (r is False or r == 'always')
                    if r is False:
                        out.append(('never-tried', c, x, '%s never tries %s on a file named %r although it declares the extension %r'
                                    % (entry, c.name, n.split('/')[-1], x)))
        if negative:
            for n in foreign(exts):
                if q(exts, n, 'detectFormat') == 'always':
                    out.append(('tried-unclaimed', c, '', 'detectFormat tries %s (extensions %s) on a file named %r' % (c.name, ' '.join(exts), n)))
    return out
