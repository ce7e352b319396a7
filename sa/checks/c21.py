"""C21: entry kinds and section tables of the OpenFAST input files"""
import ast
import json
import os
from ..check import Finding, Result
from ..model import AnalysisError
from ..recexec import Interp, GiveUp, St, K, U, NO, lin, names, taint, maybe_none, isrec, mkcat

RULE = ('abstract interpretation of the reader of the OpenFAST input files over records with known keys: every entry that can be appended to the data is collected '
        '(with one path per row of the tables of known sections), then every shape of entry is fed, still abstractly, to the writer, the conversion to data frames and the '
        'label functions: none may have to fail on it or produce a result that does not depend on its value or label; sections are compared with the OpenFAST definition, '
        'the lines handed to a table parser must be the lines skipped, and the parallel lists must be used with equal lengths and shortened together')
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'spec', 'openfast_sections.json')
NOINLINE = {'getID', 'getIDSafe', 'getIDs', 'keys', '__getitem__', 'toString', 'toDataFrame', '_toDataFrame', 'write', '_write', 'toGraph', '__setitem__', '__repr__'}
MOD = 'weio.fast_input_file'
NOTCONVERTED = {'DampingCoeffs'}       # two scalars, not a table


def producer(p, cls, name, args=(), kwargs=None):
    it = Interp(p, cls)
    it.inline_self = lambda n: n not in NOINLINE
    ends = []
    it.iter_end = lambda st, node, kind, entry: ends.append((st, node, kind)) if any(e[0] == 'row' for e in st.ev) else None
    m = p.method(cls, name)
    outs = it.run(m, args, kwargs or {})
    for v, st in outs:
        if st.emitted:
            it.finish(st, True)
    return it, ends, outs


def const_part(v):
    """label -> (constant part or None, has a symbolic suffix)"""
    if v[0] == 'k':
        return v[1], False
    if v[0] == 'cat':
        if isinstance(v[1][0], str):
            s = v[1][0]
            rest = v[1][1:]
            if s.endswith('_') and rest and not isinstance(rest[0], str):
                s = s[:-1]
            return s, bool(rest)
        return None, True
    return None, True


def check(p, tier):
    base = p.public('FASTInputFileBase', 'class', MOD)
    F, counts = [], {}
    gaps = set()
    kinds = {}
    for k, s in base.mod.syms.items():
        if k.startswith('TABTYPE'):
            v = Interp(p, base).modvars(base.mod).get(k)
            if v and v[0] == 'k':
                kinds.setdefault(v[1], []).append(k)
    for v, ns in kinds.items():
        if len(ns) > 1:
            F.append(Finding('kind-values', base.mod.rel, '<module>', '/'.join(sorted(ns)), 1, 'the kinds %s have the same value %r: their entries cannot be told apart' % (' and '.join(sorted(ns)), v)))
    family = [base] + sorted(p.subclasses(base), key=lambda c: c.name)
    family = [c for c in family if c.mod.name.split('.')[0] == base.mod.name.split('.')[0]]
    entries = {}          # (class for consumers, shape) -> (function, line)
    produced = {}
    try:
        it, ends, outs = producer(p, base, '_read')
        produced[base] = it
        gaps |= it.gaps
        sections(p, base, it, ends, F, counts)
        for (fields, exact, row), (st, fn) in it.emissions.items():
            d = dict(fields)
            if row is None and d.get('tabType', K(0))[0] == 'k' and d.get('tabType', K(0))[1] and const_part(d.get('label', K('')))[0] is None:
                # which section this is could not be followed: neither what it has nor what it lacks is known
                counts['undecided'] = counts.get('undecided', 0) + 1
                continue
            if exact:
                entries.setdefault((base, shape(fields)), (fn, row))
        errs(it, base, F, 'read')
    except GiveUp as e:
        counts['undecided'] = counts.get('undecided', 0) + 1
    for c in family[1:]:
        for nm, args in (('_read', ()), ('__init__', (K(None),))):
            m = p.method(c, nm)
            if m is None or m.cls is not c:
                continue
            try:
                it, ends, outs = producer(p, c, nm, args)
            except GiveUp:
                counts['undecided'] = counts.get('undecided', 0) + 1
                continue
            produced[(c, nm)] = it
            errs(it, c, F, nm)
            for (fields, exact, row), (st, fn) in it.emissions.items():
                if exact:
                    entries.setdefault((c, shape(fields)), (fn, row))
    counts['entry_shapes'] = len(entries)
    nobl = 0
    done = {}
    for (c, sh), (fn, row) in sorted(entries.items(), key=lambda x: (x[0][0].name, str(x[0][1]))):
        users = [c]
        for u in users:
            nobl += consumers(p, u, sh, fn, kinds, F, done, counts)
    nobl += own_writers(p, base, family, produced, F)
    counts['obligations'] = nobl
    if not entries:
        raise AnalysisError('no entry of the OpenFAST reader could be followed')
    samples = ['%s: kind %s label %s' % (c.name, '/'.join(kinds.get(dict(sh).get('tabType', K(None))[1], ['?'])), dict(sh).get('label')[1]) for c, sh in list(entries)[:12]]
    return Result(F, RULE, counts, samples,
                  ['a condition the analysis cannot decide is assumed to go either way', 'spec/openfast_sections.json: sections of the OpenFAST modules as documented'],
                  {'entry_shapes': 1})


def shape(fields):
    out = []
    for f, v in fields:
        t = frozenset([f])
        if f == 'label':
            c, suf = const_part(v)
            w = K(c, t) if c is not None else U('f:label', True, t)
        elif f in ('isComment', 'tabType') and v[0] == 'k':
            w = K(v[1], t)
        elif v[0] == 'k' and v[1] is None:
            w = K(None, t)
        elif v[0] in ('rec', 'coll'):
            w = U('f:' + f, True, t)
        else:
            w = U('f:' + f, not maybe_none(v), t)
        out.append((f, w))
    return tuple(out)


def errs(it, c, F, what):
    for (line, col, msg), (node, m, fn, st) in it.errors.items():
        F.append(Finding('reader-fails', fn.mod.rel, fn.qual, ast.unparse(node)[:60] + ' ' + msg, line,
                         'on a path of %s.%s this always fails: %s' % (c.name, what, msg)))


# ---------------------------------------------------------------------- sections
def sections(p, base, it, ends, F, counts):
    fn = p.method(base, '_read')
    rel = fn.mod.rel
    spec = json.load(open(SPEC))
    # lists used together
    for org, use in it.rowuse.items():
        lens = {n: {x for x in l if x != 'del'} for n, l in use.items()}
        ref = max(lens.get(org, {0}))
        for n, l in sorted(lens.items()):
            if n != org and l and max(l) != ref:
                F.append(Finding('list-length', rel, fn.qual, '%s/%s' % (org, n), fn.lineno,
                                 '%s has %d elements, %s has %d: the rows of the known sections do not correspond' % (n, max(l), org, ref)))
    read = {org: {n for n, l in use.items() if any(x != 'del' for x in l)} for org, use in it.rowuse.items()}
    # shortened together; lines skipped are the lines read
    seen = set()
    for st, node, kind in ends:
        rows = [e for e in st.ev if e[0] == 'row']
        dels = {}
        for e in st.ev:
            if e[0] == 'del':
                dels.setdefault(e[1], []).append(e[3])
        for org, l in dels.items():
            if '?' in l:
                continue
            missing = read.get(org, set()) - set(l)
            for n in sorted(missing):
                if ('del', org, n) not in seen:
                    seen.add(('del', org, n))
                    F.append(Finding('rows-out-of-step', rel, fn.qual, n, fn.lineno,
                                     'a section that was read is removed from %s but not from %s: for the next section the row number of one list is used in the other' % (l[0], n)))
            for n in set(l):
                if l.count(n) > 1 and ('dup', org, n) not in seen:
                    seen.add(('dup', org, n))
                    F.append(Finding('rows-out-of-step', rel, fn.qual, n + ' twice', fn.lineno, '%s loses two elements when one section was read' % n))
        if kind not in ('fall', 'continue') or not rows:
            continue
        sl = [e for e in st.ev if e[0] == 'slice']
        if sl:
            _, b, lo, hi = sl[-1]
            var = [x.rsplit('havoc.', 1)[1] for x in names(lo) if 'havoc.' in x and '/' not in x.rsplit('havoc.', 1)[1]]
            cur = st.env.get(var[0]) if len(var) == 1 else None
            if cur is not None and lin(cur) and lin(hi):
                counts['line_counts'] = counts.get('line_counts', 0) + 1
                a, c = lin(cur), lin(hi)
                d = {k: a[0].get(k, 0) - c[0].get(k, 0) for k in set(a[0]) | set(c[0])}
                d = {k: x for k, x in d.items() if x}
                off = a[1] - c[1]
                row = rows[-1]
                if (not d and off) or (d and set(d) <= set(c[0]) | {k for k in d if k.startswith('self[')} and comparable(d, a, c)):
                    key = ('skip', row[3], off)
                    if key not in seen:
                        seen.add(key)
                        F.append(Finding('lines-skipped', rel, fn.qual, 'section %s' % row[3], fn.lineno,
                                         'the section found by %r is read from the lines up to %s, but reading goes on at %s' % (row[3], show(hi), show(cur))))
    # one entry per row
    byrow = {}
    for (fields, exact, row), (st, f2) in it.emissions.items():
        if row is None:
            continue
        d = dict(fields)
        byrow.setdefault(row[1:], []).append((d, f2))
    tab = {}
    nread = 0
    for (org, k), word in sorted(it.rows.items()):
        got = [(d, f2) for d, f2 in byrow.get((org, k, word), []) if d.get('tabType', K(0))[0] == 'k' and (d.get('tabType')[1] not in (0, None) or False)]
        if not got:
            tab[(org, k)] = None
        else:
            nread += 1
            tab[(org, k)] = got
    counts['sections'] = len(tab)
    counts['sections_read'] = nread
    suffixed = any(row is None and dict(fields).get('label', K(''))[0] == 'cat' and not isinstance(dict(fields)['label'][1][0], str)
                   for (fields, exact, row) in it.emissions)
    if nread < 5:
        return
    obs = {}
    for (org, k), got in sorted(tab.items()):
        word = it.rows[(org, k)]
        if got is None:
            F.append(Finding('section-unreadable', rel, fn.qual, 'section %s' % word, fn.lineno,
                             'no path stores the table of the section found by %r: reading it always fails' % word))
            obs.setdefault(word, []).append(None)
            continue
        res = set()
        for d, f2 in got:
            c, suf = const_part(d.get('label', K(None)))
            if suffixed and not suf and c is not None:
                F.append(Finding('label-suffix', f2.mod.rel, f2.qual, 'section %s' % word, f2.lineno,
                                 'the table of the section found by %r is stored as %r without the number of the table it belongs to: the tables of a file with several get the same label' % (word, c)))
            if d['label'][0] == 'cat':
                syms = [x for x in d['label'][1] if not isinstance(x, str)]
                if len(set(syms)) < len(syms):
                    F.append(Finding('label-suffix', f2.mod.rel, f2.qual, 'section %s twice' % word, f2.lineno, 'the label %s gets its suffix twice' % show(d['label'])))
            dim = d.get('tabDimVar', K('?'))
            cn, un = d.get('tabColumnNames'), d.get('tabUnits')
            res.add((c, dim[1] if dim[0] == 'k' else '?', None if cn is None else not (cn[0] == 'k' and cn[1] is None),
                     None if un is None else not (un[0] == 'k' and un[1] is None), d['tabType'][1]))
        obs.setdefault(word, []).append(res)
    # entries stored next to a table
    for (org, k), word in sorted(it.rows.items()):
        for d, f2 in byrow.get((org, k, word), []):
            l = d.get('label', K(''))
            if l[0] == 'cat':
                syms = [x for x in l[1] if not isinstance(x, str)]
                if len(set(syms)) < len(syms):
                    F.append(Finding('label-suffix', f2.mod.rel, f2.qual, 'entry with suffix twice', f2.lineno,
                                     'the entry stored before the table of %r gets its suffix twice: it is not found under its label' % word))
    # number of lines
    for (kind, v, row), (line, st, f2) in it.lookups.items():
        if row is None or kind != 'item':
            continue
        word = row[3]
        got = tab.get((row[1], row[2]))
        if not got:
            continue
        c, suf = const_part(v)
        dims = {d['tabDimVar'][1] for d, _ in got if d.get('tabDimVar', K(None))[0] == 'k'}
        if c is not None and isinstance(c, str) and dims and all(isinstance(x, str) for x in dims) and c.lower() not in {x.lower() for x in dims}:
            F.append(Finding('size-variable', f2.mod.rel, f2.qual, 'section %s' % word, line,
                             'the number of lines of the section found by %r is taken from %r, but the table is labelled as sized by %s' % (word, c, sorted(dims))))
        if c is not None and not suf and suffixed and isinstance(c, str) and c.lower() == word:
            F.append(Finding('size-variable', f2.mod.rel, f2.qual, 'section %s suffix' % word, line,
                             'the number of lines is stored as %r with the number of the table it belongs to, but looked up without it' % c))
    pk = p_kinds(it, base)
    literals = {x.value.lower() for x in ast.walk(fn.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    literals |= {x.value.lower() for b in base.mod.tree.body if isinstance(b, (ast.Assign, ast.AnnAssign)) for x in ast.walk(b) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    literals |= {x.value.lower() for c in p.mro(base) for b in c.node.body if isinstance(b, (ast.Assign, ast.AnnAssign)) for x in ast.walk(b) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    for word, want in spec.items():
        got = obs.get(word)
        if got is None:
            if len(obs) >= 0.7 * len(spec) and word not in literals:
                F.append(Finding('section-missing', rel, fn.qual, 'section %s' % word, fn.lineno,
                                 'the section that starts with %r (%s) is not in the tables of known sections' % (word, want[0]['label'])))
            continue
        if len(got) < len(want):
            F.append(Finding('section-missing', rel, fn.qual, 'section %s' % word, fn.lineno, 'only %d of the %d sections that start with %r are known' % (len(got), len(want), word)))
        for i, (g, w) in enumerate(zip(got, want)):
            if not g:
                continue
            key = [k for k, x in sorted(it.rows.items()) if x == word]
            if w.get('own') and i < len(key) and not any(d.get('tabType', K(0))[0] == 'k' and not d.get('tabType', K(0))[1] for d, _ in byrow.get(key[i] + (word,), [])):
                F.append(Finding('section-row', rel, fn.qual, 'section %s own entry' % word, fn.lineno,
                                 'the line %r that precedes the table is not stored as an entry of its own' % word))
            g = sorted(g, key=str)
            bad = []
            labs = {c for c, *_ in g if c is not None}
            if labs - {w['label']}:
                bad.append('stored as %s (expected %r)' % (sorted(labs), w['label']))
            dims = {dim for _, dim, *_ in g if dim != '?'}
            if dims - {w['dim']}:
                bad.append('sized by %s (expected %r)' % (sorted(dims, key=str), w['dim']))
            for nm, j in (('names', 2), ('units', 3)):
                # after the loop over the rows both outcomes may be possible: only the impossible one is wrong
                has = {x[j] for x in g}
                if w[nm] is not None and None not in has and w[nm] not in has:
                    bad.append('read %s column %s (expected %s)' % (('with', 'without')[w[nm]], nm, ('without', 'with')[w[nm]]))
            for kind in sorted({x[4] for x in g}, key=str):
                nms = pk.get(kind)
                if nms and not any(n == 'TABTYPE_' + w['kind'] for n in nms) and 'TABTYPE_' + w['kind'] in {x for y in pk.values() for x in y}:
                    bad.append('stored as kind %s (expected %s)' % ('/'.join(nms), w['kind']))
            if bad:
                F.append(Finding('section-row', rel, fn.qual, 'section %s' % word, fn.lineno, 'the section found by %r is %s' % (word, ', '.join(bad))))
    # lines of header
    for st, node, kind in ends:
        rows = [e for e in st.ev if e[0] == 'row']
        sl = [e for e in st.ev if e[0] == 'slice']
        if not rows or not sl:
            continue
        _, b, lo, hi = sl[-1]
        a, c = lin(lo), lin(hi)
        word, org, k = rows[-1][3], rows[-1][1], rows[-1][2]
        w = spec.get(word)
        nth = sorted(kk for (o, kk), x in it.rows.items() if o == org and x == word).index(k)
        if w is None or nth >= len(w):
            continue
        w = w[nth]
        if w['header'] is None:
            continue
        d = {x: c[0].get(x, 0) - a[0].get(x, 0) for x in set(a[0]) | set(c[0])}
        d = {x: y for x, y in d.items() if y}
        n = c[1] - a[1]
        if isinstance(w['dim'], int):
            if d:
                continue
            n -= w['dim']
        elif list(d.values()) != [1]:
            continue
        if n != w['header']:
            key = ('hdr', word)
            if key not in seen:
                seen.add(key)
                F.append(Finding('section-row', rel, fn.qual, 'section %s header' % word, fn.lineno,
                                 'the section found by %r is read with %d line(s) besides its rows (expected %d)' % (word, n, w['header'])))


def p_kinds(it, base):
    out = {}
    for k, v in it.modvars(base.mod).items():
        if k.startswith('TABTYPE') and v[0] == 'k':
            out.setdefault(v[1], []).append(k)
    return out


def comparable(d, a, c):
    """the difference only involves the counter and sizes both sides know"""
    return all(k in a[0] or k in c[0] for k in d) and all('havoc.' in k or k.startswith('self[') for k in d)


def show(v):
    l = lin(v)
    if v[0] == 'cat':
        return '+'.join(x if isinstance(x, str) else short(x[1]) for x in v[1])
    if l:
        s = '+'.join(('' if c == 1 else '%d*' % c) + short(n) for n, c in l[0].items())
        return s + ('%+d' % l[1] if l[1] else '')
    return str(v)


def short(n):
    return n.rsplit('havoc.', 1)[1] if 'havoc.' in n else n if n.startswith('self[') else n.rsplit('/', 1)[-1]


# ---------------------------------------------------------------------- consumers
def run(p, cls, name, sh, args=()):
    it = Interp(p, cls, data=['$rec'])
    st = St()
    st.heap['$rec'] = ('R', sh, True)
    m = p.method(cls, name)
    if m is None:
        return None
    outs = it.call_func(m, [('self',)] + list(args), {}, st, m.node)
    return it, m, outs


def alltaint(v, st):
    return taint(v, st.heap)


def consumers(p, cls, sh, fn, kinds, F, done, counts):
    d = dict(sh)
    kind = d.get('tabType', K(None))
    comment = d.get('isComment', K(False))
    comment = comment[0] == 'k' and bool(comment[1])
    names_ = kinds.get(kind[1], []) if kind[0] == 'k' else []
    label = d.get('label', K(None))
    lab = label[1] if label[0] == 'k' and isinstance(label[1], str) else '...'
    what = '%s%s' % ('a comment' if comment else 'an entry of kind %s' % ('/'.join(names_) or kind[1]), '' if lab in ('...', '') else ' (%s)' % lab)
    ck = 'comment' if comment else ('/'.join(names_) or str(kind[1]))
    n = 0

    def report(m, rule, msg, line=None):
        F.append(Finding(rule, m.mod.rel, m.qual, ck + ('' if rule != 'not-converted' else ' ' + lab), line or m.lineno, msg + ' [entry made in %s]' % fn.qual))

    def go(name, need, args=(), good=None):
        key = (cls, name, sh)
        if key in done:
            return 0
        done[key] = True
        m0 = p.method(cls, name)
        if m0 is None:
            return 0
        try:
            it, m, outs = run(p, cls, name, sh, args)
        except GiveUp:
            counts['undecided'] = counts.get('undecided', 0) + 1
            return 0
        for (line, col, msg), (node, mm, f2, st) in it.errors.items():
            F.append(Finding('entry-fails', f2.mod.rel, f2.qual, '%s: %s' % (ck, msg), line, '%s on %s always fails here: %s (%s) [entry made in %s]' % (name, what, msg, ast.unparse(node)[:60], fn.qual)))
        ok = [(v, s) for v, s in outs if v[0] != 'err']
        if not ok:
            if not it.errors:
                report(m, 'kind-not-handled', '%s has no branch for %s: every path raises' % (name, what))
            return 1
        if good is not None:
            if not any(good(v, s) for v, s in ok):
                report(m, 'entry-dropped', '%s never finds %s' % (name, what))
            return 1
        t = frozenset().union(*[alltaint(v, s) for v, s in ok])
        # what an iteration could not be followed through is assumed to be used
        miss = [x for x in need if x not in t and '@' + x not in t]
        if name == 'toString' and 'label' in need and 'label' not in miss and any('label' not in alltaint(v, s) and '@label' not in alltaint(v, s) for v, s in ok):
            miss.append('label')
        if miss and not it.gaps:
            report(m, 'not-converted' if 'DataFrame' in name else 'entry-dropped', '%s of %s does not depend on its %s: it is silently dropped' % (name, what, ' and '.join(miss)))
        return 1
    own = p.method(cls, 'toString')
    uses_data = own is not None and any(isinstance(x, ast.Attribute) and x.attr == 'data' for x in ast.walk(own.node))
    if uses_data:
        need = ['value']
        if not comment:
            if kind[0] == 'k' and (any('NOT_A_TAB' in x or 'FIL' in x for x in names_)):
                need.append('label')
                need.append('descr')
            for f in () if any('NO_HEADER' in x for x in names_) else ('tabColumnNames', 'tabUnits'):
                if f in d and not (d[f][0] == 'k' and d[f][1] is None):
                    need.append(f)
        n += go('toString', need)
    if not comment:
        conv = any('NUM' in x or 'MIX' in x for x in names_) or (not names_ and 'tabColumnNames' in d)
        if lab not in NOTCONVERTED:
            df = p.method(cls, '_toDataFrame')
            if df is not None and df.cls is p.method(p.mro(cls)[-1], '_toDataFrame') or df is not None and any(isinstance(x, ast.Attribute) and x.attr == 'data' for x in ast.walk(df.node)):
                n += go('_toDataFrame', ['value'] if conv else [])
        n += go('keys', ['label'])
        q = U('query', True, frozenset())
        if '__getitem__' in base_methods(p, cls):
            n += go('__getitem__', ['value'], (q,))
        n += go('getIDSafe', [], (q,), good=lambda v, s: v[0] in ('k', 'u') and not (v[0] == 'k' and v[1] == -1))
        n += go('getIDs', [], (q,), good=lambda v, s: not (v[0] == 'seq' and not v[2]))
    return n


def base_methods(p, cls):
    out = set()
    for c in p.mro(cls):
        out |= set(c.methods)
    return out


def own_writers(p, base, family, produced, F):
    """classes with a writer of their own: every label they read or create is one they write"""
    n = 0
    for c in family[1:]:
        # (a) toString of its own, by label
        m = c.methods.get('toString')
        if m is not None and not any(isinstance(x, ast.Attribute) and x.attr == 'data' for x in ast.walk(m.node)):
            labels = {}
            for nm in ('_read', '__init__'):
                it = produced.get((c, nm))
                if it is None:
                    continue
                for (fields, exact, row), (st, fn) in it.emissions.items():
                    d = dict(fields)
                    lab, suf = const_part(d.get('label', K(None)))
                    if lab and not suf and not (d.get('isComment', K(False))[1] is True):
                        labels.setdefault(lab, fn)
            try:
                it = Interp(p, c)
                it.inline_self = lambda x: x not in NOINLINE
                outs = it.run(m)
            except GiveUp:
                continue
            used = {v[1].lower() for (kind, v, row) in it.lookups if v[0] == 'k' and isinstance(v[1], str)}
            if not used or any(v[0] != 'k' for (kind, v, row) in it.lookups):
                continue
            for lab, fn in sorted(labels.items()):
                n += 1
                if lab.lower() not in used:
                    F.append(Finding('entry-dropped', m.mod.rel, m.qual, 'label %s' % lab, m.lineno, '%s reads %r (%s) but its own toString never writes it' % (c.name, lab, fn.qual)))
        # (b) labels carrying a table number lose it again when written
        w = c.methods.get('_write')
        ini = produced.get((c, '__init__'))
        if w is not None and ini is not None:
            try:
                it = Interp(p, c)
                it.inline_self = lambda x: x not in NOINLINE
                it.run(w)
            except GiveUp:
                continue
            strip = set()
            for (kind, v, row) in it.lookups:
                lab, suf = const_part(v)
                if kind.startswith('getID') and suf and lab:
                    strip.add(lab.lower())
            if len(strip) < 3:
                continue
            for (fields, exact, row), (st, fn) in ini.emissions.items():
                lab, suf = const_part(dict(fields).get('label', K(None)))
                if lab and suf:
                    n += 1
                    if lab.lower() not in strip:
                        F.append(Finding('label-suffix', w.mod.rel, w.qual, 'label %s' % lab, w.lineno,
                                         '%s stores %r with the number of its table, but the writer does not take the number off again' % (c.name, lab)))
    return n
