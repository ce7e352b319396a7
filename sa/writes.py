"""abstract interpretation of every writing operation: which paths are opened how, and what is handed over before a normal return"""
import ast
import re
from .absint import Interp, Machine, St, _Facts, merge, UNK, NONE, OPEN, WRITE_METHODS, WRITE_FUNCS
from .checks.c01 import FS, F, S, constructed

PARAM = re.compile(r'(file_?name|^base$|^base_?name$|outfile|jsonfile|out_?put_?file|fname|filepath|_file$|file$|^path$|^fn$)', re.I)


def writing(mode):
    return bool(set(str(mode)) & set('wax+'))


class WriteM(Machine):
    """m: frozenset of ('w', path) opened for replacement, ('c', path) content handed over, ('!', path) a failed write was swallowed"""
    exact = False
    items = True

    def __init__(self):
        self.log = []

    stat_full = None

    def stat(self, st, what, path):
        return UNK
    compare = FS.compare

    def event(self, st, ev, node, frame):
        kind, p = ev[0], ev[1]
        m = st.m
        if kind == 'open':
            mode = str(ev[2])
            if p == NONE:
                return [(st, None, 'TypeError')]
            if writing(mode) or mode == '?':
                self.log.append(('open', p, mode, node, frame.fn, ('w', p) in m))
            if 'w' in mode or 'x' in mode:
                m = frozenset(x for x in m if x not in (('c', p), ('!', p))) | {('w', p)}
            elif ('a' in mode or '+' in mode) and ('w', p) not in m:
                m = m | {('append', p)}
            elif mode == '?':
                m = m | {('?', p)}
        elif kind == 'writepath':
            if p == NONE:
                return [(st, None, 'TypeError')]
            mode = ev[3]
            self.log.append(('open', p, mode, node, frame.fn, ('w', p) in m))
            if 'a' in mode or '+' in mode:
                m = m | ({('c', p)} if ('w', p) in m else {('append', p)})
            else:
                m = frozenset(x for x in m if x != ('!', p)) | {('w', p), ('c', p)}
        elif kind in ('content', 'use') and p[0] == 'handle':
            if writing(p[2]) or p[2] == '?':
                m = (m - {('!', p[1])}) | {('c', p[1])}       # written again after a failure: a fallback, not a swallowed failure
        elif kind in ('access', 'passed') and re.search('write|save|dump|export|call|to_', str(ev[2])):
            m = m | {('?', p)}
        elif kind == 'writeobj':
            m = m | {('c', x[1]) for x in m if x[0] == 'w'} | {('unk-write',)}
        elif kind == 'delete':
            self.log.append(('delete', p, ev[2], node, frame.fn, False))
        elif kind == 'mkdir':
            self.log.append(('mkdir', p, ev[2], node, frame.fn, False))
        return [(st.setm(m), None, None)]

    def fail(self, ip, st, fv, args, kwargs, node, fr):
        """a call failed inside a try: if it was writing, what is on disk is incomplete"""
        tgt = None
        if fv[0] == 'meth' and fv[1][0] == 'handle' and fv[2] in ('write', 'writelines') and writing(fv[1][2]):
            tgt = fv[1][1]
        elif fv[0] == 'ext' and fv[1] in OPEN and args and args[0][0] == 'path':
            mode = ip.mode_of(args, kwargs)
            if writing(mode):
                tgt = args[0]
        elif fv[0] == 'ext' and fv[1] in WRITE_FUNCS or fv[0] == 'meth' and fv[2] in WRITE_METHODS:
            for v in list(args) + list(kwargs.values()):
                if v[0] == 'path':
                    tgt = v
                elif v[0] == 'handle':
                    tgt = v[1]
        if tgt is None:
            hs = [v for v in list(args) + list(kwargs.values()) if v[0] == 'handle' and writing(v[2])]
            if hs:
                tgt = hs[0][1]
        if tgt is not None:
            return st.setm(st.m | {('!', tgt)})
        return st


class Entry:
    def __init__(self, label, cls, fn, res, mach, exhausted, sym, stored):
        self.label, self.cls, self.fn, self.res, self.mach = label, cls, fn, res, mach
        self.exhausted, self.sym, self.stored = exhausted, sym, stored


def entries_of_class(proj, c, rel):
    """runs of write(F) / write() for one format class"""
    w = proj.method(c, 'write')
    if w is None:
        return
    heaps = {'new': constructed(proj, c, rel, []), 'used': constructed(proj, c, rel, [S])}
    extra = {p: UNK for p in w.params[2:]}
    for label, args, hs, sym in (('write(path) of a new object', [F], heaps['new'], 'F'),
                                 ('write(path) of an object read from another file', [F], heaps['used'], 'F'),
                                 ('write() to the remembered path', [], heaps['used'], 'S')):
        mach = WriteM()
        ip = Interp(proj, mach, rel)
        ip.loop_min1 = True
        res = [o for h in hs for o in ip.run_method(c, 'write', args, dict(extra), h, frozenset(), raw=True) or []]
        yield Entry(label, c, w, res, mach, ip.exhausted, sym, 'S' if sym == 'F' else None), ip


def other_writers(proj, rel):
    """functions and methods with a path-like parameter (apart from write of the format classes)"""
    for fn in proj.funcs.values():
        if fn.shadowed or fn.mod.rel.split('/')[-1].startswith('_'):
            continue
        if fn.is_property or fn.name in ('__init__', 'read', '_read'):
            continue
        if fn.name == 'write' and fn.cls is not None and proj.is_file_class(fn.cls):
            continue
        ps = [p for p in fn.params if PARAM.search(p)]
        if ps and rel(fn):
            yield fn, ps


def run_other(proj, rel, fn, p):
    mach = WriteM()
    mach.entry = fn
    ip = Interp(proj, mach, rel)
    ip.loop_min1 = True
    kw = {q: UNK for q in fn.params + fn.kwonly}
    kw[p] = F
    heap = {}
    if fn.is_method and not fn.is_static:
        first = fn.params[0]
        kw.pop(first, None)
        if fn.is_classmethod:
            args = [('class', fn.cls.key)]
        else:
            args = [('obj', fn.cls.key, 'self')]
            heap = {('self', 'filename'): S}
        st = St({}, heap, _Facts(), frozenset())
        from .absint import Frame
        fr = Frame(fn, fn.cls, args[0], 0, 0)
        res = ip.call_function(fn, args, kw, st, fr, args[0], fn.cls)
        res = [('return', s, v) for s, v in res] + [('raise', s, e) for s, e in fr.raised]
    else:
        res = ip.run_function(fn, [], kw, frozenset())
    return Entry('%s(%s=path)' % (fn.qual, p), fn.cls, fn, res, mach, ip.exhausted, 'F', 'S'), ip
