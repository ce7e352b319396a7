"""C22: what a text format reads with undecodable bytes kept can be written with these bytes unchanged; same encoding on both sides"""
import ast
import codecs
from ..check import Finding, Result
from ..absint import Interp, relevance, UNK, NONE
from ..callgraph import Graph
from ..model import walk_own
from ..par import pmap
from ..writes import WriteM, writing
from .c01 import FS, F, S, constructed, options

RULE = ('abstract interpretation of construction, read and write of every format class records, for every text-mode open of the format\'s own file, its encoding '
        'and its error handler (also when they arrive through helper functions, attributes or options). A class all of whose reads keep undecodable bytes '
        '(surrogateescape) must write with the same handler; no side may use a handler that drops or replaces bytes; constant encodings of reader and '
        'writer must be the same; explicit encode/decode calls reachable from them must not drop or replace bytes')
KEEP = ('surrogateescape', 'surrogatepass')
LOSSY = ('ignore', 'replace', 'backslashreplace', 'xmlcharrefreplace', 'namereplace')


class Log:
    def opened(self, path, mode, enc, err, node, frame):
        if path[0] == 'path' and path[2] == 'same' and path[1] == self.sym:
            self.opens.setdefault((mode, enc, err, node.lineno, frame.fn.key), (frame.fn, node))


class ReadM(FS, Log):
    def __init__(self, case):
        FS.__init__(self, case)
        self.opens, self.sym = {}, 'F'


class WriteLogM(WriteM, Log):
    def __init__(self, sym):
        WriteM.__init__(self)
        self.opens, self.sym = {}, sym


def const(v):
    """(known, value)"""
    if v == NONE:
        return True, None
    if v[0] == 'const' and (v[1] is None or isinstance(v[1], str)):
        return True, v[1]
    return False, None


def text(mode):
    return mode != '?' and 'b' not in mode


def encname(e):
    if e is None:
        return 'the platform default'
    try:
        n = codecs.lookup(e).name
    except LookupError:
        return e
    return {'utf-8-sig': 'utf-8'}.get(n, n)


def compatible(a, b):
    """the platform default is not told apart from UTF-8"""
    a, b = encname(a), encname(b)
    return a == b or {a, b} == {'utf-8', encname(None)}


def unicode_capable(e):
    return e is None or encname(e).startswith('utf')


def probe(fn):
    """a test of the file: returns nothing but truth values"""
    rets = [n.value for n in walk_own(fn.node) if isinstance(n, ast.Return)]
    return bool(rets) and all(isinstance(v, ast.Constant) and isinstance(v.value, bool) for v in rets)


def opens_of_class(proj, c):
    """text-mode opens (also through an attribute called open) in the methods of a class that is not a format: (writing, encoding, errors, fn, node)"""
    for m in c.methods.values():
        for n in ast.walk(m.node):
            if not (isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'open' or
                                                 isinstance(n.func, ast.Attribute) and n.func.attr == 'open' and isinstance(n.func.value, ast.Name) and
                                                 m.params and n.func.value.id == m.params[0])):
                continue
            kw = {k.arg: k.value for k in n.keywords}
            if None in kw:
                continue

            def val(i, name, default):
                e = kw.get(name, n.args[i] if len(n.args) > i else None)
                if e is None:
                    return default
                if isinstance(e, ast.Name) and e.id in m.defaults:
                    e = m.defaults[e.id]
                return e.value if isinstance(e, ast.Constant) else '?'
            mode = val(1, 'mode', 'r')
            if mode == '?' or 'b' in mode:
                continue
            yield writing(mode), val(3, 'encoding', None), val(4, 'errors', None), m, n


def judge_class(proj, c):
    """(findings, opens): a parser class of its own, outside the format classes"""
    os_ = list(opens_of_class(proj, c))
    rd, wr = [o for o in os_ if not o[0]], [o for o in os_ if o[0]]
    fs = []
    encs = {o[1] for o in rd if o[1] is not None} or {None}
    keeps = bool(rd) and all(o[2] in KEEP for o in rd)
    if rd and wr and '?' not in encs:
        for _, e, err, m, n in wr:
            if e != '?' and not any(compatible(e, x) for x in encs):
                fs.append(Finding('encodings-differ', m.mod.rel, c.name, '%s: encoding=%s' % (m.qual, e), n.lineno, 'the class reads with %s as encoding and writes with %s' %
                                  (' or '.join(sorted(encname(x) for x in encs)), encname(e))))
            if keeps and err not in KEEP + ('?',) or err in LOSSY:
                fs.append(Finding('write-rejects-bytes', m.mod.rel, c.name, '%s: errors=%s' % (m.qual, err), n.lineno,
                                  'the class keeps undecodable bytes when reading, and writes with errors=%s' % err))
    return fs, len(os_)


def codec_calls(fn):
    """[(node, 'encode'|'decode', encoding, errors)] with constants or '?'"""
    out = []
    for n in ast.walk(fn.node):
        if not isinstance(n, ast.Call):
            continue
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('encode', 'decode'):
            what, pos = n.func.attr, list(n.args)
            if isinstance(n.func.value, ast.Name) and n.func.value.id == 'codecs':
                pos = pos[1:]
        elif isinstance(n.func, ast.Name) and n.func.id in ('str', 'bytes') and (len(n.args) > 1 or n.keywords):
            what, pos = ('decode' if n.func.id == 'str' else 'encode'), list(n.args[1:])
        else:
            continue
        kw = {k.arg: k.value for k in n.keywords}

        def val(i, name, default):
            e = kw.get(name, pos[i] if len(pos) > i else None)
            if e is None:
                return default
            return e.value if isinstance(e, ast.Constant) else '?'
        out.append((n, what, val(0, 'encoding', 'utf-8'), val(1, 'errors', 'strict')))
    return out


def check(proj, tier):
    rel = relevance(proj)
    g = Graph(proj)

    def one(c):
        fs = []
        cnt = dict(classes=0, read_opens=0, write_opens=0, keeping_readers=0, codec_calls=0, undecided=0)
        inl = set()
        w = proj.method(c, 'write')
        if w is None:
            return fs, cnt, inl
        # reader
        reads = {}
        new = constructed(proj, c, rel, [])
        for meth, hs, o in (('__init__', [{}], {}), ('read', new, {}), ('read', new, options(proj, c, 'read'))):
            m = ReadM('full')
            m.prune = False
            ip = Interp(proj, m, rel)
            for h in hs:
                ip.run_method(c, meth, [F], dict(o), h, '', raw=True)
            inl |= ip.inlined
            cnt['undecided'] += ip.exhausted
            reads.update(m.opens)
        writes = {}
        for args, hs, sym in (([F], new, 'F'), ([F], constructed(proj, c, rel, [S]), 'F'), ([], constructed(proj, c, rel, [S]), 'S')):
            m = WriteLogM(sym)
            ip = Interp(proj, m, rel)
            ip.loop_min1 = True
            for h in hs:
                ip.run_method(c, 'write', list(args), {p: UNK for p in w.params[2:]}, h, frozenset(), raw=True)
            inl |= ip.inlined
            cnt['undecided'] += ip.exhausted
            writes.update({k: v for k, v in m.opens.items() if writing(k[0])})
        cnt['classes'] += 1
        rt = {k: v for k, v in reads.items() if not writing(k[0]) and text(k[0])}
        wt = {k: v for k, v in writes.items() if text(k[0])}
        wb = {k: v for k, v in writes.items() if 'b' in k[0]}
        cnt['read_opens'] += len(rt)
        cnt['write_opens'] += len(wt) + len(wb)
        if not wt and not wb:
            return fs, cnt, inl
        rerr = [const(k[2]) for k in rt]
        keeps = bool(rt) and all(ok and v in KEEP for ok, v in rerr)
        cnt['keeping_readers'] += keeps

        def report(rule, fn, node, construct, msg):
            fs.append(Finding(rule, fn.mod.rel, c.name, fn.qual + ': ' + construct, node.lineno, msg, ['in %s' % fn.key]))
        for k, (fn, node) in rt.items():
            ok, v = const(k[2])
            if ok and v in LOSSY:
                report('read-loses-bytes', fn, node, 'errors=%r' % v, 'the reader opens the file with errors=%r: undecodable bytes are not kept, a write changes them' % v)
        for k, (fn, node) in wt.items():
            ok, v = const(k[2])
            if ok and v in LOSSY:
                report('write-loses-bytes', fn, node, 'errors=%r' % v, 'the writer opens the file with errors=%r: bytes that were kept when reading are dropped or replaced' % v)
            elif keeps and ok and v not in KEEP:
                report('write-rejects-bytes', fn, node, 'errors=%s' % v, 'the reader keeps undecodable bytes (errors=%s), the writer opens the file with errors=%s: the text '
                       'that was read cannot be written (UnicodeEncodeError)' % ('/'.join(sorted({x for _, x in rerr})), v))
        src = {k: v for k, v in rt.items() if not probe(v[0])}
        known = {const(k[1])[1] for k in src if const(k[1])[0]}
        detected = any(not const(k[1])[0] for k in src)
        for k, (fn, node) in wt.items():
            okw, ew = const(k[1])
            if okw and src and not any(compatible(er, ew) for er in known) and not (detected and unicode_capable(ew)):
                report('encodings-differ', fn, node, 'encoding=%s' % ew, 'the file is read with %s as encoding and written with %s' %
                       (' or '.join(sorted({encname(x) for x in known} | ({'the detected one'} if detected else set()))), encname(ew)))
        # explicit conversions
        rroots = [(m, c) for m in (proj.method(c, n) for n in ('read', '_read', '__init__')) if m]
        wroots = [(m, c) for m in (proj.method(c, n) for n in ('write', '_write', 'toString')) if m]
        stop = {fn.key for fn, _ in rroots}
        for side, roots in (('read', rroots), ('write', wroots)):
            for fn, _, _ in g.reach(roots, stop=lambda f, k: side == 'write' and f.key in stop and f.name != '__init__').values():
                if fn.name in ('chardet', 'encoding'):
                    continue
                for node, what, enc, err in codec_calls(fn):
                    cnt['codec_calls'] += 1
                    if err in LOSSY and (rt or wt or wb):
                        report(side + '-loses-bytes', fn, node, ast.unparse(node)[:80], '%s drops or replaces characters (errors=%r) on the way of the text of the file' % (ast.unparse(node)[:60], err))
                    elif what == 'encode' and side == 'write' and keeps and not wt and err == 'strict' and not isinstance(node.func, ast.Name) and \
                            not isinstance(getattr(node.func, 'value', None), ast.Constant):
                        report('write-rejects-bytes', fn, node, ast.unparse(node)[:80], 'the reader keeps undecodable bytes, the writer encodes strictly: %s' % ast.unparse(node)[:60])
        return fs, cnt, inl
    fs, counts, inl = [], {}, set()
    for f, n, i in pmap(one, list(proj.file_classes())):
        fs += f
        inl |= i
        for k, v in n.items():
            counts[k] = counts.get(k, 0) + v
    counts['functions_inlined'] = len(inl)
    counts['other_classes'] = 0
    for c in proj.classes.values():
        if not proj.is_file_class(c):
            f, n = judge_class(proj, c)
            fs += f
            counts['other_classes'] += bool(n)
    return Result(fs, RULE, counts, samples=sorted(inl)[:12],
                  assumptions=['the text read can become part of the text written', 'encodings detected from the content are compatible with the one used for writing',
                               'files opened inside third-party readers and writers are not seen'],
                  minimum=dict(classes=15, read_opens=5, write_opens=3))
