"""Wiring rules (C11): calls inside the package match the callee's signature in every class context, methods and
attributes used on `self` exist, message templates match their arguments, exceptions that are built are raised,
methods used as values are called, imported package symbols exist."""
import ast, re, string
from .model import walk_own, dotted, is_main_guard

BUILTIN_BASE_ATTRS = {
    'dict': set(dir(dict)), 'object': set(dir(object)), 'Exception': set(dir(Exception)), 'list': set(dir(list)),
    'OrderedDict': set(dir(__import__('collections').OrderedDict)), 'ValueError': set(dir(ValueError)),
}
EXC_NAMES = {n for n, v in vars(__import__('builtins')).items() if isinstance(v, type) and issubclass(v, BaseException)}


def in_main(mod, node, cache={}):
    k = id(mod)
    if k not in cache:
        s = set()
        for n in mod.tree.body:
            if isinstance(n, ast.If) and is_main_guard(n.test):
                s.update(id(x) for x in ast.walk(n))
        cache[k] = (mod, s)
    return id(node) in cache[k][1]


def contexts(proj, f):
    """class contexts in which a method runs: its class and every subclass that inherits it"""
    if f.cls is None:
        return [None]
    out = [f.cls]
    for c in proj.subclasses(f.cls):
        if f.parent is None:
            if proj.method(c, f.name) is f or True:      # may also be reached through super()
                out.append(c)
        else:
            out.append(c)
    return out


def self_name(f):
    g = f
    while g.parent is not None:
        g = g.parent
    return g.params[0] if g.bound_self() and not g.is_classmethod and g.params else None


def callee_of(proj, call, f, cls):
    """(Func, number of implicit leading args) or None.  f: function containing the call, cls: class context"""
    fn = call.func
    sn = self_name(f) if f is not None else None
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and sn and fn.value.id == sn and cls is not None:
        # shadowed self in nested functions is not used in this code base
        m = proj.method(cls, fn.attr)
        if m is None or m.is_property:
            return None
        return m, (0 if m.is_static else 1)
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and dotted(fn.value.func) == 'super' and f is not None and f.cls is not None:
        c = f.cls
        if len(fn.value.args) >= 1:
            r = proj.resolve_expr(fn.value.args[0], f.mod, f)
            if r and r[0] == 'class':
                c = r[1]
        m = proj.method(cls or c, fn.attr, after=c)
        if m is None:
            return None
        return m, (0 if m.is_static else 1)
    r = proj.resolve_expr(fn, f.mod, f) if f is not None else None
    if r is None:
        return None
    if r[0] == 'func':
        m = r[1]
        # Class.method(obj, ...) : explicit self
        if m.is_classmethod:
            return m, 1
        return m, 0
    if r[0] == 'class':
        m = proj.method(r[1], '__init__')
        if m is None:
            return None
        return m, 1
    return None


def signature_problem(m, call, implicit):
    """text describing why the call cannot bind, or None"""
    if any(d not in ('staticmethod', 'classmethod', 'property') and not d.endswith('.setter') for d in m.decorators):
        return None
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = sum(1 for a in call.args if not isinstance(a, ast.Starred)) + implicit
    if npos > len(m.params) and m.vararg is None:
        return 'takes %d positional argument(s), %d given' % (len(m.params) - implicit, npos - implicit)
    kws = [k.arg for k in call.keywords if k.arg is not None]
    for k in kws:
        if k not in m.params and k not in m.kwonly and m.kwarg is None:
            return 'has no parameter named %r' % k
        if not star and k in m.params[:npos]:
            return 'gets two values for %r' % k
    if not star and not dstar:
        missing = [p for i, p in enumerate(m.params) if i >= npos and p not in kws and p not in m.defaults]
        missing += [p for p in m.kwonly if p not in kws and p not in m.defaults]
        if missing:
            return 'misses required argument(s) %s' % ', '.join(missing)
    return None


def fmt_percent(fmt):
    """number of arguments a %-template takes, or None if it uses mapping keys / is malformed"""
    n, i = 0, 0
    for mt in re.finditer(r'%(\([^)]*\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', fmt, re.S):
        if mt.group(1) is not None:
            return None
        if mt.group(5) == '%':
            continue
        if mt.group(5) not in 'diouxXeEfFgGcrsa':
            return None
        n += 1 + (mt.group(3) == '*') + (mt.group(4) == '*')
    return n


def fmt_brace(fmt):
    """(number of positional args needed, names) of a str.format template"""
    auto, maxi, names = 0, -1, set()

    def field(name, spec):
        nonlocal auto, maxi
        first = re.split(r'[.\[]', name, maxsplit=1)[0]
        if first == '':
            auto += 1
        elif first.isdigit():
            maxi = max(maxi, int(first))
        else:
            names.add(first)
        if spec:
            for _, nm, sp, _c in string.Formatter().parse(spec):
                if nm is not None:
                    field(nm, sp)
    for _, nm, sp, _c in string.Formatter().parse(fmt):
        if nm is not None:
            field(nm, sp)
    return max(auto, maxi + 1), names


def const_str(e):
    """constant string value of an expression (constants, implicit/explicit concatenation)"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = const_str(e.left), const_str(e.right)
        if a is not None and b is not None:
            return a + b
    return None


def template_str(e):
    """template text where unknown parts are assumed to contain no placeholders: only used for pure constants"""
    return const_str(e)


def definitely_single(e):
    """expression value certainly is not a tuple or mapping"""
    if isinstance(e, (ast.Constant, ast.JoinedStr, ast.List, ast.ListComp, ast.Compare)):
        return True
    if isinstance(e, ast.Call) and dotted(e.func) in ('str', 'len', 'int', 'float', 'repr', 'os.path.basename', 'type'):
        return True
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.Mult, ast.Div)) and definitely_single(e.right) and definitely_single(e.left):
        return True
    return False


def class_has_open_attrs(proj, c):
    """attributes of the class cannot be enumerated (dynamic access, unresolved or external base)"""
    for k in proj.mro(c):
        for b in k.node.bases:
            r = proj.resolve_expr(b, k.mod)
            if r is None:
                return True
            if r[0] == 'ext' and r[1].split('.')[-1] not in BUILTIN_BASE_ATTRS:
                return True
            if r[0] not in ('class', 'ext'):
                return True
        for nm in ('__getattr__', '__getattribute__'):
            if nm in k.methods:
                return True
    return False


def known_attrs(proj, cache={}):
    """attribute names stored on any object anywhere in the project: name -> present;
    also setattr with constant name"""
    if id(proj) in cache:
        return cache[id(proj)][1]
    per, glob = {}, set()
    for m in proj.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    glob.add(n.attr)
            if isinstance(n, ast.Call) and dotted(n.func) == 'setattr' and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
                glob.add(n.args[1].value)
    for c in proj.classes.values():
        s = set()
        for k in proj.mro(c):
            s |= set(k.methods) | set(k.attrs) | set(k.setters)
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    s.add(n.attr)
                if isinstance(n, ast.ClassDef) and n is not k.node:
                    s.add(n.name)
            for b in k.node.bases:
                r = proj.resolve_expr(b, k.mod)
                if r and r[0] == 'ext':
                    s |= BUILTIN_BASE_ATTRS.get(r[1].split('.')[-1], set())
        s |= set(dir(object)) | {'__dict__'}
        per[c.key] = s
    cache[id(proj)] = (proj, (per, glob))
    return per, glob


def uses_dynamic_setattr(proj, c):
    for k in proj.mro(c):
        for n in ast.walk(k.node):
            if isinstance(n, ast.Call) and dotted(n.func) == 'setattr':
                return True
            if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                return True
    # setattr anywhere in the module on non-constant names
    return False


def protected(f, node, errors=('AttributeError',)):
    """the node lies in a try body whose handler swallows AttributeError/TypeError (a probe)"""
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try) and any(node is x for s in t.body for x in ast.walk(s)):
            for h in t.handlers:
                if h.type is None:
                    return True
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                if any(dotted(x) in ('Exception', 'BaseException') + tuple(errors) for x in ts):
                    if not any(isinstance(x, ast.Raise) for b in h.body for x in ast.walk(b)):
                        return True
    return False


def check_wiring(proj):
    """-> (findings [(rule, mod, func qual, construct, line, text)], counts)"""
    out = {}
    n = dict(calls_resolved=0, class_contexts=0, self_uses=0, percent_templates=0, brace_templates=0,
             package_imports=0, bare_exceptions=0, struct_formats=0)

    def add(rule, mod, where, construct, line, text):
        out.setdefault((rule, mod.rel, where, construct), (rule, mod, where, construct, line, text))

    per, glob = known_attrs(proj)
    for f in proj.funcs.values():
        if f.shadowed:
            continue
        ctxs = contexts(proj, f)
        n['class_contexts'] += len(ctxs)
        sn = self_name(f)
        top = f
        while top.parent is not None:
            top = top.parent
        for node in walk_own(f.node):
            if isinstance(node, ast.Call):
                seen_problem = False
                for cls in ctxs:
                    c = callee_of(proj, node, f, cls)
                    if c is None:
                        continue
                    n['calls_resolved'] += 1
                    m, imp = c
                    if m.name == f.name and cls is not f.cls and not f.cls:
                        continue
                    if cls is not None and cls is not f.cls and f.parent is None and f.name != '__init__' and proj.method(cls, f.name) is not f:
                        # overridden there: only reachable through super(); checked in the definer's own context
                        if not _calls_super(proj, cls, f):
                            continue
                    p = signature_problem(m, node, imp)
                    if p and not seen_problem:
                        seen_problem = True
                        add('signature', f.mod, f.qual, m.qual, node.lineno,
                            'call of %s (%s) %s%s' % (m.qual, m.mod.rel, p,
                                                      '' if cls is f.cls or cls is None else ' [as %s]' % cls.name))
                _templates(node, f, add, n)
                d = dotted(node.func)
                if d and d.split('.')[-1] in ('pack', 'unpack', 'calcsize') and d.startswith('struct') and node.args:
                    s = const_str(node.args[0])
                    if s is not None and d.endswith('pack') and not d.endswith('unpack'):
                        k = struct_count(s)
                        n['struct_formats'] += 1
                        if k is not None and not any(isinstance(a, ast.Starred) for a in node.args) and k != len(node.args) - 1:
                            add('template', f.mod, f.qual, 'struct.pack ' + s, node.lineno,
                                'struct.pack(%r) takes %d values, %d given' % (s, k, len(node.args) - 1))
                # method object written instead of its result
                if isinstance(node.func, ast.Attribute) and node.func.attr == 'write' and len(node.args) == 1:
                    a = node.args[0]
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == sn:
                        for cls in ctxs:
                            mm = proj.method(cls, a.attr) if cls else None
                            if mm is not None and not mm.is_property:
                                add('method-as-value', f.mod, f.qual, a.attr, node.lineno,
                                    'the method %s itself (not its result) is passed to write()' % mm.qual)
                                break
            elif isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod):
                _percent(node, f, add, n)
            elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                r = proj.resolve_expr(node.value.func, f.mod, f) if isinstance(node.value.func, (ast.Name, ast.Attribute)) else None
                isexc = False
                if r and r[0] == 'ext' and r[1] in EXC_NAMES:
                    isexc = True
                if r and r[0] == 'class' and any(b in EXC_NAMES for k in proj.mro(r[1]) for b in [dotted(x) for x in k.node.bases]):
                    isexc = True
                n['bare_exceptions'] += isexc
                if isexc:
                    add('exception-not-raised', f.mod, f.qual, dotted(node.value.func), node.lineno,
                        'the exception %s is built but not raised' % dotted(node.value.func))
            elif isinstance(node, ast.Raise) and node.exc is not None:
                e = node.exc
                if isinstance(e, ast.Constant) or isinstance(e, ast.JoinedStr) or (isinstance(e, ast.Name) and e.id == 'NotImplemented') or \
                        (isinstance(e, ast.Call) and dotted(e.func) == 'NotImplemented'):
                    add('exception-not-raised', f.mod, f.qual, 'raise', node.lineno, 'raises something that is not an exception')
            elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) and \
                    sn and node.value.id == sn and top.params and f.cls is not None:
                n['self_uses'] += 1
                if f.parent is not None and sn in f.params:
                    continue
                for cls in ctxs[:1]:
                    if class_has_open_attrs(proj, cls) or any(class_has_open_attrs(proj, s) for s in proj.subclasses(cls)):
                        continue
                    if node.attr in per[cls.key] or node.attr in glob:
                        continue
                    if any(node.attr in per[s.key] for s in proj.subclasses(cls)):
                        continue
                    if uses_dynamic_setattr(proj, cls) or protected(f, node):
                        continue
                    if _hasattr_guard(f, node):
                        continue
                    add('no-such-attribute', f.mod, f.qual, 'self.' + node.attr, node.lineno,
                        'self.%s is neither a method nor an attribute assigned anywhere for %s' % (node.attr, cls.name))
            elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
                r = proj.resolve_expr(node, f.mod, f)
                if r and r[0] == 'missing':
                    add('no-such-symbol', f.mod, f.qual, r[1], node.lineno, '%s does not exist in the package' % r[1])
    for m in proj.mods.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.ImportFrom) and not in_main(m, node):
                t = proj.import_target(m, node)
                if t.split('.')[0] != 'weio':
                    continue
                for a in node.names:
                    n['package_imports'] += 1
                    if a.name == '*':
                        ok = t in proj.mods
                    elif t in proj.mods:
                        r = proj.lookup_module(t, a.name)
                        ok = r is not None and r[0] != 'missing'
                    else:
                        ok = False
                    if not ok and not _import_guarded(m, node):
                        add('no-such-symbol', m, '<module>', t + '.' + a.name, node.lineno,
                            'import of %s from %s: there is no such symbol' % (a.name, t))
    return list(out.values()), n


def _import_guarded(m, node):
    for t in ast.walk(m.tree):
        if isinstance(t, ast.Try):
            if any(node is x for h in t.handlers for b in h.body for x in ast.walk(b)):
                return True
    return False


def _calls_super(proj, cls, f):
    for k in proj.mro(cls):
        mm = k.methods.get(f.name)
        if mm is None or mm is f:
            continue
        for x in ast.walk(mm.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == f.name:
                v = x.func.value
                if isinstance(v, ast.Call) and dotted(v.func) == 'super':
                    return True
                r = proj.resolve_expr(v, mm.mod, mm) if isinstance(v, (ast.Name, ast.Attribute)) else None
                if r and r[0] == 'class':
                    return True
    return False


def _hasattr_guard(f, node):
    for x in walk_own(f.node):
        if isinstance(x, ast.Call) and dotted(x.func) in ('hasattr', 'getattr') and len(x.args) >= 2 and \
                isinstance(x.args[1], ast.Constant) and x.args[1].value == node.attr:
            return True
    return False


def struct_count(fmt):
    k = 0
    if fmt[:1] in '@=<>!':
        fmt = fmt[1:]
    for mt in re.finditer(r'\s*(\d*)([a-zA-Z?])', fmt):
        c = int(mt.group(1)) if mt.group(1) else 1
        if mt.group(2) in 'sp':
            k += 1
        elif mt.group(2) != 'x':
            k += c
    return k


def _templates(node, f, add, n):
    if isinstance(node.func, ast.Attribute) and node.func.attr == 'format':
        s = const_str(node.func.value)
        if s is None:
            return
        n['brace_templates'] += 1
        try:
            need, names = fmt_brace(s)
        except ValueError as e:
            add('template', f.mod, f.qual, s[:60], node.lineno, 'malformed template %r: %s' % (s[:60], e))
            return
        if not any(isinstance(a, ast.Starred) for a in node.args) and need > len(node.args):
            add('template', f.mod, f.qual, s[:60], node.lineno,
                'template %r needs %d positional argument(s), %d given' % (s[:60], need, len(node.args)))
        kws = {k.arg for k in node.keywords}
        if None not in kws and names - kws:
            add('template', f.mod, f.qual, s[:60], node.lineno,
                'template %r needs named argument(s) %s' % (s[:60], ', '.join(sorted(names - kws))))


def _percent(node, f, add, n):
    s = const_str(node.left)
    if s is None:
        return
    n['percent_templates'] += 1
    k = fmt_percent(s)
    if k is None:
        return
    r = node.right
    if isinstance(r, ast.Tuple):
        if any(isinstance(x, ast.Starred) for x in r.elts):
            return
        if len(r.elts) != k:
            add('template', f.mod, f.qual, s[:60], node.lineno,
                'template %r takes %d value(s), %d given' % (s[:60], k, len(r.elts)))
    elif definitely_single(r) and k != 1:
        add('template', f.mod, f.qual, s[:60], node.lineno, 'template %r takes %d values, 1 given' % (s[:60], k))
