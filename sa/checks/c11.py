from ..check import Finding, Result
from ..names import undefined_names, unbound_locals
from ..wiring import check_wiring
from ..extapi import check_external
from ..excuse import check_handlers
from ..props import check_props
from ..optypes import check_operators, check_error_branches, check_array_truth

RULE = ('(a) every name load resolves to a binding of an enclosing scope that exists when the package imports normally; '
        '(b) path-sensitive definite assignment (correlated branch conditions, exceptional edges into handlers) shows every '
        'local bound before use; (c) each in-package call binds to the callee signature in every class context; (d) methods and '
        'attributes used on self exist; (e) %-, brace- and struct templates match their arguments; (f) exceptions built as '
        'statements are raised; (g) attributes of installed external libraries exist and calls of them bind; '
        '(h) a handler of a broad exception class does not rely on a first (text) argument or an attribute the exception need not have; '
        '(i) a property is not called, not read on the class and not assigned without a setter; (j) an iterator stops before its index reaches the length; '
        '(k) no operator is applied to operands whose types (known from the source) have no such operation; '
        '(l) no error is guarded by a condition that can never hold; (m) the truth value of an array of several elements is not asked')


def check(proj, tier):
    fs, counts = [], {}
    und, counts['name_loads'] = undefined_names(proj)
    for m, where, name, line, why in und:
        fs.append(Finding('undefined-name', m.rel, where, name, line, 'name %r is %s' % (name, why)))
    unb, counts['local_loads_checked'] = unbound_locals(proj)
    for f, name, line in unb:
        fs.append(Finding('unbound-local', f.mod.rel, f.qual, name, line,
                          'local %r can be read before it is assigned on some path' % name))
    w, n = check_wiring(proj)
    counts.update(n)
    for rule, m, where, construct, line, text in w:
        fs.append(Finding(rule, m.rel, where, construct, line, text))
    x, n = check_external(proj)
    counts.update(n)
    for rule, m, where, construct, line, text in x:
        fs.append(Finding(rule, m.rel, where, construct, line, text))
    x, n = check_handlers(proj)
    counts.update(n)
    for rule, m, where, construct, line, text in x:
        fs.append(Finding(rule, m.rel, where, construct, line, text))
    x, n = check_props(proj)
    counts.update(n)
    for rule, m, where, construct, line, text in x:
        fs.append(Finding(rule, m.rel, where, construct, line, text))
    x, n = check_operators(proj)
    counts.update(n)
    for rule, m, where, construct, line, text in x:
        fs.append(Finding(rule, m.rel, where, construct, line, text))
    x, n = check_array_truth(proj)
    counts.update(n)
    for rule, m, where, construct, line, text in x:
        fs.append(Finding(rule, m.rel, where, construct, line, text))
    x, n = check_error_branches(proj)
    counts.update(n)
    for rule, m, where, construct, line, text in x:
        fs.append(Finding(rule, m.rel, where, construct, line, text))
    return Result(fs, RULE, counts,
                  samples=['%s (%d locals)' % (f.key, len(proj.func_scope(f).locals)) for f in list(proj.funcs.values())[:8]],
                  assumptions=['user-supplied format modules and the __main__ demo blocks are out of scope'],
                  minimum=dict(name_loads=5000, calls_resolved=500))
