import json, os, re
from ..check import Finding, Result, HERE
from ..mutate import Engine

RULE = ('for every public function and method (the API of the pinned release, spec/api.json) the alias and in-place-change analysis shows that no change made '
        'by it, or by anything it calls, reaches an argument: the object itself, what it contains, or the memory of an array or data frame in it')

OUTPUTS = {('read_tecplot', 'dict_out'): 'output dictionary', ('yaml_read', 'dictIn'): 'output dictionary, returned',
           ('from_lines', 'lines'): 'stream of lines that is consumed', ('line_from_line', 'lines'): 'stream of lines that is consumed',
           ('parse_next_line', 'lines'): 'stream of lines that is consumed'}
ATTACH = re.compile(r'^(set|add|__set|insert|append)')
REORDER = re.compile(r'^in-place |^out= |^\.(sort|reverse|fill|partition|sort_values|sort_index|resize|itemset|put)\(|inplace=True|copy=False|[Ss]huffle')


def check(proj, tier):
    eng = Engine(proj)
    api = set(json.load(open(os.path.join(HERE, 'spec', 'api.json'))))
    fs, n, args, out = [], 0, 0, 0
    todo = []
    for c in proj.classes.values():
        for b in proj.mro(c):
            for m in b.methods.values():
                if proj.method(c, m.name) is m:
                    todo.append((m, c))
    todo += [(f, None) for f in proj.funcs.values() if f.cls is None and f.parent is None]
    for f, c in todo:
        if f.key not in api or f.name.startswith('_') and f.name not in ('__init__', '__call__', '_read', '_write'):
            continue
        n += 1
        recv = f.params[0] if f.params and (f.is_method and not f.is_static or f.params[0] == 'self') else None
        s = eng.summary(f, c)
        ps = [p for p in f.params + f.kwonly + [x for x in (f.vararg, f.kwarg) if x] if p != recv]
        args += len(ps)
        for m in s.muts.values():
            if not m.label.startswith('p:'):
                continue
            name, _, lev = m.label[2:].rpartition('#')
            if name not in ps:
                continue
            if (f.name, name) in OUTPUTS:
                out += 1
                continue
            if ATTACH.match(f.name) and not REORDER.search(m.what) and not (lev == '0' and m.what.startswith('.')):
                continue            # stores the object it is given: it becomes part of the receiver
            fs.append(Finding('argument-changed', f.mod.rel, f.qual, '%s %s %s' % (name, m.what, m.fn.qual), m.line,
                              '%s() changes its argument %s%s: %s in %s' % (f.qual, name, '' if lev == '0' else ' (something it holds)', m.what, m.fn.qual), list(m.chain)))
    return Result(fs, RULE, dict(functions_in_context=n, arguments=args, documented_outputs=out), samples=sorted('%s: %s' % k for k in OUTPUTS),
                  assumptions=['methods of numpy, pandas and the standard library that are not known to work in place do not change their arguments',
                               'methods that add an object to a container (set*, add*) own it from then on: they may set what it holds, but not reorder it, compute with it in place, or add to and take from a list or dictionary given'],
                  minimum=dict(functions_in_context=150, arguments=150))
