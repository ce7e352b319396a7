"""External names: every attribute of an installed library that the package uses exists there, and every call binds.
The installed libraries are inspected (in the project's own interpreter), weio is not."""
import ast, json, os, subprocess
from .model import walk_own
from .wiring import protected

PYTHONS = ['/opt/venv/bin/python']
CODE = r'''
import sys,json,importlib,inspect,warnings,builtins
warnings.simplefilter('ignore')
out=[]
for name,kws,npos,inst in json.load(sys.stdin):
    parts=name.split('.')
    if hasattr(builtins,parts[0]): obj=getattr(builtins,parts[0])
    else:
        try: obj=importlib.import_module(parts[0])
        except BaseException as e: out.append('?'); continue
    r=None
    for j in range(1,len(parts)):
        try: obj=getattr(obj,parts[j])
        except AttributeError:
            try: obj=importlib.import_module('.'.join(parts[:j+1]))
            except BaseException:
                r='does not exist in the installed library'
                if inst is not None and j>=inst and not inspect.isclass(obj): r=None; kws=None
                break
    if r is None and kws is not None:
        try:
            sig=inspect.signature(obj)
            try: sig.bind_partial(*[None]*npos,**{k:None for k in kws})
            except TypeError as e: r='cannot be called like this: '+str(e)
        except (ValueError,TypeError): pass
    out.append(r)
print(json.dumps(out))
'''


def local_instance(proj, f, name):
    vals, other = [], False
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
            vals.append(n.value)
        elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name) and n.optional_vars.id == name:
            return None
        elif isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
            other = True
    if len(vals) != 1 or name in proj.func_scope(f).params or not isinstance(vals[0], ast.Call):
        return None
    if sum(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in walk_own(f.node)) != 1:
        return None
    fn = vals[0].func
    if not isinstance(fn, (ast.Name, ast.Attribute)):
        return None
    r = proj.resolve_expr(fn, f.mod, f)
    return r[1] if r and r[0] == 'ext' else None


def check_external(proj):
    q = {}
    for f in proj.funcs.values():
        for n in walk_own(f.node):
            if not isinstance(n, (ast.Attribute, ast.Call)):
                continue
            fn = n.func if isinstance(n, ast.Call) else n
            if not isinstance(fn, (ast.Attribute, ast.Name)):
                continue
            kws = npos = None
            name = None
            if isinstance(n, ast.Call):
                kws = tuple(k.arg for k in n.keywords if k.arg)
                npos = sum(not isinstance(a, ast.Starred) for a in n.args)
                if any(isinstance(a, ast.Starred) for a in n.args):
                    npos = 0
            r = proj.resolve_expr(fn, f.mod, f)
            if r and r[0] == 'ext':
                name = r[1]
            elif isinstance(n, ast.Call) and isinstance(fn, ast.Attribute) and r is None and \
                    fn.attr in ('to_csv', 'to_parquet', 'to_excel', 'to_numpy', 'drop_duplicates', 'reset_index', 'set_index'):
                name, npos = 'pandas.DataFrame.' + fn.attr, npos + 1       # data frame method: explicit self
            inst = None
            if name is None and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and r is None:
                # method of a local that is only ever bound to instances of one external class
                c = local_instance(proj, f, fn.value.id)
                if c is not None:
                    name, inst = c + '.' + fn.attr, c.count('.') + 1
                    kws = npos = None
            if name is None or name.split('.')[0] == 'weio' or f.shadowed:
                continue
            q.setdefault((name, kws, npos, inst), []).append((f, n))
    keys = list(q)
    py = next((p for p in PYTHONS if os.path.exists(p)), None)
    if py is None:
        return [], dict(external_uses=len(keys), external_checked=0)
    o = subprocess.run([py, '-c', CODE], input=json.dumps(keys), capture_output=True, text=True, cwd='/', timeout=300)
    if o.returncode != 0:
        return [], dict(external_uses=len(keys), external_checked=0)
    out, checked = [], 0
    for k, r in zip(keys, json.loads(o.stdout.strip().splitlines()[-1])):
        if r == '?':
            continue
        checked += 1
        if r:
            for f, n in q[k]:
                if protected(f, n, ('AttributeError', 'TypeError')):
                    continue
                out.append(('external-api', f.mod, f.qual, k[0], n.lineno, '%s %s' % (k[0], r)))
    return out, dict(external_uses=len(keys), external_checked=checked)
