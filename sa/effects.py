"""classification of call sites by effect (file system, code execution, process state, nondeterminism)"""
import ast
from .model import walk_own
from .consteval import fold, Env, Unknown

OPENERS = {'open', 'io.open', 'builtins.open', 'codecs.open', 'os.fdopen', 'gzip.open', 'bz2.open', 'lzma.open', 'zipfile.ZipFile', 'tarfile.open',
           'numpy.memmap', 'numpy.lib.format.open_memmap', 'h5py.File', 'netCDF4.Dataset', 'pandas.HDFStore', 'shelve.open', 'sqlite3.connect'}
FS_WRITE = {'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.renames', 'os.rmdir', 'os.removedirs', 'os.mkdir', 'os.makedirs', 'os.truncate',
            'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.utime', 'os.mkfifo', 'os.mknod', 'shutil.rmtree', 'shutil.move', 'shutil.copy',
            'shutil.copy2', 'shutil.copyfile', 'shutil.copytree', 'shutil.copymode', 'shutil.copystat', 'shutil.unpack_archive',
            'shutil.make_archive', 'tempfile.NamedTemporaryFile', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'tempfile.TemporaryDirectory',
            'tempfile.TemporaryFile', 'tempfile.SpooledTemporaryFile', 'tempfile.mktemp', 'numpy.save', 'numpy.savez', 'numpy.savez_compressed',
            'numpy.savetxt', 'scipy.io.savemat', 'pandas.ExcelWriter', 'pickle.dump', 'json.dump', 'matplotlib.pyplot.savefig', 'pandas.to_pickle',
            'yaml.dump_all', 'sqlite3.connect', 'shelve.open', 'logging.FileHandler', 'logging.handlers.RotatingFileHandler', 'logging.handlers.TimedRotatingFileHandler', 'xlsxwriter.Workbook'}
WRITE_METHODS = {'to_csv', 'to_excel', 'to_parquet', 'to_netcdf', 'to_hdf', 'to_pickle', 'to_feather', 'to_json', 'to_stata', 'to_sql', 'tofile', 'dump',
                 'savefig', 'write_text', 'write_bytes', 'unlink', 'rmdir', 'touch', 'symlink_to', 'hardlink_to', 'mkdir', 'to_zarr', 'to_html',
                 'to_latex', 'to_xml', 'to_markdown', 'truncate'}
NEED_ARG = {'to_csv', 'to_json', 'to_html', 'to_latex', 'to_xml', 'to_markdown', 'to_netcdf'}   # without a path these return a string


def name_of(proj, call, fn, mod):
    try:
        r = proj.resolve_expr(call.func, mod, fn)
    except Exception:
        r = None
    if r is not None and r[0] == 'ext':
        return r[1]
    if r is None and isinstance(call.func, ast.Name):
        return None
    return None


def mode_value(proj, call, fn, mod, pos=1):
    m = None
    for k in call.keywords:
        if k.arg == 'mode':
            m = k.value
    if m is None and len(call.args) > pos:
        m = call.args[pos]
    if m is None:
        return 'r'
    try:
        v = fold(m, Env(proj, mod, fn, fn.cls if fn else None))
        return v if isinstance(v, str) else None
    except Unknown:
        # a parameter with a constant default, or a conditional expression
        vals = set()
        for x in ast.walk(m):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                vals.add(x.value)
        if isinstance(m, ast.Name) and fn is not None:
            for s in walk_own(fn.node):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == m.id for t in s.targets):
                    for x in ast.walk(s.value):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str):
                            vals.add(x.value)
        for v in vals:
            if len(v) <= 4 and set(v) <= set('rwaxbt+U') and set(v) & set('wax+'):
                return v
        return None


def is_handle_target(call):
    """does a writer method get a handle/buffer rather than a path? (nothing to see statically: treated as a write)"""
    return False


def fs_write(proj, call, fn, mod):
    """description of a file-system change made by this call, or None"""
    nm = name_of(proj, call, fn, mod)
    if nm in OPENERS:
        default = 'r'
        m = mode_value(proj, call, fn, mod, 3 if nm.endswith('memmap') else 1)
        if nm == 'numpy.memmap':
            if not any(k.arg == 'mode' for k in call.keywords) and len(call.args) < 3:
                m = 'r+'
            else:
                m = mode_value(proj, call, fn, mod, 2)
            if m == 'c':
                return None
        if m is not None and set(m) & set('wax+'):
            return '%s with mode %r' % (nm, m)
        return None
    if nm == 'logging.basicConfig' and any(k.arg == 'filename' for k in call.keywords):
        return 'logging.basicConfig with a file name'
    if nm in FS_WRITE:
        return nm
    if isinstance(call.func, ast.Attribute) and (nm is None or nm.split('.')[-1] == call.func.attr):
        a = call.func.attr
        if nm is not None and (nm.startswith(('pandas.', 'numpy.', 'scipy.', 'os.', 'json.', 'pickle.', 'yaml.'))):
            return None
        if a in WRITE_METHODS:
            if a in NEED_ARG and not call.args and not any(k.arg in ('path_or_buf', 'buf', 'path') for k in call.keywords):
                return None
            if a in NEED_ARG and call.args and isinstance(call.args[0], ast.Constant) and call.args[0].value is None:
                return None
            if a in ('dump', 'mkdir', 'truncate', 'unlink', 'touch') and not call.args and a in ('dump',):
                return None
            if a == 'dump' and len(call.args) < 1:
                return None
            return 'method %s' % a
        if a == 'open':      # Path.open
            m = mode_value(proj, call, fn, mod, 0)
            if isinstance(m, str) and len(call.args) <= 1 and set(m) & set('wax+') and set(m) <= set('rwaxbt+'):
                return 'open with mode %r' % m
            m = mode_value(proj, call, fn, mod, 1)
            if isinstance(m, str) and len(call.args) > 1 and set(m) & set('wax+') and set(m) <= set('rwaxbt+'):
                return 'open with mode %r' % m
    return None


def calls(fn):
    """calls in a function including its nested functions"""
    return [n for n in ast.walk(fn.node) if isinstance(n, ast.Call)]
