"""A file system: names (any text) and contents.  Every operation that changes it is one event; before an event the property's hook may
let it fail, after it the property's invariant (what a process that dies here leaves behind) is checked."""
import os as _os, shutil as _shutil, posixpath, types, z3, tempfile as _tempfile
import pathlib as _pathlib
from . import libs
from .core import eng, Unsupported, mk_bool, SymBool
from .values import *
from .grammar import BytesIO

CUR = None

def name_of(p):
    if hasattr(p, 'vc_path'): return p.vc_path
    if isinstance(p, (str, SymStr)): return p
    if isinstance(p, _pathlib.PurePath): return str(p)
    if isinstance(p, bytes): return p.decode()
    raise TypeError('expected str, bytes or os.PathLike object, not %s' % type(p).__name__)

def eqname(a, b):
    if isinstance(a, str) and isinstance(b, str): return a == b
    if a is b: return True
    c = mk_bool(zs(a) == zs(b))
    if isinstance(c, bool): return c
    if prov(c): return True
    return bool(c)

class File(BytesIO):
    """An open file of the file system."""
    def __init__(self, fs, ent, readable, writable):
        super().__init__(ent[1])
        self.fs, self.ent, self._r, self._w = fs, ent, readable, writable
        self.name = ent[0]
    def readable(self): return self._r
    def writable(self): return self._w
    def write(self, data):
        import io
        if not self._w: raise io.UnsupportedOperation('write')
        self.fs.before('write', self.ent[0])
        n = super().write(data)
        self.ent[1] = self.buf.norm()
        self.fs.after('write', self.ent[0])
        return n
    def read(self, n=-1):
        import io
        if not self._r: raise io.UnsupportedOperation('read')
        return super().read(n)
    def truncate(self, n=None):
        r = super().truncate(n)
        self.ent[1] = self.buf.norm()
        self.fs.after('truncate', self.ent[0])
        return r
    def fileno(self): return 77
    def close(self):
        if not self.closed and self._w:
            self.closed = True
            self.fs.before('close', self.ent[0])
        self.closed = True

class FS:
    def __init__(self): 
        global CUR
        CUR = self
        self.ents = []
        self.events = []
        self.on_before = self.on_after = None
    def before(self, kind, name):
        self.events.append((kind, name))
        if self.on_before: self.on_before(kind, name)
    def after(self, kind, name):
        if self.on_after: self.on_after(kind, name)
    def find(self, name):
        for x in self.ents:
            if eqname(x[0], name): return x
        return None
    def put(self, name, content):
        self.ents.append([name, content])
    def content(self, name):
        x = self.find(name)
        return None if x is None else x[1]
    def open(self, p, mode='r', *a, **k):
        if 'b' not in mode: raise Unsupported('text file')
        m = mode.replace('b', '')
        if isinstance(p, int): raise Unsupported('file descriptor')
        n = name_of(p)
        if m in ('r', 'r+', '+r'):
            x = self.find(n)
            if x is None: raise FileNotFoundError(2, 'No such file or directory')
            return File(self, x, True, m != 'r')
        if m in ('w', 'w+', 'x', 'x+', 'a', 'a+'):
            self.before('open', n)
            x = self.find(n)
            if m[0] == 'x' and x is not None: raise FileExistsError(17, 'File exists')
            if x is None:
                x = [n, b'']
                self.ents.append(x)
            elif m[0] == 'w': x[1] = b''
            self.after('open', n)
            f = File(self, x, '+' in m, True)
            if m[0] == 'a': f.pos = f.buf.vc_len()
            return f
        raise Unsupported('open mode ' + mode)
    def remove(self, p, *a, **k):
        n = name_of(p)
        self.before('remove', n)
        x = self.find(n)
        if x is None: raise FileNotFoundError(2, 'No such file or directory')
        self._drop(x)
        self.after('remove', n)
    def _drop(self, x): self.ents = [y for y in self.ents if y is not x]
    def rename(self, a, b, *r, **k):
        s, d = name_of(a), name_of(b)
        self.before('rename', d)
        x = self.find(s)
        if x is None: raise FileNotFoundError(2, 'No such file or directory')
        y = self.find(d)
        if y is not None and y is not x: self._drop(y)
        if y is not x: self._drop(x); self.ents.append([d, x[1]])
        self.after('rename', d)
        return b
    def copy(self, a, b, *r, **k):
        s, d = name_of(a), name_of(b)
        x = self.find(s)
        if x is None: raise FileNotFoundError(2, 'No such file or directory')
        with self.open(d, 'wb') as f: f.write(x[1])
        return b
    def exists(self, p): return self.find(name_of(p)) is not None

def cur():
    if CUR is None: raise Unsupported('file system')
    return CUR
def vopen(p, mode='r', *a, **k): return cur().open(p, mode, *a, **k)
def _no(what):
    def f(*a, **k): raise Unsupported(what)
    return f

class Path:
    """pathlib.Path of a name in normal form."""
    def __init__(self, *parts):
        ns = [name_of(p) for p in parts] or ['.']
        r = ns[0]
        for n in ns[1:]:
            if not isinstance(n, str): raise Unsupported('path of symbolic parts')
            r = n if n.startswith('/') else r + '/' + n
        libs.assumed('pathlib.Path: names are in normal form')
        self.vc_path = r
    def vc_text(self): return self.vc_path
    def __fspath__(self):
        if isinstance(self.vc_path, str): return self.vc_path
        raise Unsupported('symbolic path in C code')
    __str__ = __fspath__
    def __eq__(self, o): return isinstance(o, Path) and eqname(self.vc_path, o.vc_path)
    __hash__ = None
    def __truediv__(self, o): return Path(self, o)
    def with_suffix(self, s): return Path(ufs('path_stem', [self.vc_path]) + s)
    def with_name(self, s): return Path(ufs('path_dir', [self.vc_path]) + s)
    @property
    def name(self): return ufs('path_name', [self.vc_path])
    @property
    def stem(self): return ufs('path_namestem', [self.vc_path])
    @property
    def suffix(self): return ufs('path_suffix', [self.vc_path])
    @property
    def parent(self): return Path(ufs('path_parent', [self.vc_path]))
    def exists(self, **k): return cur().exists(self)
    is_file = exists
    def unlink(self, missing_ok=False):
        try: cur().remove(self)
        except FileNotFoundError:
            if not missing_ok: raise
    def rename(self, t): cur().rename(self, t); return t
    replace = rename
    def open(self, mode='r', *a, **k): return vopen(self, mode)
    def read_bytes(self): return vopen(self, 'rb').read()
    def write_bytes(self, b):
        with vopen(self, 'wb') as f: return f.write(b)
    def resolve(self, **k): return self
    absolute = expanduser = resolve
    def __getattr__(self, n):
        if n.startswith('vc_') or n.startswith('__') or n in ('read', 'write'): raise AttributeError(n)
        raise Unsupported('Path.' + n)

def fspath(p):
    n = name_of(p)
    return n
def split_text(f): return lambda p, *a: f(name_of(p), *a) if isinstance(name_of(p), str) else ufs(f.__name__, [name_of(p)])
path_mod = libs.module('os.path', **{k: getattr(posixpath, k) for k in dir(posixpath) if not k.startswith('__') and k != 'name'})
path_mod.exists = path_mod.isfile = path_mod.lexists = lambda p: cur().exists(p)
for _k in ('dirname', 'basename', 'realpath', 'abspath', 'normpath'):
    def _mk(k):
        f = getattr(posixpath, k)
        def g(p, *a, **kw):
            n = name_of(p)
            if isinstance(n, str): return f(n, *a, **kw)
            return n if k in ('realpath', 'abspath', 'normpath') else ufs(k, [n])
        return g
    setattr(path_mod, _k, _mk(_k))
def join(a, *p):
    r = name_of(a)
    for x in p:
        x = name_of(x)
        if isinstance(r, str) and isinstance(x, str): r = posixpath.join(r, x)
        else: r = r + '/' + x
    return r
path_mod.join = join
for _k in ('getsize', 'getmtime', 'samefile', 'isdir', 'islink', 'ismount', 'splitext', 'split'):
    def _mk(k):
        f = getattr(posixpath, k)
        def g(p, *a):
            n = name_of(p)
            if isinstance(n, str) and k in ('splitext', 'split'): return f(n)
            raise Unsupported('os.path.' + k)
        return g
    setattr(path_mod, _k, _mk(_k))
os_mod = libs.module('os', **{k: getattr(_os, k) for k in dir(_os) if not k.startswith('__') and k != 'name'})
for _k in dir(_os):
    if callable(getattr(_os, _k)) and isinstance(getattr(_os, _k), (types.FunctionType, types.BuiltinFunctionType)) and not _k.startswith('_') and _k not in ('getpid', 'urandom', 'strerror', 'fsencode', 'fsdecode', 'getenv', 'cpu_count'):
        setattr(os_mod, _k, _no('os.' + _k))
os_mod.path = path_mod
os_mod.fspath = fspath
os_mod.remove = os_mod.unlink = lambda *a, **k: cur().remove(*a, **k)
os_mod.rename = os_mod.replace = os_mod.renames = lambda *a, **k: cur().rename(*a, **k)
os_mod.fsync = lambda fd: None
os_mod.PathLike = Path
shutil_mod = libs.module('shutil', Error=_shutil.Error, SameFileError=_shutil.SameFileError)
shutil_mod.move = lambda a, b, *r, **k: cur().rename(a, b)
shutil_mod.copy = shutil_mod.copy2 = shutil_mod.copyfile = lambda *a, **k: cur().copy(*a, **k)
shutil_mod.copymode = shutil_mod.copystat = lambda *a, **k: None
for _k in ('rmtree', 'copytree', 'copyfileobj', 'disk_usage', 'which'): setattr(shutil_mod, _k, _no('shutil.' + _k))
pathlib_mod = libs.module('pathlib', Path=Path, PurePath=Path, PosixPath=Path)
tempfile_mod = libs.module('tempfile', **{k: _no('tempfile.' + k) for k in ('mkstemp', 'mkdtemp', 'NamedTemporaryFile', 'TemporaryDirectory', 'TemporaryFile', 'mktemp', 'gettempdir')})
class suppress:
    def __init__(self, *t): self.t = t
    def __enter__(self): return None
    def __exit__(self, t, v, tb): return t is not None and issubclass(t, self.t)
MODS = {'os': os_mod, 'os.path': path_mod, 'shutil': shutil_mod, 'pathlib': pathlib_mod, 'tempfile': tempfile_mod}
