"""Run-time support of the instrumented code, and the loader that builds the shadow package."""
import builtins, sys, types, os, z3
from . import loops, words
from .core import VCAbort, Unsupported, eng, SymBool, mk_bool, Engine, as_z3
from .values import (SymInt, SymStr, SymBytes, is_sym, join, bjoin, mk_int, mk_str, zs, zi, need_str, SymBytes as _SB)
from .instrument import instrument

REPO = os.environ.get('PYVC_REPO', '/repo')
SYMS = (SymInt, SymStr, SymBytes, SymBool, words.SymW, words.SymSum)

def vc_enter(q):
    e = Engine.current
    if e is not None: e.report.functions.add(q)

def contains_sym(xs):
    for x in xs:
        if isinstance(x, SYMS) or hasattr(x, 'vc_joined'): return True
        if isinstance(x, (list, tuple)) and contains_sym(x): return True
    return False

def to_text(x, conv=-1, spec=None):
    """str(x) for formatting."""
    if spec: raise Unsupported('format spec')
    if conv in (-1, 115):
        if isinstance(x, (str, SymStr)): return x
        if isinstance(x, SymInt):
            from .libs import int_to_text
            return int_to_text(x)
        if isinstance(x, SymBool): return 'True' if x else 'False'
        if isinstance(x, SYMS): raise Unsupported('formatting of %s' % type(x).__name__)
        if hasattr(x, 'vc_text'): return x.vc_text()
        if opaque(x): return SymStr(z3.String(eng().fresh('description')), origin=('opaque',))
        return str(x)
    if conv == 114:
        if isinstance(x, SYMS) or opaque(x): return opaque_text()
        return repr(x)
    raise Unsupported('conversion')

def opaque(x):
    """Objects whose text is used only in messages (their __str__ walks the tree)."""
    if isinstance(x, BaseException): return contains_sym(x.args)
    return hasattr(x, '_element') or hasattr(x, 'vc_node') or hasattr(x, 'vc_dt')

def vc_fstring(*parts):
    r = ''
    for p in parts:
        if isinstance(p, str): r = r + p
        else:
            v, conv, spec = p
            if not isinstance(v, SYMS) and not hasattr(v, 'vc_text') and not opaque(v):
                f = {115: str, 114: repr, 97: ascii}.get(conv)
                if f: v = f(v)
                r = r + format(v, spec or '')
            else: r = r + to_text(v, conv, spec)
    return r

def str_format(fmt, args, kw):
    import string
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out = out + lit
        if field is None: continue
        if field == '': key = auto; auto += 1
        elif field.isdigit(): key = int(field)
        else: key = field
        if isinstance(key, str) and ('.' in key or '[' in key): raise Unsupported('format field %s' % key)
        v = args[key] if isinstance(key, int) else kw[key]
        if isinstance(v, SYMS) or hasattr(v, 'vc_text') or opaque(v): out = out + to_text(v, {'r': 114, 's': 115, None: -1}[conv], spec)
        else:
            if conv == 'r': v = repr(v)
            elif conv == 's': v = str(v)
            out = out + format(v, spec)
    return out

def opaque_text(): return SymStr(z3.String(eng().fresh('description')), origin=('opaque',))

def vc_mod(a, b):
    if isinstance(a, str) and not isinstance(b, SYMS) and not (isinstance(b, tuple) and contains_sym(b)): return a % b
    if isinstance(a, str):
        bs = b if isinstance(b, tuple) else (b,)
        out, i, k = '', 0, 0
        while i < len(a):
            if a[i] == '%':
                c = a[i + 1]
                if c == '%': out = out + '%'
                elif c in 'sdi': out = out + to_text(bs[k]); k += 1
                elif c == 'r': out = out + (opaque_text() if contains_sym((bs[k],)) else repr(bs[k])); k += 1
                else: raise Unsupported('format %' + c)
                i += 2
            else:
                out = out + a[i]; i += 1
        return out
    return a % b

def vc_in(x, c):
    if isinstance(x, SYMS) or isinstance(c, SYMS) or hasattr(c, 'vc_contains'):
        if hasattr(c, 'vc_contains'): return c.vc_contains(x)
        if isinstance(c, str):
            if isinstance(x, SymStr): return mk_bool(z3.Contains(zs(c), x.e))
            raise Unsupported('in')
        if isinstance(c, SymStr): need_str(x); return mk_bool(z3.Contains(c.e, zs(x)))
        if isinstance(c, dict) or isinstance(c, (set, frozenset)):
            for k in list(c):
                if type_compat(k, x) and bool(k == x): return True
            return False
        if isinstance(c, (list, tuple)):
            for k in c:
                r = (k == x)
                if bool(r): return True
            return False
        raise Unsupported('membership of a symbolic value in %s' % type(c).__name__)
    return x in c

def type_compat(k, x):
    if isinstance(x, SymStr): return isinstance(k, (str, SymStr))
    if isinstance(x, SymBytes): return isinstance(k, (bytes, SymBytes))
    if isinstance(x, (SymInt,)): return isinstance(k, (int, SymInt))
    return True

def vc_slice(a, b, c):
    return slice(a, b, c)

def dict_get(d, k, default, missing):
    for x in list(d):
        if type_compat(x, k) and bool(x == k): return d[x]
    return missing(k) if default is None else default()

def vc_getitem(o, k):
    if isinstance(k, loops.Idx):
        if k.seq is o: return k.item
        raise Unsupported('a position within another sequence')
    if isinstance(k, words.SymW):
        if isinstance(o, words.AbstractTable): return o.lookup(k)
        if isinstance(o, (list, tuple, bytes)): return words.lookup(o, k)
        raise Unsupported('symbolic word index into %s' % type(o).__name__)
    if isinstance(k, SYMS):
        if isinstance(o, dict):
            def miss(k): raise KeyError('symbolic key')
            return dict_get(o, k, None, miss)
        if isinstance(o, (list, tuple)):
            if isinstance(k, SymInt):
                n = len(o)
                if not bool(mk_bool(z3.And(k.e >= -n, k.e < n))): raise IndexError('list index out of range')
                for i in range(-n, n):
                    if bool(k == i): return o[i]
                raise Unsupported('index')
            if isinstance(k, SymBool): return o[1 if k else 0]
        if isinstance(o, (bytes,)): return SymBytes.of(o)[k]
        if isinstance(o, str): return SymStr(z3.StringVal(o))[k]
        return o[k]
    if isinstance(k, slice) and contains_sym((k.start, k.stop, k.step)):
        if isinstance(o, bytes): return SymBytes.of(o)[k]
        if isinstance(o, str): return SymStr(z3.StringVal(o))[k]
        if isinstance(o, (SymBytes, SymStr)): return o[k]
        if hasattr(o, 'vc_slice'): return o.vc_slice(k)
        raise Unsupported('symbolic slice of %s' % type(o).__name__)
    if isinstance(o, list) and loops.has_runs(o): return runs().item(o, k)
    return o[k]

def vc_callm(__o, __m, *a, **k):
    o, m = __o, __m
    if isinstance(o, str):
        if m == 'format':
            if contains_sym(a) or contains_sym(k.values()) or any(hasattr(x, 'vc_text') or opaque(x) for x in a) or any(hasattr(x, 'vc_text') or opaque(x) for x in k.values()):
                return str_format(o, a, k)
        elif m == 'join':
            xs = a[0]
            if not isinstance(xs, str):
                if hasattr(xs, 'vc_join'): return xs.vc_join(o)
                if not isinstance(xs, (list, tuple, set, dict)): xs = list(xs)
                if contains_sym(xs): return join(o, xs)
                return o.join(xs)
        elif contains_sym(a):
            return getattr(SymStr(z3.StringVal(o)), m)(*a, **k)
    elif isinstance(o, bytes):
        if m == 'join':
            xs = a[0]
            if hasattr(xs, 'vc_join'): return xs.vc_join(o)
            if not isinstance(xs, (list, tuple)): xs = list(xs)
            if contains_sym(xs): return bjoin(o, xs)
            return o.join(xs)
        if contains_sym(a): return getattr(SymBytes.of(o), m)(*a, **k)
    elif isinstance(o, dict) and a and isinstance(a[0], SYMS) and not hasattr(o, 'vc_contains'):
        if m == 'get':
            dflt = a[1] if len(a) > 1 else None
            return dict_get(o, a[0], lambda: dflt, None)
        raise Unsupported('dict.%s with a symbolic key' % m)
    elif isinstance(o, list) and (loops.has_runs(o) or a and loops.has_runs(list(a))):
        done, r = runs().method(o, m, a, k)
        if done: return r
    try:
        return getattr(o, m)(*a, **k)
    except TypeError as e:
        s = str(e)
        if 'Sym' in s or 'Poison' in s: raise Unsupported('TypeError: ' + s)
        from . import kpmod
        kpmod.mentions(e)
        raise

def vc_collects(it, name, locs, kind):
    """Whether a loop that fills a list (until now empty, known under this name only) is executed as the comprehension it amounts to."""
    l = locs.get(name)
    if kind == 'dict': return hasattr(it, 'vc_dictcomp') and type(l) is dict and not l and sum(1 for k, v in locs.items() if v is l and not k.startswith('_vc_')) == 1
    return hasattr(it, 'vc_comp') and getattr(it, 'vc_collects', True) and type(l) is list and not l and sum(1 for k, v in locs.items() if v is l and not k.startswith('_vc_')) == 1
def vc_star(x, b, a):
    if hasattr(x, 'vc_star'): return x.vc_star(b, a)
    l = list(x)
    if len(l) < b + a: raise ValueError('not enough values to unpack (expected at least %d, got %d)' % (b + a, len(l)))
    return (*l[:b], l[b:len(l) - a], *l[len(l) - a:])
def vc_comp(it, f, kind):
    if kind == 'dict':
        if hasattr(it, 'vc_dictcomp'): return it.vc_dictcomp(f)
        if hasattr(it, 'vc_comp'): raise Unsupported('dict comprehension over %s' % type(it).__name__)
        return dict(r for x in it for r in f(x))
    if hasattr(it, 'vc_comp'): return it.vc_comp(f, kind)
    if kind == 'gen': return (r for x in it for r in f(x))
    return [r for x in it for r in f(x)]

# ---- builtins -----------------------------------------------------------------------------------
class vstr_meta(type(str)):
    def __instancecheck__(cls, x): return isinstance(x, (str, SymStr))
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, (SymStr, SymInt, SymBool)) or hasattr(x, 'vc_text'): return to_text(x)
            if isinstance(x, SYMS): raise Unsupported('str() of %s' % type(x).__name__)
            if isinstance(x, BaseException) and opaque(x): return opaque_text()
        if a and isinstance(a[0], SymBytes): return a[0].decode(*a[1:], **k)
        return str(*a, **k)
class vstr(str, metaclass=vstr_meta): pass

class vbytes_meta(type(bytes)):
    def __instancecheck__(cls, x): return isinstance(x, (bytes, SymBytes))
    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SymBytes): return a[0]
        if a and contains_sym(a): raise Unsupported('bytes() of a symbolic value')
        return bytes(*a, **k)
class vbytes(bytes, metaclass=vbytes_meta):
    @staticmethod
    def fromhex(s):
        if isinstance(s, SymStr):
            from .libs import bytes_fromhex
            return bytes_fromhex(s)
        return bytes.fromhex(s)

class vint_meta(type(int)):
    def __instancecheck__(cls, x): return isinstance(x, (int, SymInt, words.SymW))
    def __call__(cls, *a, **k):
        if a and (isinstance(a[0], SYMS) or hasattr(a[0], 'vc_int')):
            from .libs import to_int
            return to_int(*a, **k)
        return int(*a, **k)
class vint(int, metaclass=vint_meta):
    @staticmethod
    def from_bytes(b, byteorder='big', signed=False):
        if isinstance(b, SymBytes):
            from .libs import int_from_bytes
            return int_from_bytes(b, byteorder, signed)
        return int.from_bytes(b, byteorder, signed=signed)

class vbool_meta(type):
    def __instancecheck__(cls, x): return isinstance(x, (bool, SymBool))
    def __call__(cls, x=False): return True if x else False
class vbool(metaclass=vbool_meta): pass

class vlist_meta(type(list)):
    def __instancecheck__(cls, x): return isinstance(x, list) or getattr(x, 'vc_is_list', False)
    def __call__(cls, *a):
        if a and hasattr(a[0], 'vc_tolist'): return a[0].vc_tolist()
        return list(*a)
class vlist(list, metaclass=vlist_meta): pass

MAP = {}   # v-type -> real type, for isinstance/issubclass with tuples and `type(x) is ...`
MAP.update({vstr: str, vbytes: bytes, vint: int, vbool: bool, vlist: list})

def vlen(x):
    if hasattr(x, 'vc_len') or hasattr(x, 'vc_nodeloop'):
        try: return loops.length_of(x, x.vc_len() if hasattr(x, 'vc_len') else len(x))
        except Unsupported as ex:
            if hasattr(x, 'vc_nodeloop'): return loops.LenOf(x, str(ex))
            raise
    if isinstance(x, list) and any(getattr(y, 'vc_run', False) is True for y in x): return loops.length_of(x, sum([y.n if getattr(y, 'vc_run', False) is True else 1 for y in x][1:], x[0].n if getattr(x[0], 'vc_run', False) is True else 1))
    return len(x)

def visinstance(x, t):
    if isinstance(t, tuple): return any(visinstance(x, s) for s in t)
    if hasattr(x, 'vc_isinstance'):
        r = x.vc_isinstance(t)
        if r is not None: return r
    return isinstance(x, t)

def vtype(*a):
    if len(a) != 1: return type(*a)
    x = a[0]
    if isinstance(x, SymStr): return vstr
    if isinstance(x, SymBytes): return vbytes
    if isinstance(x, SymInt): return vint
    if hasattr(x, 'vc_type'): return x.vc_type()
    t = type(x)
    for v, r in MAP.items():
        if t is r: return v
    return t

def vrange(*a):
    if len(a) == 1 or len(a) == 2 and isinstance(a[0], int) and a[0] == 0 or len(a) == 3 and a[0] == 0 and a[2] == 1:
        r = loops.positions(a[0] if len(a) == 1 else a[1])
        if r is not None: return r
    if any(isinstance(x, SymInt) for x in a):
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        return loops.SymRange(start, stop, step)
    return range(*a)

def venumerate(x, start=0):
    if hasattr(x, 'vc_enumerate'): return x.vc_enumerate(start)
    if isinstance(x, list) and any(getattr(y, 'vc_run', False) is True for y in x):
        from . import runs
        return runs.RunIter(x, start)
    if isinstance(x, loops.SymRange): return loops.SymEnum(x, start)
    if hasattr(x, 'vc_nodeloop'): return loops.enumerated(x, start)
    return enumerate(x, start)

def vhash(x):
    if hasattr(x, 'vc_hash'): return x.vc_hash()
    if isinstance(x, tuple) and (contains_sym(x) or any(hasattr(y, 'vc_hash') for y in x)): return SymHash(x)
    if isinstance(x, SYMS): return SymHash((x,))
    h = getattr(type(x), '__hash__', None)
    if h is not None and isinstance(h, types.FunctionType): return h(x)    # keep symbolic results
    return hash(x)

class SymHash:
    """hash(): equal arguments have equal hashes; different ones may or may not."""
    def __init__(self, v): self.v = v
    def __eq__(self, o):
        if not isinstance(o, SymHash): raise Unsupported('comparison of a symbolic hash')
        r = veq_seq(self.v, o.v)
        if bool(r): return True
        from .values import ufp
        return SymBool(z3.Bool(eng().fresh('hash_collision')))
    __hash__ = None

def veq_seq(a, b):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if not bool(x == y): return False
    return True

def vany(xs):
    for x in xs:
        if x: return True
    return False
def vall(xs):
    for x in xs:
        if not x: return False
    return True

def vmin(*a, **k):
    if len(a) == 2 and contains_sym(a) and not k: return a[0] if bool(a[0] <= a[1]) else a[1]
    return min(*a, **k)
def vmax(*a, **k):
    if len(a) == 2 and contains_sym(a) and not k: return a[0] if bool(a[0] >= a[1]) else a[1]
    return max(*a, **k)
def runs():
    from . import runs as r
    return r
def vsorted(x, **k):
    if hasattr(x, 'vc_sorted'): return x.vc_sorted(**k)
    if not isinstance(x, (list, tuple, str, dict, set, bytes)):
        x = list(x)
    if loops.has_runs(list(x)): raise Unsupported('sorting an unknown number of records')
    return sorted(x, **k)
def vreversed(x):
    if isinstance(x, list) and loops.has_runs(x): return runs().flipped(x)
    return reversed(x)
def vzip(*a, **k):
    if len(a) > 1 and any(isinstance(x, list) and loops.has_runs(x) for x in a): raise Unsupported('an unknown number of records in step with something else')
    return zip(*a, **k)
def vnext(it, *d):
    r = next(it, *d)
    if getattr(r, 'vc_run', False) is True: raise Unsupported('the first of an unknown number of records')
    return r
def vsum(xs, start=0):
    r = start
    for x in xs: r = r + x
    return r
def vgetattr(o, n, *d):
    if isinstance(n, SymStr): raise Unsupported('getattr with a symbolic name')
    return getattr(o, n, *d)

def make_builtins(importer, extra):
    b = dict(vars(builtins))
    b.update({'_vc_enter': vc_enter, '_vc_callm': vc_callm, '_vc_in': vc_in, '_vc_fstring': vc_fstring,
              '_vc_mod': vc_mod, '_vc_slice': vc_slice, '_vc_getitem': vc_getitem, '_vc_abort': VCAbort,
              '_vc_comp': vc_comp, '_vc_star': vc_star, '_vc_collects': vc_collects, '_vc_poison': loops.Poison, '_vc_ite': words.ite, '_vc_wnot': words.wnot, '_vc_weq': words.weq, '_vc_wifexp': words.wifexp, '_vc_isword': lambda c: isinstance(c, words.SymW),
              '_vc_loop_for': loops.loop_for, '_vc_loop_while': loops.loop_while,
              'len': vlen, 'isinstance': visinstance, 'type': vtype, 'range': vrange, 'enumerate': venumerate,
              'str': vstr, 'bytes': vbytes, 'int': vint, 'bool': vbool, 'list': vlist, 'hash': vhash, 'any': vany, 'all': vall,
              'min': vmin, 'max': vmax, 'sorted': vsorted, 'sum': vsum, 'reversed': vreversed, 'zip': vzip, 'next': vnext, 'getattr': vgetattr,
              '__import__': importer})
    b.update(extra)
    return b

class Shadow:
    """The instrumented copy of the package under /repo (rebuilt from the working tree on every run)."""
    def __init__(self, libs, builtins_extra=None, package='pykeepass', root=None, bare=()):
        self.bare = bare                  # packages whose __init__ is not executed (only their submodules are used)
        self.libs = libs                  # name -> model module
        self.mods = {}
        self.package = package
        self.root = root or os.path.join(REPO, package)
        self.extra = builtins_extra or {}
        self.roots = {}                   # other packages that are executed from their (instrumented) source
        self.builtins = make_builtins(self._import, self.extra)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            base = pkg[:len(pkg) - (level - 1)]
            full = '.'.join(base + ([name] if name else []))
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try: self.load(full + '.' + f)
                        except FileNotFoundError: pass
                return m
            return self.load(base[0])
        if name.split('.')[0] == self.package or name.split('.')[0] in self.roots:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try: self.load(name + '.' + f)
                        except FileNotFoundError: pass
                return m
            return self.load(name.split('.')[0])
        if name in self.libs:
            m = self.libs[name]
            if isinstance(m, type(None)): raise ImportError(name)
            if fromlist: return m
            return self.libs.get(name.split('.')[0], m)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods: return self.mods[name]
        parts = name.split('.')
        path = os.path.join(self.roots.get(parts[0], self.root), *parts[1:])
        if os.path.isdir(path): file, pkg = os.path.join(path, '__init__.py'), True
        else: file, pkg = path + '.py', False
        with open(file) as f: src = f.read()
        m = types.ModuleType(name)
        m.__file__ = file
        m.__package__ = name if pkg else '.'.join(parts[:-1])
        if pkg: m.__path__ = [path]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        if len(parts) > 1:
            setattr(self.load('.'.join(parts[:-1])), parts[-1], m)
        if name in self.bare: return m
        try:
            exec(instrument(src, file, name), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return m
