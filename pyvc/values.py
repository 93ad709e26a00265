"""Symbolic integers, strings and byte strings."""
import z3
from .core import eng, SymBool, mk_bool, as_z3, Unsupported, axiom, PathEnd

# ------------------------------------------------------------------------------------ integers
def zi(x):
    """z3 Int term (or int) of an integer-like value."""
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if isinstance(x, SymInt): return x.e
    if isinstance(x, z3.ArithRef): return x
    raise Unsupported('integer expected, got %s' % type(x).__name__)

def zint(x):
    x = zi(x)
    return z3.IntVal(x) if isinstance(x, int) else x

def mk_int(e):
    if isinstance(e, int): return e
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    return SymInt(e)

class SymInt:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def _b(self, o, f):
        if isinstance(o, (int, SymInt)): return mk_int(f(self.e, zi(o)))
        return NotImplemented
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mk_int(-self.e)
    def __pos__(self): return self
    def __abs__(self): return self if bool(self >= 0) else -self
    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0: return mk_int(self.e / o)
        raise Unsupported('division by a symbolic or non-positive integer')
    def __mod__(self, o):
        if isinstance(o, int) and o > 0: return mk_int(self.e % o)
        raise Unsupported('modulo of a symbolic or non-positive integer')
    def __divmod__(self, o): return self // o, self % o
    def __rfloordiv__(self, o): raise Unsupported('division by a symbolic integer')
    def __rmod__(self, o): raise Unsupported('modulo a symbolic integer')
    def __truediv__(self, o):
        raise Unsupported('true division of a symbolic integer')
    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and not (o & (o + 1)): return self % (o + 1)
        if isinstance(o, int) and o > 0 and not (o & (o - 1)):      # single bit
            return mk_int(((self.e / o) % 2) * o)
        raise Unsupported('bit operation on a symbolic integer')
    __rand__ = __and__
    def __or__(self, o): raise Unsupported('bit operation on a symbolic integer')
    __ror__ = __xor__ = __rxor__ = __or__
    def __lshift__(self, o):
        if isinstance(o, int): return self * (1 << o)
        raise Unsupported('shift')
    def __rshift__(self, o):
        if isinstance(o, int): return self // (1 << o)
        raise Unsupported('shift')
    def _c(self, o, f):
        if isinstance(o, (int, SymInt)): return mk_bool(f(self.e, zi(o)))
        if o is None: raise TypeError("comparison not supported between instances of 'int' and 'NoneType'")
        return NotImplemented
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if isinstance(o, (int, SymInt)): return mk_bool(self.e == zi(o))
        return False
    def __ne__(self, o):
        if isinstance(o, (int, SymInt)): return mk_bool(self.e != zi(o))
        return True
    def __hash__(self): raise Unsupported('hash of a symbolic integer')
    def __bool__(self): return bool(mk_bool(self.e != 0))
    def __index__(self): raise Unsupported('symbolic integer used in C code')
    def __int__(self): raise Unsupported('symbolic integer used in C code')
    def __str__(self): raise Unsupported('symbolic integer formatted in C code')
    def __format__(self, s): raise Unsupported('symbolic integer formatted in C code')
    def __repr__(self): return 'SymInt(%s)' % self.e

def int_var(name, lo=None, hi=None):
    e = eng()
    v = z3.Int(e.fresh(name))
    if lo is not None: axiom(v >= lo)
    if hi is not None: axiom(v <= hi)
    return SymInt(v)

# ------------------------------------------------------------------------------------ strings
def zs(x):
    if isinstance(x, str): return z3.StringVal(x)
    if isinstance(x, SymStr): return x.e
    raise Unsupported('string expected, got %s' % type(x).__name__)

REAL = {'SymUUID': 'UUID', 'SymDT': 'datetime', 'SymTD': 'timedelta'}
def need_str(*xs):
    """The arguments of a str method: what is no text there is a TypeError of the code."""
    for x in xs:
        if isinstance(x, (str, SymStr)): continue
        n = REAL.get(type(x).__name__) or ('int' if isinstance(x, (int, SymInt)) else 'bytes' if isinstance(x, (bytes, SymBytes)) else 'NoneType' if x is None else None)
        if n: raise TypeError('an argument must be a text, and is not')

def mk_str(e):
    if isinstance(e, str): return e
    e = z3.simplify(e)
    if z3.is_string_value(e): return zstr_to_py(e)
    return SymStr(e)

def zstr_to_py(e):
    s = e.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)

class SymStr:
    """A text.  `origin` remembers the value it was produced from by an injective conversion
    (str(int), base64 text, ISO time...), so that the inverse conversion is exact."""
    __slots__ = ('e', 'origin')
    def __init__(self, e, origin=None):
        self.e = e
        self.origin = origin
    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            if isinstance(o, str) and o == '': return self
            return mk_str(z3.Concat(self.e, zs(o)))
        return NotImplemented
    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            if isinstance(o, str) and o == '': return self
            return mk_str(z3.Concat(zs(o), self.e))
        return NotImplemented
    def __eq__(self, o):
        if isinstance(o, (str, SymStr)): return mk_bool(self.e == zs(o))
        return False
    def __ne__(self, o):
        if isinstance(o, (str, SymStr)): return mk_bool(self.e != zs(o))
        return True
    def __hash__(self): raise Unsupported('hash of a symbolic string')
    def __bool__(self): return bool(mk_bool(z3.Length(self.e) > 0))
    def __len__(self): raise Unsupported('len() of a symbolic string in C code')
    def vc_len(self): return mk_int(z3.Length(self.e))
    def __contains__(self, o):
        need_str(o)
        return bool(mk_bool(z3.Contains(self.e, zs(o))))
    def __iter__(self): raise Unsupported('iteration over a symbolic string')
    def __getitem__(self, k):
        n = z3.Length(self.e)
        if isinstance(k, slice):
            if k.step not in (None, 1): raise Unsupported('string slice step')
            lo = 0 if k.start is None else zi(k.start)
            hi = n if k.stop is None else zi(k.stop)
            if isinstance(lo, int) and lo < 0: lo = z3.If(n + lo < 0, 0, n + lo)
            if isinstance(hi, int) and hi < 0: hi = n + hi
            return mk_str(z3.SubString(self.e, lo, hi - lo))
        k = zi(k)
        if isinstance(k, int) and k < 0: k = n + k
        if not bool(mk_bool(z3.And(k >= 0, k < n))): raise IndexError('string index out of range')
        return mk_str(z3.SubString(self.e, k, 1))
    def __str__(self): raise Unsupported('symbolic string converted in C code')
    def __format__(self, s): raise Unsupported('symbolic string formatted in C code')
    def __repr__(self): return 'SymStr(%s)' % self.e
    def __mod__(self, o): raise Unsupported('formatting with a symbolic format')
    def __lt__(self, o): raise Unsupported('order of symbolic strings')
    __gt__ = __le__ = __ge__ = __lt__
    # methods
    def startswith(self, p, *a):
        need_str(*(p if isinstance(p, tuple) else (p,)))
        if a: raise Unsupported('startswith with offsets')
        if isinstance(p, tuple): return mk_bool(z3.Or([z3.PrefixOf(zs(x), self.e) for x in p]))
        return mk_bool(z3.PrefixOf(zs(p), self.e))
    def endswith(self, p, *a):
        need_str(*(p if isinstance(p, tuple) else (p,)))
        if a: raise Unsupported('endswith with offsets')
        return mk_bool(z3.SuffixOf(zs(p), self.e))
    def encode(self, enc='utf-8', errors='strict'):
        from .libs import text_encode
        return text_encode(self, enc)
    def _uf(self, name, *a):
        f = z3.Function('str_' + name, *([z3.StringSort()] * (2 + len(a))))
        return mk_str(f(self.e, *[zs(x) for x in a]))
    def strip(self, *a): return self._uf('strip', *a)
    def lower(self):
        if self.origin and self.origin[0] == 'hex': return self
        return self._uf('lower')
    def upper(self):
        r = self._uf('upper')
        if self.origin and self.origin[0] == 'hex' and isinstance(r, SymStr): r.origin = ('hexup', self.origin[1])
        return r
    def replace(self, a, b, *n):
        need_str(a, b)
        if n: raise Unsupported('replace with count')
        from .libs import str_replace
        return str_replace(self, a, b)
    def split(self, sep=None, *a):
        from .libs import str_split
        return str_split(self, sep, *a)
    def join(self, xs):
        return join(self, xs)
    def format(self, *a, **k): raise Unsupported('formatting with a symbolic format')
    def isdigit(self): return mk_bool(z3.Function('str_isdigit', z3.StringSort(), z3.BoolSort())(self.e))

def join(sep, xs):
    xs = list(xs)
    if any(not isinstance(x, (str, SymStr)) for x in xs):
        raise TypeError('sequence item: expected str instance')
    if not xs: return ''
    r = xs[0]
    for x in xs[1:]: r = r + sep + x
    return r

def str_var(name):
    return SymStr(z3.String(eng().fresh(name)))

# ------------------------------------------------------------------------------------ bytes
B = z3.DeclareSort('Bytes')
blen = z3.Function('blen', B, z3.IntSort())
bcid = z3.Function('bcid', B, z3.IntSort())
bcat = z3.Function('bcat', B, B, B)
bsub = z3.Function('bsub', B, z3.IntSort(), z3.IntSort(), B)
_cids = {}

class BTerm:
    """One canonical piece of a byte string."""
    __slots__ = ('kind', 'args', 'z', 'len')
    def __init__(self, kind, args, z, ln):
        self.kind, self.args, self.z, self.len = kind, args, z, ln
    def same(self, o):
        return self is o or self.z.eq(o.z)
    def psame(self, o):
        if self is o or self.z.eq(o.z): return True
        if self.kind != 'sub' and o.kind != 'sub': return False
        (b, l, h), (b2, l2, h2) = [x.args if x.kind == 'sub' else (x, 0, x.len) for x in (self, o)]
        return b.same(b2) and _ieq(l, l2) and _ieq(h, h2)
    def __repr__(self): return 'B<%s %s>' % (self.kind, self.args if self.kind in ('const', 'var') else self.z)

def bconst(b):
    i = _cids.setdefault(b, len(_cids))
    z = z3.Const('c%d_%s' % (i, b[:8].hex()), B)
    axiom(bcid(z) == i)
    axiom(blen(z) == len(b))
    return BTerm('const', b, z, len(b))

def bvar(name, length=None):
    e = eng()
    name = e.fresh(name)
    z = z3.Const(name, B)
    if length is None:
        axiom(blen(z) >= 0)
        length = mk_int(blen(z))
    else:
        axiom(blen(z) == zi(length))
    return SymBytes([BTerm('var', name, z, length)])

def bytes_var(name, length=None):
    return bvar(name, length)

def zarg(a):
    if isinstance(a, (bytes, SymBytes)): return bterm(a)
    if isinstance(a, (str, SymStr)): return zs(a)
    if isinstance(a, (bool, SymBool)): return z3.BoolVal(a) if isinstance(a, bool) else a.e
    if isinstance(a, (int, SymInt)): return zint(a)
    if isinstance(a, z3.ExprRef): return a
    raise Unsupported('argument of an uninterpreted function: %s' % type(a).__name__)

def uf(name, args, length=None, ret=None):
    """Application of an uninterpreted function returning bytes of the given length."""
    zargs = [zarg(a) for a in args]
    f = z3.Function(name, *([a.sort() for a in zargs] + [B]))
    z = f(*zargs) if zargs else z3.Const(name, B)
    if length is None:
        axiom(blen(z) >= 0)
        length = mk_int(blen(z))
    else:
        axiom(blen(z) == zi(length))
    return SymBytes([BTerm('uf', (name,) + tuple(args), z, length)])

def ufs(name, args):
    zargs = [zarg(a) for a in args]
    f = z3.Function(name, *([a.sort() for a in zargs] + [z3.StringSort()]))
    return SymStr(f(*zargs))

def ufp(name, args):
    zargs = [zarg(a) for a in args]
    f = z3.Function(name, *([a.sort() for a in zargs] + [z3.BoolSort()]))
    return SymBool(f(*zargs), name)

def ufi(name, args):
    zargs = [zarg(a) for a in args]
    f = z3.Function(name, *([a.sort() for a in zargs] + [z3.IntSort()]))
    return SymInt(f(*zargs))

def prov(c):
    """Is the condition provable on this path?"""
    if isinstance(c, bool): return c
    return eng().entails(c)

def _isame(a, b):
    """Equality settled without the solver: True, False or None."""
    if isinstance(a, int) and isinstance(b, int): return a == b
    if a is b: return True
    d = z3.simplify(zint(a) - zint(b))
    if z3.is_int_value(d): return d.as_long() == 0
    return None
def _ieq(a, b):
    r = _isame(a, b)
    if r is not None: return r
    return prov(mk_bool(zint(a) == zint(b)))

class SymBytes:
    __slots__ = ('parts',)
    def __init__(self, parts):
        out = []
        for p in parts:
            if p.kind == 'const' and not p.args: continue
            if isinstance(p.len, int) and p.len == 0: continue
            if out:
                q = out[-1]
                if q.kind == 'const' and p.kind == 'const':
                    out[-1] = bconst(q.args + p.args); continue
                if q.kind == 'sub' and p.kind == 'sub' and q.args[0].same(p.args[0]) and _ieq(q.args[2], p.args[1]):
                    out.pop()
                    out += _sub(p.args[0], q.args[1], p.args[2]); continue
            out.append(p)
        self.parts = out
    @staticmethod
    def of(x):
        if isinstance(x, SymBytes): return x
        if isinstance(x, (bytes, bytearray, memoryview)):
            x = bytes(x)
            return SymBytes([bconst(x)] if x else [])
        raise Unsupported('bytes expected, got %s' % type(x).__name__)
    def concrete(self):
        if not self.parts: return b''
        if len(self.parts) == 1 and self.parts[0].kind == 'const': return self.parts[0].args
        return None
    def norm(self):
        c = self.concrete()
        return self if c is None else c
    def vc_len(self):
        n = 0
        for p in self.parts: n = n + p.len
        return n
    def __len__(self):
        n = self.vc_len()
        if isinstance(n, int): return n
        raise Unsupported('len() of symbolic bytes in C code')
    def __bool__(self):
        if not self.parts: return False
        return bool(self.vc_len() > 0)
    def __add__(self, o):
        if isinstance(o, (bytes, SymBytes)): return SymBytes(self.parts + SymBytes.of(o).parts)
        return NotImplemented
    def __radd__(self, o):
        if isinstance(o, (bytes, SymBytes)): return SymBytes(SymBytes.of(o).parts + self.parts)
        return NotImplemented
    def __mul__(self, n):
        if isinstance(n, int): return SymBytes(self.parts * n)
        raise Unsupported('repetition')
    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)): return False
        return beq(self, o)
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r
    def __hash__(self): raise Unsupported('hash of symbolic bytes')
    def __iter__(self):
        n = self.vc_len()
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported('iteration over symbolic bytes')
    def __contains__(self, o): raise Unsupported('membership in symbolic bytes')
    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1): raise Unsupported('slice step')
            return bslice(self, k.start, k.stop).norm()
        n = self.vc_len()
        if not isinstance(k, (int, SymInt)): raise TypeError('byte indices must be integers')
        if isinstance(k, int) and k < 0: k = n + k
        if not bool(mk_bool(z3.And(zint(k) >= 0, zint(k) < zint(n)))): raise IndexError('index out of range')
        one = bslice(self, k, k + 1)
        c = one.concrete()
        if c is not None: return c[0]
        v = ufi('byteval', [one])
        axiom(z3.And(v.e >= 0, v.e < 256))
        return v
    def __bytes__(self): raise Unsupported('symbolic bytes converted in C code')
    def __buffer__(self, flags): raise Unsupported('symbolic bytes used in C code')
    def decode(self, enc='utf-8', errors='strict'):
        from .libs import text_decode
        return text_decode(self, enc)
    def hex(self):
        from .libs import bytes_hex
        return bytes_hex(self)
    def startswith(self, p):
        p = SymBytes.of(p)
        n = p.vc_len()
        if not bool(self.vc_len() >= n): return False
        return bslice(self, 0, n) == p
    def endswith(self, p):
        p = SymBytes.of(p)
        n = p.vc_len()
        if not bool(self.vc_len() >= n): return False
        return bslice(self, self.vc_len() - n, None) == p
    def join(self, xs): return bjoin(self, xs)
    def strip(self, *a): raise Unsupported('bytes.strip')
    rstrip = lstrip = strip
    def __repr__(self): return 'SymBytes(%s)' % (self.parts,)

def bjoin(sep, xs):
    if hasattr(xs, 'vc_join'): return xs.vc_join(sep)
    xs = list(xs)
    r = SymBytes([])
    sep = SymBytes.of(sep)
    for i, x in enumerate(xs):
        if i: r = r + sep
        if hasattr(x, 'vc_joined'):
            if sep.parts: raise Unsupported('join with a separator')
            x = x.vc_joined()
        r = r + SymBytes.of(x)
    return r.norm()

def _sub(t, lo, hi):
    """The piece t[lo:hi] (0 <= lo <= hi <= len t known)."""
    if _ieq(lo, hi): return []
    if _ieq(lo, 0) and _ieq(hi, t.len): return [t]
    if t.kind == 'const' and isinstance(lo, int) and isinstance(hi, int): return [bconst(t.args[lo:hi])]
    if t.kind == 'sub':
        return _sub(t.args[0], t.args[1] + lo, t.args[1] + hi)
    z = bsub(t.z, zint(lo), zint(hi))
    ln = hi - lo
    axiom(blen(z) == zi(ln))
    axiom(z3.Implies(z3.And(zint(lo) == 0, zint(hi) == zint(t.len)), z == t.z))
    return [BTerm('sub', (t, lo, hi), z, ln)]

def bslice(b, lo, hi):
    n = b.vc_len()
    def clamp(x, dflt):
        if x is None: return dflt
        if isinstance(x, int) and x < 0 or (isinstance(x, SymInt) and not prov(x >= 0)):
            if bool(mk_bool(zint(x) < 0)):
                x = n + x
                if bool(mk_bool(zint(x) < 0)): return 0
        if isinstance(x, int) and isinstance(n, int): return min(x, n)
        if prov(mk_bool(zint(x) <= zint(n))): return x
        return x if bool(mk_bool(zint(x) <= zint(n))) else n
    lo, hi = clamp(lo, 0), clamp(hi, n)
    if not isinstance(lo, int) or not isinstance(hi, int):
        # whole parts, some of which may be empty
        off, i, j = 0, None, None
        for k, p in enumerate(b.parts + [None]):
            if i is None and _isame(off, lo): i = k
            if i is not None and _isame(off, hi): j = k; break
            if p is not None: off = off + p.len
        if i is not None and j is not None: return SymBytes(b.parts[i:j])
    if not bool(mk_bool(zint(lo) < zint(hi))): return SymBytes([])
    out, off = [], 0
    for p in b.parts:
        end = off + p.len
        # part spans [off, end); intersect with [lo, hi)
        if bool(mk_bool(zint(end) <= zint(lo))): off = end; continue
        if bool(mk_bool(zint(off) >= zint(hi))): break
        a = lo - off if prov(mk_bool(zint(lo) >= zint(off))) or bool(mk_bool(zint(lo) > zint(off))) else 0
        z = hi - off if prov(mk_bool(zint(hi) <= zint(end))) or bool(mk_bool(zint(hi) < zint(end))) else p.len
        out += _sub(p, a, z)
        off = end
    return SymBytes(out)

def bterm(b):
    """One z3 term for the whole byte string (canonical concatenation)."""
    b = SymBytes.of(b)
    if not b.parts: return bconst(b'').z
    z = b.parts[-1].z
    for p in reversed(b.parts[:-1]):
        z2 = bcat(p.z, z)
        z = z2
    if len(b.parts) > 1: axiom(blen(z) == zi(b.vc_len()))
    return z

def _align(x, y):
    """Cut both part lists at each other's boundaries where the lengths allow it."""
    out = []
    xs, ys = [[p for p in l if not _ieq(p.len, 0)] for l in (x, y)]
    while xs and ys:
        p, q = xs[0], ys[0]
        if p.psame(q) or _ieq(p.len, q.len):
            out.append((p, q)); xs.pop(0); ys.pop(0); continue
        if prov(mk_bool(zint(p.len) < zint(q.len))):
            xs.pop(0)
            out.append((p, _piece(q, 0, p.len)))
            ys[0:1] = _sub(q, p.len, q.len)
        elif prov(mk_bool(zint(q.len) < zint(p.len))):
            ys.pop(0)
            out.append((_piece(p, 0, q.len), q))
            xs[0:1] = _sub(p, q.len, p.len)
        else:
            return None
    if xs or ys: return None
    return out

def _piece(t, lo, hi):
    r = _sub(t, lo, hi)
    return r[0]

def beq(a, b):
    a, b = SymBytes.of(a), SymBytes.of(b)
    x, y = list(a.parts), list(b.parts)
    while x and y and x[0].psame(y[0]): x.pop(0); y.pop(0)
    while x and y and x[-1].psame(y[-1]): x.pop(); y.pop()
    if not x and not y: return True
    ca, cb = a.concrete(), b.concrete()
    if ca is not None and cb is not None: return ca == cb
    la, lb = a.vc_len(), b.vc_len()
    if isinstance(la, int) and isinstance(lb, int) and la != lb: return False
    pairs = _align(x, y)
    if pairs is not None:
        conj = []
        for p, q in pairs:
            if p.psame(q): continue
            if p.kind == 'const' and q.kind == 'const':
                if p.args != q.args: return False
                continue
            conj.append(p.z == q.z)
        if not conj: return True
        return mk_bool(z3.And(conj))
    e = bterm(SymBytes(x)) == bterm(SymBytes(y))
    axiom(z3.Implies(e, zint(la) == zint(lb)))
    return mk_bool(e)

def is_sym(x):
    return isinstance(x, (SymInt, SymStr, SymBytes, SymBool))
