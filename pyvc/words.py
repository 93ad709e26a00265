"""Symbolic machine words in a canonical form: every bit is an XOR of atoms (GF(2)-affine), atoms are
input bits or output bits of uninterpreted nodes (table look-ups, sums modulo 2^k, ANDs) which are
hash-consed on the canonical form of their arguments.  Equality of canonical forms is a sound proof of
equality for all values of the inputs."""
from .core import Unsupported, eng

ONE = ('1',)
_nodes = {}
_info = []

def node(key, info=None):
    """The id of the hash-consed node with this key."""
    n = _nodes.get(key)
    if n is None:
        n = _nodes[key] = len(_info)
        _info.append((key, info))
    return n

def reset():
    _nodes.clear(); _info.clear(); _tabs.clear()

Z = frozenset()
C1 = frozenset([ONE])

def _trim(bits):
    while bits and not bits[-1]:
        bits.pop()
    return bits

class SymW:
    """A non-negative integer given by its bits (least significant first)."""
    __slots__ = ('bits',)
    def __init__(self, bits):
        self.bits = tuple(_trim(list(bits)))
    # -- conversions
    @staticmethod
    def of(x):
        if isinstance(x, SymW): return x
        if isinstance(x, SymSum): raise Unsupported('unreduced sum used as a word')
        if isinstance(x, bool): x = int(x)
        if isinstance(x, int):
            if x < 0: raise Unsupported('negative word')
            return SymW([C1 if (x >> i) & 1 else Z for i in range(x.bit_length())])
        raise Unsupported('word operand %r' % type(x))
    def const(self):
        v = 0
        for i, b in enumerate(self.bits):
            if b == C1: v |= 1 << i
            elif b: return None
        return v
    def norm(self):
        c = self.const()
        return self if c is None else c
    def bit(self, i):
        return self.bits[i] if i < len(self.bits) else Z
    # -- bit operations
    def __xor__(self, o):
        if not isinstance(o, (SymW, int)): return NotImplemented
        o = SymW.of(o)
        n = max(len(self.bits), len(o.bits))
        return SymW([self.bit(i) ^ o.bit(i) for i in range(n)]).norm()
    __rxor__ = __xor__
    def __and__(self, o):
        if not isinstance(o, (SymW, int)): return NotImplemented
        o = SymW.of(o)
        n = min(len(self.bits), len(o.bits))
        return SymW([_and(self.bits[i], o.bits[i]) for i in range(n)]).norm()
    __rand__ = __and__
    def __or__(self, o):
        if not isinstance(o, (SymW, int)): return NotImplemented
        o = SymW.of(o)
        n = max(len(self.bits), len(o.bits))
        return SymW([self.bit(i) ^ o.bit(i) ^ _and(self.bit(i), o.bit(i)) for i in range(n)]).norm()
    __ror__ = __or__
    def __lshift__(self, n):
        if isinstance(n, SymW): raise Unsupported('symbolic shift')
        return SymW((Z,) * n + self.bits)
    def __rshift__(self, n):
        if isinstance(n, SymW): raise Unsupported('symbolic shift')
        return SymW(self.bits[n:]).norm()
    def __mod__(self, m):
        if not isinstance(m, int) or m <= 0 or m & (m - 1): raise Unsupported('word modulo %r' % (m,))
        return SymW(self.bits[:m.bit_length() - 1]).norm()
    def __floordiv__(self, m):
        if not isinstance(m, int) or m <= 0 or m & (m - 1): raise Unsupported('word division')
        return self >> (m.bit_length() - 1)
    # -- arithmetic
    def __add__(self, o):
        if not isinstance(o, (SymW, SymSum, int)): return NotImplemented
        return SymSum.of(self) + o
    __radd__ = __add__
    def __mul__(self, o):
        if not isinstance(o, int): return NotImplemented
        if o > 0 and not (o & (o - 1)): return self << (o.bit_length() - 1)
        return SymSum.of(self) * o
    __rmul__ = __mul__
    def __sub__(self, o):
        if not isinstance(o, (SymW, SymSum, int)): return NotImplemented
        return SymSum.of(self) + SymSum.of(o) * -1
    def __rsub__(self, o):
        return SymSum.of(o) + SymSum.of(self) * -1
    # -- predicates
    def same(self, o):
        return SymW.of(self).bits == SymW.of(o).bits
    def __eq__(self, o):
        if isinstance(o, (int, SymW)):
            o = SymW.of(o)
            if self.bits == o.bits: return True
            n = max(len(self.bits), len(o.bits))
            if any((self.bit(i) ^ o.bit(i)) == C1 for i in range(n)): return False
            raise Unsupported('branch on equality of symbolic words')
        return False
    def __ne__(self, o): return not self.__eq__(o)
    def __hash__(self): raise Unsupported('hash of symbolic word')
    def __bool__(self):
        c = self.const()
        if c is not None: return bool(c)
        if any(b == C1 for b in self.bits): return True
        raise Unsupported('branch on a symbolic word')
    def __index__(self):
        c = self.const()
        if c is not None: return c
        raise Unsupported('symbolic word used as an index in C code')
    def __int__(self): return self.__index__()
    def _cmp(self, o, op):
        lo = sum(1 << i for i, b in enumerate(self.bits) if b == C1)
        hi = sum(1 << i for i, b in enumerate(self.bits) if b)
        if isinstance(o, int):
            if op == '<': return True if hi < o else (False if lo >= o else self._u())
            if op == '>': return True if lo > o else (False if hi <= o else self._u())
        return self._u()
    def _u(self): raise Unsupported('order of symbolic words')
    def __lt__(self, o): return self._cmp(o, '<')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return not self._cmp(o, '<')
    def __le__(self, o): return not self._cmp(o, '>')
    def __repr__(self): return 'SymW(%d bits)' % len(self.bits)

def _and(a, b):
    if not a or not b: return Z
    if a == C1: return b
    if b == C1: return a
    if a == b: return a
    return frozenset([(node(('and', frozenset([a, b]))), 0)])

class SymSum:
    """sum of coefficient*word + constant, over the integers; becomes a word when reduced modulo 2^k."""
    __slots__ = ('terms', 'c')
    def __init__(self, terms, c):
        self.terms = {k: v for k, v in terms.items() if v}
        self.c = c
    @staticmethod
    def of(x):
        if isinstance(x, SymSum): return x
        if isinstance(x, int): return SymSum({}, x)
        c = x.const()
        if c is not None: return SymSum({}, c)
        # pull out a common power of two so that 2*b and b<<1 coincide
        k = 0
        while not x.bits[k]: k += 1
        return SymSum({x.bits[k:]: 1 << k}, 0)
    def __add__(self, o):
        if not isinstance(o, (SymW, SymSum, int)): return NotImplemented
        o = SymSum.of(o)
        t = dict(self.terms)
        for k, v in o.terms.items(): t[k] = t.get(k, 0) + v
        return SymSum(t, self.c + o.c)
    __radd__ = __add__
    def __sub__(self, o): return self + SymSum.of(o) * -1
    def __rsub__(self, o): return SymSum.of(o) + self * -1
    def __mul__(self, o):
        if not isinstance(o, int): return NotImplemented
        return SymSum({k: v * o for k, v in self.terms.items()}, self.c * o)
    __rmul__ = __mul__
    def __lshift__(self, n): return self * (1 << n)
    def mod(self, k):
        m = 1 << k
        t = {b: v % m for b, v in self.terms.items() if v % m}
        c = self.c % m
        if not t: return c
        if len(t) == 1 and c == 0:
            (b, v), = t.items()
            if not v & (v - 1): return (SymW(b) << (v.bit_length() - 1)) % m
        n = node(('add', k, frozenset(t.items()), c))
        return SymW([frozenset([(n, i)]) for i in range(k)])
    def __mod__(self, m):
        if not isinstance(m, int) or m <= 0 or m & (m - 1): raise Unsupported('sum modulo %r' % (m,))
        return self.mod(m.bit_length() - 1)
    def __and__(self, m):
        if isinstance(m, int) and m >= 0 and not (m & (m + 1)): return self.mod(m.bit_length())
        if isinstance(m, int) and m > 0: return SymW.of(self.mod(m.bit_length())) & m
        raise Unsupported('and of an unreduced sum')
    __rand__ = __and__
    def __eq__(self, o): raise Unsupported('comparison of an unreduced sum')
    __hash__ = None
    def __bool__(self): raise Unsupported('branch on a sum')

def var(name, width):
    n = node(('var', name))
    return SymW([frozenset([(n, i)]) for i in range(width)])

class AbstractTable:
    """A table with arbitrary contents: look-ups are uninterpreted."""
    def __init__(self, name, width, size=256):
        self.name, self.width, self.size = name, width, size
    def __len__(self): return self.size
    def lookup(self, idx):
        w = SymW.of(idx)
        n = node(('tab', self.name, w.bits))
        return SymW([frozenset([(n, i)]) for i in range(self.width)])
    def __getitem__(self, i):
        if isinstance(i, (int, SymW)): return self.lookup(i)
        raise Unsupported('table index')
    def __setitem__(self, i, v): raise Unsupported('write to an abstract table')

_tabs = {}
def _intern(key):
    return _tabs.setdefault(key, len(_tabs))
def lookup(table, idx):
    """table[idx] for a concrete list and a symbolic index."""
    w = SymW.of(idx)
    c = w.const()
    if c is not None: return table[c]
    key = tuple(table)
    if 1 << len(w.bits) > len(key):
        raise Unsupported('symbolic index may be out of range')
    if any(not isinstance(x, int) or x < 0 for x in key):
        # interned by contents: two tables with the same (canonical) entries are the same function
        key = tuple(SymW.of(x).bits for x in key)
        width = max(len(x) for x in key)
        n = node(('stab', _intern(key), w.bits))
        return SymW([frozenset([(n, i)]) for i in range(width)]).norm()
    width = max(x.bit_length() for x in key)
    # a table that is the identity or affine would still be an uninterpreted node: sound, not complete
    n = node(('ctab', key, w.bits))
    return SymW([frozenset([(n, i)]) for i in range(width)]).norm()

def _nonzero(c):
    bit = Z
    for x in SymW.of(c).bits: bit = bit ^ x ^ _and(bit, x)
    return bit
def _truth(bit): return False if bit == Z else True if bit == C1 else SymW([bit])
def wnot(x):
    """not x; a word (0 or 1) when x is a symbolic word that may be zero or not"""
    return _truth(_nonzero(x) ^ C1) if isinstance(x, SymW) else not x
def weq(a, b):
    if isinstance(a, SymW) and isinstance(b, (int, SymW)) or isinstance(b, SymW) and isinstance(a, int):
        return _truth(_nonzero(SymW.of(a) ^ SymW.of(b)) ^ C1)
    return a == b
def wifexp(c, f, g):
    if isinstance(c, SymW) and c.const() is None: return ite(c, f(), g())
    return f() if c else g()

def ite(c, a, b):
    """c ? a : b, where c is a word tested for being non-zero."""
    cw = SymW.of(c)
    bit = Z
    for x in cw.bits:   # or of the bits
        bit = bit ^ x ^ _and(bit, x)
    if bit == Z: return b
    if bit == C1: return a
    a, b = SymW.of(a), SymW.of(b)
    n = max(len(a.bits), len(b.bits))
    return SymW([b.bit(i) ^ _and(bit, a.bit(i) ^ b.bit(i)) for i in range(n)]).norm()
