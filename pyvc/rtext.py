"""Texts of known structure (free texts, references, values) and the `re` functions on them.

A regular expression of the code is compared with the one of the specification by translating both to SMT regular expressions: when their
languages are equal, the matches in a structured text are its references by construction (leftmost matches of a text are its references by
definition) and the groups are read off a skeleton of the text.  Otherwise the unknown parts are restricted to sample texts and the real
regular expression is run on them (labelled bounded)."""
import re as _re, z3
from .core import eng, Unsupported, mk_bool, SymBool
from .values import SymStr, zs, need_str, prov, int_var
from . import libs
try: import re._parser as sre_parse, re._constants as sre_c
except ImportError: import sre_parse, sre_constants as sre_c

class Piece:
    """kind: 'text' (free text without braces), 'ref' (a reference; data: its parts), 'value' (a resolved value),
    'many' (any text with any number of further references; data: function that makes one of them)."""
    def __init__(self, kind, s, data=None): self.kind, self.s, self.data = kind, s, data

class RText(SymStr):
    def __init__(self, pieces):
        ps = []
        for p in pieces:
            if isinstance(p.s, str) and p.s == '': continue
            ps.append(p)
        self.pieces = ps
        t = [zs(p.s) for p in ps]
        super().__init__(z3.StringVal('') if not t else t[0] if len(t) == 1 else z3.Concat(*t))
    def replace(self, a, b, *n):
        need_str(a, b)
        if n and n[0] == 0: return self
        out, left, hit = [], n[0] if n else None, False
        for p in self.pieces:
            if left != 0 and p.kind == 'ref' and (zs(p.s).eq(zs(a)) or bool(mk_bool(zs(p.s) == zs(a)))):
                out.append(value_piece(b)); hit = True
                if left is not None: left -= 1
            else: out.append(p)
        if not hit and not any(zs(p.s).eq(zs(a)) for p in seen()) and not prov(mk_bool(z3.Not(z3.Contains(self.e, zs(a))))): raise Unsupported('replacement of a text that is no reference')
        return RText(out)
    def __add__(self, o): return RText(self.pieces + pieces_of(o)) if isinstance(o, (str, SymStr)) else NotImplemented
    def __radd__(self, o): return RText(pieces_of(o) + self.pieces) if isinstance(o, (str, SymStr)) else NotImplemented
    def __bool__(self):
        if any(p.kind == 'ref' for p in self.pieces): return True
        return super().__bool__()

def seen(): return eng().__dict__.setdefault('_refs', [])
def pieces_of(o):
    if isinstance(o, RText): return list(o.pieces)
    return [value_piece(o)]
def value_piece(v):
    if isinstance(v, RText) and len(v.pieces) == 1: return v.pieces[0]
    return Piece('value', v)

# ---- regular expressions ---------------------------------------------------------------------------------
def char(c): return z3.StringVal(chr(c))
ALL = lambda: z3.AllChar(z3.ReSort(z3.StringSort()))
def cls(items):
    neg = False
    rs = []
    for op, av in items:
        if op is sre_c.NEGATE: neg = True
        elif op is sre_c.LITERAL: rs.append(z3.Re(char(av)))
        elif op is sre_c.RANGE: rs.append(z3.Range(char(av[0]), char(av[1])))
        elif op is sre_c.CATEGORY and av is sre_c.CATEGORY_DIGIT: rs.append(z3.Range('0', '9'))
        else: raise Unsupported('character class')
    r = rs[0] if len(rs) == 1 else z3.Union(*rs)
    return z3.Intersect(ALL(), z3.Complement(r)) if neg else r
def tr(p):
    out = []
    for op, av in p:
        if op is sre_c.LITERAL: out.append(z3.Re(char(av)))
        elif op is sre_c.NOT_LITERAL: out.append(z3.Intersect(ALL(), z3.Complement(z3.Re(char(av)))))
        elif op is sre_c.IN: out.append(cls(av))
        elif op is sre_c.ANY: out.append(z3.Intersect(ALL(), z3.Complement(z3.Re('\n'))))
        elif op is sre_c.SUBPATTERN: out.append(tr(av[3]))
        elif op is sre_c.BRANCH: out.append(z3.Union(*[tr(x) for x in av[1]]) if len(av[1]) > 1 else tr(av[1][0]))
        elif op is sre_c.MAX_REPEAT:
            lo, hi, x = av
            x = tr(x)
            if hi is sre_c.MAXREPEAT or hi == sre_c.MAXREPEAT:
                out.append(z3.Star(x) if lo == 0 else z3.Plus(x) if lo == 1 else z3.Concat(z3.Loop(x, lo, lo), z3.Star(x)))
            else: out.append(z3.Option(x) if (lo, hi) == (0, 1) else z3.Loop(x, lo, hi))
        else: raise Unsupported('regular expression operator %s' % op)
    if not out: return z3.Re('')
    return out[0] if len(out) == 1 else z3.Concat(*out)

_eq = {}
def same_language(a, b):
    """Are two regular expressions provably equivalent?  (None: not decided)"""
    if (a, b) in _eq: return _eq[a, b]
    try:
        pa, pb = sre_parse.parse(a), sre_parse.parse(b)
        if pa.state.flags & ~_re.UNICODE: raise Unsupported('flags')
        ra, rb = tr(pa), tr(pb)
        s = z3.Solver(); s.set('timeout', 5000)
        x = z3.Const('x', z3.StringSort())
        s.add(z3.InRe(x, ra) != z3.InRe(x, rb))
        r = s.check()
        res = True if r == z3.unsat else False if r == z3.sat else None
    except Unsupported: res = None
    _eq[a, b] = res
    return res

NOREFS = None       # what the contract says about a text without references
SPEC = None         # the regular expression of the specification: set by the contract
SAMPLES = ('plain', 'a b', 'Ab:c@d', '\xe9\u20ac\U0001F511', 'x\ny', 'a-b_c.d/e?f=g&h', "it's", '0', '{x', ' lead')

class Match:
    def __init__(self, groups, names): self._g, self._n = groups, names
    def group(self, *k):
        if not k: return self._g[0]
        r = tuple(self._g[self._n[i] if isinstance(i, str) else i] for i in k)
        return r[0] if len(k) == 1 else r
    __getitem__ = group
    def groups(self, default=None): return tuple(default if g is None else g for g in self._g[1:])
    def groupdict(self): return {k: self._g[i] for k, i in self._n.items()}
    def start(self, *a): raise Unsupported('position of a match')
    end = span = start

def skeleton(t):
    """(text with one private character per unknown part, {character: part})"""
    out, m = '', {}
    def add(s):
        nonlocal out
        if isinstance(s, str): out += s
        else:
            c = chr(0xE000 + len(m)); m[c] = s; out += c
    for p in t.pieces:
        if p.kind == 'ref':
            for x in p.data: add(x)
        else: add(p.s)
    return out, m
def lift(s, m):
    """A piece of skeleton as text."""
    if s is None: return None
    r = ''
    for c in s:
        r = r + (m[c] if c in m else c)
    return r

def matches(pattern, t, flags=0):
    """[(start, end, Match)] over the skeleton, and the skeleton."""
    e = eng()
    if flags: raise Unsupported('flags of a regular expression')
    for p in t.pieces:
        if p.kind == 'value' and not isinstance(p.s, str) and not (p.s.origin and p.s.origin[0] in ('hex', 'hexup')):
            # a resolved value may hold further references
            if not bool(SymBool(z3.Function('has_references', z3.StringSort(), z3.BoolSort())(p.s.e), 'the resolved value holds references')):
                if NOREFS: NOREFS(p.s)
                continue
            from .core import BoundHit
            raise BoundHit('references within resolved values are followed by the contract of deref only')
    pat = _re.compile(pattern)
    if same_language(pattern, SPEC) is not True:
        libs.assumed('the regular expression %r differs from the specified one or was not compared: tried on sample texts only' % pattern)
        e.report.bounded.append((e.task, 'regular expression tried on sample texts'))
        k = e.choose(len(SAMPLES), 'sample text')
        for p in t.pieces:
            for x in ([p.s] if p.kind != 'ref' else list(p.data)):
                if isinstance(x, SymStr) and not (x.origin and x.origin[0] in ('hex', 'hexup')):
                    e.assume(x.e == z3.StringVal(SAMPLES[k] if p.kind == 'ref' else SAMPLES[k].replace('{', '')))
        sub = lambda x: x if isinstance(x, str) else 'ABCDEF0123456789ABCDEF0123456789' if x.origin and x.origin[0] in ('hex', 'hexup') else SAMPLES[k]
        # the same structure with the samples filled in must give the same groups
        sk, m = skeleton(t)
        conc = ''.join(sub(m[c]) if c in m else c for c in sk)
        a = [x.groups() for x in pat.finditer(conc)]
        b = [tuple(None if g is None else ''.join(sub(m[c]) if c in m else c for c in g) for g in x.groups()) for x in pat.finditer(sk)]
        if a != b:
            # what the expression finds in the concrete text
            if not any(isinstance(x, SymStr) and x.origin for x in m.values()):
                return [(x.start(), x.end(), Match([x.group()] + list(x.groups()), dict(pat.groupindex))) for x in pat.finditer(conc)], conc, {}
            if not a: return [], sk, m
            raise Unsupported('a regular expression that finds other parts')
    else:
        libs.assumed('re: leftmost non-overlapping matches')
        e.decided(True, 'the regular expression matches exactly the references', backend='z3 (regular languages)')
        sk, m = skeleton(t)
    return [(x.start(), x.end(), Match([lift(g, m) for g in (x.group(),) + x.groups()], dict(pat.groupindex))) for x in pat.finditer(sk)], sk, m

class Pattern:
    def __init__(self, p, flags=0): self.pattern, self.flags = p, flags
    def _on(self, name, t, *a, **k):
        if isinstance(t, SymStr): return globals()['re_' + name](self, t, *a, **k)
        return getattr(_re.compile(self.pattern, self.flags), name)(t, *a, **k)
    def findall(self, t): return self._on('findall', t)
    def finditer(self, t): return self._on('finditer', t)
    def search(self, t): return self._on('search', t)
    def match(self, t): return self._on('match', t)
    def fullmatch(self, t): return self._on('fullmatch', t)
    def split(self, t, *a): return self._on('split', t, *a)
    def sub(self, r, t, *a):
        if isinstance(t, SymStr): return re_sub(self, t, r, *a)
        return _re.sub(self.pattern, r, t, *a)

class ManyRefs:
    """The matches in a text with an unknown number of references, in any order: a known one and any number of others.
    The body of a loop over them is executed for the known one, alone, after and before an arbitrary other one; the contract
    checks that the other one leaves the known one as it is (induction over the number of the others)."""
    vc_is_list = vc_many = vc_plain = True
    def __init__(self, known, make): self.known, self.make = known, make
    def __bool__(self): return True
    def vc_tolist(self): return self
    def vc_nodeloop(self, loop):
        k = eng().choose(3, 'the known reference alone, after or before another one')
        if k == 1: yield self.make()
        yield self.known
        if k == 2: yield self.make()
    def each(self, f):
        """f on another one and on the known one."""
        k = eng().choose(2, 'another reference first')
        if k: f(self.make())
        return f(self.known)
    def _u(self, *a, **k): raise Unsupported('an unknown number of matches')
    __iter__ = __len__ = __getitem__ = vc_contains = _u
    def vc_len(self): return int_var('matches', 1)

def many(p, t, shape):
    """Matches of a text with 'many' pieces; shape: Match -> item."""
    ps = [x for x in t.pieces if x.kind == 'many']
    if same_language(p.pattern, SPEC) is not True or p.flags: raise Unsupported('a regular expression other than the specified one on a text with an unknown number of references')
    def item(piece):
        ms = matches(p.pattern, RText([piece]))[0]
        if len(ms) != 1: raise Unsupported('matches')
        return shape(ms[0][2])
    refs = [x for x in t.pieces if x.kind == 'ref']
    if not refs:
        from .core import BoundHit
        raise BoundHit('references within resolved values are followed by the contract of deref only')
    if len(refs) != 1: raise Unsupported('several known references')
    return ManyRefs(item(refs[0]), lambda: item(ps[0].data()))
def ismany(t): return isinstance(t, RText) and any(x.kind == 'many' for x in t.pieces)

def rt(t):
    if isinstance(t, RText): return t
    raise Unsupported('a regular expression on an unknown text')
def shape(x): return x.groups() if len(x._g) > 2 else x._g[-1]
def re_findall(p, t):
    if ismany(t): return many(p, t, shape)
    ms, sk, m = matches(p.pattern, rt(t), p.flags)
    out = []
    for a, b, x in ms: out.append(shape(x))
    return out
def re_finditer(p, t):
    if ismany(t): return many(p, t, lambda x: x)
    return iter([x for a, b, x in matches(p.pattern, rt(t), p.flags)[0]])
def re_search(p, t):
    if ismany(t): return many(p, t, lambda x: x).known
    ms = matches(p.pattern, rt(t), p.flags)[0]
    return ms[0][2] if ms else None
def re_split(p, t, *a): raise Unsupported('re.split')
re_match = re_fullmatch = re_split
def re_sub(p, t, r, *a):
    if a or not callable(r): raise Unsupported('re.sub with a text')
    if ismany(t):
        v = many(p, t, lambda x: x).each(r)
        if not isinstance(v, (str, SymStr)): raise TypeError('expected str instance, %s found' % type(v).__name__)
        return RText([value_piece(v) if x.kind == 'ref' else x for x in t.pieces])
    ms, sk, m = matches(p.pattern, rt(t), p.flags)
    out, pos = [], 0
    def keep(s):
        for c in s: out.append(Piece('value' if False else 'text', m.get(c, c)))
    for a, b, x in ms:
        keep(sk[pos:a])
        v = r(x)
        if not isinstance(v, (str, SymStr)): raise TypeError('expected str instance, %s found' % type(v).__name__)
        out.append(value_piece(v))
        pos = b
    keep(sk[pos:])
    return RText(out)

def fn(name):
    def f(p, *a, **k):
        if not isinstance(p, Pattern): p = Pattern(p)
        if name == 'sub': return p.sub(*a, **k)
        fl = k.pop('flags', 0)
        if len(a) > 1: fl = a[1]; a = a[:1]
        if fl: p = Pattern(p.pattern, fl)
        return getattr(p, name)(*a, **k)
    return f
re_mod = libs.module('re', compile=lambda p, flags=0: p if isinstance(p, Pattern) else Pattern(p, flags), escape=_re.escape, IGNORECASE=_re.I, I=_re.I, **{n: fn(n) for n in ('findall', 'finditer', 'search', 'match', 'fullmatch', 'split', 'sub')})

# ---- sets of texts ---------------------------------------------------------------------------------------
def symbolic(x): return isinstance(x, SymStr) or isinstance(x, tuple) and any(symbolic(y) for y in x)
class vset_meta(type):
    def __instancecheck__(c, x): return isinstance(x, (set, SymSet))
    def __call__(c, it=()):
        if getattr(it, 'vc_many', False): return it
        if hasattr(it, 'vc_tolist') or hasattr(it, 'vc_nodeloop'): raise Unsupported('set of unknown length')
        items = list(it)
        return SymSet(items) if any(symbolic(x) for x in items) else set(items)
class vset(metaclass=vset_meta): pass
class SymSet:
    """A set of a known number of texts (or tuples of texts), iterated in any order."""
    def __init__(self, items):
        self.items = []
        for x in items: self.add(x)
    def add(self, x):
        if not any(same(x, y) for y in self.items): self.items.append(x)
    def __bool__(self): return bool(self.items)
    def __len__(self): return len(self.items)
    def vc_contains(self, x): return any(same(x, y) for y in self.items)
    def __iter__(self):
        left = list(self.items)
        while left:
            k = eng().choose(len(left), 'order of a set') if len(left) > 1 else 0
            yield left.pop(k)
def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    r = a == b
    return r if isinstance(r, bool) else bool(r)
