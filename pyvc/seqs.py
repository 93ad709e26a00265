"""Sequences of unknown length with known positions: the loop rule over them, and lists built from them."""
import z3
from .core import eng, mk_bool, Unsupported, PathEnd, VCAbort
from .values import SymInt, int_var, mk_int, zint, zi, prov

def zlen(n): return zint(n)

class LazyList:
    """A list of `n` elements, of which element k is get(k)."""
    vc_is_list = True
    def __init__(self, n, get): self.n, self.get = n, get
    def vc_len(self): return self.n
    def __len__(self):
        if isinstance(self.n, int): return self.n
        raise Unsupported('length of a list of unknown length')
    def __bool__(self): return bool(mk_bool(zint(self.n) > 0))
    def index_of(self, k):
        if bool(mk_bool(zint(k) < 0)): k = mk_int(zint(k) + zint(self.n))
        if not bool(mk_bool(z3.And(zint(k) >= 0, zint(k) < zint(self.n)))): raise IndexError('list index out of range')
        return k
    def __getitem__(self, k):
        if isinstance(k, slice): raise Unsupported('slice of a list of unknown length')
        if not isinstance(k, (int, SymInt)): raise TypeError('list indices must be integers or slices')
        return self.get(self.index_of(k))
    def vc_comp(self, f, kind):
        def get(k):
            r = list(f(self.get(k)))
            if len(r) != 1: raise Unsupported('filtered list of unknown length')
            return r[0]
        l = LazyList(self.n, get)
        if self.src:
            s, g = self.src
            def h(x):
                r = list(f(g(x)))
                if len(r) != 1: raise Unsupported('filtered list of unknown length')
                return r[0]
            l.src = (s, h)
        return l
    src = None
    def vc_tolist(self):
        l = LazyList(self.n, self.get)
        l.src = self.src
        for k in ('gen', 'w', 'rows'):
            if hasattr(self, k): setattr(l, k, getattr(self, k))
        return l
    def append(self, x):
        n, get = self.n, self.get
        self.n = n + 1
        self.src = None
        for k in ('gen', 'rows'): self.__dict__.pop(k, None)
        self.get = lambda k: x if bool(mk_bool(zint(k) == zint(n))) else get(k)
    def insert(self, i, x):
        if prov(mk_bool(zint(i) >= zint(self.n))): return self.append(x)
        raise Unsupported('insertion into a list of unknown length')
    def __iter__(self): raise Unsupported('iteration over a list of unknown length')
    __hash__ = None
    def __eq__(self, o): raise Unsupported('comparison of lists of unknown length')

class Seq:
    """A mutable list whose initial elements are item(0), item(1), ..., item(n-1)."""
    vc_is_list = True
    def __init__(self, n, item):
        self.n0, self.item = n, item
        self.pieces = [('run', 0, n)]
        self.table = []
        self.log = 0
    def initial(self, k):
        for j, x in self.table:
            if bool(mk_bool(zint(j) == zint(k))): return x
        x = self.item(k)
        self.table.append((k, x))
        return x
    def plen(self, p): return 1 if p[0] == 'one' else p[2] - p[1]
    def vc_len(self):
        t = 0
        for p in self.pieces: t = t + self.plen(p)
        return t
    def __bool__(self): return bool(mk_bool(zint(self.vc_len()) > 0))
    def __len__(self): raise Unsupported('length of a list of unknown length')
    def locate(self, k):
        """(piece number, offset)"""
        n = self.vc_len()
        if bool(mk_bool(zint(k) < 0)): k = mk_int(zint(k) + zint(n))
        if not bool(mk_bool(z3.And(zint(k) >= 0, zint(k) < zint(n)))): raise IndexError('list index out of range')
        t = 0
        for i, p in enumerate(self.pieces):
            if bool(mk_bool(zint(k) < zint(t + self.plen(p)))): return i, k - t
            t = t + self.plen(p)
        raise Unsupported('index')
    def at(self, i, o):
        p = self.pieces[i]
        return p[1] if p[0] == 'one' else self.initial(p[1] + o)
    def __getitem__(self, k):
        if isinstance(k, slice): raise Unsupported('slice of a list of unknown length')
        if not isinstance(k, (int, SymInt)): raise TypeError('list indices must be integers or slices')
        return self.at(*self.locate(k))
    def pop(self, k=-1):
        if not isinstance(k, (int, SymInt)): raise TypeError('an index is required')
        try: i, o = self.locate(k)
        except IndexError: raise IndexError('pop index out of range')
        x = self.at(i, o)
        p = self.pieces[i]
        self.pieces[i:i + 1] = [] if p[0] == 'one' else [('run', p[1], p[1] + o), ('run', p[1] + o + 1, p[2])]
        self.log += 1
        return x
    def __delitem__(self, k):
        if isinstance(k, slice): raise Unsupported('deletion of a slice')
        self.pop(k)
    def append(self, x): self.pieces.append(('one', x)); self.log += 1
    def extend(self, xs):
        for x in xs: self.append(x)
    def insert(self, k, x):
        if prov(mk_bool(zint(k) >= zint(self.vc_len()))): return self.append(x)
        if isinstance(k, int) and k == 0: self.pieces.insert(0, ('one', x)); self.log += 1; return
        raise Unsupported('insertion into a list of unknown length')
    def __setitem__(self, k, x):
        i, o = self.locate(k)
        p = self.pieces[i]
        self.pieces[i:i + 1] = [('one', x)] if p[0] == 'one' else [('run', p[1], p[1] + o), ('one', x), ('run', p[1] + o + 1, p[2])]
        self.log += 1
    def copy(self):
        c = Seq(self.n0, self.item)
        c.pieces, c.table = list(self.pieces), self.table
        return c
    def lazy(self):
        c = self.copy()
        l = LazyList(c.vc_len(), c.__getitem__)
        l.src = (c, lambda x: x)
        return l
    def vc_comp(self, f, kind): return self.lazy().vc_comp(f, kind)
    def vc_tolist(self): return self.lazy()
    def vc_nodeloop(self, loop): return recloop(loop, self.copy())
    def known(self):
        t = 0
        for p in self.pieces:
            if p[0] == 'one': yield t, p[1]
            else:
                for j, x in list(self.table):
                    if bool(mk_bool(z3.And(zint(p[1]) <= zint(j), zint(j) < zint(p[2])))): yield t + (j - p[1]), x
            t = t + self.plen(p)
    def __iter__(self): raise Unsupported('iteration over a list of unknown length')
    def index(self, x): raise Unsupported('position in a list of unknown length')
    remove = clear = sort = reverse = index
    __hash__ = None
    def __eq__(self, o): raise Unsupported('comparison of lists of unknown length')
    def untouched(self): return self.log == 0

def fingerprint(w, loop, total):
    """The state a loop starts in: node contents, and the code position."""
    h = w.snapshot()
    return (loop.key, str(zint(total)), len(loop.collected()), tuple((i,) + v[1:] for i, v in sorted(h.items())))

def seqloop(loop, w, total, generic, known, wrap=lambda i, x: x, effect=None):
    """`for x in <sequence>`: an arbitrary iteration is executed, to check that it changes nothing but its own element and adds
    exactly one value to each list the loop fills; then the iterations of the known elements."""
    from .dom import subst
    e = eng()
    lists = loop.collected()
    template, nogen = None, True
    fp = fingerprint(w, loop, total)
    seen = w.__dict__.setdefault('loops_seen', {})
    if fp in seen: template, nogen = seen[fp]
    elif not prov(mk_bool(zint(total) == 0)):
        i = int_var('position', 0)
        pos0, npc, ax0 = e.pos, len(e.pc), dict(e._axseen)
        e.solver.push()
        e.assume(z3.And(i.e < zint(total)))
        g = generic(i)
        pos1 = e.pos
        if g is not None:
            nogen = False
            heap0 = w.snapshot()
            t0, a0 = g._t, dict(g._a)
            w.generic.append(g)
            for c in lists: c.seqpos = i
            done = False
            try:
                yield wrap(i, g)
                done = True
            finally:
                w.generic.pop()
                if not done: e.imprecise = e.imprecise or 'a loop over a sequence of unknown length is left early'
            ch = w.changed_since(heap0)
            if ch: raise Unsupported('the body of a loop over a sequence changes %s' % (ch[:3],))
            for c in lists:
                if len(c.new) != 1: raise Unsupported('a loop over a sequence adds %d values to a list' % len(c.new))
            e.decided(True, 'loop over a sequence: an arbitrary iteration changes only its element', backend='symbolic execution')
            sub = tuple(k for k, m, _ in e.trail[pos0:e.pos] if isinstance(m, int))
            branched = any(isinstance(m, int) for k, m, _ in e.trail[pos1:e.pos])
            if g.glog:
                writes = {k: v for k, v in g._a.items() if k not in a0 or a0[k] is not v}
                if branched or g._t is not t0 or 'removed' in g.glog or effect is None or any(x is not g for x in g.glog): raise Unsupported('what a loop over a sequence does to its elements')
                effect(i, writes)
            if sub:
                # the rest does not depend on the arbitrary iteration: it is explored once, not once per branch of it
                key = (loop.key, tuple((k, str(m)) for k, m, _ in e.trail[:pos0]))
                if e.once.setdefault(key, sub) != sub: raise PathEnd()
            if not branched: template = (i, g, [c.new[0] for c in lists])
        e.solver.pop()
        del e.pc[npc:]
        e._axseen = ax0
        seen[fp] = (template, nogen)
    rows = [[] for _ in lists]
    for i, x in known():
        for c in lists: c.seqpos = i; c.new = []
        yield wrap(i, x)
        for c, r in zip(lists, rows): r.append((i, c.new[0] if len(c.new) == 1 else Unsupported))
    for n, (c, r) in enumerate(zip(lists, rows)):
        def get(k, r=r):
            for i, v in r:
                if bool(mk_bool(zint(i) == zint(k))):
                    if v is Unsupported: raise Unsupported('value of a list')
                    return v
            raise Unsupported('an element of a list at an unknown position')
        c.new = []
        c.map = LazyList(total, get)
        c.map.w = w
        c.map.rows = r
        if template:
            _, g0, vals = template
            def gen(i, g0=g0, v=vals[n]):
                g = generic(i)
                if g is None: return None, None
                return g, subst(v, g0, g)
            c.map.gen = gen
        elif nogen: c.map.gen = lambda i: (None, None)

def lazyloop(loop, l):
    """`for x in <list made by a loop over a sequence>`."""
    if not hasattr(l, 'gen'): raise Unsupported('iteration over a list of unknown length')
    box = {}
    def generic(i):
        g, v = l.gen(i)
        box['v'] = v
        return g
    seen = {'first': True}
    def wrap(i, x):
        return box.pop('v') if 'v' in box else x
    return seqloop(loop, l.w, l.n, generic, lambda: iter(list(l.rows)), wrap)
LazyList.vc_nodeloop = lambda self, loop: recloop(loop, self.src[0], self.src[1]) if self.src else lazyloop(loop, self)

def recloop(loop, seq, f=lambda x: x):
    """`for x in <list of records>`: an arbitrary iteration is executed, to check that it changes neither its record nor the document and adds
    exactly one value to each list the loop fills; then the iterations of the known records."""
    from . import dom
    e = eng()
    w = dom._cur
    lists = loop.collected()
    total = seq.vc_len()
    if not prov(mk_bool(zint(total) == 0)):
        pos0, npc, ax0 = e.pos, len(e.pc), dict(e._axseen)
        e.solver.push()
        i = int_var('position', 0)
        e.assume(i.e < zint(total))
        x = seq.item(i)
        before = dict(vars(x))
        heap0 = w.snapshot() if w else None
        for c in lists: c.seqpos = i
        done = False
        try:
            yield f(x)
            done = True
        finally:
            if not done: e.imprecise = e.imprecise or 'a loop over a sequence of unknown length is left early'
        if vars(x) != before and any(vars(x).get(k) is not v for k, v in before.items()) or set(vars(x)) != set(before): raise Unsupported('a loop changes the records it visits')
        if w and w.changed_since(heap0): raise Unsupported('the body of a loop over a sequence changes the document')
        for c in lists:
            if len(c.new) != 1: raise Unsupported('a loop over a sequence adds %d values to a list' % len(c.new))
        sub = tuple(k for k, m, _ in e.trail[pos0:e.pos] if isinstance(m, int))
        if sub:
            key = (loop.key, tuple((k, str(m)) for k, m, _ in e.trail[:pos0]))
            if e.once.setdefault(key, sub) != sub: raise PathEnd()
        e.decided(True, 'loop over a list of records: an arbitrary iteration changes nothing', backend='symbolic execution')
        e.solver.pop()
        del e.pc[npc:]
        e._axseen = ax0
    rows = [[] for _ in lists]
    for i, x in list(seq.known()):
        for c in lists: c.seqpos = i; c.new = []
        yield f(x)
        for c, r in zip(lists, rows): r.append((i, c.new[0] if len(c.new) == 1 else Unsupported))
    for c, r in zip(lists, rows):
        def get(k, r=r):
            for i, v in r:
                if bool(mk_bool(zint(i) == zint(k))):
                    if v is Unsupported: raise Unsupported('value of a list')
                    return v
            raise Unsupported('an element of a list at an unknown position')
        c.new = []
        c.map = LazyList(total, get)
