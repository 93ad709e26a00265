"""The loop rule.

A loop over symbolic data is cut: the invariant is checked on entry, the modified variables are replaced by an
arbitrary state satisfying it, then either one arbitrary iteration is executed and the invariant re-checked, or
the loop exits.  Invariants are found by matching every modified variable against candidate closed forms
supplied by the contract (and linear forms for counters): `value after i iterations == candidate(i)`.
A candidate that is not inductive is discarded and the task restarted (Houdini); when a variable that matters
has no candidate left, the rule does not apply and the loop is unrolled up to a bound, which labels the
task bounded.  Invariant candidates are never reported as violations, only contracts are."""
import z3
from .core import eng, Engine, VCAbort, PathEnd, Unsupported, BoundHit, mk_bool
from .values import SymInt, SymBytes, SymStr, int_var, mk_int, zint, zi, prov, is_sym

class Restart(VCAbort):
    pass

class Poison:
    """A variable whose value at this point is unknown to the loop rule; any use is Unsupported."""
    def __init__(self, name): self._n = name
    def _u(self, *a, **k): raise Unsupported('loop-modified variable %s has no invariant' % self._n)
    __add__ = __radd__ = __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __getitem__ = __call__ = _u
    __lt__ = __gt__ = __le__ = __ge__ = __xor__ = __sub__ = __index__ = __str__ = __contains__ = _u
    __hash__ = object.__hash__
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        self._u()

class Idx(Poison):
    """The position of an item of a sequence of unknown length: good only for fetching that item again."""
    def __init__(self, seq, item): self._n, self.seq, self.item = 'position in a sequence', seq, item
    def _u(self, *a, **k): raise Unsupported('the position within a sequence of unknown length is used')
    __add__ = __radd__ = __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __getitem__ = __call__ = _u
    __lt__ = __gt__ = __le__ = __ge__ = __xor__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __mod__ = __floordiv__ = __index__ = __str__ = __contains__ = _u
    __hash__ = object.__hash__
class LenOf(Poison):
    """The length of a sequence of unknown length: good only for range()."""
    def __init__(self, seq, why): self._n, self.seq, self.why = 'length', seq, why
    def _u(self, *a, **k): raise Unsupported(self.why)
    __add__ = __radd__ = __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __getitem__ = __call__ = _u
    __lt__ = __gt__ = __le__ = __ge__ = __xor__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __mod__ = __floordiv__ = __index__ = __str__ = __contains__ = _u
    __hash__ = object.__hash__
class SeqInt(SymInt):
    """The length of a known sequence."""
class Indexed:
    """range(len(seq)) or enumerate(seq) for a sequence of unknown length."""
    def __init__(self, seq, wrap): self.seq, self.wrap = seq, wrap
    def vc_nodeloop(self, loop): raise Unsupported('nested enumeration')
    def vc_comp(self, f, kind):
        if not hasattr(self.seq, 'vc_comp'): raise Unsupported('comprehension over positions')
        return self.seq.vc_comp(lambda x: f(self.wrap(x)), kind)
    def vc_tolist(self): return self
    def __iter__(self): raise Unsupported('iteration over positions in a sequence of unknown length')
def has_runs(x): return isinstance(x, list) and any(getattr(y, 'vc_run', False) is True for y in x)
def length_of(x, n):
    """n = len(x), remembering x."""
    if type(n) is SymInt and (hasattr(x, 'vc_nodeloop') or has_runs(x)):
        r = SeqInt.__new__(SeqInt); r.__dict__.update(getattr(n, '__dict__', {}))
        for k in getattr(SymInt, '__slots__', ()): setattr(r, k, getattr(n, k))
        r.seq = x
        return r
    return n
def positions(n):
    """The sequence whose length n is, if known."""
    if isinstance(n, (LenOf, SeqInt)): s = n.seq
    else:
        s = getattr(n, 's', None) if type(n).__name__ == 'SetLen' else None
    if s is None or not (hasattr(s, 'vc_nodeloop') or has_runs(s)): return None
    return Indexed(s, lambda x: Idx(s, x))
def enumerated(x, start):
    return Indexed(x, lambda v: (Idx(x, v), v))

UNROLL = 3

class AccList:
    """A list used as an accumulator of byte strings: only append and join are allowed."""
    def __init__(self, val): self.val = val
    def append(self, x): self.val = self.val + x
    def vc_join(self, sep):
        if sep not in ('', b''): raise Unsupported('join with a separator')
        return self.val
    def vc_same(self, o):
        from .values import bjoin
        if isinstance(o, AccList): return same_value(self.val, o.val)
        if isinstance(o, list):
            if not all(isinstance(x, (bytes, SymBytes)) for x in o): return False
            return same_value(self.val, bjoin(b'', o))
        return False

class CollectList:
    """A list to which a loop over a set of nodes appends; afterwards it is the mapped set."""
    vc_is_list = True
    def __init__(self, orig): self.orig, self.new, self.map = orig, [], None
    def append(self, x): self.new.append(x)
    def extend(self, xs): self.new.extend(list(xs))
    def _u(self, *a, **k): raise Unsupported('a list is inspected while a loop over unknown nodes fills it')
    def insert(self, i, x):
        if not hasattr(self, 'seqpos') or not prov(mk_bool(zint(i) == zint(self.seqpos))): raise Unsupported('insertion into a list while a loop fills it')
        self.new.append(x)
    def vc_len(self):
        if not hasattr(self, 'seqpos'): self._u()
        return self.seqpos + len(self.new)
    __iter__ = __len__ = __getitem__ = __bool__ = pop = remove = index = sort = vc_contains = _u
    def result(self, loop):
        if self.map is None: return None
        if self.orig: raise Unsupported('unknown nodes are appended to a non-empty list')
        return self.map

class LoopRule:
    """Contract-supplied knowledge about the loops of one function."""
    def __init__(self, candidates=None, limit=None, attrs=True, bounds=None):
        self.candidates = candidates        # f(locals) -> list of (name, fn(i) -> value)
        self.bounds = bounds                # f(locals) -> list of (name, fn(i) -> condition on the iteration count)
        self.limit = limit

class State:
    """Per-task knowledge about loops, kept over restarts."""
    def __init__(self, rules):
        self.rules = rules          # function id (suffix) -> LoopRule
        self.dead = set()           # (loop key, variable, candidate name)
        self.coef = {}              # (loop key, variable) -> increment of a counter
        self.off = set()            # loops for which the rule is switched off
        self.used = set()
        self.back = set()           # (loop key, list variable): filled at the back
        self.attrs = {}             # loop key -> attributes of local objects changed by functions the body calls
        self.protos = {}            # loop key -> shape of the records a loop collects (runs.py)

state = None

def rule_for(fn):
    if state is None: return None
    for k, r in state.rules.items():
        if fn == k or fn.endswith(':' + k) or fn.split(':')[1].startswith(k + '.') or k.endswith('*') and fn.startswith(k[:-1]): return r
    return None

class SymRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
    def count(self):
        """number of iterations (step > 0)"""
        if not isinstance(self.step, int) or self.step == 0: raise Unsupported('range step')
        d = zint(self.stop) - zint(self.start)
        if self.step < 0: d = -d
        s = abs(self.step)
        return mk_int(z3.If(d <= 0, 0, (d + s - 1) / s))
    def at(self, i): return self.start + i * self.step
    def vc_len(self): return self.count()
    def __iter__(self):
        i = 0
        while bool(mk_bool(zint(self.count()) > i)):
            if i >= UNROLL: raise BoundHit('range unrolled %d times' % UNROLL)
            yield self.at(i)
            i += 1

class SymEnum(SymRange):
    """enumerate() of a symbolic range."""
    def __init__(self, r, first): SymRange.__init__(self, r.start, r.stop, r.step); self.first = first
    def at(self, i): return (self.first + i, self.start + i * self.step)

def same_value(a, b):
    """Provable equality of two values on this path."""
    if a is b: return True
    if isinstance(a, (Poison,)) or isinstance(b, Poison): return False
    if hasattr(a, 'vc_same'): return a.vc_same(b)
    if hasattr(b, 'vc_same'): return b.vc_same(a)
    try:
        r = (a == b)
    except VCAbort:
        return False
    if isinstance(r, bool): return r
    if r is NotImplemented: return False
    return prov(r)

FRESH = {}      # (function, loop) -> names that every iteration assigns before it reads them (filled by instrument.py)

class Loop:
    def __init__(self, fn, k, hav, attrs, locs, iterable=None, test=None, is_for=True):
        self.fn, self.k, self.hav, self.attrs, self.locs = fn, k, hav, attrs, dict(locs)
        self.iterable, self.test, self.is_for = iterable, test, is_for
        self.key = (fn, k)
        self.fresh = FRESH.get(self.key, ())
        self.rule = rule_for(fn)
        self.n = 0
        self.sym = False
        if is_for:
            if isinstance(iterable, range) or not hasattr(iterable, 'vc_loop_items'):
                if isinstance(iterable, SymRange):
                    c = iterable.count()
                    self.sym = not isinstance(c, int)
                else:
                    self.sym = False
            else:
                self.sym = True
        else:
            self.sym = self.rule is not None
        if self.key in (state.off if state else ()): self.sym = False
        if self.rule is None: self.sym = False
        if self.sym and not is_for:
            # a while loop is cut only when its test depends on symbolic data after all
            self.sym = self._while_is_symbolic()

    def _while_is_symbolic(self):
        for v in self.hav:
            x = self.locs.get(v)
            if isinstance(x, SymInt): return True
            if isinstance(x, SymBytes) and not isinstance(x.vc_len(), int): return True
        for name, x in self.locs.items():
            if isinstance(x, SymInt): return True
            if isinstance(x, SymBytes) and not isinstance(x.vc_len(), int): return True
        return False

    def symbolic(self): return self.sym

    # ---- loops over a set of nodes of a symbolic document (see dom.py) --------------------------------
    def nodes(self):
        if not self.is_for: return False
        if isinstance(self.iterable, Indexed): self.wrap, self.iterable = self.iterable.wrap, self.iterable.seq
        if isinstance(self.iterable, (list, tuple)) and any(getattr(x, 'vc_run', False) is True for x in self.iterable) or getattr(self.iterable, 'vc_acc', False) is True:
            from . import runs
            self.iterable = runs.RunIter(list(self.iterable))
        if not hasattr(self.iterable, 'vc_nodeloop'): return False
        self.val, self.fin = {}, {}
        for v in self.hav:
            x = self.locs.get(v)
            if isinstance(x, list): self.val[('v', v)] = CollectList(x)
        if hasattr(self.iterable, 'vc_begin'): self.iterable.vc_begin(self)
        return True
    wrap = None
    def node_iter(self):
        g = self.iterable.vc_nodeloop(self)
        return g if self.wrap is None else self._wrapped(g)
    def _wrapped(self, g):
        try:
            for x in g: yield self.wrap(x)
        finally:
            if hasattr(g, 'close'): g.close()
    def node_done(self, locs):
        if getattr(self.iterable, 'vc_plain', False): return
        for v in self.hav:
            if hasattr(locs.get(v), 'vc_final'): self.fin[v] = locs[v].vc_final(self)
            elif ('v', v) in self.val:
                self.fin[v] = self.val[('v', v)].result(self)
                if self.fin[v] is None: self.fin[v] = self.locs[v]
            elif v in self.locs:
                x = locs.get(v)
                if x is not self.locs[v]: self.fin[v] = Poison(v)
            else: self.fin[v] = Poison(v)
    def hasf(self, v): return v in self.fin
    def final(self, v): return self.fin[v]
    def collected(self): return [x for x in self.val.values()]

    # concrete execution
    def iter(self):
        if isinstance(self.iterable, range) and len(self.iterable) > 1000000: raise BoundHit('a loop of %d iterations' % len(self.iterable))
        return iter(self.iterable)
    def tick(self, locs=None):
        """Before every evaluation of the test of a while loop that is executed as it stands."""
        self.n += 1
        self.cuts = {}
        if self.n > 20000: raise BoundHit('while loop: 20000 iterations')
        if not heap_rule(self, locs or {}) and self.n > UNROLL + 1 and self._depends(): raise BoundHit('while loop unrolled %d times' % UNROLL)
        return True
    cuts = {}
    def cut(self, v): return v in self.cuts
    def cutval(self, v): return self.cuts[v]
    def _depends(self):
        e = Engine.current
        if e is None: return False
        return e.pos - self._pos0 > UNROLL if hasattr(self, '_pos0') else False

    # the rule
    def _vars(self):
        for v in self.hav:
            if v in self.locs: yield ('v', v), self.locs[v]
        for o, a in self.all_attrs():
            if o in self.locs and hasattr(self.locs[o], a): yield ('a', o, a), getattr(self.locs[o], a)

    def all_attrs(self): return list(self.attrs) + [x for x in sorted(state.attrs.get(self.key, ())) if x not in self.attrs]
    def snapshot(self):
        """Attributes of the plain objects in local variables: methods called by the body may change them."""
        r, seen = {}, set()
        for o, x in self.locs.items():
            d = getattr(x, '__dict__', None)
            if type(x).__module__.startswith('pykeepass') and isinstance(d, dict) and id(x) not in seen and not isinstance(x, type):
                seen.add(id(x))
                for a, v in d.items(): r[(o, a)] = (x, v)
        return r
    def havoc(self):
        e = eng()
        state.used.add(self.key)
        self.i = int_var('iter', 0)
        self.bounds = []
        for name, f in (self.rule.bounds(self.locs) if getattr(self.rule, 'bounds', None) else []):
            if (self.key, 'bound', name) in state.dead: continue
            if not prov(f(0)):
                state.dead.add((self.key, 'bound', name)); continue
            e.assume(f(self.i))
            self.bounds.append((name, f))
        cands = self.rule.wants(self, self.locs) if hasattr(self.rule, 'wants') else self.rule.candidates(self.locs) if self.rule.candidates else []
        self.form = {}
        self.val = {}
        for key, x in self._vars():
            if isinstance(x, (int, SymInt)) and not isinstance(x, bool):
                c = state.coef.get((self.key, key), 1 if (self.key, key) not in state.dead else None)
                if c is not None:
                    hit = None
                    self.form[key] = ('lin', x, c)
                    self.val[key] = x + self.i * c
                    continue
            done = False
            for name, f in cands:
                if (self.key, key, name) in state.dead: continue
                try:
                    ok = same_value(x, f(0))
                except (Unsupported, TypeError):
                    ok = False
                if ok:
                    self.form[key] = ('cand', name, f)
                    v = f(self.i)
                    self.val[key] = v
                    done = True
                    break
                state.dead.add((self.key, key, name))
            if not done:
                self.form[key] = ('poison',)
                self.val[key] = Poison(str(key))
        for key in self.val:
            if key[0] == 'a' and key[1:] not in self.attrs: setattr(self.locs[key[1]], key[2], self.val[key])
        self.snap = self.snapshot()

    def has(self, v): return ('v', v) in self.val
    def get(self, v): return self.val[('v', v)]
    def hasattr(self, o, a): return ('a', o, a) in self.val
    def getattr(self, o, a): return self.val[('a', o, a)]

    def body(self):
        if isinstance(self.iterable, SymRange):
            n = self.iterable.count()
            return bool(mk_bool(self.i.e < zint(n)))
        return self.iterable.vc_loop_body(self)

    def assume_inv(self): pass

    def one(self):
        if self.is_for:
            if isinstance(self.iterable, SymRange): x = self.iterable.at(self.i)
            else: x = self.iterable.vc_loop_item(self)
            return [x]
        return [None]

    def preserve(self, locs):
        known = self.all_attrs()
        ids = {(id(self.locs[o]), a) for o, a in known if o in self.locs}
        for (o, a), (x, v) in self.snap.items():
            if (id(x), a) not in ids and x.__dict__.get(a) is not v:
                state.attrs.setdefault(self.key, set()).add((o, a))
                raise Restart('attribute %s.%s' % (o, a))
        for key, form in sorted(self.form.items(), key=lambda kf: kf[1][0] != 'lin'):
            if key[0] == 'v':
                if key[1] not in locs: continue
                x = locs[key[1]]
            else:
                x = getattr(locs[key[1]], key[2], None)
            if form[0] == 'poison': continue
            i1 = self.i + 1
            if form[0] == 'lin':
                if not isinstance(x, (int, SymInt)) or not same_value(x, form[1] + i1 * form[2]):
                    # learn the increment
                    d = None
                    if isinstance(x, (int, SymInt)):
                        d = x - self.val[key]
                    if isinstance(d, int) and (self.key, key) not in state.coef:
                        state.coef[(self.key, key)] = d
                    else:
                        state.coef.pop((self.key, key), None)
                        state.dead.add((self.key, key))
                        state.coef[(self.key, key)] = None
                    raise Restart('counter %s' % (key,))
            else:
                if not same_value(x, form[2](i1)):
                    state.dead.add((self.key, key, form[1]))
                    raise Restart('candidate %s for %s is not inductive' % (form[1], key))
        for name, f in self.bounds:
            if not prov(f(self.i + 1)):
                state.dead.add((self.key, 'bound', name))
                raise Restart('bound %s' % name)
        for key, form in self.form.items():
            if form[0] != 'poison':
                eng().decided(True, 'loop invariant of %s: %s == %s' % (self.fn.split(':')[1], '.'.join(key[1:]), form[1] if form[0] == 'cand' else 'linear in the iteration count'), backend='z3 (invariant established and preserved)')
        raise PathEnd()

    def exit(self, locs):
        if self.is_for and isinstance(self.iterable, SymRange):
            n = self.iterable.count()
            eng().assume(mk_bool(self.i.e == zint(n)))
            self._last = self.iterable.at(self.i - 1)
            self._haslast = bool(mk_bool(self.i.e > 0))
        else:
            self._haslast = False
            if self.is_for: self.iterable.vc_loop_exit(self)

    def has_last(self): return self._haslast
    def last(self): return self._last

def heap_rule(loop, locs):
    """Loops that walk or empty a symbolic document (heaploops.py)."""
    from . import dom
    if dom._cur is None: return False
    from . import heaploops
    return heaploops.tick(loop, dom._cur, locs)

def loop_for(fn, k, hav, attrs, iterable, locs):
    return Loop(fn, k, hav, attrs, locs, iterable=iterable)

def loop_while(fn, k, hav, attrs, test, locs):
    l = Loop(fn, k, hav, attrs, locs, test=test, is_for=False)
    try: l._pos0 = eng().pos
    except VCAbort: pass
    return l
