"""Lists of an unknown number of records (payload blocks, attachments): a Run stands for n >= 1 consecutive records of one shape, one of
whose fields differs from record to record.  Loops that build or parse them are executed once on an arbitrary record (induction over
the position in the list); the bytes they write become one term that remembers what an arbitrary record looks like in it."""
import sys, z3, itertools as _it
from . import loops
from .core import eng, Unsupported, mk_bool, SymBool, axiom, PathEnd, VCAbort
from .values import *
from .values import _ieq, _sub

MAXLEN = 2 ** 32

class RunBytes:
    """The differing field of the records of a run: usable only in concatenations over the whole run."""
    vc_run_field = True
    def __init__(self, run, name): self.run, self.name = run, name
    def vc_joined(self):
        j = self.run.joined.get(self.name)
        if j is None: raise Unsupported('concatenation over records of unknown content')
        return j
    def __radd__(self, o):
        if isinstance(o, (bytes, SymBytes)): return SymBytes.of(o) + SymBytes.of(self.vc_joined())
        return NotImplemented
    def vc_len(self): raise Unsupported('length of a field of an unknown number of records')
    def _u(self, *a): raise Unsupported('a field of an unknown number of records is used as one value')
    __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __getitem__ = __add__ = __contains__ = _u
    __hash__ = None

class Run:
    """n >= 1 records.  fields: name -> value common to all, or VARY."""
    vc_run = True
    def __init__(self, cls, fields, vary, n, joined=None, fam=None):
        self.cls, self.fields, self.vary, self.n = cls, dict(fields), set(vary), n
        self.joined = joined or {}
        self.fam = fam if fam is not None else object()
        self.elem = None
        self.back = None
    def flip(self):
        """The same records in reverse order (another sequence, unless there is just one)."""
        if self.back is None:
            self.back = Run(self.cls, self.fields, self.vary, self.n)
            self.back.back = self
        return self.back
    def sample(self):
        """An arbitrary record of the run (the same one each time: it is universally quantified)."""
        if self.elem is None:
            self.k = int_var('record', 0)
            axiom(self.k.e < zint(self.n))
            f = dict(self.fields)
            for v in sorted(self.vary):
                f[v] = bytes_var('record_' + v)
                ln = zint(f[v].vc_len())
                axiom(ln < MAXLEN)
                if self.joined.get(v) is not None: axiom(ln > 0)
            self.elem = f
        return self.elem
    def record(self):
        r = self.cls()
        for k, v in self.sample().items(): r[k] = v
        return r
    def __getitem__(self, k):
        if k in self.vary: return RunBytes(self, k)
        if k in self.fields: return self.fields[k]
        raise KeyError(k)
    def __getattr__(self, k):
        if k.startswith('__') or k.startswith('vc_'): raise AttributeError(k)
        try: return self[k]
        except KeyError: raise AttributeError(k)
    def get(self, k, d=None): return self[k] if k in self.vary or k in self.fields else d
    def vc_contains(self, k): return k in self.vary or k in self.fields
    def __setitem__(self, k, v): raise Unsupported('records of an unknown number are changed')
    def vc_deepcopy(self): return self
    vc_copy = vc_deepcopy
    def __eq__(self, o): raise Unsupported('comparison of an unknown number of records')
    def __hash__(self): raise Unsupported('an unknown number of records in a set')

def is_run(x): return getattr(x, 'vc_run', False) is True
def has_run(x): return isinstance(x, (list, tuple)) and any(is_run(y) for y in x)

# operations on a Python list some of whose items stand for an unknown number of records: those that depend on positions
def flipped(x): return [y.flip() if is_run(y) else y for y in reversed(x)]
def item(x, k):
    if isinstance(k, slice):
        if k.start is k.stop is None and k.step in (None, 1): return x[k]
        if k.start is k.stop is None and k.step == -1: return type(x)(flipped(x))
        raise Unsupported('part of a list of an unknown number of records')
    if isinstance(k, int):
        between = x[:k + 1] if k >= 0 else x[k:]
        if len(between) == (k + 1 if k >= 0 else -k) and not any(is_run(y) for y in between): return x[k]
    raise Unsupported('item of a list of an unknown number of records')
def method(x, m, a, k):
    """(handled, result) of a list method."""
    if m in ('append', 'copy', 'clear'): return False, None
    if m == 'extend': return False, None
    if m == 'reverse': x[:] = flipped(x); return True, None
    if m == 'insert' and len(a) == 2 and not has_run([a[1]]) and isinstance(a[0], int) and (a[0] == 0 or 0 <= a[0] <= len(x) and not has_run(x[:a[0]])): return False, None
    if m == '__getitem__' and len(a) == 1: return True, item(x, a[0])
    raise Unsupported('list.%s with an unknown number of records' % m)

def lists_in(locs):
    """The lists a loop body may add to: local variables, and what local mappings and objects hold."""
    out, seen = [], set()
    def go(v, depth):
        if id(v) in seen: return
        if isinstance(v, list): seen.add(id(v)); out.append(v)
        elif depth and isinstance(v, dict):
            seen.add(id(v))
            for y in list(dict.values(v)): go(y, depth - 1)
    for k, v in locs.items():
        if not k.startswith('_vc'): go(v, 2)
    return out

class RunAcc:
    """A list under construction: records whose field `f` concatenates to `val`, then `tail`."""
    vc_is_list = vc_acc = True
    def __init__(self, val, key, tail=()):
        self.val, self.key, self.tail = SymBytes.of(val), key, list(tail)
    def _field(self, x):
        if not isinstance(x, dict): raise Unsupported('records of another kind')
        v = [k for k, y in x.items() if isinstance(y, SymBytes) or isinstance(y, bytes)]
        p = loops.state.protos.get(self.key)
        if p is not None: v = [k for k in v if k in p[2]]
        if len(v) != 1: raise Unsupported('records of another kind')
        return v[0]
    def append(self, x):
        f = self._field(x)
        b = SymBytes.of(x[f])
        n = b.vc_len()
        if self.tail or _ieq(n, 0): self.tail.append(x); return
        if not prov(mk_bool(zint(n) > 0)) and not bool(mk_bool(zint(n) > 0)): self.tail.append(x); return
        if not prov(mk_bool(zint(n) < MAXLEN)): raise Unsupported('records of unbounded length')
        fields = {k: v for k, v in x.items() if k != f}
        p = loops.state.protos.get(self.key)
        if p is None: loops.state.protos[self.key] = (type(x), fields, {f})
        else:
            if p[0] is not type(x) or p[2] != {f} or set(p[1]) != set(fields) or any(is_sym(v) or v is not p[1][k] and v != p[1][k] for k, v in fields.items()): raise Unsupported('records of different kinds')
        self.val = SymBytes(self.val.parts + b.parts)
    def items(self):
        if not self.val.parts: return list(self.tail)
        n = self.val.vc_len()
        if _ieq(n, 0) or not prov(mk_bool(zint(n) > 0)) and not bool(mk_bool(zint(n) > 0)): return list(self.tail)
        p = loops.state.protos.get(self.key)
        if p is None: raise Unsupported('records of unknown kind')
        f = next(iter(p[2]))
        return [Run(p[0], p[1], p[2], int_var('number_of_records', 1, 2 ** 32 - 1), {f: self.val})] + list(self.tail)
    def __iter__(self): return iter(self.items())
    def vc_tolist(self): return self.items()
    def vc_enumerate(self, start=0): return RunIter(self.items(), start)
    def vc_comp(self, f, kind): return [r for x in self.items() for r in f(x)]
    def extend(self, xs):
        for x in xs: self.append(x)
    def __iadd__(self, o): self.extend(o); return self
    def __add__(self, o):
        r = RunAcc(self.val, self.key, self.tail)
        r.extend(o)
        return r
    def vc_len(self): raise Unsupported('number of records')
    def __bool__(self): return bool(self.items())
    def _u(self, *a): raise Unsupported('a list of an unknown number of records is used as a whole')
    __getitem__ = __len__ = pop = insert = __eq__ = _u
    __hash__ = None
    def vc_same(self, o):
        if isinstance(o, list):
            if o: return False
            return not self.tail and (not self.val.parts or _ieq(self.val.vc_len(), 0))
        if not isinstance(o, RunAcc) or self.tail or o.tail: return False
        return loops.same_value(self.val, o.val)

class SplitRule(loops.LoopRule):
    """Invariant of a loop that splits a byte string: the records so far hold its first part."""
    def __init__(self): super().__init__(None)
    def wants(self, loop, locs):
        steps = set()
        if isinstance(loop.iterable, loops.SymRange) and isinstance(loop.iterable.step, int): steps.add(loop.iterable.step)
        for (k, v), c in loops.state.coef.items():
            if k == loop.key and isinstance(c, int) and c > 0: steps.add(c)
        out = []
        for name, D in sorted((n, d) for n, d in locs.items() if isinstance(d, SymBytes) and not isinstance(d.vc_len(), int) and len(d.parts) == 1 and d.parts[0].kind != 'sub'):
            for s in sorted(steps or {1}):
                def f(i, D=D, s=s, acc=True):
                    m, n = i * s, D.vc_len()
                    if _ieq(m, 0): v = SymBytes([])
                    elif prov(mk_bool(zint(m) <= zint(n))): v = SymBytes(_sub(D.parts[0], 0, m))
                    elif prov(mk_bool(zint(m) >= zint(n))): v = D
                    else: v = SymBytes(_sub(D.parts[0], 0, mk_int(z3.If(zint(m) <= zint(n), zint(m), zint(n)))))
                    return RunAcc(v, loop.key)
                out.append(('the first bytes of %s in steps of %d' % (name, s), f))
                def g(i, D=D, s=s):
                    m, n = i * s, D.vc_len()
                    if _ieq(m, 0): return D
                    if prov(mk_bool(zint(m) <= zint(n))): return SymBytes(_sub(D.parts[0], m, n))
                    if prov(mk_bool(zint(m) >= zint(n))): return b''
                    return SymBytes(_sub(D.parts[0], mk_int(z3.If(zint(m) <= zint(n), zint(m), zint(n))), n))
                out.append(('the bytes of %s after steps of %d' % (name, s), g))
        return out

def comp_range(rng, f, kind):
    """[f(i) for i in range(0, len(data), step)]: the records made of consecutive pieces of data."""
    from . import dom
    e = eng()
    n = rng.count()
    if isinstance(n, int): return [r for i in range(n) for r in f(rng.at(i))]
    k = int_var('record', 0)
    key = ('comprehension', kind, str(rng.step))
    conds = [zint(k) < zint(n)]
    D = None
    for c, v in dom.subexplore(lambda: f(rng.at(k)), conds):
        if not isinstance(v, list) or len(v) != 1: raise Unsupported('comprehension over a range of unknown length')
        acc = RunAcc(SymBytes([]), key)
        e.solver.push()
        try:
            for x in conds + [c]: e.solver.add(x)
            fld = acc._field(v[0])
            b = SymBytes.of(v[0][fld])
            if len(b.parts) != 1 or b.parts[0].kind != 'sub': raise Unsupported('comprehension over a range of unknown length')
            t, lo, hi = b.parts[0].args
            if D is not None and not D.same(t): raise Unsupported('comprehension over a range of unknown length')
            D = t
            acc.append(v[0])
            if acc.tail: raise Unsupported('comprehension over a range of unknown length')
            sub = lambda x, y: mk_int(z3.substitute(zint(x), (k.e, zint(y))))
            end = z3.If(zint(sub(lo, k + 1)) < zint(t.len), zint(sub(lo, k + 1)), zint(t.len))
            if not (_ieq(sub(lo, 0), 0) and prov(mk_bool(zint(hi) == z3.If(zint(k) + 1 < zint(n), zint(sub(lo, k + 1)), zint(t.len))))): raise Unsupported('comprehension over a range of unknown length: the pieces are not consecutive')
        finally: e.solver.pop()
    if D is None: return []
    if bool(mk_bool(zint(n) == 0)):
        if not _ieq(D.len, 0): raise Unsupported('no piece of a non-empty string')
        return []
    e.decided(True, 'the records of a comprehension are the consecutive pieces of the data', backend='z3')
    return RunAcc(SymBytes([D]), key)
loops.SymRange.vc_comp = comp_range

def frame_locals(skip):
    f = sys._getframe(skip + 1)
    return f.f_locals

class RunIter:
    """Iteration over a list that contains runs."""
    vc_plain = True
    def __init__(self, items, start=None): self.items, self.start = list(items), start
    def vc_begin(self, loop): loop.val = {}
    def __iter__(self):
        if self.start is None: return iter(self.items)
        raise Unsupported('an enumeration of an unknown number of records is used outside a loop')
    def vc_tolist(self): return self if self.start is not None else self.items
    def vc_nodeloop(self, loop):
        e = eng()
        idx = self.start
        streams = []
        for v in loop.locs.values():
            if getattr(v, 'vc_stream', False) is True and not any(v is s for s in streams): streams.append(v)
        for it in self.items:
            if not is_run(it):
                yield it if idx is None else (idx, it)
                if idx is not None: idx = idx + 1
                continue
            if not streams:
                yield from self.whole(it, loop, idx)
                if idx is not None: idx = idx + it.n
            else:
                yield from self.build(it, idx, streams, loop)
                if idx is not None: idx = idx + it.n
    def whole(self, run, loop, idx=None):
        """The body sees the run as one item: it may pass it on, but not count or accumulate anything else."""
        e = eng()
        f = caller(loop)
        before = scalars(f)
        lists = [(l, list(l)) for l in lists_in(f.f_locals)]
        done = False
        try:
            yield run if idx is None else (loops.Idx(self.items, run), run)
            done = True
        finally:
            if not done: e.imprecise = e.imprecise or 'a loop over records may be left early'
        f = caller(loop)
        for l in lists_in(f.f_locals):
            old = next((o for m, o in lists if m is l), [])
            if len(l) < len(old) or any(x is not y for x, y in zip(l, old)) or len(l) > len(old) + 1: raise Unsupported('a loop over an unknown number of records changes a list')
        after = scalars(f)
        for k, v in after.items():
            if k in loop.hav and k in loop.fresh and not (k in before and before[k] is v):
                loop.fin[k] = loops.Poison(k)       # set anew in every iteration: after the loop its value is that of the last record
                continue
            if k not in before or before[k] is v or not (k in loop.locs or k in before): continue
            o = before[k]
            if isinstance(v, (bytes, SymBytes)) and isinstance(o, (bytes, SymBytes)):
                if any(loops.same_value(SymBytes.of(o) + SymBytes.of(j), v) for j in run.joined.values()): continue
            if k not in loop.hav or loops.same_value(o, v): continue
            raise Unsupported('a loop over an unknown number of records accumulates ' + k)
    def build(self, run, idx, streams, loop):
        e = eng()
        if len(streams) != 1: raise Unsupported('records are written to an unknown place')
        st = streams[0]
        el = run.sample()
        if not _ieq(st.pos, st.buf.vc_len()): raise Unsupported('records are written into the middle of a stream')
        buf0, pos0 = st.buf, st.pos
        lists = [(v, len(v)) for v in loop.locs.values() if isinstance(v, list)]
        P = bytes_var('written_before')
        axiom(zint(P.vc_len()) >= zint(pos0))
        st.buf, st.pos = P, P.vc_len()
        at = e.pos
        done = False
        item = run.record()
        try:
            yield item if idx is None else (idx + run.k, item)
            done = True
        finally:
            if not done:
                st.buf, st.pos = buf0, pos0
                e.imprecise = e.imprecise or 'writing stops within the records'
        noforks(e, at)
        if not st.buf.parts or not st.buf.parts[0].same(P.parts[0]) or not _ieq(st.pos, st.buf.vc_len()): raise Unsupported('writing a record changes what was written before')
        W = SymBytes(st.buf.parts[1:])
        n = int_var('size_of_records', 1)
        z = z3.Const(e.fresh('records'), B)
        axiom(blen(z) == n.e)
        st.buf, st.pos = buf0 + SymBytes([BTerm('run', (W, run, idx), z, n)]), pos0 + n
        for l, m in lists:
            if len(l) > m: l[m:] = [run]

def caller(loop):
    f = sys._getframe(2)
    while f is not None:
        for k, v in f.f_locals.items():
            if v is loop and k.startswith('_vc_L'): return f
        f = f.f_back
    raise Unsupported('frame of a loop')
def scalars(f): return {k: v for k, v in f.f_locals.items() if not k.startswith('_vc') and (isinstance(v, (int, str, bytes)) or is_sym(v))}

def noforks(e, at):
    for k, m, w in e.trail[at:e.pos]:
        if isinstance(m, int): raise Unsupported('records of one list are treated differently: %s' % w)

class Count:
    """itertools.count() in a loop that parses records until one ends the list."""
    vc_plain = True
    arbitrary = None            # handler for records in arbitrary bytes (set by a property)
    def __init__(self, start=0, step=1): self.start, self.step = start, step
    def vc_begin(self, loop): loop.val = {}
    def __iter__(self): return _it.count(self.start, self.step)
    def vc_nodeloop(self, loop):
        e = eng()
        i = self.start
        streams = []
        for v in loop.locs.values():
            if getattr(v, 'vc_stream', False) is True and not any(v is s for s in streams): streams.append(v)
        first = True
        for rounds in _it.count():
            if rounds > 60: raise Unsupported('more than 60 records')
            t = self.part(streams[0]) if len(streams) == 1 else None
            if t is not None and t.kind == 'run':
                if self.step != 1: raise Unsupported('record numbers')
                yield from self.parse(t, i, streams[0], loop)
                i = i + t.args[1].n
                continue
            if first and Count.arbitrary is not None and len(streams) == 1 and Count.arbitrary.applies(self, loop, streams[0], t):
                yield from Count.arbitrary.loop(self, loop, streams[0])
                return
            first = False
            yield i
            i = i + self.step
    @staticmethod
    def part(st):
        off = 0
        for p in st.buf.parts:
            if off is st.pos or _ieq(off, st.pos): return p
            if isinstance(off, int) and isinstance(st.pos, int) and off > st.pos: return None
            off = off + p.len
        return None
    def parse(self, t, i, st, loop):
        e = eng()
        W, run, idx = t.args
        buf0, pos0 = st.buf, st.pos
        if idx is not None and not _ieq(i, idx):
            e.imprecise = e.imprecise or 'the records of a list are numbered differently when they are read'
        lists = [(v, len(v)) for v in loop.locs.values() if isinstance(v, list)]
        P, S = bytes_var('read_before'), bytes_var('read_later')
        axiom(zint(S.vc_len()) > 0)
        st.buf, st.pos = P + W + S, P.vc_len()
        at = e.pos
        done = False
        try:
            yield i + run.k
            done = True
        except GeneratorExit:
            st.buf, st.pos = buf0, pos0
            if not getattr(e, 'failing', False): e.imprecise = e.imprecise or 'reading stops within the records'
            raise
        noforks(e, at)
        if not e.check(mk_bool(zint(st.pos) == zint(P.vc_len()) + zint(W.vc_len())), 'reading a record of a list goes on to the next one'): raise PathEnd()
        st.buf, st.pos = buf0, pos0 + t.len
        got = [(l, m) for l, m in lists if len(l) > m]
        if len(got) != 1 or len(got[0][0]) != got[0][1] + 1: raise Unsupported('records are not collected in one list')
        l, m = got[0]
        l[m] = self.adopt(run, l[m])
    @staticmethod
    def adopt(run, rec):
        """The run of the records read."""
        e = eng()
        el = run.sample()
        fields, vary, joined = {}, set(), {}
        for k, v in rec.items():
            if k in run.vary:
                vary.add(k)
                same = loops.same_value(v, el[k])
                if not e.decided(same, 'a record is read back as it was written (%s)' % k): raise PathEnd()
                if run.joined.get(k) is not None: joined[k] = run.joined[k]
            elif is_sym(v) or isinstance(v, (dict, list)):
                vary.add(k)
            else:
                fields[k] = v
        for k in run.vary:
            if k not in vary: e.decided(False, 'every field of a record is read back (%s)' % k)
        for k, v in run.fields.items():
            if not isinstance(v, (bytes, str, int)): continue
            if not e.decided(k in fields and fields[k] == v, 'every field of a record is read back (%s)' % k): raise PathEnd()
        r = Run(type(rec), fields, vary, run.n, joined, run.fam)
        r.elem, r.k = rec, run.k
        r.elem = {k: rec[k] for k in rec}
        return r

from . import libs
itertools_mod = libs.module('itertools', **{k: getattr(_it, k) for k in dir(_it) if not k.startswith('__')})
itertools_mod.count = Count
