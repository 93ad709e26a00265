"""While loops over a symbolic document.

Emptying: the body takes one child of one kind out of one element and changes nothing else.  After the first iteration the state
is replaced by `an arbitrary part of these children is gone` (which covers any number of iterations); one more iteration is executed to
check that it again only takes out such a child, and the exit is explored from the arbitrary state.

Climbing: the body moves a cursor from a group to its parent and puts the name of the group at one end of lists, changing nothing
else.  After the first iteration the cursor is replaced by an arbitrary group A above its start c and the list by one with an unknown part M
such that names(c) == names(A) + M, where names(g) is defined by names(root) == [] and names(g) == names(parent of g) + [name of g];
one more iteration is executed to check that it takes the same step."""
import z3
from .core import eng, PathEnd, Unsupported, axiom, mk_bool
from .dom import SegRef, SNode, Node, F_parent, F_below, F_depth
from .values import SymStr, zs, prov
from . import loops
from .loops import Poison

def name_of(w, g):
    pres, n = g.slot('Name')
    none, val = n.tform()
    return z3.And(pres, z3.Not(none)), val

class Part:
    """A part of unknown length of a list of texts: the names between a group A and a group c below it (c included);
    names(c) == names(A) + part."""
    def __init__(self, c, A, rev=False): self.c, self.A, self.rev = c, A, rev
    def flip(self): return Part(self.c, self.A, not self.rev)
    def same(self, o): return isinstance(o, Part) and self.c is o.c and self.A is o.A and self.rev == o.rev

def same_names(w, got, z, last):
    """Formula: the list `got` of texts is names(z) + last, by the definition of names (None when it has another shape).
    Raises Unsupported when the definition cannot be unfolded."""
    got = parts(got)
    fs = []
    for x in reversed(last):
        if not got or isinstance(got[-1], Part): return None
        y = got.pop()
        if not isinstance(y, (str, SymStr)): return None
        fs.append(zs(y) == zs(x))
    def root(t):
        if prov(mk_bool(t == w.rootgroup.z)): return True
        if prov(mk_bool(t != w.rootgroup.z)): return False
        return bool(mk_bool(t == w.rootgroup.z))
    while True:
        if not got:
            if not root(z): return None
            return z3.And(fs) if fs else z3.BoolVal(True)
        y = got[-1]
        if isinstance(y, Part):
            if y.rev or not prov(mk_bool(z == y.c.z)): return None
            got.pop(); z = y.A.z
            continue
        if not isinstance(y, (str, SymStr)) or root(z): return None
        got.pop()
        ok, nm = name_of(w, w.ghost('Group', z))
        fs += [ok, zs(y) == nm]
        z = F_parent(z)

class ChainList:
    """A list of texts with parts of unknown length."""
    vc_is_list = True
    def __init__(self, items): self.items = list(items)
    def insert(self, i, x):
        if i != 0: raise Unsupported('insertion into a list of unknown length')
        self.items.insert(0, x)
    def append(self, x): self.items.append(x)
    def extend(self, xs): self.items += parts(xs)
    def reverse(self): self.items = rev(self.items)
    def vc_tolist(self): return ChainList(self.items)
    def copy(self): return ChainList(self.items)
    def __add__(self, o): return ChainList(self.items + parts(o))
    def __radd__(self, o): return ChainList(parts(o) + self.items)
    def __iadd__(self, o): self.items += parts(o); return self
    def __reversed__(self): return ChainList(rev(self.items))
    def __bool__(self):
        if any(not isinstance(x, Part) for x in self.items): return True
        raise Unsupported('emptiness of a list of unknown length')
    def __getitem__(self, i):
        if isinstance(i, slice) and (i.start, i.stop, i.step) == (None, None, -1): return ChainList(rev(self.items))
        if isinstance(i, slice) and (i.start, i.stop, i.step) == (None, None, None): return ChainList(self.items)
        if i == 0 and self.items and not isinstance(self.items[0], Part): return self.items[0]
        if i == -1 and self.items and not isinstance(self.items[-1], Part): return self.items[-1]
        raise Unsupported('index into a list of unknown length')
    def __setitem__(self, i, v):
        if isinstance(i, slice) and (i.start, i.stop, i.step) in ((0, 0, None), (None, 0, None)): self.items[0:0] = parts(v)
        else: raise Unsupported('assignment into a list of unknown length')
    def _u(self, *a, **k): raise Unsupported('a list of unknown length is inspected')
    __iter__ = __len__ = pop = remove = index = vc_contains = vc_len = __eq__ = __ne__ = _u
    __hash__ = None
def parts(x):
    if isinstance(x, ChainList): return list(x.items)
    if isinstance(x, (list, tuple)): return list(x)
    raise Unsupported('a list of unknown length is joined with %s' % type(x).__name__)
def rev(items): return [x.flip() if isinstance(x, Part) else x for x in reversed(items)]
def elem(x):
    """The group a cursor stands for, and how to build another one."""
    if isinstance(x, SNode): return (x, lambda n: n) if x.tag == 'Group' else (None, None)
    n = getattr(x, '_element', None) if hasattr(x, '__dict__') else None
    if isinstance(n, SNode) and n.tag == 'Group' and hasattr(x, '_kp'): return n, lambda m: type(x)(element=m, kp=x._kp)
    return None, None

def climb_begin(loop, locs):
    cur, lists, rest = [], {}, {}
    for v in loop.hav:
        x = locs.get(v)
        if elem(x)[0] is not None: cur.append(v)
        elif isinstance(x, (list, ChainList)): lists[v] = parts(x)
        elif v in locs: rest[v] = x
    return (cur[0], locs[cur[0]], lists, rest) if len(cur) == 1 else None

def same_item(a, b):
    if isinstance(a, Part) or isinstance(b, Part): return isinstance(a, Part) and a.same(b)
    return a is b or type(a) is type(b) and isinstance(a, (str, int)) and a == b
def same_items(a, b): return len(a) == len(b) and all(same_item(x, y) for x, y in zip(a, b))

def climb_step(loop, w, st, locs):
    """{list variable: end at which the name was put}, or None when the iteration was no such step."""
    v, c0, lists, rest = st
    n0, _ = elem(c0)
    n1, _ = elem(locs.get(v))
    if n1 is None or not prov(mk_bool(n1.z == F_parent(n0.z))): return None
    ok, nm = name_of(w, n0)
    ends = {}
    for l, old in lists.items():
        x = locs.get(l)
        if not isinstance(x, (list, ChainList)): return None
        new = parts(x)
        if same_items(new, old): ends[l] = None; continue
        if len(new) != len(old) + 1: return None
        fr, bk = same_items(new[1:], old), same_items(new[:-1], old)
        if fr and bk: fr = (loop.key, l) not in loops.state.back
        if fr: k, x = 'front', new[0]
        elif bk: k, x = 'back', new[-1]
        else: return None
        if not isinstance(x, (str, SymStr)) or not prov(mk_bool(z3.And(ok, zs(x) == nm))): return None
        ends[l] = k
    return ends

def climb(loop, w, locs, st):
    """After the first iteration: the arbitrary state."""
    s = st['climb']
    ends = climb_step(loop, w, s, locs)
    if ends is None or not any(ends.values()): return False
    e = eng()
    v, c0, lists, rest = s
    n0, mk = elem(c0)
    A = w.any('Group', 'ancestor')
    e.assume(F_below(n0.z, A.z)); e.assume(F_depth(A.z) < F_depth(n0.z))
    cuts = {x: Poison(x) for x in loop.hav}
    cuts[v] = mk(A)
    for l, k in ends.items():
        if k == 'front': cuts[l] = ChainList([Part(n0, A)] + lists[l])
        elif k == 'back': cuts[l] = ChainList(lists[l] + [Part(n0, A, True)])
        else: cuts[l] = list(lists[l])
    for x, val in rest.items():
        if locs.get(x) is val: cuts[x] = val
    loop.cuts = cuts
    if loops.state is not None: loops.state.used.add(loop.key)
    st['ends'], st['lists'] = ends, {l: c for l, c in cuts.items() if l in ends}
    st['climb'] = (v, cuts[v], {l: parts(cuts[l]) for l in ends}, rest)
    return True

def shape(w): return {id(n): (n, [k.clone() if isinstance(k, SegRef) else k for k in n.kids]) for n in w.nodes + w.created if not n.ghost}

def tick(loop, w, locs):
    st = loop.__dict__.setdefault('heap', {'phase': 0})
    if loops.state is not None and loop.key in loops.state.off: return False
    def take():
        st['snap'] = w.snapshot(); st['shape'] = shape(w)
        st['snap']['created'] = len(w.created)
    def rem(): return removal(w, st['snap'], st['shape'])
    if st['phase'] == 0:
        take(); st['phase'] = 1
        st['climb'] = climb_begin(loop, locs)
        return True
    if st['phase'] == 1:
        h = rem()
        if h is None:
            if st['climb'] and still(w, st['snap']) and climb(loop, w, locs, st):
                take(); st['phase'] = 3
                return True
            st['phase'] = 9; return False
        n, ref, x = h
        ref.out = ref.out[:-1]
        ref.some.add(x.tag)
        st['at'] = (n, ref.seg, x.tag)
        if loops.state is not None: loops.state.used.add(loop.key)
        st['phase'] = 2
        w.heapver += 1
        loop.cuts = {v: Poison(v) for v in loop.hav}
        take()
        return True
    if st['phase'] == 2:
        h = rem()
        if h is None or (h[0], h[1].seg, h[2].tag) != st['at']: raise Unsupported('a loop that does not repeat its first iteration')
        eng().decided(True, 'loop invariant: only children of one kind are taken out of one element', backend='symbolic execution')
        raise PathEnd()
    if st['phase'] == 3:
        ends = climb_step(loop, w, st['climb'], locs) if still(w, st['snap']) else None
        if ends != st['ends']:
            if ends is not None:
                turned = [l for l in ends if (st['ends'][l], ends[l]) == ('front', 'back') and (loop.key, l) not in loops.state.back]
                if turned:
                    loops.state.back |= {(loop.key, l) for l in turned}
                    raise loops.Restart('end of the list')
            raise Unsupported('a loop that does not repeat its first iteration')
        eng().decided(True, 'loop invariant: the names collected are those between the start and the group reached', backend='symbolic execution')
        raise PathEnd()
    return False

def still(w, snap): return len(w.created) == snap['created'] and not w.changed_since({k: v for k, v in snap.items() if k != 'created'})

def removal(w, snap, shp):
    if len(w.created) != snap['created']: return None
    s = {k: v for k, v in snap.items() if k != 'created'}
    ch = w.changed_since(s)
    now = w.snapshot()
    hit = None
    for n in ch:
        i = id(n)
        if i not in s: return None
        if now[i][1:4] == s[i][1:4]: continue          # only its parent changed
        if now[i][1:3] != s[i][1:3]: return None
        old = shp[i][1]
        if len(old) != len(n.kids) or hit is not None: return None
        for a, b in zip(old, n.kids):
            if isinstance(a, SegRef) and isinstance(b, SegRef) and a.seg is b.seg:
                if a.repl != b.repl or a.some != b.some or a.all != b.all: return None
                if a.out == b.out: continue
                if b.out[:-1] != a.out or hit is not None: return None
                hit = (n, b, b.out[-1])
            elif a is not b: return None
    if hit is None: return None
    for n in ch:
        if n is hit[0]: continue
        if n is not hit[2] or n._p is not None: return None
    return hit
