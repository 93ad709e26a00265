"""C07: contracts of adding, moving, deleting, emptying and re-indexing."""
import z3
from ..core import eng, mk_bool, SymBool, Unsupported, axiom, PathEnd
from ..values import *
from .. import dom, libs, dtmod
from ..dom import SNode, SegRef, Run, LAZY, F_below, F_parent, runs_equal
from ..kpmod import Env, run
from ..verify import Task
from ..loops import Poison
from ..bounded.c07 import *
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of Group.append, move_entry, move_group, delete, delete_entry, delete_group, add_entry, add_group (placement), empty_group and reindex discharged for arbitrary elements of an arbitrary document; the loops of '
              'empty_group are cut by a rule for loops that take children out. lxml is an assumed contract. The same contracts are evaluated on the unmodified code.')
ASSUMPTIONS = ['documents follow the KDBX schema (dom.py)', 'reindex: the entries of the group are consecutive children of its element, and the index is one of the positions 0..n-1']

def segok(it, n, out=()):
    """The child list item is the initial children of n without the nodes in `out`."""
    return isinstance(it, SegRef) and it.seg is n.seg and len(it.out) == len(out) and all(any(o is x for x in it.out) for o in out) and not it.repl and not it.some and not it.all

def pick(env, kind, name):
    """An arbitrary entry or (non-root) group, and its parent element."""
    e = eng()
    w = env.w
    if kind == 'entry':
        n = w.any('Entry', name)
        e.assume(z3.Not(dom.F_hist(n.z)))
        obj = env.Entry(n)
    else:
        n = w.any('Group', name)
        if n is w.rootgroup: raise PathEnd()
        obj = env.Group(n)
    return n, obj, n.getparent()

def moved(label, n, src, dst):
    """n is now the last child of dst and no longer where it was; both keep the rest in order."""
    e = eng()
    if src is dst:
        ok = len(dst.kids) == 2 and segok(dst.kids[0], dst, [n]) and dst.kids[1] is n
    else:
        ok = len(dst.kids) == 2 and segok(dst.kids[0], dst) and dst.kids[1] is n and len(src.kids) == 1 and segok(src.kids[0], src, [n])
    e.decided(ok and n._p is dst, label, 'source %r, destination %r' % (src.kids, dst.kids))

def move(kind, op):
    def f():
        e = eng()
        env = Env(); w = env.w
        n, obj, src = pick(env, kind, kind)
        dst = w.any('Group', 'destination')
        d = env.Group(dst)
        cyc = False
        if kind == 'group': cyc = dst is n or bool(mk_bool(w.below(dst, n)))
        if op == 'move': _, exc = run(env.kp.move_entry if kind == 'entry' else env.kp.move_group, obj, d)
        elif op == 'append': _, exc = run(d.append, obj)
        else: _, exc = run(d.append, [obj])
        if exc is not None:
            e.decided(cyc, 'the %s can be moved' % kind, repr(exc))
            w.frame('a refused move changes nothing')
            return
        if cyc: e.decided(False, 'a group is not moved into itself'); return
        moved('the %s is taken from its old place to the end of the destination' % kind, n, src, dst)
        w.frame('moving changes nothing else', [src, dst])
    return f

def append_many():
    """append of a list of up to three entries."""
    e = eng()
    env = Env(); w = env.w
    k = e.choose(4, 'number of entries')
    ns = []
    for i in range(k):
        n, obj, src = pick(env, 'entry', 'entry%d' % i)
        if any(n is m for m, _, _ in ns): raise PathEnd()
        ns.append((n, obj, src))
    dst = w.any('Group', 'destination')
    _, exc = run(env.Group(dst).append, [o for _, o, _ in ns])
    if not e.decided(exc is None, 'a list of entries can be appended', repr(exc)): return
    mine = [n for n, _, s in ns if s is dst]
    e.decided(segok(dst.kids[0], dst, mine) and dst.kids[1:] == [n for n, _, _ in ns], 'the entries are appended in the given order', repr(dst.kids))
    for p in {id(s): s for _, _, s in ns if s is not dst}.values():
        e.decided(len(p.kids) == 1 and segok(p.kids[0], p, [n for n, _, s in ns if s is p]), 'the entries are taken from their old places', repr(p.kids))
    w.frame('appending changes nothing else', [dst] + [s for _, _, s in ns])

class AnyList:
    """A list of any number of entries.  A loop over it is cut at an arbitrary iteration: the document is arbitrary, so that the state after any number of
    iterations is one of the states the body is executed in; the step contract (this entry goes to the end, nothing else changes) gives the order by induction."""
    vc_is_list = True
    def __init__(self, env, dst): self.env, self.dst = env, dst
    def vc_begin(self, loop):
        for v in loop.hav:
            if v in loop.locs: loop.val[('v', v)] = Poison(v)
    def vc_nodeloop(self, loop):
        e, w = eng(), self.env.w
        w.frame('nothing is changed before the first entry is appended')
        if e.choose(2, 'an arbitrary iteration') == 1:
            n, obj, src = pick(self.env, 'entry', 'entry of the list')
            yield obj
            moved('each entry of a list is taken from its old place to the end of the destination', n, src, self.dst)
            w.frame('appending one entry of a list changes nothing else', [src, self.dst])
            raise PathEnd()
    def _u(self, *a, **k): raise Unsupported('a list of any number of entries is used outside a loop')
    def vc_tolist(self): return self
    __iter__ = __len__ = __getitem__ = __bool__ = vc_len = vc_contains = vc_comp = _u

def append_any():
    e = eng()
    env = Env(); w = env.w
    dst = w.any('Group', 'destination')
    _, exc = run(env.Group(dst).append, AnyList(env, dst))
    e.decided(exc is None, 'a list of entries can be appended', repr(exc))
    w.frame('nothing is changed after the last entry is appended')

def delete(kind, op):
    def f():
        e = eng()
        env = Env(); w = env.w
        n, obj, src = pick(env, kind, kind)
        if op == 'delete': _, exc = run(obj.delete)
        else: _, exc = run(env.kp.delete_entry if kind == 'entry' else env.kp.delete_group, obj)
        if not e.decided(exc is None, 'the %s can be deleted' % kind, repr(exc)): return
        e.decided(n._p is None and len(src.kids) == 1 and segok(src.kids[0], src, [n]), 'exactly the %s is removed' % kind, repr(src.kids))
        w.frame('deleting changes nothing else', [src])
    return f

def empty(what):
    """what: an arbitrary entry or subgroup of the group, or an arbitrary element that is neither, is followed."""
    def f():
        e = eng()
        env = Env(); w = env.w
        n = w.any('Group', 'group')
        if what in ('Entry', 'Group'):
            x = w.known(what, z3.Const(e.fresh('member'), dom.Node), n)
            p = n
        else:
            x = w.any(what.split()[-1], 'other')
            if x is n: raise PathEnd()
            p = x.getparent()
            if p is n: raise PathEnd()
        w.witnesses = [x]
        _, exc = run(env.kp.empty_group, env.Group(n))
        if not e.decided(exc is None, 'a group can be emptied', repr(exc)): return
        left = ('Entry', 'Group')
        ok = len(n.kids) == 1 and isinstance(n.kids[0], SegRef) and n.kids[0].seg is n.seg and not n.kids[0].repl
        e.decided(ok and all(o.tag in left for o in n.kids[0].out) and n.kids[0].all <= set(left) and n.kids[0].some <= set(left), 'emptying removes only entries and groups', repr(n.kids))
        if p is n: e.decided(x._p is None, 'emptying removes all entries and subgroups')
        else: e.decided(x._p is p, 'emptying removes nothing that is not directly in the group')
        w.frame('emptying changes nothing else', [n])
    return f

def add(kind):
    def f():
        e = eng()
        env = Env(); w = env.w
        dst = w.any('Group', 'destination')
        d = env.Group(dst)
        def s(nm):
            v = str_var(nm); e.assume(dom.F_xmlok(v.e)); return v
        if kind == 'entry': r, exc = run(env.kp.add_entry, d, s('title'), s('username'), s('password'), force_creation=True)
        else: r, exc = run(env.kp.add_group, d, s('name'))
        if not e.decided(exc is None, 'the %s can be added' % kind, repr(exc)): return
        x = getattr(r, '_element', None)
        cls = env.me.Entry if kind == 'entry' else env.mg.Group
        if not e.decided(type(r) is cls and isinstance(x, SNode) and not x.init, 'the new %s is returned' % kind): return
        e.decided(len(dst.kids) == 2 and segok(dst.kids[0], dst) and dst.kids[1] is x and x._p is dst, 'the new %s is last in the destination' % kind, repr(dst.kids))
        w.frame('adding changes nothing else', [dst])
    return f

def reindex():
    e = eng()
    env = Env(); w = env.w
    g = w.any('Group', 'group')
    i, k, n = int_var('index', 0), int_var('position', 0), int_var('count', 1)
    nb, na = int_var('before', 0), int_var('after', 0)
    e.assume(z3.And(i.e < n.e, k.e < n.e))
    run_ = Run(w, 'entries', 'Entry', 0, n, g)
    before, after = Run(w, 'before', 'Other', 0, nb, g), Run(w, 'after', 'Other', 0, na, g)
    g.kids = [before, run_, after]
    g.runs0 = list(g.kids); g.seg = None
    x = run_.node(i)
    axiom(z3.Not(dom.F_hist(x.z)))
    obj = env.Entry(x)
    got, exc = run(lambda: obj.index)
    if e.decided(exc is None, 'the index can be read', repr(exc)): e.check(got == i, 'the index of an entry is its position among the entries')
    _, exc = run(obj.reindex, k)
    if not e.decided(exc is None, 'the entry can be re-indexed', repr(exc)): return
    lo = [run_.sub(0, k), x, run_.sub(k, i), run_.sub(i + 1, n)] if bool(mk_bool(k.e <= i.e)) else [run_.sub(0, i), run_.sub(i + 1, k + 1), x, run_.sub(k + 1, n)]
    e.decided(x._p is g and runs_equal(g.kids, [before] + lo + [after]), 'the entry is at the requested position and the others keep their order', repr(g.kids))
    got, exc = run(lambda: obj.index)
    if e.decided(exc is None, 'the index can be read afterwards', repr(exc)): e.check(got == k, 'the index is the requested one')
    w.frame('re-indexing changes nothing else', [g])

def tasks(thorough):
    out = []
    for kind in ('entry', 'group'):
        out += [Task('move_%s' % kind, move(kind, 'move')), Task('append (%s)' % kind, move(kind, 'append')), Task('append (list of one %s)' % kind, move(kind, 'list')),
                Task('delete (%s)' % kind, delete(kind, 'delete')), Task('delete_%s' % kind, delete(kind, 'kp')), Task('add_%s: placement' % kind, add(kind))]
    out += [Task('append (list of entries)', append_any), Task('append (list of up to three entries)', append_many), *[Task('empty_group: %s' % k, empty(k)) for k in ('Entry', 'Group', 'other Entry', 'other Group')], Task('reindex', reindex)]
    return out
