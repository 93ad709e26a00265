"""C11: contracts of the history functions."""
import z3
from ..core import eng, mk_bool, SymBool, Unsupported
from ..values import *
from .. import dom, libs
from ..dom import SNode, SegRef, MapList, NodeSet, same_copy, LAZY
from ..kpmod import Env, run
from ..verify import Task
from ..bounded.c11 import *
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of save_history, delete_history, history and Group.entries discharged for an arbitrary entry of an arbitrary document with any number of history items; '
              'lxml and copy.deepcopy are assumed contracts. The same contracts are evaluated on the unmodified code.')
ASSUMPTIONS = ['documents follow the KDBX schema (dom.py)']

def entry(env):
    n = env.w.any('Entry', 'entry')
    return n, env.Entry(n)

def hist(n):
    pres, h = n.slot('History')
    return bool(mk_bool(pres)), h

def pristine(it, n): return isinstance(it, SegRef) and it.seg is n.seg and it.pristine()

def save(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = entry(env)
        had, h = hist(n)
        _, exc = run(obj.save_history)
        if not e.decided(exc is None, 'save_history succeeds', repr(exc)): return
        if had:
            ok = pristine(h.kids[0], h) and len(h.kids) == 2 and isinstance(h.kids[1], SNode)
            e.decided(ok, 'save_history appends one item to the existing history and keeps the earlier ones', repr(h.kids))
            if not ok: return
            a = h.kids[1]
            w.frame('save_history changes nothing but the history', [h])
        else:
            ok = len(n.kids) == 2 and pristine(n.kids[0], n) and isinstance(n.kids[1], SNode) and n.kids[1].tag == 'History' and len(n.kids[1].kids) == 1
            e.decided(ok, 'save_history creates a history of one item', repr(n.kids))
            if not ok: return
            a = n.kids[1].kids[0]
            e.decided(not n.kids[1]._a, 'the new history element holds only the item')
            w.frame('save_history changes nothing but the history', [n])
        e.decided(a.tag == 'Entry' and a is not n and not a.init, 'the item is a new entry element', repr(a))
        fm, why = same_copy(a, n, ('History',))
        e.check(fm, 'the item has the exact content of the entry, without its history', why)
        # editing the entry afterwards
        before = snapshot(a)
        v = text = str_var('later')
        run(setattr, obj, 'title', v)
        run(setattr, obj, 'autotype_sequence', v)
        run(obj.set_custom_property, 'k', v)
        run(setattr, obj, 'expires', True)
        fm = unchanged(a, before)
        e.check(fm, 'later edits of the entry do not alter the history item')
    return f

def tree(a):
    out = [a]
    for k in a.kids:
        if isinstance(k, SNode): out += tree(k)
        elif isinstance(k, SegRef):
            for c in list(k.seg.slots.values()) + [s for _, s in k.seg.strings] + k.repl: out += tree(c)
    return out
def snapshot(a): return [(x, x.tform(), list(x.kids), [(list(k.out), list(k.repl)) if isinstance(k, SegRef) else None for k in x.kids], {k: x.aform(k) for k in ('Protected',)}) for x in tree(a)]
def unchanged(a, before):
    fs = []
    for x, (n, v), kids, segs, at in before:
        n2, v2 = x.tform()
        fs.append(z3.And(n == n2, z3.Or(n, v == v2)))
        if len(kids) != len(x.kids) or any(p is not q for p, q in zip(kids, x.kids)): return z3.BoolVal(False)
        for p, s in zip(x.kids, segs):
            if s is not None and (len(p.out) != len(s[0]) or len(p.repl) != len(s[1])): return z3.BoolVal(False)
        for k, (h, v) in at.items():
            h2, v2 = x.aform(k)
            fs.append(z3.And(h == h2, z3.Implies(h, v == v2)))
    return z3.And(fs)

def delete_one(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = entry(env)
        had, h = hist(n)
        item = w.any('Entry', 'item')
        e.assume(dom.F_hist(item.z))
        it = env.History(item)
        mine = item is not n and item.getparent() is h and had
        _, exc = run(obj.delete_history, it)
        if exc is not None:
            e.decided(not mine, 'a history item of the entry can be deleted', repr(exc))
            w.frame('a refused delete_history changes nothing')
            return
        e.decided(mine, 'only items of this entry are deleted')
        ok = len(h.kids) == 1 and isinstance(h.kids[0], SegRef) and h.kids[0].out == [item] and not h.kids[0].repl and not h.kids[0].some and not h.kids[0].all
        e.decided(ok, 'delete_history removes exactly the item', repr([vars(k) for k in h.kids if isinstance(k, SegRef)]))
        w.frame('delete_history changes nothing else', [h])
    return f

def delete_all(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = entry(env)
        had, h = hist(n)
        _, exc = run(obj.delete_history, all=True)
        e.decided(exc is None, 'deleting all history succeeds', repr(exc))
        if exc is not None: return
        got = n.find('History')
        if got is not None:
            # an empty history is as good as none
            e.decided(not any(isinstance(k, SNode) for k in got.kids) and all('Entry' in k.all for k in got.kids if isinstance(k, SegRef)), 'no history item remains', repr(got.kids))
            w.frame('deleting all history changes nothing else', [h, n])
        else:
            ok = len(n.kids) == 1 and isinstance(n.kids[0], SegRef) and n.kids[0].out == ([h] if had else []) and not n.kids[0].repl and not n.kids[0].some and not n.kids[0].all
            e.decided(ok, 'deleting all history removes only the history', repr(n.kids))
            w.frame('deleting all history changes nothing else', [n])
        e.decided(obj.history == [], 'no history remains')
    return f

def same_set(label, got, tag, spec, cls):
    """The list `got` holds, in document order, an object of class cls for exactly the nodes x of this tag with spec(x)."""
    e = eng()
    if isinstance(got, list):
        if got: raise Unsupported('a list of known nodes')
        g = SNode(dom.cur(), tag, z3.Const(e.fresh('any_' + tag), dom.Node), True, True, LAZY)
        e.check(z3.Not(spec(g)), label + ': all elements are found')
        return
    if isinstance(got, NodeSet): got = MapList(got, got.generic(), []); raise Unsupported('elements that are not wrapped')
    if not isinstance(got, MapList): raise Unsupported('unknown kind of list: %s' % type(got).__name__)
    e.decided(got.src.tag == tag, label + ': finds elements of the right kind', got.src.tag)
    g = got.g
    member = z3.And(got.src.holds(g), z3.Or([c for c, _ in got.cases]) if got.cases else z3.BoolVal(False))
    e.check(member == spec(g), label + ': finds exactly the elements that belong')
    for c, v in got.cases:
        e.decided(type(v) is cls and v._element is g, label + ': gives each element as an object', repr(type(v)))

def read(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = entry(env)
        had, h = hist(n)
        got = obj.history
        same_set('history', got, 'Entry', lambda x: z3.And(z3.BoolVal(had), dom.F_parent(x.z) == h.z), env.me.HistoryEntry)
        w.frame('reading the history changes nothing')
    return f

def group_entries(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n = w.any('Group', 'group')
        g = env.Group(n)
        got = g.entries
        same_set('entries of a group', got, 'Entry', lambda x: dom.F_parent(x.z) == n.z, env.me.Entry)
        got = g.subgroups
        same_set('subgroups of a group', got, 'Group', lambda x: dom.F_parent(x.z) == n.z, env.mg.Group)
        w.frame('reading entries changes nothing')
    return f

def tasks(thorough):
    out = []
    for v in (4, 3):
        t = ' (KDBX %d)' % v
        out += [Task('save_history' + t, save(v)), Task('delete_history of one item' + t, delete_one(v)), Task('delete_history(all)' + t, delete_all(v)),
                Task('history' + t, read(v)), Task('Group.entries, subgroups' + t, group_entries(v))]
    return out
