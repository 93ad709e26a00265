"""C18: contracts of path and of the look-up by path."""
import z3
from ..core import eng, mk_bool, SymBool, Unsupported, axiom, PathEnd
from ..values import *
from .. import dom, libs
from ..dom import SNode, LAZY, F_tval, F_tnone, F_parent, F_depth, F_hist
from ..kpmod import Env, run
from ..verify import Task
from ..bounded.c18 import *
from ..heaploops import name_of, same_names, ChainList
from ..paths import NameSeq
from .c09 import check_first, exact, rx, string, slots
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of Entry.path, Group.path (loop invariant: the names collected so far are those between the start and the group reached, for groups nested to any depth), root_group, is_root_group and of '
              'find_entries, find_groups and the deprecated forms by path, for path lists of any length (induction over the names) and arbitrary documents. lxml and its XPath evaluation are assumed contracts. '
              'The lemma that joins both views of a path is proved by induction over the names.')
ASSUMPTIONS = ['documents follow the KDBX schema (dom.py)', 'every group has a name and every entry a title (an unnamed group is left out of paths)', 'names in a path contain no double quote and are not empty (known findings)']

def has_path(w, x, names, ok, key):
    """Formula: x (an entry or group, ghost) lies at this path."""
    fs = []
    up = list(names)
    if x.tag == 'Entry':
        fs += [z3.Not(F_hist(x.z)), string(x, 'Title', ok(up.pop()))]
        x = w.parent_ghost(w.ghost(x.tag, x.z), 'Group')
    while up:
        fs += [x.z != w.rootgroup.z, slots(x, ['Name'], ok(up.pop()))]
        x = w.parent_ghost(w.ghost(x.tag, x.z), 'Group')
    fs.append(x.z == w.rootgroup.z)
    return z3.And(fs)

def lookup(tag, k, version):
    """k: number of names, or None for any number."""
    def f():
        e = eng()
        env = Env(version); w = env.w
        names = []
        for i in range(k or 0):
            v = str_var('name')
            e.assume(z3.Length(v.e) > 0)
            names.append(v)
        fn = env.kp.find_entries if tag == 'Entry' else env.kp.find_groups
        kw = {}
        m = e.choose(3, 'first given or not; deprecated form')
        if m == 1: kw['first'] = True
        ok = exact
        arg = list(names)
        spec = lambda x: has_path(w, x, names, ok, None)
        if k is None:
            arg = NameSeq(lambda w, g, nm: slots(g, ['Name'], ok(nm)), dom.Node)
            def spec(x):
                p = w.parent_ghost(w.ghost(x.tag, x.z), 'Group')
                if tag == 'Entry': return z3.And(z3.Not(F_hist(x.z)), string(x, 'Title', ok(arg.last)), arg.at(p.z))
                return z3.And(x.z != w.rootgroup.z, slots(x, ['Name'], ok(arg.last)), arg.at(p.z))
        if m == 2: got, exc = run(env.kp.find_entries_by_path if tag == 'Entry' else env.kp.find_groups_by_path, arg)
        else: got, exc = run(fn, path=arg, **kw)
        if not e.decided(exc is None, 'looking up a path succeeds', repr(exc)): return
        check_first(w, got, tag, spec, env.me.Entry if tag == 'Entry' else env.mg.Group, 'the element at a path of %s names' % ('any number of' if k is None else k))
        w.frame('looking up a path changes nothing')
    return f

def named(w):
    """Every group has a name, every entry a title."""
    def fact(n):
        if n.tag == 'Group': axiom(name_of(w, n)[0])
        if n.tag == 'Entry':
            pres, s = n.string('Title')
            axiom(z3.And(pres, z3.Not(F_tnone(s.kids0[1].z))))
    w.facts.append(fact)
    for n in list(w.nodes):
        if n.tag in ('Group', 'Entry') and n.init: fact(n)

def path(tag, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        named(w)
        n = w.any(tag, 'element')
        got, exc = run(lambda: (env.Entry(n) if tag == 'Entry' else env.Group(n)).path)
        if not e.decided(exc is None, 'the path can be read', repr(exc)): return
        if not e.decided(isinstance(got, (list, ChainList)), 'the path is a list', repr(type(got))): return
        if tag == 'Group': z, last = n.z, []
        else:
            p = n.getparent()
            while p.tag != 'Group': p = p.getparent()
            z, last = p.z, [SymStr(F_tval(n.string('Title')[1].kids0[1].z))]
        f = same_names(w, got, z, last)
        what = 'the path is the names of the groups above, outermost first, and the own %s' % ('title' if tag == 'Entry' else 'name')
        if e.decided(f is not None, what, repr(getattr(got, 'items', got))): e.check(f, what)
        w.frame('reading a path changes nothing')
    return f

def root(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        got, exc = run(lambda: env.kp.root_group)
        if not e.decided(exc is None and type(got) is env.mg.Group, 'there is a root group', repr((got, exc))): return
        e.decided(got._element is w.rootgroup, 'the root group is the group at the empty path')
        p, exc = run(lambda: got.path)
        e.decided(exc is None and isinstance(p, list) and p == [], "the root group's path is empty", repr((p, exc)))
        e.decided(bool(got.is_root_group) is True, 'the root group knows that it is')
        n = w.any('Group', 'group')
        e.decided(bool(env.Group(n).is_root_group) == (n is w.rootgroup), 'no other group is the root group')
        w.frame('reading the root group changes nothing')
    return f

SSeq = z3.SeqSort(z3.StringSort())
NAMES = z3.Function('names_of_path', dom.Node, SSeq)        # names(root) == [], names(g) == names(parent of g) + [name of g]

def same_path(tag):
    """Lemma: the two views of a path agree, so that the element found by the path of an element has that path.
    By induction over the list of names: reached(g, L) == (names(g) == L) for all groups g, where reached(g, []) == (g is the root group) and
    reached(g, M + [n]) == (g is not the root group, its name is n, and reached(parent of g, M))."""
    def f():
        e = eng()
        env = Env(4); w = env.w
        g = w.any(tag, 'element')
        if tag == 'Entry': e.assume(z3.Not(F_hist(g.z)))
        p = w.parent_ghost(w.ghost(g.tag, g.z), 'Group')
        M, n = z3.Const(e.fresh('first_names'), SSeq), str_var('last_name')
        e.assume(z3.Length(n.e) > 0)
        below = z3.Function(e.fresh('reached_by_first_names'), dom.Node, z3.BoolSort())
        axiom(below(p.z) == (NAMES(p.z) == M))              # induction hypothesis, for the parent
        L = z3.Concat(M, z3.Unit(n.e))
        if tag == 'Entry':
            pres, s = g.string('Title')
            axiom(z3.And(pres, z3.Not(F_tnone(s.kids0[1].z))))
            own = z3.Concat(NAMES(p.z), z3.Unit(F_tval(s.kids0[1].z)))
            e.check(z3.And(string(g, 'Title', exact(n)), below(p.z)) == (own == L), 'lemma: an entry lies at a path exactly when the path is its own')
            return
        root = g.z == w.rootgroup.z
        ok, nm = name_of(w, g)
        axiom(ok)
        axiom(z3.If(root, NAMES(g.z) == z3.Empty(SSeq), NAMES(g.z) == z3.Concat(NAMES(p.z), z3.Unit(nm))))
        e.check(root == (NAMES(g.z) == z3.Empty(SSeq)), 'lemma: the empty path is that of the root group alone')
        e.check(z3.And(z3.Not(root), slots(g, ['Name'], exact(n)), below(p.z)) == (NAMES(g.z) == L), 'lemma: a group lies at a path exactly when the path is its own')
    return f

def tasks(thorough):
    out = []
    for v in (4, 3):
        t = ' (KDBX %d)' % v
        if v == 4: out += [Task('lemma: own path of an entry', same_path('Entry')), Task('lemma: own path of a group', same_path('Group'))]
        out += [Task('root group' + t, root(v)), Task('path of an entry' + t, path('Entry', v)), Task('path of a group' + t, path('Group', v))]
        for tag in ('Entry', 'Group'): out.append(Task('find_%s(path of any length)%s' % ({'Entry': 'entries', 'Group': 'groups'}[tag], t), lookup(tag, None, v)))
        for k in range(0, 4): 
            out.append(Task('find_groups(path of %d names)%s' % (k, t), lookup('Group', k, v)))
            if k: out.append(Task('find_entries(path of %d names)%s' % (k, t), lookup('Entry', k, v)))
    return out
