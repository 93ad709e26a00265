"""C08: contracts of trashing."""
import z3
from ..core import eng, mk_bool, SymBool, Unsupported, axiom, PathEnd
from ..values import *
from .. import dom, libs, dtmod
from ..dom import SNode, SegRef, LAZY, F_tval, F_tnone, uuid_text
from ..kpmod import Env, run
from ..verify import Task
from ..bounded.c08 import *
from .c07 import segok, moved, pick
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of trash_entry, trash_group, recyclebin_group, _can_be_moved_to_recyclebin and _create_or_get_recyclebin_group discharged for an arbitrary element of an arbitrary document with and without an existing '
              'recycle bin (anywhere in the tree), and for a second trashing after the bin was created. lxml and uuid are assumed contracts. The same contracts are evaluated on the unmodified code.')
ASSUMPTIONS = ['documents follow the KDBX schema (dom.py); RecycleBinUUID holds the base64 of 16 bytes', 'no two groups or current entries have the same UUID', 'a generated UUID is different from all others',
               'trashing a group that contains the recycle bin is outside the property']

def meta(env): return env.w.meta.slot('RecycleBinUUID')[1]

def world(exists, version):
    """(env, bin): the database names an existing group as its recycle bin, or none."""
    e = eng()
    env = Env(version); w = env.w
    w.unique_uuids()
    m = meta(env)
    axiom(z3.Not(F_tnone(m.z))); uuid_text(F_tval(m.z))
    axiom(z3.Not(z3.Function('is_fresh_uuid', B, z3.BoolSort())(libs.unb64text(F_tval(m.z)))))
    if exists:
        b = w.any('Group', 'bin')
        e.assume(F_tval(b.slot('UUID')[1].z) == F_tval(m.z))
        return env, b
    def fact(n):
        if n.tag == 'Group' and n.init: axiom(F_tval(n.slot('UUID')[1].z) != F_tval(m.z))
    w.facts.append(fact)
    for n in w.nodes: fact(n)
    return env, None

def target(env, kind, name='x'):
    w = env.w
    n = w.any('Entry' if kind == 'entry' else 'Group', name)
    if kind == 'entry': eng().assume(z3.Not(dom.F_hist(n.z)))
    return n, (env.Entry if kind == 'entry' else env.Group)(n), (env.kp.trash_entry if kind == 'entry' else env.kp.trash_group)

def refusal(env, n, b, exc):
    """Trashing the root group or the bin must be refused; returns True when the call is done with."""
    e = eng()
    w = env.w
    must = n is w.rootgroup or n is b
    if must:
        e.decided(isinstance(exc, env.m.UnableToSendToRecycleBin), 'trashing the root group or the recycle bin raises UnableToSendToRecycleBin', repr(exc))
        w.frame('a refused trashing changes nothing')
        e.decided(not [x for x in w.created if w.in_tree(x)], 'a refused trashing creates nothing')
        return True
    if exc is not None:
        inside = b is not None and n.tag == 'Group' and bool(mk_bool(w.below(b, n)))
        e.decided(inside, 'every other element can be trashed', repr(exc))
        w.frame('a failed trashing changes nothing')
        return True
    return False

def existing(kind):
    def f():
        e = eng()
        env, b = world(True, None); w = env.w
        got, exc = run(lambda: env.kp.recyclebin_group)
        e.decided(exc is None and got is not None and got._element is b, 'the recycle bin is the group the database names', repr(exc))
        n, obj, trash = target(env, kind)
        src = n.getparent()
        _, exc = run(trash, obj)
        if refusal(env, n, b, exc): return
        moved('the %s is moved into the recycle bin' % kind, n, src, b)
        e.decided(not [x for x in w.created if w.in_tree(x)], 'no second recycle bin is created')
        w.frame('trashing changes nothing else', [src, b])
    return f

def missing(kind, again):
    def f():
        e = eng()
        env, _ = world(False, None); w = env.w
        got, exc = run(lambda: env.kp.recyclebin_group)
        e.decided(exc is None and got is None, 'there is no recycle bin', repr(exc))
        n, obj, trash = target(env, kind)
        if again and n is w.rootgroup: raise PathEnd()
        src = n.getparent()
        _, exc = run(trash, obj)
        if refusal(env, n, None, exc): return
        new = [x for x in w.created if x.tag == 'Group']
        if not e.decided(len(new) == 1, 'exactly one recycle bin is created', repr(new)): return
        b, root = new[0], w.rootgroup
        e.decided(b._p is root and len(root.kids) == 2 and segok(root.kids[0], root, [n] if src is root else []) and root.kids[1] is b, 'the recycle bin is created under the root group', repr(root.kids))
        e.decided(n._p is b and [k for k in b.kids if k.tag in ('Entry', 'Group')] == [n] and b.kids[-1] is n, 'the %s is moved into the new recycle bin' % kind, repr(b.kids))
        if src is not root: e.decided(len(src.kids) == 1 and segok(src.kids[0], src, [n]), 'the %s leaves its old place' % kind, repr(src.kids))
        u = [k for k in b.kids if k.tag == 'UUID']
        m = meta(env)
        e.decided(len(u) == 1 and not m.kids, 'the recycle bin has a UUID')
        (n1, v1), (n2, v2) = m.tform(), u[0].tform()
        e.check(z3.And(z3.Not(n1), z3.Not(n2), v1 == v2), 'the new group is recorded as the recycle bin')
        w.frame('trashing changes nothing else', [root, src, m])
        got, exc = run(lambda: env.kp.recyclebin_group)
        e.decided(exc is None and got is not None and got._element is b, 'the new group is the recycle bin', repr(exc))
        if not again: return
        n2, obj2, trash2 = target(env, again, 'y')
        if n2 is n or n2 is root or n2.tag == 'Group' and n.tag in ('Group', 'Entry') and bool(mk_bool(dom.F_below(n.z, n2.z))) or bool(mk_bool(dom.F_below(n2.z, n.z))): raise PathEnd()
        src2 = n2.getparent()
        if src2 is n: raise PathEnd()
        _, exc = run(trash2, obj2)
        e.decided(exc is None, 'a second element can be trashed', repr(exc))
        if exc is not None: return
        e.decided(len([x for x in w.created if x.tag == 'Group']) == 1, 'no second recycle bin is created')
        e.decided(n2._p is b and b.kids[-2:] == [n, n2], 'the second element is moved into the same recycle bin', repr(b.kids))
        w.frame('the second trashing changes nothing else', [root, src, src2, m])
    return f

def tasks(thorough):
    out = []
    for k in ('entry', 'group'):
        out += [Task('trash_%s: recycle bin exists' % k, existing(k)), Task('trash_%s: no recycle bin' % k, missing(k, None)), Task('trash_%s, then an entry' % k, missing(k, 'entry')), Task('trash_%s, then a group' % k, missing(k, 'group'))]
    return out
