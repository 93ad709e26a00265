"""C09: contracts of the searches."""
import z3
from ..core import eng, mk_bool, SymBool, Unsupported, as_z3, axiom
from ..values import *
from .. import dom, libs, dtmod
from ..dom import SNode, MapList, LAZY, F_tval, F_tnone, F_parent, F_below, F_hist, F_retest, F_order
from ..dtmod import SymUUID
from ..kpmod import Env, run
from ..verify import Task
from ..bounded.c09 import *
from .c11 import same_set
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of find_entries, find_groups, find_attachments, entries, groups, attachments and the deprecated searches discharged for an arbitrary document, arbitrary criteria values, every single '
              'criterion, every pair of criteria and all criteria together, with and without regex, history, first, group and recursive: the set the XPath expression denotes is proved equal to the set of matching elements. '
              'lxml, its XPath evaluation and re:test are assumed contracts; combinations of three to all but one criteria are covered by the bounded check, which evaluates the same contracts on the unmodified code.')
ASSUMPTIONS = ['documents follow the KDBX schema (dom.py)', 'search values contain no double quote and are not empty (known findings)', 're:test with the pattern .* matches every text']

STRS = {'title': 'Title', 'username': 'UserName', 'password': 'Password', 'url': 'URL', 'notes': 'Notes', 'otp': 'otp'}
CLS = {'Entry': lambda env: env.me.Entry, 'Group': lambda env: env.mg.Group, 'Binary': lambda env: env.ma.Attachment}

def txt(present, n, ok):
    """n exists and its text satisfies ok (a function of absent, value)."""
    none, val = n.tform()
    return z3.And(present, ok(none, val))
def exact(v): return lambda none, val: z3.And(z3.Not(none), val == zs(v))
def rx(v, flags): return lambda none, val: F_retest(z3.If(none, z3.StringVal(''), val), zs(v), zs(flags))
def string(x, key, ok):
    pres, s = x.string(key)
    return txt(pres, s.kids[1], ok)
def slots(x, tags, ok):
    fs = []
    for t in tags:
        pres, x = x.slot(t)
        fs.append(pres)
    return txt(z3.And(fs), x, ok)

def crit_value(name, regex):
    """(argument, spec of an element x)"""
    e = eng()
    fl = 'None' if regex is True else regex
    test = (lambda v: rx(v, fl)) if regex else exact
    def s(nm):
        v = str_var(nm)
        e.assume(z3.Length(v.e) > 0)
        return v
    if name in STRS and name != 'notes':
        v = s(name); return v, lambda x: string(x, STRS[name], test(v))
    if name == 'notes':
        v = s(name); return v, lambda x: string(x, 'Notes', test(v)) if x.tag == 'Entry' else slots(x, ['Notes'], test(v))
    if name == 'name':
        v = s(name); return v, lambda x: slots(x, ['Name'], test(v))
    if name == 'string':
        k1, v1, v2 = s('key'), s('val'), s('val')
        e.assume(k1.e != z3.StringVal('fixed'))
        return {k1: v1, 'fixed': v2} if False else KeyDict([(k1, v1), ('fixed', v2)]), lambda x: z3.And(string(x, k1, test(v1)), string(x, 'fixed', test(v2)))
    if name == 'uuid':
        u = dtmod.fresh_uuid() if False else any_uuid()
        t = libs.b64encode(u.bytes).decode()
        return u, lambda x: slots(x, ['UUID'], test(t))
    if name == 'tags':
        a, b = s('tag'), s('tag')
        has = lambda none, val: z3.And(z3.Contains(z3.If(none, z3.StringVal(''), val), a.e), z3.Contains(z3.If(none, z3.StringVal(''), val), b.e))
        return [a, b], lambda x: slots(x, ['Tags'], has)
    if name == 'autotype_sequence':
        v = s(name); return v, lambda x: slots(x, ['AutoType', 'DefaultSequence'], test(v))
    if name == 'autotype_window':
        v = s(name); return v, lambda x: slots(x, ['AutoType', 'Association', 'Window'], test(v))
    if name == 'autotype_enabled':
        b = bool(e.choose(2, 'enabled'))
        return b, lambda x: slots(x, ['AutoType', 'Enabled'], test(str(b)))
    if name == 'filename':
        v = s(name); return v, lambda x: txt(z3.BoolVal(True), x.kids[0], test(v))
    if name == 'id':
        if regex: v = t = s('id')
        else:
            v = int_var('id', 0)
            t = libs.int_to_text(v)
        def spec(x):
            h, a = x.kids[1].aform('Ref')
            return z3.And(h, a == zs(t)) if not regex else F_retest(z3.If(h, a, z3.StringVal('')), zs(t), zs(fl))
        return v, spec
    raise AssertionError(name)

class KeyDict(dict):
    """A dict with symbolic keys, which are assumed different."""
    def __init__(self, items): self._i = list(items)
    def items(self): return list(self._i)
    def keys(self): return [k for k, _ in self._i]
    def values(self): return [v for _, v in self._i]
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self._i)
    def __bool__(self): return bool(self._i)
    def __getitem__(self, k):
        for a, b in self._i:
            if a is k: return b
        raise KeyError(k)

def any_uuid():
    b = bytes_var('uuid', 16)
    return SymUUID(b)

KEYS = {'Entry': list(STRS) + ['string', 'uuid', 'tags', 'autotype_sequence', 'autotype_window', 'autotype_enabled'], 'Group': ['name', 'notes', 'uuid'], 'Binary': ['filename', 'id']}
FUN = {'Entry': 'find_entries', 'Group': 'find_groups', 'Binary': 'find_attachments'}

def scope(env, tag):
    """(keyword arguments, spec of the domain)."""
    e = eng(); w = env.w
    k = e.choose(3 if tag != 'Binary' else 4, 'scope: whole database, below or directly below')
    if k == 0: return {}, lambda x: z3.BoolVal(True)
    if tag == 'Binary':
        if k == 1:
            n = w.any('Group', 'scope')
            return {'element': env.Group(n)}, lambda x: F_below(x.z, n.z)
        n = w.any('Entry', 'scope')
        if k == 2: return {'element': env.Entry(n)}, lambda x: F_below(x.z, n.z)
        return {'element': env.Entry(n), 'recursive': False}, lambda x: F_parent(x.z) == n.z
    n = w.any('Group', 'scope')
    if k == 1: return {'group': env.Group(n)}, lambda x: F_below(x.z, n.z)
    return {'group': env.Group(n), 'recursive': False}, lambda x: F_parent(x.z) == n.z

def hist(x):
    """x lies in the history of an entry."""
    if x.tag == 'Group': return z3.BoolVal(False)
    if x.tag == 'Binary': axiom(F_hist(x.z) == F_hist(F_parent(x.z)))
    return F_hist(x.z)

def check_first(w, got, tag, spec, cls, what):
    e = eng()
    g = SNode(w, tag, z3.Const(e.fresh('other_' + tag), dom.Node), True, True, LAZY)
    sg = spec(g)
    w.order_facts(g)
    if got is None:
        e.check(z3.Not(sg), what + ': None only when nothing matches')
        return
    if not e.decided(type(got) is cls and isinstance(got._element, SNode), what + ': returns one element', repr(type(got))): return
    e.check(spec(got._element), what + ': the element returned matches')
    e.check(z3.Implies(sg, F_order(got._element.z) <= F_order(g.z)), what + ': no matching element comes earlier')

def search(tag, names, regex, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        kw, dom_spec = scope(env, tag)
        crits = []
        for nm in names:
            v, sp = crit_value(nm, regex)
            kw[nm] = v; crits.append(sp)
        if len(names) == 1 and names[0] in ('title', 'name', 'filename') and e.choose(2, 'a criterion of None'):
            other = [k for k in KEYS[tag] if k not in names and k not in ('string', 'uuid', 'tags')]
            if not other: return e.decided(True, 'nothing to check')
            kw[other[-1]] = None
        history = False
        if tag != 'Group' and e.choose(2, 'history'): kw['history'] = history = True
        if regex:
            kw['regex'] = True
            if regex is not True: kw['flags'] = regex
        def spec(x):
            return z3.And([dom_spec(x)] + ([] if history else [z3.Not(hist(x))]) + [c(x) for c in crits])
        first = e.choose(2, 'first')
        if first: kw['first'] = True
        what = '%s by %s' % (FUN[tag], ', '.join(names) or 'nothing')
        got, exc = run(getattr(env.kp, FUN[tag]), **kw)
        if not e.decided(exc is None, what + ' succeeds', repr(exc)): return
        if first: check_first(w, got, tag, spec, CLS[tag](env), what)
        else: same_set(what, got, tag, spec, CLS[tag](env))
        w.frame('searching changes nothing')
    return f

def listing(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        same_set('entries', env.kp.entries, 'Entry', lambda x: z3.Not(hist(x)), env.me.Entry)
        same_set('groups', env.kp.groups, 'Group', lambda x: z3.BoolVal(True), env.mg.Group)
        def att(x):
            t = x.kids[0]
            axiom(F_retest(z3.If(F_tnone(t.z), z3.StringVal(''), F_tval(t.z)), z3.StringVal('.*'), z3.StringVal('None')))
            return z3.Not(hist(x))
        same_set('attachments', env.kp.attachments, 'Binary', att, env.ma.Attachment)
        n = w.any('Entry', 'entry')
        same_set('attachments of an entry', env.Entry(n).attachments, 'Binary', lambda x: z3.And(att(x), F_parent(x.z) == n.z), env.ma.Attachment)
        w.frame('listing changes nothing')
    return f

DEP = {'find_groups_by_name': ('Group', 'name'), 'find_groups_by_uuid': ('Group', 'uuid'), 'find_groups_by_notes': ('Group', 'notes'),
       'find_entries_by_title': ('Entry', 'title'), 'find_entries_by_username': ('Entry', 'username'), 'find_entries_by_password': ('Entry', 'password'), 'find_entries_by_url': ('Entry', 'url'),
       'find_entries_by_notes': ('Entry', 'notes'), 'find_entries_by_uuid': ('Entry', 'uuid'), 'find_entries_by_string': ('Entry', 'string')}
def deprecated(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        name = list(DEP)[e.choose(len(DEP), 'function')]
        tag, c = DEP[name]
        regex = (False, 'i')[e.choose(2, 'regex')]
        v, sp = crit_value(c, regex)
        kw = {}
        if regex: kw['regex'] = True; kw['flags'] = regex
        dspec = lambda x: z3.BoolVal(True)
        if e.choose(2, 'group'):
            n = w.any('Group', 'scope'); kw['group'] = env.Group(n); dspec = lambda x: F_below(x.z, n.z)
        history = False
        if tag == 'Entry' and e.choose(2, 'history'): kw['history'] = history = True
        spec = lambda x: z3.And([dspec(x), sp(x)] + ([] if history else [z3.Not(hist(x))]))
        first = e.choose(2, 'first')
        if first: kw['first'] = True
        got, exc = run(getattr(env.kp, name), v, **kw)
        if not e.decided(exc is None, name + ' succeeds', repr(exc)): return
        if first: check_first(w, got, tag, spec, CLS[tag](env), name)
        else: same_set(name, got, tag, spec, CLS[tag](env))
    return f

def invalid(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        for n, k in (('find_entries', 'name'), ('find_groups', 'title'), ('find_attachments', 'url')):
            _, exc = run(getattr(env.kp, n), **{k: 'x'})
            e.decided(isinstance(exc, TypeError), '%s refuses an unknown criterion' % n, repr(exc))
        w.frame('a refused search changes nothing')
    return f

def tasks(thorough):
    # the searches do not depend on the file format; KDBX 3 is repeated in the thorough run
    out = []
    for v in (4, 3):
        t = ' (KDBX %d)' % v
        for tag in KEYS:
            for regex in (False, True, 'i'):
                for nm in KEYS[tag] if v == 4 or thorough or tag == 'Binary' else []:
                    if nm == 'uuid' and regex: continue
                    if regex == 'i' and nm in ('tags',): continue
                    out.append(Task('%s by %s%s%s' % (FUN[tag], nm, ' (regex%s)' % ('' if regex is True else ' ' + regex) if regex else '', t), search(tag, [nm], regex, v)))
            if v == 4 or thorough: out.append(Task('%s by all criteria%s' % (FUN[tag], t), search(tag, KEYS[tag], False, v)))
            if v == 4:
                for i, a in enumerate(KEYS[tag]):
                    for b in KEYS[tag][i + 1:]: out.append(Task('%s by %s and %s%s' % (FUN[tag], b, a, t), search(tag, [b, a], False, v)))
            out.append(Task('%s without criteria%s' % (FUN[tag], t), search(tag, [], False, v)))
        out += [Task('entries, groups, attachments' + t, listing(v)), Task('deprecated searches' + t, deprecated(v)), Task('unknown criteria' + t, invalid(v))]
    return out
