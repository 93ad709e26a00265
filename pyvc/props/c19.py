"""C19: contracts of add_entry and add_group: what a new element holds."""
import z3
from ..core import eng, mk_bool, SymBool, Unsupported, axiom, PathEnd
from ..values import *
from .. import dom, libs, dtmod
from ..dom import SNode, SegRef, LAZY, F_tval, F_tnone, F_parent
from ..dtmod import any_dt, clocks, SymDT, US, DAY, MAXWALL, local_offset
from ..kpmod import Env, run
from ..verify import Task
from ..bounded.c19 import *
from .c06 import reads
from .c07 import segok
from .c12 import check_instant
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of add_entry, add_group and the constructors of Entry, Group and BaseElement discharged for arbitrary values of every argument (any subset of the optional ones given), any expiry time with any '
              'offset or naive, any destination of an arbitrary document; refusal of duplicates decided against an arbitrary entry of the destination. lxml, datetime and uuid are assumed contracts. '
              'The same contracts are evaluated on the unmodified code.')
ASSUMPTIONS = ['documents follow the KDBX schema (dom.py)', 'a generated UUID is different from all others', 'title and user name are not empty and contain no double quote (known findings); other given texts are not empty',
               'instants at least one day inside the range of datetime']
UTC = None
STR = {'url': 'URL', 'notes': 'Notes', 'otp': 'otp'}

def text(nm, empty=False):
    v = str_var(nm)
    eng().assume(dom.F_xmlok(v.e))
    if not empty: eng().assume(z3.Length(v.e) > 0)
    return v

def one(x, tag):
    k = [c for c in x.kids if isinstance(c, SNode) and c.tag == tag]
    return k[0] if len(k) == 1 else None

def check_common(env, x, obj, icon, exp, cl, base):
    """UUID, icon and times of a new element."""
    e = eng()
    u = one(x, 'UUID')
    if e.decided(u is not None, 'a new element has one UUID'):
        none, v = u.tform()
        f = z3.Function('is_fresh_uuid', B, z3.BoolSort())
        e.check(z3.And(z3.Not(none), libs.b64valid(v), f(libs.unb64text(v))), 'the UUID of a new element is fresh')
    ic = one(x, 'IconID')
    if icon is None: e.decided(not [c for c in x.kids if c.tag == 'IconID'] and obj.icon is None, 'no icon unless one was given')
    elif e.decided(ic is not None, 'the icon given is stored'): e.check(reads(obj.icon, icon), 'the icon is the one given')
    e.decided(all(isinstance(c, SNode) for c in x.kids) and len([c for c in x.kids if c.tag == 'Times']) == 1, 'a new element has one set of times')
    for a in ('ctime', 'mtime', 'atime'):
        got, exc = run(getattr, obj, a)
        if not e.decided(exc is None and isinstance(got, SymDT), a + ' can be read', repr((got, exc))): continue
        if not e.decided(bool(cl), 'the clock is read'): continue
        lo = zint(cl[0]) if env.version == 3 else (zint(cl[0]) / US) * US
        e.check(z3.And(zint(got.instant) >= lo, zint(got.instant) <= zint(cl[-1])), '%s of a new element is now' % a)
    got, exc = run(lambda: obj.expires)
    if e.decided(exc is None and isinstance(got, (bool, SymBool)), 'expires can be read', repr((got, exc))):
        e.check(got if exp is not None else (not got if isinstance(got, bool) else ~got), 'a new element expires exactly when a time is given')
    if exp is not None:
        got, exc = run(lambda: obj.expiry_time)
        if e.decided(exc is None, 'the expiry time can be read', repr(exc)): check_instant('the expiry time', got, exp, env.version)

def entry(version, part):
    def f():
        e = eng()
        env = Env(version); w = env.w
        w.unique_uuids()
        dst = w.any('Group', 'destination')
        title, user, pw = text('title'), text('username'), text('password', empty=True)
        names = ['url', 'notes', 'otp', 'tags', 'icon']
        exp, kw, want = None, {}, {'Title': title, 'UserName': user, 'Password': pw}
        tags = None
        given = []
        if part == 'expiry': given = names if e.choose(2, 'other fields given') else []
        else: given = [a for a in names if a != 'tags' and e.choose(2, a + ' given')] + (['tags'] if part != 'no tags' else [])
        for a in given:
            if a in STR: kw[a] = text(a); want[STR[a]] = kw[a]
            elif a == 'icon': kw[a] = text(a)
            else:
                m = {'tags': 0, 'one tag': 1}.get(part, 2)
                if m == 0: kw[a] = text('tags'); tags = kw[a]
                else:
                    ts = [text('tag%d' % i) for i in range(m)]
                    kw[a] = list(ts); tags = ts[0] if m == 1 else ts[0] + ';' + ts[1]
                    e.assume(dom.F_xmlok(zs(tags)))
        if part == 'expiry':
            naive = bool(e.choose(2, 'aware or naive'))
            t = any_dt('expiry', naive=naive, lo=3 * DAY, hi=MAXWALL - 3 * DAY)
            kw['expiry_time'] = t
            exp = t.instant if not naive else t.wall - local_offset(t.wall)
        k0 = len(clocks())
        obj, exc = run(env.kp.add_entry, env.Group(dst), title, user, pw, force_creation=True, **kw)
        if not e.decided(exc is None, 'the entry is added', repr(exc)): return
        cl = clocks()[k0:]
        x = getattr(obj, '_element', None)
        if not e.decided(type(obj) is env.me.Entry and isinstance(x, SNode) and not x.init and x._p is dst, 'the new entry is returned'): return
        e.decided(len(dst.kids) == 2 and segok(dst.kids[0], dst) and dst.kids[1] is x, 'exactly one entry is added', repr(dst.kids))
        strs = {}
        for c in x.kids:
            if c.tag != 'String': continue
            ok = [z.tag for z in c.kids] == ['Key', 'Value'] and isinstance(c.kids[0]._t, str) and c.kids[0]._t not in strs
            if not e.decided(ok, 'every field of the new entry has one key and one value', repr(c.kids)): return
            strs[c.kids[0]._t] = c.kids[1]
        if not e.decided(set(strs) == set(want), 'the new entry has exactly the fields given', '%s instead of %s' % (sorted(strs), sorted(want))): return
        for key, v in want.items():
            none, val = strs[key].tform()
            e.check(z3.And(z3.Or(z3.Not(none), zs(v) == z3.StringVal('')), z3.Or(none, val == zs(v))), '%s is the value given' % key)
        for key in ('Password', 'otp'):
            if key in strs:
                h, v = strs[key].aform('Protected')
                e.check(z3.And(h, v == z3.StringVal('True')), '%s of a new entry is marked protected' % key)
        e.decided(not [c for c in x.kids if c.tag not in ('UUID', 'IconID', 'Times', 'String', 'Tags', 'AutoType')], 'the new entry holds nothing else', repr([c.tag for c in x.kids]))
        tg = [c for c in x.kids if c.tag == 'Tags']
        if tags is None: e.decided(not tg, 'no tags unless given')
        elif e.decided(len(tg) == 1, 'the tags given are stored'):
            none, val = tg[0].tform()
            e.check(z3.And(z3.Not(none), val == zs(tags)), 'the tags are those given')
        for a, key in (('title', 'Title'), ('username', 'UserName'), ('password', 'Password'), ('url', 'URL'), ('notes', 'Notes'), ('otp', 'otp')):
            got, exc = run(getattr, obj, a)
            if e.decided(exc is None, a + ' can be read', repr(exc)): e.check(reads(got, want.get(key)), a + ' reads as given')
        for a in ('autotype_sequence', 'autotype_window'):
            got, exc = run(getattr, obj, a)
            if e.decided(exc is None, a + ' can be read', repr(exc)): e.check(reads(got, ''), a + ' is not set unless given')
        check_common(env, x, obj, kw.get('icon'), exp, cl, None)
        w.frame('adding an entry changes nothing else', [dst])
    return f

def group(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        w.unique_uuids()
        dst = w.any('Group', 'destination')
        name = text('name')
        icon = text('icon') if e.choose(2, 'icon') else None
        notes = text('notes') if e.choose(2, 'notes') else None
        kw = {}
        if icon is not None: kw['icon'] = icon
        if notes is not None: kw['notes'] = notes
        k0 = len(clocks())
        obj, exc = run(env.kp.add_group, env.Group(dst), name, **kw)
        if not e.decided(exc is None, 'the group is added', repr(exc)): return
        cl = clocks()[k0:]
        x = getattr(obj, '_element', None)
        if not e.decided(type(obj) is env.mg.Group and isinstance(x, SNode) and not x.init and x._p is dst, 'the new group is returned'): return
        e.decided(len(dst.kids) == 2 and segok(dst.kids[0], dst) and dst.kids[1] is x, 'exactly one group is added', repr(dst.kids))
        e.check(reads(obj.name, name), 'the name is the one given')
        e.decided(len([c for c in x.kids if c.tag == 'Name']) == 1, 'a new group has one name')
        if notes is None: e.decided(obj.notes is None, 'no notes unless given')
        else: e.check(reads(obj.notes, notes), 'the notes are those given')
        e.decided(not [c for c in x.kids if c.tag not in ('UUID', 'IconID', 'Times', 'Name', 'Notes')], 'the new group holds nothing else', repr([c.tag for c in x.kids]))
        check_common(env, x, obj, icon, None, cl, None)
        w.frame('adding a group changes nothing else', [dst])
    return f

def duplicate(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        dst = w.any('Group', 'destination')
        m = w.any('Entry', 'entry')
        e.assume(z3.Not(dom.F_hist(m.z)))
        p = m.getparent()
        title, user, pw = text('title'), text('username'), text('password')
        force = bool(e.choose(2, 'force_creation'))
        def same(n):
            fs = []
            for key, v in (('Title', title), ('UserName', user)):
                pres, s = n.string(key)
                none, val = s.kids0[1].z, None
                vz = s.kids0[1].z
                fs += [pres, z3.Not(F_tnone(vz)), F_tval(vz) == zs(v)]
            return z3.And(fs)
        spec = same(m)
        kw = {'force_creation': True} if force else {}
        _, exc = run(env.kp.add_entry, env.Group(dst), title, user, pw, **kw)
        if exc is not None:
            e.decided(not force, 'a forced addition is not refused', repr(exc))
            cand = [n for n in w.nodes if n.tag == 'Entry' and n.init and not n.ghost and n._p is dst]
            e.check(z3.Or([same(n) for n in cand]) if cand else False, 'an addition is refused only when an entry of the group has the same title and user name', repr(exc))
            w.frame('a refused addition changes nothing')
            return
        if not force and p is dst: e.check(z3.Not(spec), 'an addition is refused when an entry of the group has the same title and user name')
        else: e.decided(True, 'the entry is added')
    return f

def tasks(thorough):
    out = []
    for v in (4, 3):
        t = ' (KDBX %d)' % v
        out += [*[Task('add_entry: fields, %s%s' % (k, t), entry(v, k)) for k in ('no tags', 'tags', 'one tag', 'two tags')], Task('add_entry: expiry' + t, entry(v, 'expiry')), Task('add_group' + t, group(v)), Task('add_entry: duplicates' + t, duplicate(v))]
    return out
