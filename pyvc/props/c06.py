"""C06: contracts of the field getters and setters."""
import z3
from ..core import eng, mk_bool, SymBool, Unsupported
from ..values import *
from .. import dom, libs
from ..dom import SNode, SegRef, F_tnone, F_tval, F_xmlok, F_shas
from ..kpmod import Env, run
from ..verify import Task
from ..bounded.c06 import *
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of every field getter and setter of entries, history items and groups (string fields, custom properties, sub-elements, auto-type) discharged for an arbitrary document, '
              'arbitrary values and keys (keys without a double quote, a known finding); lxml, XPath and base64 are assumed contracts. The same contracts are evaluated on the unmodified code.')
ASSUMPTIONS = ['documents follow the KDBX schema (dom.py: one Key and Value per String, one String per key, Times/AutoType present)',
               'string-field keys contain no double quote (known finding)']

STRINGS = {'title': 'Title', 'username': 'UserName', 'password': 'Password', 'url': 'URL', 'notes': 'Notes', 'otp': 'otp'}
SLOTS = {'icon': 'IconID'}
GSLOTS = {'name': 'Name', 'notes': 'Notes', 'icon': 'IconID'}

def element(env, kind):
    """An arbitrary entry, history item or group of the document."""
    e, w = eng(), env.w
    if kind == 'group':
        n = w.any('Group', 'group')
        return n, env.Group(n)
    n = w.any('Entry', 'entry')
    if kind == 'history':
        e.assume(dom.F_hist(n.z))
        return n, env.History(n)
    return n, env.Entry(n)

def seg_item(n):
    s = [k for k in n.kids if isinstance(k, SegRef) and k.seg is n.seg]
    return s[0] if len(s) == 1 else None

def opt(n):
    """(absent, text) of the text of a node (or of none)."""
    return n.tform() if n is not None else (z3.BoolVal(True), z3.StringVal(''))

def reads(got, want):
    """Formula: the value read is `want` (texts; an empty text may read as None)."""
    if want is None: return got is None
    if got is None: return mk_bool(zs(want) == z3.StringVal(''))
    if not isinstance(got, (str, SymStr)): return False
    return mk_bool(zs(got) == zs(want))

def check_parts(label, n, is_field, old, verify):
    """The children of n: what n had (without `old`, when it was taken out), in place, and at most one field, which satisfies verify()."""
    e = eng()
    ref = seg_item(n)
    if ref is None: e.check(False, label + ': the other parts of the element are unchanged', repr(n.kids)); return None
    bad = [o for o in ref.out if o is not old]
    extra = [k for k in n.kids if k is not ref] + list(ref.repl)
    fields = [k for k in extra if isinstance(k, SNode)]
    e.decided(not bad and not ref.some and not ref.all and len(fields) == len(extra), label + ': no other part of the element is removed', repr((bad, extra)))
    if old is not None and ref.has(old): fields = fields + [old]
    if not e.decided(len(fields) == 1, label + ': the field occurs exactly once', repr(fields)): return None
    return fields[0]

def values():
    """A value to write: any text, or something that is not a text."""
    e = eng()
    k = e.choose(3, 'value: text, None, number')
    return (str_var('value'), None, 3)[k]

def is_text(v): return isinstance(v, (str, SymStr))

def rejected(w, exc, label, v, valid=True):
    """Handles a write that raised: nothing may have changed; a valid text may not be refused."""
    e = eng()
    if exc is None: return False
    w.frame(label + ': a rejected write changes nothing')
    if is_text(v):
        e.check(z3.Not(F_xmlok(zs(v))) if isinstance(v, SymStr) else False, label + ': a valid text is accepted', repr(exc)[:200])
    return True

def string_field(attr, kind, version):
    """entry.<attr> = value"""
    key = STRINGS[attr]
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        pres, old = n.string(key)
        had = bool(mk_bool(pres))
        oldv = old.kids[1]
        none, val = oldv.tform()
        empty = z3.Or(none, val == z3.StringVal(''))
        # reading before
        got = getattr(obj, attr)
        e.check(z3.BoolVal(got is None) if not had else (none if got is None else z3.And(z3.Not(none), zs(got) == val)), attr + ' reads the stored value')
        w.frame(attr + ': reading changes nothing')
        v = values()
        _, exc = run(setattr, obj, attr, v)
        if rejected(w, exc, attr, v): return
        e.decided(is_text(v), attr + ': only texts are accepted', repr(v))
        if not is_text(v): return
        fld = check_parts(attr, n, None, old if had else None, None)
        if fld is None: return
        check_string(attr, fld, key, v)
        # protection mark
        h, p = fld.kids[1].aform('Protected')
        h0, p0 = (oldv.init and dom.F_ahas('Protected')(oldv.z)), dom.F_aval('Protected')(oldv.z)
        if not had: want = (z3.BoolVal(True), z3.StringVal('True')) if attr in ('password', 'otp') else (z3.BoolVal(False), z3.StringVal(''))
        else: want = (h0, p0)
        same = z3.And(h == want[0], z3.Implies(h, p == want[1]))
        if attr in ('password', 'otp') and had:
            same = z3.If(empty, z3.And(h, p == z3.StringVal('True')), same)
        e.check(same, attr + ': protection mark', str((h, p)))
        others(env, n, fld, old if had else None, attr)
        got = getattr(obj, attr)
        e.check(reads(got, v), attr + ' reads back what was written')
    return f

def check_string(label, fld, key, v):
    e = eng()
    ok = fld.tag == 'String' and len(fld.kids) == 2 and [k.tag for k in fld.kids] == ['Key', 'Value'] and not fld._a
    if not e.decided(ok, label + ': the field is a String of a Key and a Value', repr(fld.kids)): return
    kn, vn = fld.kids
    a, t = kn.tform()
    e.check(z3.And(z3.Not(a), t == zs(key)), label + ': stored under its key')
    a, t = vn.tform()
    e.check(z3.If(a, zs(v) == z3.StringVal(''), t == zs(v)), label + ': stored value')
    e.decided(not kn._a and all(x == 'Protected' for x in vn._a) and not kn.kids and not vn.kids, label + ': nothing else is stored in the field')

def others(env, n, fld, old, label):
    """Frame: only the element's child list (the field) changed."""
    allow = [n]
    if old is not None and fld is old: allow += [old.kids[1]]
    env.w.frame(label + ': everything else is unchanged', allow)

def slot_field(attr, tag, kind, version):
    """An optional child element holding one text."""
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        pres, old = n.slot(tag)
        had = bool(mk_bool(pres))
        got = getattr(obj, attr)
        none, val = old.tform()
        if attr != 'tags':
            e.check(z3.BoolVal(got is None) if not had else (none if got is None else z3.And(z3.Not(none), zs(got) == val)), attr + ' reads the stored value')
        w.frame(attr + ': reading changes nothing')
        v = values()
        _, exc = run(setattr, obj, attr, v)
        if rejected(w, exc, attr, v): return
        e.decided(is_text(v), attr + ': only texts are accepted', repr(v))
        if not is_text(v): return
        fld = check_parts(attr, n, None, old if had else None, None)
        if fld is None: return
        e.decided(fld.tag == tag and not fld._a and not fld.kids, attr + ': stored in its element', repr(fld))
        a, t = fld.tform()
        e.check(z3.If(a, zs(v) == z3.StringVal(''), t == zs(v)), attr + ': stored value')
        env.w.frame(attr + ': everything else is unchanged', [n] + ([fld] if fld is old else []))
        got = getattr(obj, attr)
        e.check(reads(got, v), attr + ' reads back what was written')
    return f

def autotype(attr, path, version, kind):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        at = n.slot('AutoType')[1]
        if len(path) > 1:
            pres, an = at.slot('Association')
            e.assume(pres)
            x = an.slot(path[1])[1]
        else: x = at.slot(path[0])[1]
        none, val = x.tform()
        got = getattr(obj, attr)
        if attr == 'autotype_enabled':
            e.check(none if got is None else (z3.And(z3.Not(none), (val == z3.StringVal('True')) == as_z(got))), attr + ' reads the stored value')
            v = (True, False, None)[e.choose(3, 'enabled')]
        else:
            e.check(z3.Or(none, val == z3.StringVal('')) if got is None else z3.And(z3.Not(none), zs(got) == val), attr + ' reads the stored value')
            v = values()
        w.frame(attr + ': reading changes nothing')
        _, exc = run(setattr, obj, attr, v)
        if exc is not None and not is_text(v) and v != 3: e.decided(False, attr + ': accepts None, True and False', repr(exc)); return
        if rejected(w, exc, attr, v): return
        got = getattr(obj, attr)
        if attr == 'autotype_enabled':
            if isinstance(got, SymBool): e.check(got if v else ~got, attr + ' reads back what was written')
            else: e.decided(got is v, attr + ' reads back what was written', repr((got, v)))
        elif v is None: e.decided(got is None, attr + ' reads back what was written')
        else: e.check(reads(got, v), attr + ' reads back what was written')
        w.frame(attr + ': everything else is unchanged', [x])
        e.decided(not x.kids and not x._a, attr + ': only the text changes')
    return f

def as_z(b):
    from ..core import as_z3
    r = as_z3(b)
    return z3.BoolVal(r) if isinstance(r, bool) else r

def tags(kind, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        pres, old = n.slot('Tags')
        had = bool(mk_bool(pres))
        none, val = old.tform()
        got = obj.tags
        if isinstance(got, list) and not got: e.check(z3.Or(z3.BoolVal(not had), none, val == z3.StringVal('')), 'tags reads the stored tags')
        else:
            e.decided(had, 'tags reads the stored tags')
            e.check(got == libs.str_split(libs.str_replace(SymStr(val), ',', ';'), ';'), 'tags reads the stored tags, divided at commas and semicolons')
        w.frame('tags: reading changes nothing')
        k = e.choose(4, 'tags: list, empty list, text, None')
        v = (libs.SymList('taglist'), [], str_var('value'), None)[k]
        text = ('', '', v)[k] if k in (1, 2) else v.vc_join(';') if k == 0 else None
        _, exc = run(setattr, obj, 'tags', v)
        if k == 3: 
            if exc is not None: w.frame('tags: a rejected write changes nothing')
            return
        if rejected(w, exc, 'tags', text): return
        fld = check_parts('tags', n, None, old if had else None, None)
        if fld is None: return
        e.decided(fld.tag == 'Tags' and not fld._a and not fld.kids, 'tags: stored in its element', repr(fld))
        a, t = fld.tform()
        e.check(z3.If(a, zs(text) == z3.StringVal(''), t == zs(text)), 'tags: stored value')
        env.w.frame('tags: everything else is unchanged', [n] + ([fld] if fld is old else []))
        got = obj.tags
        if k == 0: e.decided(got is v, 'tags reads back the list that was written', repr(got))
        elif k == 1: e.decided(got == [], 'tags reads back the empty list')
        elif isinstance(got, list) and not got: e.check(zs(text) == z3.StringVal(''), 'tags reads back the text that was written')
        else: e.check(got == libs.str_split(libs.str_replace(text, ',', ';'), ';'), 'tags reads back the text that was written')
    return f

def reserved_formula(k):
    return z3.Or([k.e == z3.StringVal(r) for r in cx.RESERVED])

def key_var():
    """Any key without a double quote."""
    k = str_var('key')
    eng().assume(z3.Not(z3.Contains(k.e, z3.StringVal('"'))))
    return k

def custom_set(kind, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        key = key_var()
        reserved = reserved_formula(key)
        v = values()
        mode = e.choose(3, 'protect: True, False, default')
        a = {} if mode == 2 else {'protect': mode == 0}
        prot = mode == 0
        pres, old = n.string(key)
        had = bool(mk_bool(pres))
        _, exc = run(obj.set_custom_property, key, v, **a)
        if exc is not None:
            w.frame('a rejected custom property changes nothing')
            if is_text(v):
                ok = [reserved, z3.Not(F_xmlok(key.e))] + ([z3.Not(F_xmlok(v.e))] if isinstance(v, SymStr) else [])
                e.check(z3.Or(ok), 'a valid custom property is accepted', repr(exc)[:200])
            return
        e.check(z3.Not(reserved), 'reserved keys are refused as custom properties')
        e.decided(is_text(v), 'custom property: only texts are accepted')
        if not is_text(v): return
        fld = check_parts('custom property', n, None, old if had else None, None)
        if fld is None: return
        check_string('custom property', fld, key, v)
        h, p = fld.kids[1].aform('Protected')
        e.check(z3.And(h, p == z3.StringVal('True')) if prot else z3.Or(z3.Not(h), p != z3.StringVal('True')), 'custom property: protection mark as requested')
        others(env, n, fld, old if had else None, 'custom property')
        got = obj.get_custom_property(key)
        e.check(reads(got, v), 'custom property reads back what was written')
        pr = obj.is_custom_property_protected(key)
        e.check(pr if prot else mk_bool(z3.Not(as_z(pr))), 'custom property reads back its protection mark')
    return f

def custom_get(kind, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        key = key_var()
        reserved = reserved_formula(key)
        pres, old = n.string(key)
        had = bool(mk_bool(pres))
        got, exc = run(obj.get_custom_property, key)
        if exc is not None: e.check(reserved, 'get_custom_property of a custom key does not fail', repr(exc)[:200])
        else:
            none, val = old.kids[1].tform()
            e.check(z3.BoolVal(got is None) if not had else (none if got is None else z3.And(z3.Not(none), zs(got) == val)), 'get_custom_property reads the stored value')
        pr, exc = run(obj.is_custom_property_protected, key)
        if exc is not None: e.check(reserved, 'is_custom_property_protected of a custom key does not fail', repr(exc)[:200])
        else:
            h, p = old.kids[1].aform('Protected')
            e.check(as_z(pr) == (z3.And(h, p == z3.StringVal('True')) if had else z3.BoolVal(False)), 'is_custom_property_protected reads the stored mark')
        w.frame('reading custom properties changes nothing')
    return f

def custom_all(kind, version):
    """custom_properties: for every key, present exactly when there is a String with that key that is not reserved, with its value."""
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        got, exc = run(lambda: obj.custom_properties)
        if not e.decided(exc is None, 'custom_properties can be read', repr(exc)[:200]): return
        w.frame('reading custom properties changes nothing')
        if type(got) is not dom.MapDict:
            if isinstance(got, dict): e.decided(False, 'custom_properties holds the custom fields of the entry', repr(got)[:200])
            raise Unsupported('custom_properties: %s' % type(got).__name__)
        key = key_var()
        reserved = reserved_formula(key)
        pres, old = n.string(key)
        none, val = old.kids[1].tform()
        cases = got.at(key)
        e.check(z3.And(pres, z3.Not(reserved)) == (z3.Or([c for c, v in cases]) if cases else z3.BoolVal(False)), 'custom_properties has exactly the keys that are not reserved')
        for c, v in cases:
            e.check(z3.Implies(c, none if v is None else z3.And(z3.Not(none), zs(v) == val)), 'custom_properties holds the value of each field')
    return f

def custom_del(kind, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        key = key_var()
        reserved = reserved_formula(key)
        pres, old = n.string(key)
        had = bool(mk_bool(pres))
        _, exc = run(obj.delete_custom_property, key)
        if exc is not None:
            e.check(z3.Or(reserved, z3.BoolVal(not had)), 'an existing custom property can be deleted', repr(exc)[:200])
            w.frame('a refused deletion changes nothing')
            return
        e.check(z3.Not(reserved), 'reserved fields are not deleted as custom properties')
        e.decided(had, 'deleting a missing custom property is an error')
        ref = seg_item(n)
        e.decided(ref is not None and n.kids == [ref] and ref.out == [old] and not ref.some and not ref.all and not ref.repl,
                  'deleting a custom property removes exactly it', repr(n.kids))
        w.frame('deleting a custom property changes nothing else', [n])
        e.decided(obj.get_custom_property(key) is None, 'a deleted custom property is gone')
    return f

def tasks(thorough):
    out = []
    for v in (4, 3):
        for kind in ('entry', 'history'):
            t = ' (%s, KDBX %d)' % (kind, v)
            for a in STRINGS: out.append(Task(a + t, string_field(a, kind, v)))
            out.append(Task('tags' + t, tags(kind, v)))
            out.append(Task('icon' + t, slot_field('icon', 'IconID', kind, v)))
            for a, p in (('autotype_enabled', ('Enabled',)), ('autotype_sequence', ('DefaultSequence',)), ('autotype_window', ('Association', 'Window'))):
                out.append(Task(a + t, autotype(a, p, v, kind)))
            out.append(Task('set_custom_property' + t, custom_set(kind, v)))
            out.append(Task('get_custom_property' + t, custom_get(kind, v)))
            out.append(Task('custom_properties' + t, custom_all(kind, v)))
            out.append(Task('delete_custom_property' + t, custom_del(kind, v)))
        for a, tag in GSLOTS.items(): out.append(Task('group.%s (KDBX %d)' % (a, v), slot_field(a, tag, 'group', v)))
    return out
