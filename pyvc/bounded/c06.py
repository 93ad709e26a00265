"""C06 on the unmodified code: random field writes on generated databases, compared with the expected tree."""
from . import cx
from .cx import must, same
BUDGET = (20, 240)
RULE = 'a generated database and a sequence of field writes, deletions and rejected writes on a random entry, history item or group; each checked against the expected tree'
cases = cx.simple_cases
FIELDS = {'title': 'Title', 'username': 'UserName', 'password': 'Password', 'url': 'URL', 'notes': 'Notes', 'otp': 'otp'}
BADVALUES = [None, 5, '\x00', 'a\x01b', '\ud800', b'x', ['x'], 1.5, '\ufffe', True]

def others(n, skip):
    return tuple(k.t() for k in n.kids if not skip(k))

def check_write(kp, obj, before, skip, expected, what):
    """Everything but the children selected by skip is unchanged; those are exactly `expected`."""
    m = cx.Mirror(kp)
    n = m.of(obj)
    got = [k.t() for k in n.kids if skip(k)]
    same(got, expected, '%s: stored value' % what)
    b = before.of(obj)
    same(others(n, skip), others(b, skip), '%s: other parts of the element' % what)
    n.kids, b.kids = [], []
    same(m.t(), before.t(), '%s: rest of the database' % what)

def is_field(key):
    return lambda k: k.tag == 'String' and k.find('Key') is not None and k.find('Key').text == key

def getall(obj, group):
    names = ['name', 'notes', 'icon', 'uuid'] if group else list(FIELDS) + ['tags', 'icon', 'autotype_enabled', 'autotype_sequence', 'autotype_window', 'custom_properties', 'uuid']
    return {k: getattr(obj, k) for k in names}

def expect_read(n, group):
    """The values that reading must give, from the mirror."""
    tx = lambda e: (e.text or None) if e is not None else None
    if group: return {'name': tx(n.find('Name')), 'notes': tx(n.find('Notes')), 'icon': tx(n.find('IconID'))}
    r = {a: tx(n.field(k)) for a, k in FIELDS.items()}
    tg = tx(n.find('Tags'))
    r['tags'] = tg.replace(',', ';').split(';') if tg else []
    r['icon'] = tx(n.find('IconID'))
    at = n.find('AutoType')
    r['autotype_enabled'] = {'': None, 'True': True}.get(at.find('Enabled').text, False)
    r['autotype_sequence'] = tx(at.find('DefaultSequence'))
    r['autotype_window'] = tx(at.find('Association').find('Window'))
    r['custom_properties'] = {s.find('Key').text: tx(s.find('Value')) for s in n.all('String') if s.find('Key').text not in cx.RESERVED}
    return r

def norm(v): return None if v == '' else ({k: norm(x) for k, x in v.items()} if isinstance(v, dict) else v)

def verify_reads(kp, obj, group):
    n = cx.Mirror(kp).of(obj)
    got = getall(obj, group)
    for k, v in expect_read(n, group).items():
        must(norm(got[k]) == v, 'reading %s gives %r, stored is %r', k, got[k], v)
    if not group:
        for s in n.all('String'):
            key = s.find('Key').text
            if key not in cx.RESERVED:
                must(norm(obj.get_custom_property(key)) == (s.find('Value').text or None), 'custom property %r reads %r', key, obj.get_custom_property(key))
                must(obj.is_custom_property_protected(key) == (s.find('Value').attrib.get('Protected') == 'True'), 'protection mark of %r', key)

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    kp, tree, blobs, g = cx.open_db(rng, case['v'], small=True)
    ents = kp.entries
    groups = kp.groups
    pool = list(ents) + [h for e in ents for h in e.history]
    for step in range(rng.choice([3, 6, 10])):
        group = rng.random() < .12 or not pool
        obj = rng.choice(groups) if group else rng.choice(pool)
        op = rng.choice(['name', 'notes', 'icon']) if group else rng.choice(list(FIELDS) * 2 + ['tags', 'icon', 'custom', 'custom', 'delcustom', 'auto_e', 'auto_s', 'auto_w', 'reserved', 'bad', 'bad', 'badauto', 'badcustom'])
        before = cx.Mirror(kp)
        n = before.of(obj)
        value = cx.text(rng, quote=True, empty=True) if rng.random() < .95 else cx.long_text(rng)
        if group:
            tag = {'name': 'Name', 'notes': 'Notes', 'icon': 'IconID'}[op]
            if rng.random() < .25:
                attempt_bad(kp, before, lambda: setattr(obj, op, rng.choice(BADVALUES)), 'group.' + op)
                continue
            setattr(obj, op, value)
            check_write(kp, obj, before, lambda k: k.tag == tag, [(tag, value, (), ())], 'group.%s = %r' % (op, value))
            must((getattr(obj, op) or '') == value, 'group.%s reads %r after writing %r', op, getattr(obj, op), value)
        elif op in FIELDS:
            key = FIELDS[op]
            old = n.field(key)
            prot = old.attrib.get('Protected') if old is not None else None
            if op in ('password', 'otp') and (old is None or not old.text): prot = 'True'
            setattr(obj, op, value)
            check_write(kp, obj, before, is_field(key), [cx.string(key, value, prot).t()], 'entry.%s = %r' % (op, value))
            must((getattr(obj, op) or '') == value, 'entry.%s reads %r after writing %r', op, getattr(obj, op), value)
        elif op == 'custom':
            keys = [s.find('Key').text for s in n.all('String') if s.find('Key').text not in cx.RESERVED]
            key = rng.choice(keys) if keys and rng.random() < .5 else cx.key_text(rng)
            pr = rng.choice([True, False])
            if rng.random() < .3: obj.set_custom_property(key, value); pr = False
            else: obj.set_custom_property(key, value, protect=pr)
            check_write(kp, obj, before, is_field(key), [cx.string(key, value, str(pr)).t()], 'set_custom_property(%r, %r, %r)' % (key, value, pr))
            must((obj.get_custom_property(key) or '') == value, 'custom property %r reads %r', key, obj.get_custom_property(key))
            must(obj.is_custom_property_protected(key) is pr, 'custom property %r protected mark is not %r', key, pr)
        elif op == 'delcustom':
            keys = [s.find('Key').text for s in n.all('String') if s.find('Key').text not in cx.RESERVED]
            if keys and rng.random() < .7:
                key = rng.choice(keys)
                obj.delete_custom_property(key)
                check_write(kp, obj, before, is_field(key), [], 'delete_custom_property(%r)' % key)
                must(obj.get_custom_property(key) is None, 'deleted property still readable')
                must(obj.is_custom_property_protected(key) is False, 'deleted property protected')
            else:
                key = rng.choice([k for k in cx.RESERVED + ['no such key', cx.key_text(rng)] if k not in keys])
                try: obj.delete_custom_property(key)
                except AttributeError: pass
                else: must(False, 'delete_custom_property(%r) of a missing property was accepted', key)
                same(cx.snap(kp), before.t(), 'refused delete_custom_property')
        elif op == 'reserved':
            key = rng.choice(cx.RESERVED)
            try: obj.set_custom_property(key, value)
            except AssertionError: pass
            else: must(False, 'reserved key %r accepted as a custom property', key)
            same(cx.snap(kp), before.t(), 'refused set_custom_property')
        elif op == 'tags':
            tags = [cx.text(rng, quote=True).replace(';', '').replace(',', '') or 'T' for _ in range(rng.randrange(0, 4))]
            obj.tags = tags if rng.random() < .6 else ';'.join(tags)
            check_write(kp, obj, before, lambda k: k.tag == 'Tags', [('Tags', ';'.join(tags), (), ())], 'tags = %r' % tags)
            must(obj.tags == tags, 'tags read %r after writing %r', obj.tags, tags)
        elif op == 'icon':
            obj.icon = value
            check_write(kp, obj, before, lambda k: k.tag == 'IconID', [('IconID', value, (), ())], 'icon = %r' % value)
            must((obj.icon or '') == value, 'icon')
        elif op.startswith('auto_'):
            attr = {'auto_e': 'autotype_enabled', 'auto_s': 'autotype_sequence', 'auto_w': 'autotype_window'}[op]
            v = rng.choice([True, False, None]) if op == 'auto_e' else rng.choice([value, value, None])
            setattr(obj, attr, v)
            got = getattr(obj, attr)
            must(got == v if op == 'auto_e' else (got or '') == (v or ''), '%s reads %r after writing %r', attr, got, v)
            a = n.find('AutoType')
            x = {'auto_e': a.find('Enabled'), 'auto_s': a.find('DefaultSequence'), 'auto_w': a.find('Association').find('Window')}[op]
            x.text = ('' if v is None else str(v))
            same(cx.snap(kp), before.t(), '%s = %r: rest of the database' % (attr, v))
        elif op == 'bad':
            attr = rng.choice(list(FIELDS) + ['icon', 'tags'])
            bad = rng.choice(BADVALUES)
            attempt_bad(kp, before, lambda: setattr(obj, attr, bad), 'entry.%s = %r' % (attr, bad))
        elif op == 'badauto':
            attr = rng.choice(['autotype_sequence', 'autotype_window'])
            bad = rng.choice(['\x00', 'a\x01b', 5])
            attempt_bad(kp, before, lambda: setattr(obj, attr, bad), 'entry.%s = %r' % (attr, bad))
        elif op == 'badcustom':
            bad = rng.choice([None, 5, '\x00', 'a\x01b'])
            keys = [s.find('Key').text for s in n.all('String') if s.find('Key').text not in cx.RESERVED] + ['k', 'k\x01']
            key = rng.choice(keys)
            attempt_bad(kp, before, lambda: obj.set_custom_property(key, bad, True), 'set_custom_property(%r, %r)' % (key, bad))
    for o in rng.sample(pool, min(3, len(pool))): verify_reads(kp, o, False)
    for o in rng.sample(groups, min(2, len(groups))): verify_reads(kp, o, True)

def attempt_bad(kp, before, f, what):
    try: f()
    except Exception as e:
        same(cx.snap(kp), before.t(), '%s raised %s but changed the database' % (what, type(e).__name__))
        return True

def quote_key():
    import random
    rng = random.Random(1)
    kp, *_ = cx.open_db(rng, 4)
    e = kp.entries[0]
    try: e.set_custom_property('a"b', 'v')
    except Exception as x: return type(x).__name__
KNOWN = [('set_custom_property with a key containing a double quote raises XPathEvalError', quote_key)]
