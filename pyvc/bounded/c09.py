"""C09 on the unmodified code: generated searches compared with a direct reading of the tree."""
import re, base64, uuid as _uuid, warnings
from . import cx
from .cx import must, same
BUDGET = (20, 240)
RULE = 'a generated database and searches by random criteria (values taken from the database, near misses, regular expressions), compared with a direct evaluation over the mirrored tree'
cases = cx.simple_cases
STR = {'title': 'Title', 'username': 'UserName', 'password': 'Password', 'url': 'URL', 'notes': 'Notes', 'otp': 'otp'}

def in_history(n): return any(u.tag == 'History' for u in n.ups())

def match(val, crit, regex, flags):
    """val: the text of the element, '' if empty, None if there is no such element."""
    if val is None: return False
    if regex: return re.search(crit, val, re.I if flags and 'i' in flags else 0) is not None
    return val != '' and val == crit

def vals(n, key):
    tx = lambda e: None if e is None else e.text
    if key in STR: return [s.find('Value').text for s in n.all('String') if s.find('Key').text == STR[key]]
    if key == 'uuid': return [k.text for k in n.all('UUID')]
    if key == 'name': return [k.text for k in n.all('Name')]
    at = n.find('AutoType')
    if key == 'autotype_sequence': return [at.find('DefaultSequence').text]
    if key == 'autotype_window': return [at.find('Association').find('Window').text]
    if key == 'autotype_enabled': return [at.find('Enabled').text]
    if key == 'filename': return [k.text for k in n.all('Key')]
    if key == 'id': return [k.attrib['Ref'] for k in n.all('Value')]

def sat(n, crit, regex, flags):
    for k, c in crit.items():
        if c is None: continue
        if k == 'tags':
            ok = any(all(t in x.text for t in c) and x.text for x in n.all('Tags'))
        elif k == 'string':
            ok = all(any(s.find('Key').text == kk and match(s.find('Value').text, vv, regex, flags) for s in n.all('String')) for kk, vv in c.items())
        elif k == 'notes' and n.tag == 'Group': ok = any(match(x.text, c, regex, flags) for x in n.all('Notes'))
        else:
            if k == 'uuid': c = base64.b64encode(c.bytes).decode()
            elif k in ('autotype_enabled', 'id'): c = str(c)
            ok = any(match(v, c, regex, flags) for v in vals(n, k))
        if not ok: return False
    return True

def mkregex(rng, v):
    p = rng.choice([v, v[:2], v[1:], v.upper(), '.*', '^' + re.escape(v) + '$', re.escape(v[:1]) + '.*', '', 'foo|bar', '[ab]+', re.escape(v)]).replace('"', '')
    try: re.compile(p)
    except re.error: p = re.escape(p)
    return p

def near(rng, v):
    if not v or v == '""': return 'zz'
    return rng.choice([v, v, v, v, v + 'x', v[:-1] or 'q', v.swapcase(), ' ' + v, v * 2]).replace('"', '') or 'q'

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    warnings.simplefilter('ignore')
    kp, tree, blobs, g = cx.open_db(rng, case['v'], small=rng.random() < .3)
    m = cx.Mirror(kp)
    allE = [n for n in m.root.iter() if n.tag == 'Entry']
    curE = [n for n in allE if not in_history(n)]
    allG = [n for n in m.root.iter() if n.tag == 'Group']
    allA = [n for n in m.root.iter() if n.tag == 'Binary' and n.up.tag == 'Entry']
    ids = lambda ns: [id(m.elem(n)) for n in ns]
    must([id(e._element) for e in kp.entries] == ids(curE), 'entries')
    must([id(e._element) for e in kp.groups] == ids(allG), 'groups')
    must([id(e._element) for e in kp.attachments] == ids([a for a in allA if not in_history(a)]), 'attachments')
    for _ in range(25):
        kind = rng.choice(['e', 'e', 'e', 'g', 'a'])
        regex = rng.random() < .3
        flags = rng.choice([None, 'i']) if regex else None
        history = rng.random() < .3
        crit = {}
        pool = {'e': allE, 'g': allG, 'a': allA}[kind]
        ref = rng.choice(pool) if pool else None
        keys = {'e': list(STR) + ['uuid', 'tags', 'string', 'autotype_sequence', 'autotype_window', 'autotype_enabled'], 'g': ['name', 'notes', 'uuid'], 'a': ['filename', 'id']}[kind]
        for k in rng.sample(keys, rng.choice([0, 1, 1, 1, 2, 2, 3]) if len(keys) > 3 else rng.choice([0, 1, 1, 2])):
            src = ref if ref is not None and rng.random() < .85 else (rng.choice(pool) if pool else None)
            if src is None: break
            if k == 'uuid':
                if regex: continue
                crit[k] = _uuid.UUID(bytes=base64.b64decode(src.find('UUID').text)) if rng.random() < .9 else _uuid.uuid4()
            elif k == 'tags':
                t = src.find('Tags')
                ts = [x for x in (re.split('[;,]', t.text) if t is not None else []) if x and '"' not in x] or ['foo']
                crit[k] = rng.sample(ts, rng.randrange(1, len(ts) + 1)) + (['zz'] if rng.random() < .1 else [])
            elif k == 'string':
                ss = [s for s in src.all('String')]
                d = {}
                for s in rng.sample(ss, min(len(ss), rng.choice([1, 1, 2]))):
                    v = s.find('Value').text
                    d[s.find('Key').text] = mkregex(rng, v) if regex else near(rng, v)
                if not d or any('"' in x for x in d): continue
                crit[k] = d
            elif k == 'autotype_enabled': crit[k] = rng.choice([True, False])
            elif k == 'id':
                i = int(src.find('Value').attrib['Ref']); crit[k] = rng.choice([i, i, i + 1])
                if regex: crit[k] = '^%d$' % i
            else:
                vs = src.all('Notes') if (k == 'notes' and kind == 'g') else None
                v = (vs[0].text if vs else 'x') if vs is not None else ((vals(src, k) or ['x'])[0])
                crit[k] = mkregex(rng, v) if regex else near(rng, v)
                if rng.random() < .05: crit[k] = None
        scope, obj, rec = m.root, None, True
        if rng.random() < .5:
            base = rng.choice(allG) if kind != 'a' or not curE or rng.random() < .4 else rng.choice(curE)
            scope = base; rec = rng.random() < .6
            obj = next((x for x in kp.groups + kp.entries if x._element is m.elem(base)))
        kw = dict(crit)
        if regex: kw['regex'] = True
        if flags: kw['flags'] = flags
        if history: kw['history'] = True
        if not rec: kw['recursive'] = False
        if obj is not None: kw['group' if kind != 'a' else 'element'] = obj
        tag = {'e': 'Entry', 'g': 'Group', 'a': 'Binary'}[kind]
        cand = [n for n in (scope.iter() if rec else scope.kids) if n is not scope and n.tag == tag and (tag != 'Binary' or n.up.tag == 'Entry')]
        exp = [n for n in cand if (history or not in_history(n)) and sat(n, crit, regex, flags)]
        f = {'e': kp.find_entries, 'g': kp.find_groups, 'a': kp.find_attachments}[kind]
        before = dict(kw)
        if 'string' in kw: kw['string'] = dict(kw['string'])
        res = f(**kw)
        what = '%s(%s)' % (f.__name__, ', '.join('%s=%r' % x for x in crit.items()) + ' regex=%s flags=%s history=%s recursive=%s scope=%s' % (regex, flags, history, rec, scope.tag if obj else None))
        must(isinstance(res, list), '%s returned %s', what, type(res).__name__)
        got = [id(x._element) for x in res]
        must(got == ids(exp), '%s found %d elements (expected %d) or in another order', what, len(got), len(exp))
        for x in res: must(type(x).__name__ == {'e': 'Entry', 'g': 'Group', 'a': 'Attachment'}[kind], 'type of results')
        if 'string' in crit: kw['string'] = dict(crit['string'])
        one = f(first=True, **kw)
        must((one is None and not exp) or (one is not None and exp and id(one._element) == ids(exp)[0]), '%s with first=True', what)
    # deprecated wrappers
    n = rng.choice(curE) if curE else None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if n is not None:
            for k, key in list(STR.items())[:5]:
                v = (vals(n, k) or [''])[0]
                if v and '"' not in v:
                    h = rng.random() < .5
                    must([id(x._element) for x in getattr(kp, 'find_entries_by_' + k)(v, history=h)] == ids([x for x in allE if (h or not in_history(x)) and sat(x, {k: v}, False, None)]), 'find_entries_by_' + k)

def _q():
    import random
    kp, *_ = cx.open_db(random.Random(1), 4)
    try: kp.find_entries(title='a"b')
    except Exception as e: return type(e).__name__
def _e():
    import random
    kp, *_ = cx.open_db(random.Random(1), 4)
    e = kp.entries[0]; e.url = ''
    kp = cx.reopen(kp)
    if e.uuid not in [x.uuid for x in kp.find_entries(url='')]: return 'not found'
KNOWN = [('a search value containing a double quote raises XPathEvalError', _q), ('a search for an empty string finds no element whose field is empty', _e)]
