"""C14 on the unmodified code."""
import re, base64, uuid as _uuid
from . import cx
from .cx import must
BUDGET = (15, 200)
RULE = 'entries whose fields contain references to other entries (several per text, nested, missing targets, to every field by every field); result compared with an independent resolution'
cases = cx.simple_cases
F = {'T': 'Title', 'U': 'UserName', 'P': 'Password', 'A': 'URL', 'N': 'Notes'}
ATTR = {'T': 'title', 'U': 'username', 'P': 'password', 'A': 'url', 'N': 'notes', 'I': 'uuid'}

def plain(rng):
    return re.sub(r'[{}"@]', '', cx.text(rng)) or 'p'

class Missing(Exception): pass

def fieldval(n, f):
    if f == 'I': return base64.b64decode(n.find('UUID').text)
    x = n.field(F[f])
    return None if x is None else (x.text or None)

def resolve(ents, s, depth=0):
    out, pos = '', 0
    for m in re.finditer(r'\{REF:([TUPANI])@([TUPANI]):([^}]+)\}', s):
        out += s[pos:m.start()]
        pos = m.end()
        want, by, val = m.groups()
        if by == 'I': val = _uuid.UUID(val).bytes
        for n in ents:
            if fieldval(n, by) == val: break
        else: raise Missing()
        r = fieldval(n, want)
        if want == 'I': out += r.hex().upper()
        else: out += resolve(ents, r or '', depth + 1)
    return out + s[pos:]

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    kp, tree, blobs, g = cx.open_db(rng, case['v'], small=rng.random() < .5, nbin=0)
    while len(kp.entries) < 4: kp.add_entry(rng.choice(kp.groups), cx.text(rng), cx.text(rng), cx.text(rng), force_creation=True)
    es = kp.entries
    rng.shuffle(es)
    for e in es:
        for a in list(ATTR.values())[:5]:
            if rng.random() < .3: setattr(e, a, plain(rng))
    # only plain texts so far; write references from later to earlier entries (no cycles)
    def ok(v): return v and not re.search(r'[{}"]', v)
    for e in es:
        for a in list(ATTR.values())[:5]:
            v = getattr(e, a)
            if v and re.search(r'[{}"]', v): setattr(e, a, plain(rng))
    dup = rng.random() < .4
    for i, e in enumerate(es):
        if i == 0: continue
        for a in rng.sample(['title', 'username', 'password', 'url', 'notes'], rng.choice([0, 0, 1, 2])):
            s = rng.choice(['', plain(rng)])
            for _ in range(rng.choice([1, 1, 2, 3])):
                t = rng.choice(es[:i])
                want = rng.choice('TUPANI')
                by = rng.choice('IIITUPAN')
                if by == 'I': key = rng.choice([t.uuid.hex, t.uuid.hex.upper(), str(t.uuid)])
                else:
                    key = getattr(t, ATTR[by])
                    if not ok(key): by, key = 'I', t.uuid.hex.upper()
                s += '{REF:%s@%s:%s}' % (want, by, key) + rng.choice(['', '', plain(rng), '}', '{', '{REF:T'])
            if '"' in s: continue
            setattr(e, a, s)
    m = cx.Mirror(kp)
    ents = [m.of(e) for e in kp.entries]
    tests = []
    for e in es:
        for a in ('title', 'username', 'password', 'url', 'notes'):
            v = getattr(e, a)
            if v: tests.append((v, lambda e=e, a=a: e.deref(a)))
        r = rng.choice(list(ATTR))
        ref = e.ref(ATTR[r])
        must(ref == '{REF:%s@I:%s}' % (r, e.uuid.hex.upper()), 'ref(%r) gives %r', ATTR[r], ref)
        tests.append((ref, lambda ref=ref: kp.deref(ref)))
        tests.append(('a %s b %s' % (ref, e.ref('title')), lambda ref=ref, e=e: kp.deref('a %s b %s' % (ref, e.ref('title')))))
    tests.append(('{REF:T@I:%s}' % _uuid.UUID(int=rng.getrandbits(128)).hex, None))
    tests.append(('x{REF:U@T:no such title 123}y', None))
    tests.append((plain(rng), None)); tests.append(('{REF:X@I:1}', None)); tests.append(('', None))
    for s, f in tests:
        f = f or (lambda s=s: kp.deref(s))
        try: exp = resolve(ents, s) if s else s
        except Missing: exp = None
        except RecursionError: continue
        if exp is not None and exp != s and re.search(r'\{REF:[TUPANI]@[TUPANI]:[^}]+\}', exp): continue     # accidental references
        if cyclic(ents, s): continue
        try: got = f()
        except RecursionError: continue
        must(got == exp, '%r resolves to %r, expected %r', s, got, exp)
    must(kp.deref(None) is None, 'deref(None)')

def cyclic(ents, s):
    try: resolve(ents, s or '')
    except Missing: return False
    except RecursionError: return True
    return False

def _q():
    import random
    kp, *_ = cx.open_db(random.Random(1), 4)
    try: kp.deref('{REF:T@U:a"b}')
    except Exception as e: return type(e).__name__
KNOWN = [('a reference by a value containing a double quote raises XPathEvalError', _q)]
