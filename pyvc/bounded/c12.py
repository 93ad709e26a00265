"""C12 on the unmodified code."""
from datetime import datetime, timezone, timedelta
from . import cx
from .cx import must, same
BUDGET = (15, 200)
RULE = 'times with random instants, offsets and microseconds written and read back, plaintext forms of other programs, expiry around the present, touch'
cases = cx.simple_cases
PROPS = {'expiry_time': 'ExpiryTime', 'ctime': 'CreationTime', 'atime': 'LastAccessTime', 'mtime': 'LastModificationTime'}
UTC = timezone.utc

def when(rng):
    t = datetime(rng.choice([1, 2, 1600, 1900, 1969, 1970, 1999, 2000, 2024, 2038, 2100, 9998]), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60),
                 rng.choice([0, 0, 1, 500000, 999999, rng.randrange(10 ** 6)]))
    if t.year == 1: t = t.replace(month=6)
    off = rng.choice([0, 0, 60, -60, 330, -210, 840, -720, 765, 1439, -1439])
    return t.replace(tzinfo=timezone(timedelta(minutes=off)) if off or rng.random() < .8 else UTC)

def same_instant(got, t, v, what):
    must(got is not None and got.tzinfo is not None and got.utcoffset() == timedelta(0), '%s: %r is not a UTC time', what, got)
    d = abs((got - t))
    must(d < timedelta(seconds=1) if v == 4 else d == timedelta(0), '%s: %s written, %s read', what, t.isoformat(), got.isoformat())
    if v == 4: must(got.microsecond == 0, 'whole seconds')

def clock(lo, t, hi, v, what):
    lo2 = lo.replace(microsecond=0) if v == 4 else lo
    must(lo2 <= t <= hi, '%s is %s, the clock was between %s and %s', what, t, lo, hi)

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    v = case['v']
    kp, tree, blobs, g = cx.open_db(rng, v, small=True)
    pool = kp.entries + kp.groups + [h for e in kp.entries for h in e.history]
    for _ in range(12):
        o = rng.choice(pool)
        before = cx.Mirror(kp)
        n = before.of(o)
        op = rng.choice(['set', 'set', 'set', 'plain', 'plain', 'expired', 'expired', 'touch', 'cred', 'expires'])
        if op == 'set':
            p = rng.choice(list(PROPS)); t = when(rng)
            setattr(o, p, t)
            same_instant(getattr(o, p), t, v, p)
            m = cx.Mirror(kp)
            m.of(o).find('Times').find(PROPS[p]).text = n.find('Times').find(PROPS[p]).text = ''
            same(m.t(), before.t(), 'setting %s: rest of the database' % p)
        elif op == 'cred':
            t = when(rng)
            kp.credchange_date = t
            same_instant(kp.credchange_date, t, v, 'credchange_date')
            m = cx.Mirror(kp)
            for x in (m, before): x.root.find('Meta').find('MasterKeyChanged').text = ''
            same(m.t(), before.t(), 'setting credchange_date: rest of the database')
        elif op == 'plain':
            p = rng.choice(list(PROPS)); t = when(rng)
            if t.year < 1000: t = t.replace(year=1999)
            if rng.random() < .6: t = t.replace(microsecond=0)
            k = rng.randrange(5)
            loc = t.replace(tzinfo=None).isoformat()
            if k == 0: txt = t.astimezone(UTC).replace(tzinfo=None).isoformat() + 'Z'; exp = t
            elif k == 1: txt = t.isoformat(); exp = t
            elif k == 2: txt = loc; exp = t.replace(tzinfo=UTC)
            elif k == 3: txt = loc + 'Z'; exp = t.replace(tzinfo=UTC)
            else: txt = t.strftime('%Y-%m-%dT%H:%M:%S') + '+00:00'; exp = t.replace(tzinfo=UTC, microsecond=0)
            o._element.find('Times').find(PROPS[p]).text = txt
            got = getattr(o, p)
            must(got is not None and got.tzinfo is not None and got.utcoffset() == timedelta(0) and got == exp, 'plaintext time %r is read as %r', txt, got)
        elif op == 'expired':
            flag = rng.random() < .7
            d = rng.choice([-3600, -60, -2, 2 + 1, 60, 3600, 5400, 9000, -9000, 10 ** 8, -10 ** 8])
            off = timezone(timedelta(minutes=rng.choice([0, 60, 120, 180, -180, 330])))
            t = datetime.now(UTC).astimezone(off) + timedelta(seconds=d)
            o.expires = flag
            o.expiry_time = t
            got = o.expired
            must(o.expires is flag, 'expires')
            must(bool(got) == (flag and d < 0), 'expired is %r with expires=%r and expiry %+d s from now', got, flag, d)
        elif op == 'expires':
            f = rng.choice([True, False])
            o.expires = f
            must(o.expires is f, 'expires reads %r', o.expires)
            n.find('Times').find('Expires').text = str(f)
            same(cx.snap(kp), before.t(), 'setting expires')
        elif op == 'touch':
            mod = rng.choice([True, False])
            lo = datetime.now(UTC)
            o.touch(modify=mod) if mod else o.touch()
            hi = datetime.now(UTC)
            clock(lo, o.atime, hi, v, 'atime after touch')
            if mod: clock(lo, o.mtime, hi, v, 'mtime after touch(modify=True)')
            m = cx.Mirror(kp)
            for x in (m.of(o), n):
                x.find('Times').find('LastAccessTime').text = ''
                if mod: x.find('Times').find('LastModificationTime').text = ''
            same(m.t(), before.t(), 'touch: rest of the database')
