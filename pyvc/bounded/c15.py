"""C15 on the unmodified code."""
import io
from datetime import datetime, timezone, timedelta
from . import cx
from .. import ref_kdbx as R
from .cx import must, same
BUDGET = (15, 200)
RULE = 'settings written and read back with the rest of the database compared; credential ageing at the day boundaries; save after a change of credentials read by an independent reader'
cases = cx.simple_cases
UTC = timezone.utc
SET = {'database_name': 'DatabaseName', 'database_description': 'DatabaseDescription', 'default_username': 'DefaultUserName'}
DAYS = {'credchange_required_days': 'MasterKeyChangeForce', 'credchange_recommended_days': 'MasterKeyChangeRec'}

def clock(lo, t, hi, v, what):
    lo2 = lo.replace(microsecond=0) if v == 4 else lo
    must(t is not None and lo2 <= t <= hi, '%s is %s, the clock was between %s and %s', what, t, lo, hi)

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    v = case['v']
    kp, tree, blobs, g = cx.open_db(rng, v, small=True)
    for _ in range(10):
        before = cx.Mirror(kp)
        meta = before.root.find('Meta')
        op = rng.choice(['set', 'set', 'days', 'age', 'age', 'age', 'pw', 'kf', 'unset'])
        if op == 'unset':
            # a database of another writer that leaves the setting out
            m = kp.tree.getroot().find('Meta')
            tag = rng.choice(['MasterKeyChangeForce', 'MasterKeyChangeRec', 'MasterKeyChanged'])
            n = m.find(tag); i = m.index(n); m.remove(n)
            if tag != 'MasterKeyChangeRec': must(kp.credchange_required is False, 'credchange_required=%r without %s', kp.credchange_required, tag)
            if tag != 'MasterKeyChangeForce': must(kp.credchange_recommended is False, 'credchange_recommended=%r without %s', kp.credchange_recommended, tag)
            m.insert(i, n)
            continue
        if op == 'set':
            a = rng.choice(list(SET)); t = cx.text(rng, quote=True, empty=True)
            setattr(kp, a, t)
            must((getattr(kp, a) or '') == t, '%s reads %r after writing %r', a, getattr(kp, a), t)
            meta.find(SET[a]).text = t
            same(cx.snap(kp), before.t(), 'setting %s' % a)
        elif op == 'days':
            a = rng.choice(list(DAYS)); d = rng.choice([-1, 0, 1, 30, 365, 10 ** 6])
            setattr(kp, a, d)
            must(getattr(kp, a) == d, '%s reads %r after writing %r', a, getattr(kp, a), d)
            meta.find(DAYS[a]).text = str(d)
            same(cx.snap(kp), before.t(), 'setting %s' % a)
        elif op == 'age':
            req, rec = rng.choice([-1, 0, 1, 2, 30, 31, 365]), rng.choice([-1, 0, 1, 2, 30, 31, 365])
            kp.credchange_required_days = req
            kp.credchange_recommended_days = rec
            base = rng.choice([req, rec])
            k = max(base, 0) + rng.choice([0, 1, 1, 2, -1, 40])
            s = rng.choice([5, -5, 3600 * 5, -3600 * 5, 40000])
            age = timedelta(days=k, seconds=s)
            off = timezone(timedelta(minutes=rng.choice([0, 0, 180, -300, 720])))
            kp.credchange_date = (datetime.now(UTC) - age).astimezone(off)
            days = (age + timedelta(seconds=1)).days
            must(bool(kp.credchange_required) == (req != -1 and days > req), 'credchange_required=%r with %d days required and %s elapsed', kp.credchange_required, req, age)
            must(bool(kp.credchange_recommended) == (rec != -1 and days > rec), 'credchange_recommended=%r with %d days recommended and %s elapsed', kp.credchange_recommended, rec, age)
        else:
            lo = datetime.now(UTC)
            if op == 'pw':
                pw = rng.choice([cx.text(rng, quote=True), '', None]) if kp.keyfile else cx.text(rng, quote=True, empty=True)
                kp.password = pw
                must(kp.password == pw, 'password reads %r', kp.password)
            else:
                kf = cx.rand_bytes(rng, rng.choice([1, 31, 32, 33, 64, 100]))
                with open('kf', 'wb') as f: f.write(kf)
                kp.keyfile = 'kf'
                must(kp.keyfile == 'kf', 'keyfile')
            hi = datetime.now(UTC)
            clock(lo, kp.credchange_date, hi, v, 'credential change date')
            m = cx.Mirror(kp)
            for x in (m, before): x.root.find('Meta').find('MasterKeyChanged').text = ''
            same(m.t(), before.t(), 'changing credentials: rest of the database')
            f = io.BytesIO()
            kp.save(f)
            kfb = open(kp.keyfile, 'rb').read() if kp.keyfile else None
            try: db = R.read(f.getvalue(), password=kp.password, keyfile=kfb)
            except Exception as e: must(False, 'the saved file does not open with the new credentials: %r', e)
            same(cx.mirror(db.root).t(), cx.snap(kp), 'content saved under the new credentials')
