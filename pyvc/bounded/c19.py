"""C19 on the unmodified code."""
from datetime import datetime, timezone, timedelta
from . import cx
from .cx import must, same
BUDGET = (15, 200)
RULE = 'entries and groups added with random combinations of arguments, all stored values compared with the arguments; duplicates refused or forced'
cases = cx.simple_cases
UTC = timezone.utc

def tm(kp, n, tag):
    return kp._decode_time(n.find('Times').find(tag).text)

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    v = case['v']
    kp, tree, blobs, g = cx.open_db(rng, v, small=True)
    for _ in range(8):
        dest = rng.choice(kp.groups)
        before = cx.Mirror(kp)
        uuids = {n.find('UUID').text for n in before.root.iter() if n.tag in ('Entry', 'Group')}
        lo = datetime.now(UTC)
        if rng.random() < .3:
            name, icon, notes = cx.text(rng, quote=True), rng.choice([None, '5']), rng.choice([None, cx.text(rng, quote=True)])
            x = kp.add_group(dest, name, icon, notes)
            hi = datetime.now(UTC)
            m = cx.Mirror(kp); n = m.of(x)
            must(x.name == name and n.find('Name').text == name and len(n.all('Name')) == 1, 'group name')
            must((n.find('Notes').text if n.find('Notes') else None) == notes and x.notes == notes, 'group notes')
            must((n.find('IconID').text if n.find('IconID') else None) == icon and x.icon == icon, 'group icon')
            must(x.path == dest.path + [name], 'group path')
            must(not n.all('Entry') and not n.all('Group'), 'a new group is not empty')
            exp = None
        else:
            es = before.of(dest).all('Entry')
            title, user = cx.text(rng, quote=False), cx.text(rng, quote=False)
            if es and rng.random() < .6:
                src = rng.choice(es)
                t, u = src.field('Title'), src.field('UserName')
                if t is not None and t.text and '"' not in t.text and rng.random() < .8: title = t.text
                if u is not None and u.text and '"' not in u.text and rng.random() < .8: user = u.text
            fv = lambda n, k: n.field(k).text if n.field(k) is not None else None
            dupl = any(fv(n, 'Title') == title and fv(n, 'UserName') == user for n in es)
            kw = {}
            pw = cx.text(rng, quote=True, empty=True)
            for k in ('url', 'notes', 'otp'):
                if rng.random() < .5: kw[k] = cx.text(rng, quote=True)
            if rng.random() < .4: kw['icon'] = '7'
            if rng.random() < .4:
                tags = [cx.text(rng).replace(';', '').replace(',', '') or 'T' for _ in range(rng.randrange(1, 3))]
                kw['tags'] = tags if rng.random() < .6 else ';'.join(tags)
            exp = None
            if rng.random() < .5:
                exp = rng.choice([datetime.now(UTC) + timedelta(seconds=rng.choice([-1000, 1000, 10 ** 7, -10 ** 7])), datetime(rng.choice([2, 1600, 1965, 1970, 2037, 2039, 2999, 9990]), rng.randrange(1, 13), rng.randrange(1, 28), rng.randrange(24), tzinfo=UTC)])
                k = rng.randrange(3)
                if k == 0: kw['expiry_time'] = exp
                elif k == 1: kw['expiry_time'] = exp.astimezone(timezone(timedelta(minutes=rng.choice([60, -330, 840]))))
                else: kw['expiry_time'] = exp.astimezone().replace(tzinfo=None)      # naive: local time
            force = rng.random() < .3
            if force: kw['force_creation'] = True
            try: x = kp.add_entry(dest, title, user, pw, **kw)
            except Exception as e:
                must(dupl and not force, 'add_entry(%r, %r) was refused (%s: %s)', title, user, type(e).__name__, e)
                same(cx.snap(kp), before.t(), 'refused add_entry changed the database')
                continue
            hi = datetime.now(UTC)
            must(force or not dupl, 'a second entry with title %r and user name %r was accepted', title, user)
            m = cx.Mirror(kp); n = m.of(x)
            want = {'Title': title, 'UserName': user, 'Password': pw}
            for k, key in (('url', 'URL'), ('notes', 'Notes'), ('otp', 'otp')):
                if k in kw: want[key] = kw[k]
            got = {s.find('Key').text: s.find('Value').text for s in n.all('String')}
            must(got == want and len(n.all('String')) == len(want), 'fields of the new entry are %r, expected %r', got, want)
            must((x.title, x.username, x.password or '', x.url, x.notes, x.otp) == (title, user, pw, kw.get('url'), kw.get('notes'), kw.get('otp')), 'reading the new entry')
            must(n.field('Password').attrib.get('Protected') == 'True', 'password of a new entry not protected')
            if 'otp' in kw: must(n.field('otp').attrib.get('Protected') == 'True', 'otp of a new entry not protected')
            must(x.tags == (tags if 'tags' in kw else []), 'tags')
            must(x.icon == kw.get('icon'), 'icon')
            must(not n.all('Binary') and not n.all('History') and not x.history and not x.attachments and not x.custom_properties and not x.autotype_sequence and not x.autotype_window, 'attachments, history, auto-type settings or custom fields in a new entry')
            if 'expiry_time' in kw:
                must(x.expires is True and abs(x.expiry_time - exp) < (timedelta(seconds=1) if v == 4 else timedelta(microseconds=1)), 'expiry is %s, given %s', x.expiry_time, exp)
            if exp is not None: must(bool(x.expired) == (exp < hi), 'expired')
        lo2 = lo.replace(microsecond=0) if v == 4 else lo
        for a in ('ctime', 'mtime', 'atime'):
            must(lo2 <= getattr(x, a) <= hi, '%s of a new element is %s', a, getattr(x, a))
        if exp is None: must(x.expires is False and not x.expired, 'a new element without expiry time expires')
        must(n.find('UUID').text not in uuids and len(n.all('UUID')) == 1, 'the UUID of a new element is not fresh')
        must(n.up is m.of(dest), 'a new element is not in its destination')
        n.rm()
        same(m.t(), before.t(), 'adding: rest of the database')

def _q():
    import random
    kp, *_ = cx.open_db(random.Random(1), 4)
    try: kp.add_entry(kp.root_group, 'a"b', 'u', 'p')
    except Exception as x: return type(x).__name__
def _e():
    import random
    kp, *_ = cx.open_db(random.Random(1), 4)
    kp.add_entry(kp.root_group, 'tt', '', 'p')
    kp = cx.reopen(kp)
    try: kp.add_entry(kp.root_group, 'tt', '', 'p')
    except Exception as x: return None
    return 'accepted'
KNOWN = [('adding an entry whose title or user name contains a double quote raises XPathEvalError', _q),
         ('adding an entry with an empty user name twice is not refused after re-opening', _e)]
