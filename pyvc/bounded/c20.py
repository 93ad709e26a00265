"""C20 on the unmodified code."""
import io, os
from . import cx
from .. import ref_kdbx as R
from .cx import must, same
BUDGET = (30, 240)
RULE = 'databases created at a path or stream with every kind of credentials, read independently and re-opened with right and wrong credentials; reload after edits'
def cases(rng, i, thorough):
    return {'seed': rng.getrandbits(48), 'kind': rng.choice(['reload', 'create']) if i >= 32 else ['create', 'reload'][(i // 8) % 2],
            'cred': ['pw', 'kf', 'both', 'tk', 'none', 'empty', 'tkpw'][(i // 16 + i) % 7], 'stream': rng.random() < .4, 'v': rng.choice([3, 4])}

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    (create if case['kind'] == 'create' else reload)(case, rng)

def create(case, rng):
    from pykeepass import PyKeePass, create_database
    from pykeepass.exceptions import CredentialsError
    pw = kf = tk = kfb = None
    c = case['cred']
    if c in ('pw', 'both', 'tkpw'): pw = cx.text(rng, quote=True)
    if c == 'empty': pw = ''
    if c in ('kf', 'both'):
        kfb = cx.rand_bytes(rng, rng.choice([1, 32, 64, 200]))
        kf = 'create.key'
        with open(kf, 'wb') as f: f.write(kfb)
    if c in ('tk', 'tkpw'): tk = bytes(rng.randrange(256) for _ in range(32))
    if case['stream']:
        dest = io.BytesIO()
    else:
        dest = 'new db.kdbx'
        if os.path.exists(dest): os.remove(dest)
        if rng.random() < .4:
            with open(dest, 'wb') as f: f.write(b'old')
    kw = {k: v for k, v in dict(password=pw, keyfile=kf, transformed_key=tk).items() if v is not None or rng.random() < .5}
    kp = create_database(dest, **kw)
    data = dest.getvalue() if case['stream'] else open(dest, 'rb').read()
    try: db = R.read(data, pw, kfb, transformed=tk)
    except Exception as e: must(False, 'the created database does not open with its credentials: %s %s', type(e).__name__, e)
    must(db.version == 4, 'version')
    root = cx.mirror(db.root)
    must(not [n for n in root.iter() if n.tag == 'Entry'] and not db.binaries, 'a new database is not empty')
    must(len([n for n in root.find('Root').iter() if n.tag == 'Group']) == 1, 'a new database has groups')
    must(cx.snap(kp) == root.t() and kp.entries == [] and kp.password == pw and kp.keyfile == kf and kp.filename is dest, 'the returned object is not the created database')
    # the same file does not open with other credentials
    k = rng.randrange(3)
    wrong = dict(password=(pw or '') + 'x', keyfile=kf) if k == 0 else dict(password=pw, keyfile=None if kf else __file__) if k == 1 else dict(transformed_key=b'\x55' * 32)
    if tk is not None and rng.random() < .5: wrong = dict(password=pw, keyfile=kf)
    try: PyKeePass(io.BytesIO(data), **wrong)
    except CredentialsError: pass
    else: must(False, 'the created database opens with %r although it was created with %s', wrong, c)
    if tk is None and rng.random() < .6:
        kp.add_entry(kp.root_group, 't', 'u', 'p')
        if case['stream']: dest.seek(0); dest.truncate()
        kp.save()
        data = dest.getvalue() if case['stream'] else open(dest, 'rb').read()
        db = R.read(data, pw, kfb)
        must(cx.mirror(db.root).t() == cx.snap(kp), 'saving the created database')
        must(os.path.exists('new db.kdbx') or case['stream'], 'place')
    from pykeepass import pykeepass as P
    blank = getattr(P, 'BLANK_DATABASE_LOCATION', None)
    if blank: must(R.sha256(open(blank, 'rb').read()) == BLANK, 'the template of new databases was overwritten')
BLANK = None
try:
    import hashlib
    BLANK = hashlib.sha256(open(os.path.join(os.environ.get('PYVC_REPO', '/repo'), 'pykeepass', 'blank_database.kdbx'), 'rb').read()).digest()
except OSError: pass

def reload(case, rng):
    from pykeepass import PyKeePass
    for _ in range(8):
        db, tree, blobs, g = cx.make(rng, case['v'], small=True, keyfile=rng.choice([None, b'z' * 32]))
        db.password = rng.choice([None, 'pw', '']) if db.keyfile is not None else rng.choice([db.password, '', 'p q'])
        kf = None
        if db.keyfile:
            kf = 'r.key'
            with open(kf, 'wb') as f: f.write(db.keyfile)
        with open('r.kdbx', 'wb') as f: f.write(R.write(db))
        kp = PyKeePass('r.kdbx', password=db.password, keyfile=kf)
        saved = cx.snap(kp); sb = kp.binaries
        for _ in range(rng.choice([1, 2, 4])):
            o = rng.randrange(5)
            if o == 0: kp.add_entry(rng.choice(kp.groups), 'x%d' % rng.getrandbits(30), 'u', 'p')
            elif o == 1: kp.add_binary(b'zz')
            elif o == 2: kp.database_name = cx.text(rng)
            elif o == 3:
                kp.save(); saved = cx.snap(kp); sb = kp.binaries
            else:
                kp.save('elsewhere.kdbx')
        kp.reload()
        must(cx.snap(kp) == saved and kp.binaries == sb, 'reload does not restore the content last saved')
        must(kp.filename == 'r.kdbx' and kp.password == db.password and kp.keyfile == kf, 'reload changed the credentials or the file name')
        kp.add_group(kp.root_group, 'after'); kp.save()
        b = R.read(open('r.kdbx', 'rb').read(), db.password, db.keyfile)
        must(cx.mirror(b.root).t() == cx.snap(kp), 'saving after reload')
