"""C04 on the unmodified code."""
import io, os
from . import cx
from .. import ref_kdbx as R
from .c01 import CONF, configure, opener, rb
from .c02 import flipbit
from .cx import must
BUDGET = (20, 240)
RULE = 'intact and specifically damaged files opened with right and wrong credentials; the exception raised compared with the one that names the cause'
KINDS = ['ok', 'wrongpw', 'wrongkf', 'wrongtk', 'nopw', 'extrapw', 'extrakf', 'nokf', 'magic', 'sha', 'head', 'block', 'final', 'xml', 'missing', 'trunc', 'cipherid', 'keyfilemissing', 'blockwrongpw', 'nodecrypt', 'garbage', 'gz', 'index']
def cases(rng, i, thorough):
    c = list(rng.choice(CONF))
    if c[1] == 'twofish' and rng.random() < .5: c[1] = 'chacha20'
    if c[3] != 'aeskdf' and rng.random() < .7: c[3] = 'aeskdf'
    return {'seed': rng.getrandbits(48), 'conf': c, 'kind': KINDS[(i // 8 + i % 8 * 3) % len(KINDS)]}

@cx.guarded
def check(case):
    from pykeepass import PyKeePass
    from pykeepass.exceptions import CredentialsError, HeaderChecksumError, PayloadChecksumError
    THREE = (CredentialsError, HeaderChecksumError, PayloadChecksumError)
    rng = cx.rng_of(case)
    conf, kind = case['conf'], case['kind']
    v = conf[0]
    cfg = configure(rng, conf)
    cfg['order'] = None
    db, tree, blobs, g = cx.make(rng, v, small=True, depth=1, **cfg)
    db.block = rng.choice([300, 1000, 2 ** 20])
    good = R.write(db)
    head = 12 + sum(1 + (4 if v == 4 else 2) + len(d) for _, d in R.read(good, db.password, db.keyfile).header_items)
    pw, kf, tk, data, dec = db.password, db.keyfile, None, good, True
    expect = None
    if kind == 'wrongpw': pw = (pw or '') + rng.choice(['x', ' ', '\n', 'é']); expect = CredentialsError
    elif kind == 'wrongkf': kf = rb(rng, 32); expect = CredentialsError
    elif kind == 'wrongtk': tk = flipbit(db.tkey(), rng.randrange(32), rng) if rng.random() < .7 else rb(rng, 32); pw = kf = None; expect = CredentialsError
    elif kind == 'nopw':
        if pw is None: return
        pw = None; expect = CredentialsError
    elif kind == 'extrapw':
        if pw is not None: return
        pw = ''; expect = CredentialsError
    elif kind == 'extrakf':
        if kf is not None: return
        kf = b'k'; expect = CredentialsError
    elif kind == 'nokf':
        if kf is None: return
        kf = None; expect = CredentialsError
    elif kind == 'magic':
        if rng.random() < .5: data = flipbit(good, rng.randrange(8), rng)
        else: data = rng.choice([b'PK\3\4' * 100, b'\x03\xd9\xa2\x9a\x65\xfb\x4b\xb5' + good[8:], b'\0' * 500, b'\x67\xfb\x4b\xb5\x03\xd9\xa2\x9a' + good[8:]])
        expect = HeaderChecksumError
        if rng.random() < .3: pw = 'wrong'
    elif kind == 'garbage': data = rb(rng, rng.choice([8, 9, 100])); expect = HeaderChecksumError
    elif kind == 'sha':
        if v == 3: return
        data = flipbit(good, head + rng.randrange(32), rng); expect = HeaderChecksumError
        if rng.random() < .3: pw = 'wrong'
    elif kind == 'head':
        if v == 3: return
        i = good.index(db.seed) + rng.randrange(32) if rng.random() < .5 else good.index(db.iv) + rng.randrange(len(db.iv))
        data = flipbit(good, i, rng); expect = HeaderChecksumError
    elif kind in ('block', 'final', 'blockwrongpw'):
        def f(r, hk):
            k = len(r) - 1 if kind == 'final' else rng.randrange(len(r) - 1)
            if rng.random() < .5 or kind == 'final': r[k][2] = flipbit(r[k][2], rng.randrange(32), rng)
            else: r[k][1] = flipbit(r[k][1], rng.randrange(len(r[k][1])), rng)
            return r
        db.tweak = {'blocks': f}
        data = R.write(db); expect = PayloadChecksumError
        if kind == 'blockwrongpw': pw = (pw or '') + 'x'; expect = CredentialsError
    elif kind == 'index':
        if v == 4: return
        def f(r, hk):
            k = rng.randrange(len(r)); r[k][0] = rng.choice([r[k][0] + 1, 99, 0xffffffff])
            return r
        db.tweak = {'blocks': f}
        data = R.write(db); expect = 'other'
    elif kind == 'xml':
        db.root = None; db.xml = rng.choice([b'', b'not xml', b'<a><b></a>', b'<a>' * 5]); data = R.write(db); expect = 'other'
    elif kind == 'gz':
        if not db.compressed: return
        old = R.gz
        R.gz = lambda b: b'this is not gzip data at all'
        try: data = R.write(db)
        finally: R.gz = old
        expect = 'other'
    elif kind == 'trunc': data = good[:rng.randrange(8, head)]; expect = 'other'
    elif kind == 'cipherid': data = good.replace(R.CIPHERS[db.cipher], b'\x01' * 16); expect = 'other'
    elif kind == 'nodecrypt': dec = False; pw, kf = rng.choice([None, 'zz']), None
    kfp = None
    if kf is not None:
        with open('key.bin', 'wb') as f: f.write(kf)
        kfp = 'key.bin'
    if kind == 'keyfilemissing': kfp = 'no-such-key'; expect = 'other'
    how = rng.choice(['path', 'stream'])
    if kind == 'missing': how = 'none'; expect = 'other'
    if how == 'path':
        with open('db.kdbx', 'wb') as f: f.write(data)
        src = 'db.kdbx'
    elif how == 'stream': src = io.BytesIO(data)
    else: src = 'no-such-file.kdbx'
    kw = dict(password=pw, keyfile=kfp, transformed_key=tk)
    if not dec: kw['decrypt'] = False
    try: kp = PyKeePass(src, **kw)
    except Exception as e:
        must(expect is not None, 'an intact file with right credentials raised %s: %s', type(e).__name__, e)
        if expect == 'other': must(not isinstance(e, THREE), '%s was reported as %s', kind, type(e).__name__)
        else: must(isinstance(e, expect), '%s raised %s (%s) instead of %s', kind, type(e).__name__, str(e)[:100], expect.__name__)
        return
    must(expect is None, '%s was accepted', kind)
    if dec: must(cx.snap(kp) == tree.t(), 'content')
