"""C01 on the unmodified code: files written by an independent writer are opened, edited, saved and read back by an independent reader."""
import io, os
from . import cx
from .. import ref_kdbx as R
from .cx import must, same
BUDGET = (35, 400)
RULE = 'files of every format/cipher/compression/KDF/inner-stream combination with generated content, and payload sizes around multiples of the block size; opened, edited, saved, compared with an independent reader and with re-opening'
CONF = [(v, c, z, k, s) for v in (3, 4) for c in ('aes256', 'chacha20', 'twofish') for z in (True, False)
        for k in (('aeskdf',) if v == 3 else ('aeskdf', 'argon2', 'argon2id')) for s in ('salsa20', 'chacha20', 'none')]
SIZES = [0, 1, 2, 15, 16, 17, 31, 32, 33]
def cases(rng, i, thorough):
    c = rng.choice(CONF) if i >= 2 * len(CONF) else CONF[i % len(CONF)]
    case = {'seed': rng.getrandbits(48), 'conf': list(c), 'big': None}
    if i % 8 == 3 and (i < 24 * 8 or thorough or rng.random() < .2):
        # payload of k blocks plus d bytes
        case['big'] = [rng.choice([1, 1, 2, 3]), rng.choice([-1, 0, 0, 1, -16, 16, -17, 5, -36])]
        v = rng.choice([3, 4])
        case['conf'] = [v, 'chacha20' if v == 4 or rng.random() < .5 else 'aes256', False, 'aeskdf', rng.choice(['chacha20', 'salsa20'])]
        if v == 4 and rng.random() < .2: case['conf'][1] = 'aes256'
    return case

def settings(db):
    h = dict(db.header_items)
    r = dict(version=(db.version, db.minor), cipher=db.cipher, compressed=db.compressed, kdf=db.kdf, stream_id=db.stream_id,
             ids=sorted(i for i, _ in db.header_items), extra={i: h[i] for i in (1, 12) if i in h})
    if db.version == 4: r['variant'] = sorted(db.variant, key=lambda x: x[0])
    else: r['kdf_params'] = db.kdf_params
    return r

def rb(rng, n): return bytes(rng.randrange(256) for _ in range(n))

def configure(rng, conf, **k):
    v, cipher, z, kdf, sid = conf
    d = dict(cipher=cipher, compressed=z, kdf=kdf, stream_id=sid, seed=rb(rng, 32), stream_key=rb(rng, 64 if v == 4 else 32), start=rb(rng, 32),
             iv=rb(rng, 12 if cipher == 'chacha20' else 16))
    d['kdf_params'] = {'S': rb(rng, 32), 'R': rng.choice([0, 1, 2, 5])} if kdf == 'aeskdf' else {'S': rb(rng, rng.choice([8, 16, 32])), 'I': rng.choice([1, 2]), 'M': 1024 * rng.choice([16, 32]), 'P': rng.choice([1, 2]), 'V': rng.choice([0x10, 0x13])}
    ex = []
    if rng.random() < .3: ex.append((1, rb(rng, rng.choice([0, 1, 20]))))
    if v == 4 and rng.random() < .3: ex.append((12, R.variant_dict([('x', 0x18, 'ü'), ('n', 0x0C, -5)])))
    d['extra'] = ex
    if v == 4 and rng.random() < .4:
        d['kdf_extra'] = rng.sample([('K', 0x42, rb(rng, 3)), ('B', 0x08, True), ('b', 0x08, False), ('i', 0x0C, -7), ('l', 0x0D, -2 ** 40), ('s', 0x18, 'aé'), ('u', 0x04, 2 ** 32 - 1), ('E', 0x42, b'')], rng.randrange(1, 4))
    if rng.random() < .3: d['order'] = rng.shuffle
    if rng.random() < .3: d['block'] = rng.choice([1, 7, 64, 1000])
    if rng.random() < .5:
        d['keyfile'] = rb(rng, rng.choice([1, 32, 64, 100]))
        d['password'] = rng.choice([None, '', 'pw', 'pässwörd 中'])
    else: d['password'] = rng.choice(['', 'pw', 'pässwörd 中', 'x' * 200])
    d.update(k)
    return d

def opener(db):
    from pykeepass import PyKeePass
    kf = None
    if db.keyfile is not None:
        kf = 'key.bin'
        with open(kf, 'wb') as f: f.write(db.keyfile)
    return lambda data: PyKeePass(io.BytesIO(data), password=db.password, keyfile=kf)

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    conf = case['conf']
    v = conf[0]
    cfg = configure(rng, conf)
    db, tree, blobs, g = cx.make(rng, v, small=True, quote=True, **cfg)
    if case['big']:
        db.block = 2 ** 20
        k, d = case['big']
        target = k * 2 ** 20 + d
        db.root = tree.xml()
        name = db.root.find('Meta/DatabaseDescription')
        tn = tree.find('Meta').find('DatabaseDescription')
        name.text = tn.text = 'x'
        from lxml import etree
        over = len(etree.tostring(R.protect(db.root, db.stream_id, db.stream_key)))
        if v == 4: over += sum(5 + len(x) for x in [b'1234', db.stream_key, b''] + [b'f' + b for _, b in db.binaries])
        tn.text = name.text = 'x' * (target - over + 1)
    data = R.write(db)
    ref = R.read(data, db.password, db.keyfile)
    same(cx.mirror(ref.root).t(), tree.t(), 'harness')
    op = opener(db)
    kp = op(data)
    same(cx.snap(kp), tree.t(), 'opened content')
    must(kp.binaries == blobs, 'opened binaries')
    must(kp.version == (v, 0 if v == 4 else 1) and kp.encryption_algorithm == db.cipher and kp.kdf_algorithm == db.kdf and kp.database_salt == db.kdf_params['S'], 'header properties')
    flags = [f for f, _ in db.binaries]
    for rnd in range(rng.choice([1, 1, 2])):
        if rng.random() < .6 and not case['big']:
            es, gs = kp.entries, kp.groups
            for _ in range(rng.randrange(1, 5)):
                o = rng.randrange(5)
                if o == 0 and es: rng.choice(es).password = cx.text(rng, quote=True, empty=True)
                elif o == 1: kp.add_entry(rng.choice(gs), 'n%d' % rng.getrandbits(40), 'u', cx.text(rng, quote=True))
                elif o == 2 and es: rng.choice(es).set_custom_property(cx.key_text(rng), cx.text(rng, quote=True), rng.random() < .5)
                elif o == 3:
                    b = cx.rand_bytes(rng); p = rng.random() < .5
                    kp.add_binary(b, protected=p, compressed=rng.random() < .5); blobs = blobs + [b]
                    if v == 4: flags = flags + [1 if p else 0]
                elif es: rng.choice(es).save_history()
        mem = cx.snap(kp)
        out = io.BytesIO()
        kp.save(out)
        same(cx.snap(kp), mem, 'saving changed the content in memory')
        try: back = R.read(out.getvalue(), db.password, db.keyfile)
        except Exception as e: must(False, 'the saved file is not a valid KDBX file: %s %s', type(e).__name__, e)
        same(cx.mirror(back.root).t(), mem, 'content of the saved file')
        must(settings(back) == settings(ref), 'header settings changed: %r vs %r', settings(back), settings(ref))
        if v == 4: must(back.binaries == list(zip(flags, blobs)), 'binaries in the saved file')
        kp2 = op(out.getvalue())
        same(cx.snap(kp2), mem, 're-opened content')
        must(kp2.binaries == blobs, 're-opened binaries')
        kp = kp2
