"""C17 on the unmodified code: the stored XML of saved files, read independently."""
import io, base64
from . import cx
from .. import ref_kdbx as R
from .c01 import CONF, configure, opener
from .cx import must, same
BUDGET = (20, 240)
RULE = 'databases with many protected and unprotected values (also in history) opened and saved repeatedly; the stored XML of each file decrypted with an independent implementation of the inner stream'
def cases(rng, i, thorough):
    c = list(rng.choice(CONF))
    if c[1] == 'twofish': c[1] = 'aes256'
    if c[3] != 'aeskdf': c[3] = 'aeskdf'
    if c[4] == 'none' and rng.random() < .8: c[4] = 'salsa20'
    return {'seed': rng.getrandbits(48), 'conf': c}

def stored_ok(data, db, mem):
    back = R.read(data, db.password, db.keyfile)
    raw, plain = cx.mirror(back.raw_root), mem
    st = R.stream(db.stream_id, db.stream_key)
    def walk(r, p, path):
        must(r.tag == p[0] and tuple(sorted(r.attrib.items())) == p[2] and len(r.kids) == len(p[3]), 'structure of the stored XML at %s', path)
        if r.tag == 'Value' and r.attrib.get('Protected') == 'True' and st is not None:
            t = p[1].encode('utf-8')
            if t:
                exp = base64.b64encode(st.encrypt(t)).decode()
                must(r.text == exp, 'protected value %r is stored as %r, expected %r', p[1], r.text, exp)
            else: must(not r.text, 'an empty protected value is stored as %r', r.text)
        else: must(r.text == p[1], 'unprotected text %r is stored as %r (%s)', p[1], r.text, path)
        for a, b in zip(r.kids, p[3]): walk(a, b, path + '/' + a.tag)
    walk(raw, plain, '')

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    conf = case['conf']
    cfg = configure(rng, conf)
    db, tree, blobs, g = cx.make(rng, conf[0], small=rng.random() < .6, quote=True, **cfg)
    op = opener(db)
    kp = op(R.write(db))
    same(cx.snap(kp), tree.t(), 'opened content')
    for _ in range(rng.choice([1, 2, 3])):
        for _ in range(rng.randrange(0, 4)):
            es = kp.entries
            if not es: break
            e = rng.choice(es); o = rng.randrange(5)
            if o == 0: e.password = cx.text(rng, quote=True, empty=True)
            elif o == 1: e.set_custom_property(cx.key_text(rng), cx.long_text(rng), True)
            elif o == 2: e.otp = cx.text(rng)
            elif o == 3: e.save_history()
            else: kp.delete_entry(e)
        mem = cx.snap(kp)
        for k in range(rng.choice([1, 2])):
            f = io.BytesIO()
            kp.save(f)
            same(cx.snap(kp), mem, 'saving changed the values in memory')
            stored_ok(f.getvalue(), db, mem)
        if rng.random() < .5:
            kp = op(f.getvalue())
            same(cx.snap(kp), mem, 're-opened content')
