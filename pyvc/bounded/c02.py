"""C02 on the unmodified code: alterations of valid files."""
import io, hashlib, hmac
from . import cx
from .. import ref_kdbx as R
from .c01 import CONF, configure, opener, rb
from .cx import must
BUDGET = (30, 300)
RULE = 'valid multi-block files with one alteration each (bytes, blocks, digests, order, truncation; with consistent re-encryption for KDBX 3); opening must fail, or for unauthenticated positions give the same content'
KINDS4 = ['flip', 'flip', 'flip', 'sha', 'hmac', 'blockhmac', 'finalhmac', 'swap', 'drop', 'dup', 'trunc', 'insert', 'index', 'length', 'nofinal', 'emptymid', 'otherkey', 'headmod', 'blockdata', 'droplast', 'replace', 'headhmac_other', 'zerohmac']
KINDS3 = ['flip', 'flip', 'start', 'bhash', 'bdata', 'index', 'swap', 'drop', 'dup', 'finalhash', 'trunc', 'nofinal', 'indexall', 'indexfinal', 'zerohash', 'drop0']
def cases(rng, i, thorough):
    c = list(rng.choice(CONF))
    if c[1] == 'twofish' and rng.random() < .7: c[1] = 'aes256'
    if c[3] != 'aeskdf' and rng.random() < .8: c[3] = 'aeskdf'
    return {'seed': rng.getrandbits(48), 'conf': c, 'kind': (KINDS4 if c[0] == 4 else KINDS3)[(i // 8) % len(KINDS4 if c[0] == 4 else KINDS3)] if i < 400 else rng.choice(KINDS4 if c[0] == 4 else KINDS3)}

def flipbit(b, i, rng):
    return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    conf, kind = case['conf'], case['kind']
    v = conf[0]
    cfg = configure(rng, conf)
    cfg['order'] = None
    db, tree, blobs, g = cx.make(rng, v, small=True, depth=1, **cfg)
    db.block = rng.choice([200, 333, 1000])
    good = R.write(db)
    op = opener(db)
    kp = op(good)
    orig = (cx.snap(kp), kp.binaries)
    ref = R.read(good, db.password, db.keyfile)
    head = 12 + sum(1 + (4 if v == 4 else 2) + len(d) for _, d in ref.header_items)
    must_fail = True
    t = {}
    bad = None
    if v == 4:
        hk = R.sha512(db.seed + db.tkey() + b'\x01')
        mac = lambda i, b, idx=None, n=None: hmac.new(R.sha512(R.u64(i) + hk), R.u64(i if idx is None else idx) + R.u32(len(b) if n is None else n) + b, hashlib.sha256).digest()
        def blocks(f): t['blocks'] = lambda recs, hk: f(recs)
        pick = lambda recs: rng.randrange(len(recs) - 1)
        if kind == 'flip':
            must_fail = False
            i = rng.randrange(head, len(good)) if rng.random() < .85 else rng.randrange(12, head)
            if i < head:     # not in the KDF parameters (cost)
                pos = 12
                for idd, d in ref.header_items:
                    nxt = pos + 5 + len(d)
                    if pos <= i < nxt: break
                    pos = nxt
                if idd == 11: i = head + rng.randrange(64)
            bad = flipbit(good, i, rng)
            must_fail = True
        elif kind == 'sha': t['sha'] = flipbit(R.sha256(good[:head]), rng.randrange(32), rng)
        elif kind == 'hmac': bad = flipbit(good, head + 32 + rng.randrange(32), rng)
        elif kind == 'zerohmac':
            f = rng.randrange(3)
            if f == 0: bad = good[:head + 32] + b'\0' * 32 + good[head + 64:]
            elif f == 1: blocks(lambda r: [[i, b, b'\0' * 32] if i == len(r) - 1 else [i, b, h] for i, b, h in r])
            else: blocks(lambda r: [[i, b, b'\0' * 32] if i == 0 else [i, b, h] for i, b, h in r])
        elif kind == 'headhmac_other': bad = good[:head + 32] + hmac.new(R.sha512(b'\xff' * 8 + b'x' * 64), good[:head], hashlib.sha256).digest() + good[head + 64:]
        elif kind == 'blockhmac':
            def f(r):
                k = pick(r); r[k][2] = flipbit(r[k][2], rng.randrange(32), rng); return r
            blocks(f)
        elif kind == 'blockdata':
            def f(r):
                k = pick(r); r[k][1] = flipbit(r[k][1], rng.randrange(len(r[k][1])), rng); return r
            blocks(f)
        elif kind == 'replace':
            def f(r):
                k = pick(r); r[k][1] = rb(rng, len(r[k][1])) ; return r
            blocks(f)
        elif kind == 'finalhmac':
            def f(r):
                r[-1][2] = flipbit(r[-1][2], rng.randrange(32), rng) if rng.random() < .5 else rb(rng, 32); return r
            blocks(f)
        elif kind == 'swap':
            def f(r):
                if len(r) < 3: r[0], r[1] = r[1], r[0]; return r
                k = rng.randrange(len(r) - 2); r[k], r[k + 1] = r[k + 1], r[k]; return r
            blocks(f)
        elif kind == 'drop':
            def f(r): del r[pick(r)]; return r
            blocks(f)
        elif kind == 'droplast':
            def f(r): del r[-2]; return r
            blocks(f)
        elif kind == 'dup':
            def f(r):
                k = pick(r); r.insert(k, list(r[k])); return r
            blocks(f)
        elif kind == 'insert':
            def f(r):
                k = pick(r); b = rb(rng, 20); r.insert(k, [k, b, mac(k, b)]); return r     # a valid block at position k shifts all others
            blocks(f)
        elif kind == 'index':
            def f(r):
                k = pick(r); r[k][2] = mac(k, r[k][1], idx=k + 1) if rng.random() < .5 else mac(k + 1, r[k][1]); return r
            blocks(f)
        elif kind == 'length':
            def f(r):
                k = pick(r); r[k][2] = mac(k, r[k][1], n=len(r[k][1]) + 1); return r
            blocks(f)
        elif kind == 'otherkey':
            def f(r):
                k = pick(r); r[k][2] = hmac.new(R.sha512(R.u64(k) + R.sha512(db.seed + db.tkey())), R.u64(k) + R.u32(len(r[k][1])) + r[k][1], hashlib.sha256).digest(); return r
            blocks(f)
        elif kind == 'nofinal': blocks(lambda r: r[:-1])
        elif kind == 'emptymid':
            def f(r):
                k = pick(r); return r[:k] + [[k, b'', rng.choice([b'\0' * 32, R.sha256(b''), r[-1][2] if k != len(r) - 1 else b'\0' * 32])]] + r[k:]
            blocks(f)
        elif kind == 'trunc': bad = good[:rng.randrange(head, len(good))]
        elif kind == 'headmod':
            bad = bytearray(good); i = good.index(db.seed) + rng.randrange(32); bad[i] ^= 1 << rng.randrange(8); bad = bytes(bad)
            if rng.random() < .5: bad = bad[:head] + R.sha256(bad[:head]) + bad[head + 32:]
    else:
        def blocks(f): t['blocks'] = lambda recs, hk: f(recs)
        pick = lambda recs: rng.randrange(len(recs) - 1)
        if kind == 'flip':
            must_fail = False
            bad = flipbit(good, rng.randrange(head, len(good)), rng)
        elif kind == 'start': t['start'] = flipbit(db.start, rng.randrange(32), rng)
        elif kind == 'bhash':
            def f(r):
                k = pick(r); r[k][2] = flipbit(r[k][2], rng.randrange(32), rng); return r
            blocks(f)
        elif kind == 'zerohash':
            def f(r):
                k = pick(r); r[k][2] = b'\0' * 32; return r
            blocks(f)
        elif kind == 'bdata':
            def f(r):
                k = pick(r); r[k][1] = flipbit(r[k][1], rng.randrange(len(r[k][1])), rng); return r
            blocks(f)
        elif kind == 'index':
            def f(r):
                k = pick(r); r[k][0] = rng.choice([k + 1, k + 2, 2 ** 32 - 1, 0 if k else 7]); return r
            blocks(f)
        elif kind == 'indexall': blocks(lambda r: [[i + 1, b, h] for i, b, h in r])
        elif kind == 'indexfinal': blocks(lambda r: [[i + (i == len(r) - 1), b, h] for i, b, h in r])
        elif kind == 'swap':
            def f(r):
                if len(r) < 3: r[0][0] = 1; return r
                k = rng.randrange(len(r) - 2); r[k], r[k + 1] = r[k + 1], r[k]; return r
            blocks(f)
        elif kind == 'drop':
            def f(r): del r[pick(r)]; return r
            blocks(f)
        elif kind == 'drop0':
            def f(r): del r[0]; return r
            blocks(f)
        elif kind == 'dup':
            def f(r):
                k = pick(r); r.insert(k, list(r[k])); return r
            blocks(f)
        elif kind == 'finalhash':
            def f(r): r[-1][2] = rng.choice([R.sha256(b''), b'\0' * 31 + b'\1', rb(rng, 32)]); return r
            blocks(f)
        elif kind == 'nofinal': blocks(lambda r: r[:-1])
        elif kind == 'trunc':
            must_fail = True
            n = rng.randrange(1, 40)
            t['plain'] = lambda p: p[:-n]
    if bad is None:
        db.tweak = t
        bad = R.write(db)
    if bad == good: return
    try: kp = op(bad)
    except Exception: return
    got = (cx.snap(kp), kp.binaries)
    must(not must_fail, '%s of a KDBX %d file was accepted', kind, v)
    must(got == orig, '%s of a KDBX %d file gives different content', kind, v)
