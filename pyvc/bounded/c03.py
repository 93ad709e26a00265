"""C03 on the unmodified code."""
import io, base64
from . import cx
from .. import ref_kdbx as R
from .c01 import CONF, configure, rb
from .cx import must
BUDGET = (20, 240)
RULE = 'files written with keys derived by an independent implementation from every kind of password and key file; opened with the key file as path or as stream at any position, or with the transformed key; derived keys compared'
HEX = b'0123456789abcdefABCDEF'
def cases(rng, i, thorough):
    c = list(rng.choice(CONF)) if i % 3 else [rng.choice([3, 4]), 'aes256', True, 'aeskdf', 'none']
    if c[1] == 'twofish': c[1] = 'aes256'
    return {'seed': rng.getrandbits(48), 'conf': c, 'kf': ['raw32', 'hex64', 'any', 'v1', 'v2', 'notxml', 'none', 'near64', 'v2bad', 'v2ws', 'xmlother', 'odd', 'emptykf'][(i // 8) % 13]}

def keyfile(rng, kind):
    k = rb(rng, 32)
    if kind == 'raw32': return k if rng.random() < .7 else rng.choice([b'a' * 32, b'0' * 32, b'<' + b'x' * 31, b'\0' * 32])
    if kind == 'hex64': return rng.choice([k.hex().encode(), k.hex().upper().encode(), bytes(rng.choice(HEX) for _ in range(64))])
    if kind == 'any': return rb(rng, rng.choice([1, 16, 31, 33, 48, 63, 64, 65, 128, 1000]))
    if kind == 'near64': return rng.choice([k.hex().encode()[:63] + b'\n', b'0x' + k.hex().encode()[:62], k.hex().encode()[:63], k.hex().encode() + b'\n', b'g' + k.hex().encode()[1:], b'+' + k.hex().encode()[1:], b' ' * 64, b'1_' * 32, b'-' + b'0' * 63])
    if kind == 'v1': return ('<?xml version="1.0" encoding="utf-8"?>\n<KeyFile><Meta><Version>%s</Version></Meta><Key><Data>%s</Data></Key></KeyFile>' % (rng.choice(['1.00', '1.0']), base64.b64encode(k).decode())).encode()
    if kind in ('v2', 'v2bad', 'v2ws'):
        h = R.sha256(k)[:4]
        if kind == 'v2bad': h = rng.choice([bytes([h[0] ^ 1]) + h[1:], h[:3] + bytes([h[3] ^ 128]), b'', h[:1], h[:3], h[:2], h + b'\0', R.sha256(k)[:5], R.sha256(k), h[::-1], h[1:]])
        x = k.hex().upper()
        if kind == 'v2ws' or rng.random() < .5: x = '\n\t\t' + ' '.join(x[i:i + 8] for i in range(0, 32, 8)) + '\n\t' + ' '.join(x[i:i + 8] for i in range(32, 64, 8)) + '\n'
        return ('<?xml version="1.0" encoding="utf-8"?>\n<KeyFile>\n<Meta>\n<Version>2.0</Version>\n</Meta>\n<Key>\n<Data Hash="%s">%s</Data>\n</Key>\n</KeyFile>' % (h.hex().upper(), x)).encode()
    if kind == 'notxml': return b'hello world' * rng.randrange(1, 9)
    if kind == 'xmlother': return rng.choice([b'<a/>', b'<KeyFile><Meta/></KeyFile>', b'<KeyFile><Meta><Version>3.0</Version></Meta><Key><Data>AAAA</Data></Key></KeyFile>', b'<KeyFile><Key><Data>AAAA</Data></Key></KeyFile>'])
    if kind == 'odd': return rng.choice([b'\xff\xfe\x00', b'\x00' * 64, b'\xef\xbb\xbf' + b'x', 'ключ'.encode() * 5])
    if kind == 'emptykf': return b''
    return None

class NoSeek(io.RawIOBase):
    def __init__(self, b): self.b = io.BytesIO(b)
    def read(self, *a): return self.b.read(*a)
    def seekable(self): return False
    def readable(self): return True

@cx.guarded
def check(case):
    from pykeepass import PyKeePass
    rng = cx.rng_of(case)
    kf = keyfile(rng, case['kf'])
    pw = rng.choice(['', 'pw', 'pässwörd 中😀', ' x ', 'a' * 300, '\u0000', 'e\u0301', '\u00e9']) if kf is None or rng.random() < .6 else None
    cfg = configure(rng, case['conf'])
    cfg.update(password=pw, keyfile=kf, order=None, block=2 ** 20)
    v = case['conf'][0]
    bad = case['kf'] == 'v2bad'
    try: db, tree, blobs, g = cx.make(rng, v, small=True, depth=1, nbin=0, **cfg)
    except ValueError: return
    if bad:
        db.transformed = b't' * 32
        data = R.write(db)
        with open('k', 'wb') as f: f.write(kf)
        try: PyKeePass(io.BytesIO(data), password=pw, keyfile='k')
        except AssertionError: return
        except Exception as e:
            from pykeepass.exceptions import CredentialsError
            must(not isinstance(e, CredentialsError), 'a version 2 key file with a wrong hash was used'); return
        must(False, 'a version 2 key file with a wrong hash was accepted')
    data = R.write(db)
    tk = db.tkey()
    hows = ['path', 'stream', 'streamend', 'noseek', 'streammid', 'twice'] if kf is not None else ['none']
    for how in rng.sample(hows, min(3, len(hows))):
        if how == 'none': k = None
        elif how == 'path':
            with open('key.bin', 'wb') as f: f.write(kf)
            k = 'key.bin'
        elif how == 'noseek': k = NoSeek(kf)
        else:
            k = io.BytesIO(kf)
            if how == 'streamend': k.seek(0, 2)
            if how == 'streammid': k.seek(len(kf) // 2)
        if how == 'noseek' and v == 4 and False: continue
        try: kp = PyKeePass(io.BytesIO(data), password=pw, keyfile=k)
        except Exception as e:
            if how == 'noseek' and case['conf'][3] == 'aeskdf' and v == 4: continue      # the key file is read twice
            must(False, 'right credentials (%s, key file as %s) refused: %s %s', case['kf'], how, type(e).__name__, e)
        must(kp.transformed_key == tk, 'transformed key differs')
        if how == 'twice': PyKeePass(io.BytesIO(data), password=pw, keyfile=k)
        if how in ('path', 'stream', 'streamend', 'none', 'streammid'):
            out = io.BytesIO()
            kp.save(out)
            try: b = R.read(out.getvalue(), pw, kf)
            except Exception as e: must(False, 'the saved file does not open with the same credentials: %r', e)
            must(b.transformed == tk, 'transformed key of the saved file')
    kp = PyKeePass(io.BytesIO(data), transformed_key=tk)
    must(kp.transformed_key == tk and cx.snap(kp) == tree.t(), 'opening with the transformed key')
    from pykeepass.kdbx_parsing import common
    if hasattr(common, 'compute_key_composite'):
        k = None if kf is None else io.BytesIO(kf)
        must(common.compute_key_composite(password=pw, keyfile=k) == R.composite(pw, kf), 'composite key')
