"""An independent reader/writer of KDBX 3.1 and 4.0 files (written from the format description), used as oracle by
the bounded checks.  Shares no code with /repo."""
import hashlib, hmac as _hmac, struct, gzip, zlib, io, os, copy
from Cryptodome.Cipher import AES, ChaCha20, Salsa20
from lxml import etree
import base64

CIPHERS = {'aes256': bytes.fromhex('31c1f2e6bf714350be5805216afc5aff'), 'twofish': bytes.fromhex('ad68f29f576f4bb9a36ad47af965346c'),
           'chacha20': bytes.fromhex('d6038a2b8b6f4cb5a524339a31dbb59a')}
KDFS = {'aeskdf': bytes.fromhex('c9d9f39a628a4460bf740d08c18a4fea'), 'argon2': bytes.fromhex('ef636ddf8c29444b91f7a9a403e30a0c'),
        'argon2id': bytes.fromhex('9e298b1956db4773b23dfc3ec6f0a1e6')}
STREAMS = {'none': 0, 'salsa20': 2, 'chacha20': 3}

def sha256(b): return hashlib.sha256(b).digest()
def sha512(b): return hashlib.sha512(b).digest()

# ---- keys -----------------------------------------------------------------------------------------------
def keyfile_key(data):
    try:
        root = etree.fromstring(data)
        ver = root.findtext('Meta/Version')
    except (etree.XMLSyntaxError, ValueError):
        root = ver = None
    if root is not None and ver is not None:
        el = root.find('Key/Data')
        if ver.startswith('1.0'): return base64.b64decode(el.text)
        if ver.startswith('2.0'):
            k = bytes.fromhex(''.join(el.text.split()))
            if bytes.fromhex(el.get('Hash')) != sha256(k)[:4]: raise ValueError('keyfile hash')
            return k
    if len(data) == 32: return data
    if len(data) == 64:
        try: return bytes.fromhex(data.decode('ascii')) if all(c in b'0123456789abcdefABCDEF' for c in data) else sha256(data)
        except ValueError: pass
    return sha256(data)

def composite(password, keyfile_bytes):
    s = b''
    if password is not None: s += sha256(password.encode('utf-8'))
    if keyfile_bytes is not None: s += keyfile_key(keyfile_bytes)
    return sha256(s)

def aeskdf(seed, rounds, key):
    c = AES.new(seed, AES.MODE_ECB)
    for _ in range(rounds): key = c.encrypt(key)
    return sha256(key)

def transform(kdf, p, comp):
    if kdf == 'aeskdf': return aeskdf(p['S'], p['R'], comp)
    import argon2
    return argon2.low_level.hash_secret_raw(secret=comp, salt=p['S'], hash_len=32, time_cost=p['I'], memory_cost=p['M'] // 1024,
        parallelism=p['P'], version=p['V'], type=argon2.low_level.Type.ID if kdf == 'argon2id' else argon2.low_level.Type.D)

# ---- payload ciphers -------------------------------------------------------------------------------------
def pad(d):
    n = 16 - len(d) % 16
    return d + bytes([n]) * n
def unpad(d):
    n = d[-1]
    if not 1 <= n <= 16 or d[-n:] != bytes([n]) * n: raise ValueError('padding')
    return d[:-n]
_tf = {}
def _tf_tables(key):
    from . import spec_twofish as spec
    if key not in _tf:
        _tf.clear()
        ws = list(struct.unpack('<%dL' % (len(key) // 4), key))
        K, S = spec.key_schedule(spec.Int, ws)
        _tf[key] = K, [[spec.g_byte(spec.Int, j, i, S) for i in range(256)] for j in range(4)]
    return _tf[key]
def tf_enc(key, iv, data):
    from . import spec_twofish as spec
    K, t = _tf_tables(key)
    g = lambda x: t[0][x & 255] ^ t[1][x >> 8 & 255] ^ t[2][x >> 16 & 255] ^ t[3][x >> 24]
    out = []
    for i in range(0, len(data), 16):
        x = bytes(a ^ b for a, b in zip(data[i:i + 16], iv))
        iv = struct.pack('<4L', *spec.encrypt_words(K, g, list(struct.unpack('<4L', x))))
        out.append(iv)
    return b''.join(out)
def tf_dec(key, iv, data):
    from .spec_twofish import rol, ror
    K, t = _tf_tables(key)
    g = lambda x: t[0][x & 255] ^ t[1][x >> 8 & 255] ^ t[2][x >> 16 & 255] ^ t[3][x >> 24]
    out = []
    for i in range(0, len(data), 16):
        c = data[i:i + 16]
        R = [w ^ K[j + 4] for j, w in enumerate(struct.unpack('<4L', c))]
        R = [R[2], R[3], R[0], R[1]]
        for r in range(15, -1, -1):
            a, b = R[2], R[3]        # R[0], R[1] before the round
            t0, t1 = g(a), g(rol(b, 8))
            R = [a, b, rol(R[0], 1) ^ ((t0 + t1 + K[2 * r + 8]) % 2 ** 32), ror(R[1] ^ ((t0 + 2 * t1 + K[2 * r + 9]) % 2 ** 32), 1)]
        p = struct.pack('<4L', *[R[j] ^ K[j] for j in range(4)])
        out.append(bytes(x ^ y for x, y in zip(p, iv)))
        iv = c
    return b''.join(out)
def encrypt(cipher, key, iv, data):
    if cipher == 'aes256': return AES.new(key, AES.MODE_CBC, iv).encrypt(pad(data))
    if cipher == 'chacha20': return ChaCha20.new(key=key, nonce=iv).encrypt(data)
    return tf_enc(key, iv, pad(data))
def decrypt(cipher, key, iv, data):
    if cipher == 'aes256': return unpad(AES.new(key, AES.MODE_CBC, iv).decrypt(data))
    if cipher == 'chacha20': return ChaCha20.new(key=key, nonce=iv).decrypt(data)
    return unpad(tf_dec(key, iv, data))

def stream(sid, key):
    if sid == 'salsa20': return Salsa20.new(key=sha256(key), nonce=bytes.fromhex('e830094b97205d2a'))
    if sid == 'chacha20':
        h = sha512(key)
        return ChaCha20.new(key=h[:32], nonce=h[32:44])
    return None

def protect(root, sid, key):
    """Encrypt the protected values of a copy of the tree, in document order."""
    root = copy.deepcopy(root)
    st = stream(sid, key)
    if st is not None:
        for e in root.iter('Value'):
            if e.get('Protected') == 'True' and e.text is not None:
                e.text = base64.b64encode(st.encrypt(e.text.encode('utf-8'))).decode()
    return root
def unprotect(root, sid, key):
    root = copy.deepcopy(root)
    st = stream(sid, key)
    if st is not None:
        for e in root.iter('Value'):
            if e.get('Protected') == 'True' and e.text is not None:
                e.text = st.decrypt(base64.b64decode(e.text)).decode('utf-8')
    return root

# ---- files -----------------------------------------------------------------------------------------------
def u16(n): return struct.pack('<H', n)
def u32(n): return struct.pack('<I', n)
def u64(n): return struct.pack('<Q', n)

class DB:
    """Everything in a file.  kdf params as dict; header order fixed on writing unless given."""
    version = 4
    cipher, compressed, kdf, stream_id = 'aes256', True, 'aeskdf', 'chacha20'
    def __init__(self, **k):
        self.seed, self.iv, self.stream_key, self.start = b'm' * 32, None, b'K' * 64, b's' * 32
        self.kdf_params = {'S': b'S' * 32, 'R': 2}
        self.binaries = []          # list of (flag, data)
        self.extra = []             # additional header items (id, bytes)
        self.root = None            # plaintext XML (lxml element)
        self.block = 2 ** 20
        self.password, self.keyfile = 'pw', None
        self.transformed = None
        self.tweak = {}
        self.__dict__.update(k)
        if self.iv is None: self.iv = b'i' * (12 if self.cipher == 'chacha20' else 16)
    def tkey(self):
        return self.transformed or transform(self.kdf, self.kdf_params, composite(self.password, self.keyfile))

def variant_dict(items):
    out = b'\x00\x01'
    for key, typ, val in items:
        k = key.encode()
        if typ == 0x04: v = u32(val)
        elif typ == 0x05: v = u64(val)
        elif typ == 0x08: v = b'\x01' if val else b'\x00'
        elif typ == 0x0C: v = struct.pack('<i', val)
        elif typ == 0x0D: v = struct.pack('<q', val)
        elif typ == 0x18: v = val.encode('utf-8')
        else: v = val
        out += bytes([typ]) + u32(len(k)) + k + u32(len(v)) + v
    return out + b'\x00'

def kdf_items(db):
    p = db.kdf_params
    if db.kdf == 'aeskdf': it = [('$UUID', 0x42, KDFS['aeskdf']), ('R', 0x05, p['R']), ('S', 0x42, p['S'])]
    else: it = [('$UUID', 0x42, KDFS[db.kdf]), ('V', 0x04, p['V']), ('I', 0x05, p['I']), ('M', 0x05, p['M']), ('P', 0x04, p['P']), ('S', 0x42, p['S'])]
    return it + list(getattr(db, 'kdf_extra', []))

def write(db):
    t = db.tweak
    v4 = db.version == 4
    sz = u32 if v4 else u16
    items = [(2, CIPHERS[db.cipher]), (3, u32(1 if db.compressed else 0)), (4, db.seed)]
    if v4:
        items += [(7, db.iv), (11, variant_dict(kdf_items(db)))]
    else:
        items += [(5, db.kdf_params['S']), (6, u64(db.kdf_params['R'])), (7, db.iv), (8, db.stream_key), (9, db.start), (10, u32(STREAMS[db.stream_id]))]
    items += list(db.extra)
    if getattr(db, 'order', None):
        db.order(items)
    items.append((0, b'\r\n\r\n'))
    head = t.get('magic', b'\x03\xd9\xa2\x9a\x67\xfb\x4b\xb5') + u16(0 if v4 else 1) + u16(db.version)
    for i, d in items: head += bytes([i]) + sz(len(d)) + d
    tk = db.tkey()
    master = sha256(db.seed + tk)
    xml = etree.tostring(protect(db.root, db.stream_id, db.stream_key)) if db.root is not None else db.xml
    if v4:
        body = b''
        inner = [(1, u32(STREAMS[db.stream_id])), (2, db.stream_key)] + [(3, bytes([f]) + d) for f, d in db.binaries] + [(0, b'')]
        for i, d in inner: body += bytes([i]) + u32(len(d)) + d
        body += xml
        if db.compressed: body = gz(body)
        enc = encrypt(db.cipher, master, db.iv, body)
        hk = sha512(db.seed + tk + b'\x01')
        out = head + t.get('sha', sha256(head)) + t.get('hmac', _hmac.new(sha512(b'\xff' * 8 + hk), head, hashlib.sha256).digest())
        blocks = [enc[i:i + db.block] for i in range(0, len(enc), db.block)] + [b'']
        recs = []
        for i, b in enumerate(blocks):
            k = sha512(u64(i) + hk)
            recs.append([i, b, _hmac.new(k, u64(i) + u32(len(b)) + b, hashlib.sha256).digest()])
        if 'blocks' in t: recs = t['blocks'](recs, hk)
        for i, b, h in recs: out += h + u32(len(b)) + b
        return out + t.get('trailer', b'')
    body = xml
    if db.compressed: body = gz(body)
    blocks = [body[i:i + db.block] for i in range(0, len(body), db.block)] + [b'']
    recs = [[i, b, sha256(b) if b else b'\0' * 32] for i, b in enumerate(blocks)]
    if 'blocks' in t: recs = t['blocks'](recs, None)
    plain = t.get('start', db.start)
    for i, b, h in recs: plain += u32(i) + h + u32(len(b)) + b
    if 'plain' in t: plain = t['plain'](plain)
    enc = encrypt(db.cipher, master, db.iv, plain)
    return head + enc

def gz(b):
    c = zlib.compressobj(6, zlib.DEFLATED, 31)
    return c.compress(b) + c.flush()

class Bad(Exception): pass

def read(data, password=None, keyfile=None, transformed=None):
    """Parse and verify a file.  Returns a DB with .root plain, .raw_root as stored, .header_items, .inner_items."""
    f = io.BytesIO(data)
    def rd(n):
        b = f.read(n)
        if len(b) != n: raise Bad('truncated')
        return b
    if rd(8) != b'\x03\xd9\xa2\x9a\x67\xfb\x4b\xb5': raise Bad('signature')
    minor, major = struct.unpack('<HH', rd(4))
    items = []
    while True:
        i = rd(1)[0]
        n = struct.unpack('<I', rd(4))[0] if major == 4 else struct.unpack('<H', rd(2))[0]
        items.append((i, rd(n)))
        if i == 0: break
    head = data[:f.tell()]
    d = dict(items)
    db = DB(version=major, password=password, keyfile=keyfile)
    db.minor = minor
    db.header_items = items
    db.cipher = {v: k for k, v in CIPHERS.items()}[d[2]]
    db.compressed = bool(struct.unpack('<I', d[3])[0] & 1)
    db.seed, db.iv = d[4], d[7]
    if major == 4:
        db.variant = parse_variant(d[11])
        p = {k: v for k, t, v in db.variant}
        db.kdf = {v: k for k, v in KDFS.items()}[p['$UUID']]
        db.kdf_params = p
    else:
        db.kdf = 'aeskdf'
        db.kdf_params = {'S': d[5], 'R': struct.unpack('<Q', d[6])[0]}
        db.stream_key, db.start = d[8], d[9]
        db.stream_id = {v: k for k, v in STREAMS.items()}[struct.unpack('<I', d[10])[0]]
    db.transformed = transformed
    tk = db.tkey()
    db.transformed = tk
    master = sha256(db.seed + tk)
    if major == 4:
        if rd(32) != sha256(head): raise Bad('header hash')
        hk = sha512(db.seed + tk + b'\x01')
        if rd(32) != _hmac.new(sha512(b'\xff' * 8 + hk), head, hashlib.sha256).digest(): raise Bad('header hmac')
        enc, i, sizes = b'', 0, []
        while True:
            h = rd(32); n = struct.unpack('<I', rd(4))[0]; b = rd(n)
            if h != _hmac.new(sha512(u64(i) + hk), u64(i) + u32(n) + b, hashlib.sha256).digest(): raise Bad('block hmac')
            if not n: break
            enc += b; i += 1; sizes.append(n)
        if f.read(): raise Bad('trailing data')
        db.sizes = sizes
        body = decrypt(db.cipher, master, db.iv, enc)
        if db.compressed: body = zlib.decompress(body, 31)
        g = io.BytesIO(body)
        inner = []
        while True:
            i = g.read(1)[0]; n = struct.unpack('<I', g.read(4))[0]; inner.append((i, g.read(n)))
            if i == 0: break
        db.inner_items = inner
        db.binaries = [(b[0], b[1:]) for i, b in inner if i == 3]
        di = dict(x for x in inner if x[0] != 3)
        db.stream_id = {v: k for k, v in STREAMS.items()}[struct.unpack('<I', di[1])[0]]
        db.stream_key = di[2]
        xml = g.read()
    else:
        plain = decrypt(db.cipher, master, db.iv, f.read())
        g = io.BytesIO(plain)
        if g.read(32) != db.start: raise Bad('start bytes')
        body, i, sizes = b'', 0, []
        while True:
            idx = struct.unpack('<I', g.read(4))[0]; h = g.read(32); n = struct.unpack('<I', g.read(4))[0]; b = g.read(n)
            if idx != i or len(b) != n: raise Bad('block index')
            if not n:
                if h != b'\0' * 32: raise Bad('final hash')
                break
            if h != sha256(b): raise Bad('block hash')
            body += b; i += 1; sizes.append(n)
        if g.read(): raise Bad('trailing data')
        db.sizes = sizes
        xml = zlib.decompress(body, 31) if db.compressed else body
    db.xml = xml
    db.raw_root = etree.fromstring(xml, etree.XMLParser(huge_tree=True))
    db.root = unprotect(db.raw_root, db.stream_id, db.stream_key)
    return db

def parse_variant(b):
    f = io.BytesIO(b)
    f.read(2)
    out = []
    while True:
        t = f.read(1)[0]
        if t == 0: break
        k = f.read(struct.unpack('<I', f.read(4))[0]).decode()
        v = f.read(struct.unpack('<I', f.read(4))[0])
        if t == 0x04: v = struct.unpack('<I', v)[0]
        elif t == 0x05: v = struct.unpack('<Q', v)[0]
        elif t == 0x08: v = bool(v[0])
        elif t == 0x0C: v = struct.unpack('<i', v)[0]
        elif t == 0x0D: v = struct.unpack('<q', v)[0]
        elif t == 0x18: v = v.decode('utf-8')
        out.append((k, t, v))
    return out
