"""Assumed contracts of the cryptographic libraries (Cryptodome, argon2, zlib) on symbolic bytes."""
import types, z3, zlib as _zlib
from .core import eng, Unsupported, mk_bool, SymBool, axiom
from .values import *
from .values import _ieq, _sub
from . import libs
from .libs import assumed, module, uf_args, prov_same

class EcbCipher:
    """AES-ECB: block-wise permutation under the key (uninterpreted)."""
    def __init__(self, key): self.key = key
    def encrypt(self, b, output=None): return self._f('aes_enc', 'aes_dec', b)
    def decrypt(self, b, output=None): return self._f('aes_dec', 'aes_enc', b)
    def _f(self, f, inv, b):
        assumed('Cryptodome AES: a permutation of the data under the key; decrypt inverts encrypt; length preserving')
        b = SymBytes.of(b)
        if not bool(mk_bool(zint(b.vc_len()) % 16 == 0)): raise ValueError('Data must be aligned to block boundary in ECB mode')
        n = b.vc_len()
        if isinstance(n, int) and 16 < n <= 64:     # block by block
            r = SymBytes([])
            for i in range(0, n, 16): r = r + self._f(f, inv, b[i:i + 16])
            return r
        a = uf_args(b, inv)
        if a and prov_same(a[0], self.key): return a[1]
        return uf(f, [SymBytes.of(self.key), b], n)

class ModeCipher:
    """CBC or stream cipher used once over the whole data: enc and dec are inverse under (key, iv)."""
    def __init__(self, name, key, iv, block=None):
        self.name, self.key, self.iv, self.block, self.used = name, SymBytes.of(key), SymBytes.of(iv), block, False
    def _f(self, f, inv, b):
        assumed('%s: decrypt inverts encrypt under the same key and IV; length preserving' % self.name)
        if self.used: raise Unsupported('second call on a chaining cipher')
        self.used = True
        b = SymBytes.of(b)
        if self.block and not bool(mk_bool(zint(b.vc_len()) % self.block == 0)): raise ValueError('Data must be padded to %d byte boundary' % self.block)
        if not b.parts: return b''
        a = uf_args(b, self.name + '_' + inv)
        if a and prov_same(a[0], self.key) and prov_same(a[1], self.iv): return SymBytes.of(a[2]).norm()
        r = uf(self.name + '_' + f, [self.key, self.iv, b], b.vc_len())
        g = z3.Function(self.name + '_' + inv, B, B, B, B)
        axiom(g(bterm(self.key), bterm(self.iv), bterm(r)) == bterm(b))
        return r
    def encrypt(self, b, output=None): return self._f('enc', 'dec', b)
    def decrypt(self, b, output=None): return self._f('dec', 'enc', b)

def _lens(what, b, allowed):
    if not bool(mk_bool(z3.Or([zint(SymBytes.of(b).vc_len()) == n for n in allowed]))): raise ValueError('Incorrect %s length' % what)

def aes_new(key, mode, *a, **k):
    _lens('AES key', key, (16, 24, 32))
    if mode == 1: return EcbCipher(key)
    if mode == 2:
        iv = a[0] if a else k.get('iv', k.get('IV'))
        if iv is None: raise Unsupported('AES without IV')
        _lens('IV', iv, (16,))
        return ModeCipher('aescbc', key, iv, 16)
    raise Unsupported('AES mode')
AES = module('AES', new=aes_new, MODE_ECB=1, MODE_CBC=2, block_size=16)

class KeyStream:
    """Stream cipher: data xor keystream(key, nonce)[pos:pos+len]; one continuous position."""
    made = []
    def __init__(self, name, key, nonce):
        self.name, self.key, self.nonce, self.pos, self.used = name, SymBytes.of(key), SymBytes.of(nonce), 0, 0
        KeyStream.made.append(self)
    def ks(self, n): return key_stream(self.name, self.key, self.nonce, self.pos, n)
    def encrypt(self, b, output=None):
        assumed('Cryptodome %s: xor with a key stream determined by key and nonce, continued over calls' % self.name)
        b = SymBytes.of(b)
        n = b.vc_len()
        self.used += 1
        r = libs._xor(b, SymBytes.of(self.ks(n))) if b.parts else b''
        self.pos = self.pos + n
        return r.norm() if isinstance(r, SymBytes) else r
    decrypt = encrypt
    def seek(self, pos):
        self.used += 1
        self.pos = pos
def key_stream(name, key, nonce, pos, n):
    return SymBytes(_sub(uf('keystream_' + name, [key, nonce], 2 ** 70).parts[0], pos, pos + n))
def chacha_new(key=None, nonce=None):
    _lens('ChaCha20 key', key, (32,))
    _lens('nonce', nonce, (8, 12, 24))
    return KeyStream('chacha20', key, nonce)
def salsa_new(key=None, nonce=None):
    _lens('Salsa20 key', key, (16, 32))
    _lens('nonce', nonce, (8,))
    return KeyStream('salsa20', key, nonce)
ChaCha20 = module('ChaCha20', new=chacha_new)
Salsa20 = module('Salsa20', new=salsa_new)
Cipher = module('Cipher', AES=AES, ChaCha20=ChaCha20, Salsa20=Salsa20)
Util = module('Util', Padding=libs.padding_mod, strxor=libs.strxor_mod)
Cryptodome = module('Cryptodome', Cipher=Cipher, Util=Util)

# ---- argon2
class _Type:
    D, I, ID = 0, 1, 2
def hash_secret_raw(secret, salt, time_cost, memory_cost, parallelism, hash_len, type, version=19):
    assumed('argon2.low_level.hash_secret_raw: a function of all its arguments')
    return uf('argon2', [SymBytes.of(secret), SymBytes.of(salt), time_cost, memory_cost, parallelism, type, version], hash_len)
low_level = module('low_level', Type=_Type, hash_secret_raw=hash_secret_raw)
argon2 = module('argon2', low_level=low_level)

# ---- zlib
class Compressor:
    def __init__(self, level=-1, method=8, wbits=15, memLevel=8, strategy=0, *a, **k):
        self.wbits, self.data, self.done = wbits, b'', False
    def compress(self, d):
        self.data = self.data + d
        return b''
    def flush(self, *a):
        self.done = True
        return _deflate(self.data, self.wbits)
def _kind(wbits):
    return 'gzip' if wbits > 15 else ('zlib' if wbits > 0 else 'raw')
def _deflate(d, wbits):
    if isinstance(d, bytes): d = SymBytes.of(d)
    assumed('zlib: decompress(compress(x)) == x for matching formats; decompress raises zlib.error otherwise')
    r = uf('deflate_' + _kind(wbits), [d])
    axiom(blen(r.parts[0].z) > 0)
    return r
def compress(d, level=-1, wbits=15): return _deflate(d, wbits)
def decompress(d, wbits=15, bufsize=16384):
    assumed('zlib: decompress(compress(x)) == x for matching formats; decompress raises zlib.error otherwise')
    if isinstance(d, bytes) and not isinstance(d, SymBytes): return _zlib.decompress(d, wbits)
    kinds = ['gzip', 'zlib'] if wbits >= 32 else [('gzip' if wbits > 15 else 'zlib' if wbits > 0 else 'raw')]
    for k in kinds:
        a = uf_args(d, 'deflate_' + k)
        if a: return SymBytes.of(a[0]).norm()
    if uf_args(d, 'deflate_gzip') or uf_args(d, 'deflate_zlib') or uf_args(d, 'deflate_raw'): raise _zlib.error('Error -3 while decompressing data')
    if not bool(ufp('inflate_ok_%d' % wbits, [d])): raise _zlib.error('symbolic')
    return uf('inflate_%d' % wbits, [d])
zlib_mod = module('zlib', compressobj=Compressor, compress=compress, decompress=decompress, error=_zlib.error,
                  **{k: getattr(_zlib, k) for k in dir(_zlib) if k.isupper() or k.startswith('Z_')})

MODS = {'struct': libs.struct_mod, 'Cryptodome': Cryptodome, 'Cryptodome.Cipher': Cipher, 'Cryptodome.Util': Util,
        'Cryptodome.Cipher.AES': AES, 'Cryptodome.Cipher.ChaCha20': ChaCha20, 'Cryptodome.Cipher.Salsa20': Salsa20,
        'Cryptodome.Util.strxor': libs.strxor_mod, 'Cryptodome.Util.Padding': libs.padding_mod,
        'hashlib': libs.hashlib_mod, 'hmac': libs.hmac_mod, 'base64': libs.base64_mod, 'codecs': libs.codecs_mod,
        'argon2': argon2, 'argon2.low_level': low_level, 'zlib': zlib_mod}
