"""Databases with arbitrary content and settings for the format properties (C01, C02, C04, C20)."""
import z3
from . import libs, grammar, xmlseq, cryptomods, dom, runs, fsmod, loops
from .core import eng, Unsupported, mk_bool, SymBool, axiom
from .values import *
from .values import _ieq
from .kpmod import engine_fault, KDF_UUIDS

class Twofish:
    """Contract of twofish.py, proved by C13: CBC of a block cipher; decrypt inverts encrypt."""
    MODE_CBC = 2; MODE_ECB = 1
    block_size = 16
    @staticmethod
    def new(key, mode=2, IV=None, **k):
        iv = IV if IV is not None else k.get('iv')
        if mode != 2 or iv is None or set(k) - {'iv'}: raise Unsupported('Twofish mode')
        libs.assumed('Twofish.new (contract of twofish.py, discharged by C13): CBC encryption; decrypt inverts encrypt')
        cryptomods._lens('key', key, (16, 24, 32))
        cryptomods._lens('IV', iv, (16,))
        return cryptomods.ModeCipher('twofish', key, iv, 16)
    @classmethod
    def __getattr__(cls, n): raise Unsupported('Twofish.' + n)

TWO = libs.module('pykeepass.kdbx_parsing.twofish', Twofish=Twofish)

def stack():
    sh = grammar.stack()
    sh.load('pykeepass')
    sh.mods['pykeepass.kdbx_parsing.twofish'] = TWO
    cryptomods.KeyStream.made[:] = []
    xmlseq.PLAIN.clear()
    return sh, sh.load('pykeepass.pykeepass')

SPLIT = runs.SplitRule()


def stub_kdf(sh):
    """aes_kdf by its contract (discharged by C03)."""
    def aes_kdf(key, rounds, key_composite):
        libs.assumed('aes_kdf (contract discharged by C03): SHA-256 of the composite key encrypted `rounds` times under the seed')
        return uf('aes_kdf', [SymBytes.of(key), rounds, SymBytes.of(key_composite)], 32)
    for n, m in list(sh.mods.items()):
        if n.startswith('pykeepass.kdbx_parsing') and hasattr(m, 'aes_kdf'): m.aes_kdf = aes_kdf

IVLEN = {'aes256': 16, 'twofish': 16, 'chacha20': 12}
ZERO = b'\r\n\r\n'

class DB:
    """An arbitrary database of one configuration."""
    def __init__(self, sh, version, cipher='aes256', compression=True, kdf='argon2', sid='chacha20', binaries=None, extra=False, text=None):
        e = eng()
        self.version, self.cipher, self.compression, self.kdf, self.sid = version, cipher, compression, kdf, sid
        con = sh.load('construct')
        C, L = con.Container, con.ListContainer
        self.C = C
        self.seed, self.iv, self.salt = bytes_var('master_seed', 32), bytes_var('encryption_iv', IVLEN[cipher]), bytes_var('kdf_salt', 32)
        self.skey = bytes_var('stream_key', 64 if version == 4 else 32)
        self.rounds = int_var('kdf_rounds', 0, 2 ** 64 - 1)
        def item(k, d, key='id'): return (k, C([(key, k), ('data', d)]))
        H = [item('cipher_id', cipher), item('compression_flags', C(compression=compression)), item('master_seed', self.seed)]
        if extra: H.insert(0, item('comment', short('comment')))
        if version == 4:
            mem, it, par = int_var('kdf_memory', 0, 2 ** 64 - 1), int_var('kdf_iterations', 0, 2 ** 64 - 1), int_var('kdf_parallelism', 0, 2 ** 32 - 1)
            P = [('$UUID', 0x42, KDF_UUIDS[kdf])]
            if kdf == 'aeskdf': P += [('R', 5, self.rounds), ('S', 0x42, self.salt)]
            else: P += [('I', 5, it), ('M', 5, mem), ('P', 4, par), ('S', 0x42, self.salt), ('V', 4, int_var('kdf_version', 0, 2 ** 32 - 1))]
            if extra: P += [('K', 0x42, short('secret')), ('flag', 8, True), ('n', 0x0C, int_var('signed32', -2 ** 31, 2 ** 31 - 1)), ('m', 0x0D, int_var('signed64', -2 ** 63, 2 ** 63 - 1)), ('t', 0x18, str_short('text_parameter'))]
            d = C()
            for i, (k, ty, v) in enumerate(P): d[k] = C(type=ty, key=k, value=v, next_byte=P[i + 1][1] if i + 1 < len(P) else 0)
            self.params = P
            H += [item('kdf_parameters', C(version=b'\x00\x01', dict=d)), item('encryption_iv', self.iv)]
            if extra: H.append(item('public_custom_data', short('public_custom_data')))
        else:
            self.start = bytes_var('stream_start_bytes', 32)
            H += [item('transform_seed', self.salt), item('transform_rounds', self.rounds), item('encryption_iv', self.iv), item('protected_stream_key', self.skey),
                  item('stream_start_bytes', self.start), item('protected_stream_id', sid)]
        H.append(item('end', ZERO))
        self.items = H
        dh = C()
        for k, v in H: dh[k] = v
        self.sig = b'\x03\xd9\xa2\x9a', b'\x67\xfb\x4b\xb5'
        self.minor = int_var('minor_version', 0, 65535)
        value = C(sig1=self.sig[0], sig2=self.sig[1], minor_version=self.minor, major_version=version, dynamic_header=dh)
        if text is None:
            self.text = (str_var('text_of_X'), None)[e.choose(2, 'X has a text')]
            if self.text is not None: e.assume(dom.F_xmlok(self.text.e))
        else: self.text = text
        self.tree = xmlseq.VTree(bytes_var('document'), self.text)
        self.tree.plain = self.text
        xmlseq.PLAIN[str(self.tree.base.parts[0].z)] = self.text
        payload = C(xml=self.tree)
        if version == 4:
            self.run = None
            if binaries is None: binaries = e.choose(2, 'attachments') == 0
            if binaries: self.run = runs.Run(C, {'type': 'binary'}, {'data'}, int_var('number_of_attachments', 1, 2 ** 32 - 1))
            inner = C()
            for k, d in (('protected_stream_id', sid), ('protected_stream_key', self.skey)): inner[k] = C(type=k, data=d)
            inner['binary'] = L([self.run] if self.run else [])
            inner['end'] = C(type='end', data=b'')
            self.inner = inner
            payload = C(inner_header=inner, xml=self.tree)
        self.obj = C(header=C(value=value), body=C(payload=payload))

def short(name):
    b = bytes_var(name)
    axiom(zint(b.vc_len()) < 2 ** 16)
    return b
def str_short(name):
    s = str_var(name)
    b = SymBytes.of(libs.text_encode(s))
    axiom(zint(b.vc_len()) < 2 ** 16)
    return s

def call(f, *a, **k):
    """(result, None) or (None, exception)"""
    e = eng()
    imp = e.imprecise
    try: return f(*a, **k), None
    except Exception as ex:
        engine_fault(ex)
        e.imprecise = imp
        return None, ex

def describe(ex):
    return '%s at %s' % (type(ex).__name__, getattr(ex, 'path', None)) + (': ' + str(ex.args[0])[:160] if ex.args and isinstance(ex.args[0], str) else '')
