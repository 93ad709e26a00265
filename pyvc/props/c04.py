"""C04: failed opens raise the error that names the cause."""
import z3, zlib
from .. import libs, grammar, xmlseq, runs, fmt, fsmod, anyfile
from ..core import eng, Unsupported, mk_bool, SymBool, axiom
from ..values import *
from ..verify import Task
from ..bounded.c04 import *
from .c02 import cipher_of
from .c01 import roundtrip
from lxml import etree as real_etree

LEVEL = 'proof'
LEVEL_NOTE = ('The real parser and PyKeePass.read are executed on a file with a readable header followed by arbitrary bytes (block loop cut at an arbitrary iteration), on arbitrary first eight bytes, on intact files with other '
    'credentials and on unreadable paths; on every path the error raised is proved to be the one the bytes call for, and no other.')
ASSUMPTIONS = ['the header can be read and its KDF parameters are usable', 'files shorter than the signature, KDBX 3 blocks out of sequence (a ChecksumError of construct) and contents that are authentic but malformed raise an unspecified error',
    'other credentials give another master key and another HMAC (collision resistance)', 'aes_kdf and compute_key_composite by their contracts (C03)']

def kinds(sh):
    x = sh.load('pykeepass.exceptions')
    return x.CredentialsError, x.HeaderChecksumError, x.PayloadChecksumError

def describe(o): return 'no error' if o.exc is None else fmt.describe(o.exc)

def neg(x): return mk_bool(z3.Not(anyfile.zb(x)))
def both(*xs): return mk_bool(z3.And([anyfile.zb(x) for x in xs]))
def implies(a, b): return mk_bool(z3.Implies(anyfile.zb(a), anyfile.zb(b)))

def outcome(version, *a, **k):
    """Every file with a readable header: the error is the one its bytes call for, and no other."""
    def fn():
        e = eng()
        o = anyfile.open_arbitrary(version, *a, **k)
        C, Hd, P = kinds(o.sh)
        b, R, exc = o.blocks, o.R, o.exc
        n = R.vc_len()
        if version == 4:
            if bool(mk_bool(zint(n) < 32)):
                e.decided(not isinstance(exc, (C, Hd, P)), 'a file that ends before the header digest is not blamed on a check', describe(o)); return
            sha = SymBytes.of(R[0:32]) == anyfile.sha256(o.H)
            if bool(neg(sha)):
                e.decided(isinstance(exc, Hd), 'a header that does not match its digest raises HeaderChecksumError', describe(o)); return
            e.decided(not isinstance(exc, Hd), 'HeaderChecksumError only if the header does not match its digest', describe(o))
            if bool(mk_bool(zint(n) < 64)):
                e.decided(not isinstance(exc, (C, P)), 'a file that ends before the header HMAC is not blamed on a check', describe(o)); return
            mac = SymBytes.of(R[32:64]) == o.spec.header_hmac(o.H)
            if bool(neg(mac)):
                e.decided(isinstance(exc, C), 'a header HMAC that does not match the credentials raises CredentialsError', describe(o)); return
            e.decided(not isinstance(exc, C), 'CredentialsError only if the header HMAC does not match the credentials', describe(o))
        else:
            e.decided(not isinstance(exc, Hd), 'HeaderChecksumError only for a wrong signature or header digest', describe(o))
            if o.db.cipher != 'chacha20' and bool(mk_bool(zint(n) % 16 != 0)):
                e.decided(not isinstance(exc, (C, Hd, P)), 'a payload that cannot be decrypted is not blamed on a check', describe(o)); return
            D = SymBytes.of(cipher_of(o.db, o.spec.master).decrypt(R))
            if bool(mk_bool(zint(D.vc_len()) < 48)):
                e.decided(not isinstance(exc, P), 'PayloadChecksumError only for a payload block', describe(o)); return
            start = SymBytes.of(D[0:32]) == o.db.start
            if bool(neg(start)):
                e.decided(isinstance(exc, C), 'other start bytes raise CredentialsError', describe(o)); return
            e.decided(not isinstance(exc, C), 'CredentialsError only if the start bytes do not match', describe(o))
        if b.at is None:
            if exc is not None: e.decided(not isinstance(exc, P), 'PayloadChecksumError only for a payload block', describe(o)); return
            raise Unsupported('the payload blocks are read in an unknown way')
        l, p, kk, st = b.at
        size = SymBytes.of(st.buf).vc_len()
        if bool(mk_bool(zint(p) + (40 if version == 3 else 36) > zint(size))):
            e.decided(not isinstance(exc, P), 'a payload that ends within a block is not blamed on its hash', describe(o)); return
        idx, h, nn, d, end = b.parts()
        if bool(mk_bool(zint(end) > zint(size))):
            e.decided(not isinstance(exc, P), 'a payload that ends within a block is not blamed on its hash', describe(o)); return
        if version == 3:
            i = libs.struct_mod.unpack('<I', idx)[0]
            if bool(mk_bool(zint(i) != zint(kk))):
                e.decided(exc is not None and not isinstance(exc, (C, Hd, P)), 'a block out of sequence is not blamed on another check', describe(o)); return
        if bool(neg(b.good())): e.decided(isinstance(exc, P), 'a payload block that does not match its hash raises PayloadChecksumError', describe(o))
        else: e.decided(not isinstance(exc, P), 'PayloadChecksumError only if the hash of a payload block does not match', describe(o))
    return fn

def signature(path):
    """Files that do not start with the signature."""
    def fn():
        e = eng()
        sh, m = fmt.stack()
        C, Hd, P = kinds(sh)
        s1, s2 = bytes_var('first4', 4), bytes_var('second4', 4)
        sig = (b'\x03\xd9\xa2\x9a', b'\x67\xfb\x4b\xb5')
        case = e.choose(3, 'which half is wrong')
        if case == 0: s1 = SymBytes.of(sig[0])
        if case == 1: s2 = SymBytes.of(sig[1])
        if case != 0: e.assume(neg(s1 == sig[0]))
        if case != 1: e.assume(neg(s2 == sig[1]))
        F = s1 + s2 + bytes_var('rest')
        if path:
            fs = fsmod.FS()
            src = str_var('path')
            e.assume(mk_bool(z3.Length(src.e) > 0))
            fs.put(src, F)
        else: src = grammar.BytesIO(F)
        kp, exc = fmt.call(m.PyKeePass, src, password=(str_var('password'), None)[e.choose(2, 'password')])
        e.decided(isinstance(exc, Hd), 'a file without the signature raises HeaderChecksumError', repr(exc))
    return fn

class Injected(Exception): pass

PATHS = ['(parsing)', '(parsing) -> header -> sig_check', '(parsing) -> body -> cred_check', '(parsing) -> cred_check', '(parsing) -> body -> sha256', '(parsing) -> body -> payload -> hmac_hash', '(parsing) -> xml -> block_hash']
def others(path):
    """Errors that are no failed check reach the caller as they are."""
    def fn():
        e = eng()
        sh, m = fmt.stack()
        con = sh.load('construct')
        C, Hd, P = kinds(sh)
        p = PATHS[e.choose(len(PATHS), 'where')]
        mk = [lambda: con.StreamError('short', path=p), lambda: con.MappingError('m', path=p), lambda: con.ConstError('c', path=p), lambda: con.StringError('s', path=p), lambda: con.ExplicitError('x', path=p), lambda: con.FormatFieldError('f', path=p),
              lambda: KeyError('end'), lambda: ValueError('v'), lambda: TypeError('t'), lambda: AttributeError('a'), lambda: zlib.error('z'), lambda: Injected('i'), lambda: OSError(5, 'io'), lambda: FileNotFoundError(2, 'no key file'),
              lambda: PermissionError(13, 'key file'), lambda: real_etree.XMLSyntaxError('x', 1, 1, 1, 'f'), lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'x'), lambda: MemoryError(), lambda: IOError('Keyfile has invalid hash')]
        x = mk[e.choose(len(mk), 'which error')]()
        class Leaf(con.Construct):
            def _parse(self, stream, context, pth): raise x
        m.KDBX = Leaf()
        F = bytes_var('file')
        if path:
            fs = fsmod.FS()
            src = str_var('path')
            e.assume(mk_bool(z3.Length(src.e) > 0))
            fs.put(src, F)
        else: src = grammar.BytesIO(F)
        imp = e.imprecise
        try: m.PyKeePass(src, password=str_var('password')); exc = None
        except Exception as ex: exc = ex
        e.imprecise = imp
        e.decided(exc is not None and not isinstance(exc, (C, Hd, P)), 'an error that is no failed check is not turned into one of the three', '%r -> %r' % (x, exc))
    return fn

def wrong(version, cipher, comp, kdf, how, path=False):
    """An intact file, opened with other credentials."""
    def fn():
        e = eng()
        sh, m = fmt.stack()
        fmt.stub_kdf(sh)
        C, Hd, P = kinds(sh)
        libs.assumed('different credentials give different keys, and data encrypted or authenticated under one key does not verify under another (collision resistance, negligible probability)')
        db = fmt.DB(sh, version, cipher, comp, kdf, 'chacha20', binaries=False, text='x')
        def composite(pw, kf): return uf('composite', ['none' if pw is None else 'some', '' if pw is None else pw, 'none' if kf is None else kf.vc_id], 32)
        def compute_key_composite(password=None, keyfile=None):
            libs.assumed('compute_key_composite (contract discharged by C03): a function of the password and the key of the key file')
            return composite(password, keyfile)
        for nme, mod in list(sh.mods.items()):
            if nme.startswith('pykeepass.kdbx_parsing') and hasattr(mod, 'compute_key_composite'): mod.compute_key_composite = compute_key_composite
        class KF:
            def __init__(self, i): self.vc_id = i
            def __str__(self): raise Unsupported('text of a key file')
        p1, p2, k1, k2 = str_var('password'), str_var('other_password'), KF('key file 1'), KF('key file 2')
        t1, t2 = bytes_var('transformed_key', 32), bytes_var('other_transformed_key', 32)
        e.assume(mk_bool(p1.e != p2.e))
        e.assume(neg(t1 == t2))
        a, b = {'password': ((p1, None, None), (p2, None, None)), 'no password': ((p1, None, None), (None, None, None)), 'password given': ((None, None, None), (p1, None, None)),
                'key file': ((p1, k1, None), (p1, k2, None)), 'no key file': ((p1, k1, None), (p1, None, None)), 'key file given': ((p1, None, None), (p1, k1, None)),
                'only key file': ((None, k1, None), (None, k2, None)), 'password beside key file': ((p1, k1, None), (p2, k1, None)), 'key file for password': ((p1, None, None), (None, k1, None)),
                'transformed key': ((None, None, t1), (None, None, t2)), 'transformed key for password': ((p1, None, None), (p1, None, t2)), 'password for transformed key': ((None, None, t1), (p1, None, None))}[how]
        def transformed(c):
            if c[2] is not None: return c[2]
            comp_ = composite(c[0], c[1])
            if version == 3 or kdf == 'aeskdf': return uf('aes_kdf', [db.salt, db.rounds, comp_], 32)
            Q = {k: v for k, _, v in db.params}
            return uf('argon2', [comp_, db.salt, Q['I'], Q['M'] // 1024, Q['P'], {'argon2': 0, 'argon2id': 2}[kdf], Q['V']], 32)
        s1, s2 = anyfile.Spec(db, None, transformed(a)), anyfile.Spec(db, None, transformed(b))
        kp = object.__new__(m.PyKeePass)
        kp._password, kp._keyfile, kp.kdbx, kp.filename = a[0], a[1], db.obj, grammar.BytesIO()
        st = kp.filename
        _, exc = fmt.call(kp.save, **({} if a[2] is None else {'transformed_key': a[2]}))
        if not e.decided(exc is None, 'the database can be saved', exc and fmt.describe(exc)): return
        F = SymBytes.of(st.getvalue())
        _, H = anyfile.header_of(sh, db)
        # different keys
        axiom(anyfile.zb(neg(s1.t == s2.t)))
        axiom(anyfile.zb(neg(s1.master == s2.master)))
        if version == 4: axiom(anyfile.zb(neg(s1.header_hmac(H) == s2.header_hmac(H))))
        else:
            D = SymBytes.of(cipher_of(db, s2.master).decrypt(SymBytes.of(F[H.vc_len():])))
            axiom(anyfile.zb(neg(SymBytes.of(D[0:32]) == db.start)))
        kp2, exc = fmt.call(m.PyKeePass, grammar.BytesIO(F), password=b[0], keyfile=b[1], transformed_key=b[2])
        e.decided(isinstance(exc, C), 'wrong credentials raise CredentialsError', 'no error' if exc is None else fmt.describe(exc))
    return fn

HOW = ['password', 'no password', 'password given', 'key file', 'no key file', 'key file given', 'only key file', 'password beside key file', 'key file for password', 'transformed key', 'transformed key for password', 'password for transformed key']

def tasks(thorough):
    out = []
    rules = {'pykeepass.kdbx_parsing.*': fmt.SPLIT}
    for p in (False, True):
        out.append(Task('no signature, %s' % ('path' if p else 'stream'), signature(p)))
        out.append(Task('other errors, %s' % ('path' if p else 'stream'), others(p)))
    i = 0
    for v in (4, 3):
        for h, how in enumerate(HOW):
            for c, cipher in enumerate(('aes256', 'twofish', 'chacha20')):
                i += 1
                if not thorough and c != (h + v) % 3: continue
                kdf = ('argon2', 'argon2id', 'aeskdf')[(i + h) % 3] if v == 4 else 'aeskdf'
                out.append(Task('intact KDBX%d file, %s, wrong %s' % (v, cipher, how), wrong(v, cipher, i % 2 == 0, kdf, how), rules=rules))
        out.append(Task('intact KDBX%d file, right credentials' % v, roundtrip(v, 'aes256', True, 'argon2', 'chacha20', binaries=False), rules=rules))
    for v in (4, 3):
        out.append(Task('arbitrary KDBX%d file at a path' % v, outcome(v, 'aes256', False, 'aeskdf', 'transformed', path=True), rules=rules))
        for cipher in ('aes256', 'chacha20', 'twofish'):
            for comp in (True, False):
                for cred in ('transformed', 'password'):
                    for shape in ('plain', 'other order'):
                        i += 1
                        if not thorough and i % 5: continue
                        kdf = ('argon2', 'argon2id', 'aeskdf')[i % 3] if v == 4 else 'aeskdf'
                        out.append(Task('arbitrary KDBX%d file: %s %s, header items in %s order, by %s' % (v, cipher, 'compressed' if comp else 'uncompressed', shape, cred), outcome(v, cipher, comp, kdf, cred, shape), rules=rules))
    return out
