"""C02: altered files are never accepted as valid content."""
import z3
from .. import libs, grammar, xmlseq, runs, fmt, anyfile
from ..core import eng, Unsupported, mk_bool, SymBool, axiom
from ..values import *
from ..verify import Task
from ..bounded.c02 import *

LEVEL = 'proof'
LEVEL_NOTE = ('The real parser is executed on a file with a readable header followed by arbitrary bytes of any length; the loop over the payload blocks is cut at an arbitrary iteration (induction over blocks). Every path that returns '
    'a database is proved to have checked every digest the format prescribes and to return only what those bytes hold.')
ASSUMPTIONS = ['the header can be read (items in the normal or the reverse order, one of them given twice)', 'hashes, HMAC and ciphers are uninterpreted functions: that other bytes have other digests is their collision resistance',
    'the inner header that was decrypted is in the normal form (the digests are checked before it is read)', 'aes_kdf and compute_key_composite by their contracts (C03)']

def cipher_of(db, key):
    from .. import cryptomods
    if db.cipher == 'aes256': return cryptomods.ModeCipher('aescbc', key, db.iv, 16)
    if db.cipher == 'twofish': return cryptomods.ModeCipher('twofish', key, db.iv, 16)
    return cryptomods.KeyStream('chacha20', key, db.iv)

def source(tree):
    """The bytes a document was parsed from."""
    if not isinstance(tree, xmlseq.VTree): raise Unsupported('document')
    a = libs.uf_args(tree.base, 'xml_doc')
    if not a: raise Unsupported('document')
    return a[0]
def inflated(b):
    p = libs.single(b)
    return p.args[1] if p is not None and p.kind == 'uf' and p.args[0].startswith('inflate_') else None

def accepted(version, *a, **k):
    def fn():
        e = eng()
        o = anyfile.open_arbitrary(version, *a, **k)
        if o.exc is not None:
            e.decided(True, 'opening raises an error')
            return
        b = o.blocks
        if b.at is None: raise Unsupported('the payload blocks are read in an unknown way')
        n = o.R.vc_len()
        if version == 4:
            e.check(mk_bool(zint(n) >= 64), 'an opened file has a header digest and a header HMAC')
            e.check(SymBytes.of(o.R[0:32]) == anyfile.sha256(o.H), 'an opened file has the SHA-256 of its header')
            e.check(SymBytes.of(o.R[32:64]) == o.spec.header_hmac(o.H), 'an opened file has the HMAC of its header under the key of the credentials')
            e.check(mk_bool(zint(b.at[1]) >= zint(o.H.vc_len()) + 64), 'the payload blocks follow the header digests')
        else:
            st = b.at[3]
            D = SymBytes.of(cipher_of(o.db, o.spec.master).decrypt(o.R))
            e.check(SymBytes.of(D[0:32]) == o.db.start, 'an opened file decrypts to the start bytes of its header')
            L = SymBytes.of(st.buf)
            e.check(mk_bool(zint(L.vc_len()) <= zint(D.vc_len())), 'the payload is the decrypted data')
            e.check(L == D[0:L.vc_len()], 'the payload is the decrypted data')
        l = b.at[0]
        if not e.decided(len(l) in (1, 2), 'blocks are read up to the last one'): return
        rec = l[-1]
        b.item(rec, 'the last block')
        e.check(mk_bool(zint(SymBytes.of(rec['block_data']).vc_len()) == 0), 'the last block is empty')
        # what is returned comes from the authenticated bytes alone
        data = b.joined(rec)
        doc = source(o.kp.tree)
        if version == 4:
            D = SymBytes.of(cipher_of(o.db, o.spec.master).decrypt(data))
            c = inflated(b.content) if o.db.compression else b.content
            if not e.decided(c is not None, 'the content is the decompressed payload'): return
            c = SymBytes.of(c)
            e.check(mk_bool(zint(c.vc_len()) <= zint(D.vc_len())), 'the content is the decrypted data of all blocks')
            e.check(c == D[0:c.vc_len()], 'the content is the decrypted data of all blocks')
            e.check(SymBytes.of(doc) == b.document, 'the document is the one in the content')
        else:
            c = inflated(doc) if o.db.compression else doc
            e.check(c is not None and SymBytes.of(c) == data, 'the document is the data of all blocks')
    return fn

def tasks(thorough):
    out = []
    rules = {'pykeepass.kdbx_parsing.*': fmt.SPLIT}
    for v in (4, 3): out.append(Task('arbitrary KDBX%d file at a path' % v, accepted(v, 'aes256', False, 'aeskdf', 'transformed', path=True), rules=rules))
    i = 0
    for v in (4, 3):
        for cipher in ('aes256', 'chacha20', 'twofish'):
            for comp in (True, False):
                for cred in ('transformed', 'password'):
                    for shape in ('plain', 'other order'):
                        i += 1
                        if not thorough and i % 3: continue
                        kdf = ('argon2', 'argon2id', 'aeskdf')[i // 3 % 3] if v == 4 else 'aeskdf'
                        out.append(Task('arbitrary KDBX%d file: %s %s, header items in %s order, by %s' % (v, cipher, 'compressed' if comp else 'uncompressed', shape, cred), accepted(v, cipher, comp, kdf, cred, shape), rules=rules))
    return out
