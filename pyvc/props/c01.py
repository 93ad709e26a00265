"""C01: what is saved is what is read back."""
import z3
from .. import libs, grammar, xmlseq, runs, fmt, fsmod
from ..core import eng, Unsupported, mk_bool, SymBool, axiom
from ..values import *
from ..values import _ieq
from ..verify import Task
from ..bounded.c01 import *
from .c17 import same_text

LEVEL = 'proof'
LEVEL_NOTE = ('The grammars of KDBX 3 and 4 are executed in both directions (construct itself from its source) on an arbitrary database: any document (seen through an arbitrary element), any number and size of attachments and '
    'payload blocks (inductions over the records), arbitrary header values; the read database is proved equal to the written one. Quick covers the configurations pairwise, thorough all of them.')
ASSUMPTIONS = ['record, block and item lengths below 2**32 and fewer than 2**32 records', 'header items: cipher, compression, seed, iv, kdf parameters, protection, comment, public custom data; in the order of the format',
    'an empty text and no text are the same in a file', 'aes_kdf enters by its contract (C03), Twofish by C13',
    'lxml, zlib, ciphers, hashes, base64 and struct enter by assumed contracts (inverse functions, uninterpreted otherwise)']

def value_eq(a, b):
    """Equality of two values of the header."""
    if isinstance(b, dict) or isinstance(a, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)): return False
        ka, kb = [k for k in a if k not in ('_io', 'next_byte')], [k for k in b if k not in ('_io', 'next_byte')]
        if ka != kb: return False
        r = [value_eq(a[k], b[k]) for k in ka]
        if any(x is False for x in r): return False
        r = [x for x in r if x is not True]
        return mk_bool(z3.And([x.e for x in r])) if r else True
    if (a is None) != (b is None): return False
    if isinstance(a, (bytes, SymBytes)) != isinstance(b, (bytes, SymBytes)): return False
    if isinstance(a, (str, SymStr)) != isinstance(b, (str, SymStr)): return False
    if isinstance(a, bytes) and isinstance(b, SymBytes): return b == a
    if isinstance(a, (str, bytes, bool, int)) and isinstance(b, (str, bytes, bool, int)): return a == b
    if isinstance(a, (int,)) and isinstance(b, SymInt): return b == a
    if isinstance(a, str): return b == a
    return a == b

def compare(old, new, what):
    """Obligations: the database `new` is the database `old`."""
    e = eng()
    try: ho, hn, po, pn = old.header.value, new.header.value, old.body.payload, new.body.payload
    except (AttributeError, KeyError): raise Unsupported('shape of a database')
    for k in ('sig1', 'sig2', 'major_version', 'minor_version'): e.check(value_eq(ho[k], hn[k]), '%s: %s is kept' % (what, k))
    do, dn = ho.dynamic_header, hn.dynamic_header
    e.decided([k for k in do if k != '_io'] == [k for k in dn if k != '_io'], what + ': the header has the same settings in the same order', '%r %r' % (list(do), list(dn)))
    for k in do:
        if k in dn: e.check(value_eq(do[k].data, dn[k].data), '%s: the header setting %s is kept' % (what, k))
    if ho.major_version == 4:
        io_, in_ = po.inner_header, pn.inner_header
        e.decided(set(io_) - {'_io'} == set(in_) - {'_io'}, what + ': the inner header has the same items')
        for k in io_:
            if k in ('binary', '_io') or k not in in_: continue
            e.check(value_eq(io_[k].data, in_[k].data), '%s: the inner header item %s is kept' % (what, k))
        bo, bn = list(io_['binary']), list(in_['binary'])
        ok = len(bo) == len(bn)
        for a, b in zip(bo, bn):
            if not (runs.is_run(a) and runs.is_run(b)): raise Unsupported('attachments')
            if a.fam is not b.fam: ok = False
        e.decided(ok, what + ': the same attachments in the same order')
    t, u = po.xml, pn.xml
    if not isinstance(u, xmlseq.VTree): raise Unsupported('the document is a %s' % type(u).__name__)
    e.check(mk_bool(u.base.parts[0].z == t.base.parts[0].z), what + ': the document has the same elements and attributes')
    e.decided(not [w for w in u.x.writes if w != 'text'] and not t.x.writes, what + ': no attribute is changed, and saving changes nothing in memory')
    e.check(same_text(u.x._t, t.x._t), what + ': every element has the same text')

def roundtrip(version, cipher, comp, kdf, sid, extra=False, cred='password', path=False, twice=False, binaries=None):
    def fn():
        e = eng()
        sh, m = fmt.stack()
        fmt.stub_kdf(sh)
        db = fmt.DB(sh, version, cipher, comp, kdf, sid, extra=extra, binaries=binaries)
        pw = str_var('password') if cred == 'password' else None
        tk = bytes_var('transformed_key', 32) if cred == 'transformed' else None
        kp = object.__new__(m.PyKeePass)
        kp._password, kp._keyfile, kp.kdbx = pw, None, db.obj
        fs = fsmod.FS()
        def place(i): return str_var('path%d' % i) if path else grammar.BytesIO()
        def again(i):
            a = place(i)
            if path: e.assume(mk_bool(z3.Length(a.e) > 0))
            return a
        t1 = again(1)
        kp.filename = t1
        _, exc = fmt.call(kp.save, **({} if tk is None else {'transformed_key': tk}))
        if not e.decided(exc is None, 'the database can be saved', exc and fmt.describe(exc)): return
        def src(t):
            if not path: t = grammar.BytesIO(t.getvalue())
            return t
        k2, exc = fmt.call(m.PyKeePass, src(t1), password=pw, transformed_key=tk)
        if not e.decided(exc is None, 'the saved database can be opened with its credentials', exc and fmt.describe(exc)): return
        compare(db.obj, k2.kdbx, 'saved and opened')
        if not twice: return
        t2 = again(2)
        _, exc = fmt.call(k2.save, t2, **({} if tk is None else {'transformed_key': tk}))
        if not e.decided(exc is None, 'the opened database can be saved', exc and fmt.describe(exc)): return
        k3, exc = fmt.call(m.PyKeePass, src(t2), password=pw, transformed_key=tk)
        if not e.decided(exc is None, 'the database saved again can be opened with its credentials', exc and fmt.describe(exc)): return
        compare(db.obj, k3.kdbx, 'saved twice')
    return fn

def tasks(thorough):
    out = []
    kdfs = ['argon2', 'argon2id', 'aeskdf']
    rules = {'pykeepass.kdbx_parsing.*': fmt.SPLIT}
    i = 0
    for v in (4, 3):
        for c, cipher in enumerate(('aes256', 'chacha20', 'twofish')):
            for comp in (True, False):
                for s, sid in enumerate(('chacha20', 'salsa20', 'none')):
                    kdf = kdfs[(i // 2) % 3] if v == 4 else 'aeskdf'
                    i += 1
                    if not thorough and (c + (0 if comp else 1) + (v == 3)) % 3 != s: continue
                    for ks in (kdfs if thorough and v == 4 else [kdf]):
                        out.append(Task('round trip: KDBX%d %s %s %s, inner stream %s' % (v, cipher, 'compressed' if comp else 'uncompressed', ks, sid), roundtrip(v, cipher, comp, ks, sid), rules=rules))
        out.append(Task('round trip: KDBX%d, all header items' % v, roundtrip(v, 'aes256', True, 'argon2', 'chacha20', extra=True, binaries=True), rules=rules))
        out.append(Task('round trip: KDBX%d, transformed key' % v, roundtrip(v, 'aes256', True, 'argon2', 'chacha20', cred='transformed', binaries=False), rules=rules))
        out.append(Task('round trip: KDBX%d, to a path' % v, roundtrip(v, 'aes256', True, 'argon2', 'chacha20', path=True, binaries=False), rules=rules))
        out.append(Task('round trip: KDBX%d, saved twice' % v, roundtrip(v, 'chacha20', False, 'aeskdf', 'salsa20', twice=True, binaries=True), rules=rules))
    return out
