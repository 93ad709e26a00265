"""C17: protected values are stored encrypted under one continuous key stream in document order, and are plain in memory."""
import z3
from .. import libs, grammar, xmlseq, cryptomods, dom
from ..core import eng, Unsupported, mk_bool, SymBool, axiom
from ..values import *
from ..values import _ieq, _sub
from ..kpmod import engine_fault
from ..verify import Task
from ..bounded.c17 import *

LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of UnprotectedStream._encode/_decode, get_cipher of every stream class and Unprotect, discharged for documents of any size through an arbitrary element and an induction over '
              'document order (the position of the key stream), for every text, stream key and stream id. lxml selection, base64, UTF-8 and the stream ciphers are assumed contracts; the construct library runs as it is. '
              'The same contract is evaluated on the unmodified code on generated files.')
ASSUMPTIONS = ['values marked protected are those of Value elements with Protected="True"', 'texts in memory are valid XML texts']

SALSA_NONCE = bytes.fromhex('e830094b97205d2a')
def cipher_spec(sid, key):
    """(name, key, nonce) of the inner stream"""
    if sid == 'salsa20': return 'salsa20', libs.hashlib_mod.sha256(key).digest(), SALSA_NONCE
    if sid == 'chacha20':
        h = libs.hashlib_mod.sha512(key).digest()
        return 'chacha20', h[:32], h[32:44]

def stored(sid, key, plain):
    """The text the format stores for the plain text of X."""
    name, k, n = cipher_spec(sid, key)
    data = SymBytes.of(libs.text_encode(plain))
    ks = cryptomods.key_stream(name, SymBytes.of(k), SymBytes.of(n), SymInt(xmlseq.POS), data.vc_len())
    axiom(xmlseq.POS >= 0)
    enc = libs._xor(data, ks)
    return libs.text_decode(libs._b64bytes(enc), 'ascii')

def Leaf(construct, doc):
    """The construct below: hands the document over."""
    class Leaf(construct.Construct):
        def _parse(self, stream, context, path): return doc
        def _build(self, obj, stream, context, path):
            self.built.append(obj)
            return obj
    r = Leaf()
    r.built = []
    return r

def run(f, *a):
    e = eng()
    imp = e.imprecise
    try: return f(*a), None
    except Exception as ex:
        engine_fault(ex)
        e.imprecise = imp
        return None, ex

def document(text):
    cryptomods.KeyStream.made[:] = []
    return xmlseq.VTree(bytes_var('document'), text)

def plain_text():
    e = eng()
    k = e.choose(2, 'X has a text')
    if k: return None
    v = str_var('text_of_X')
    e.assume(dom.F_xmlok(v.e))
    return v

def adapter(sid, key, doc):
    sh = grammar.shadow()
    m = sh.load('pykeepass.kdbx_parsing.common')
    C = sh.load('construct').Container
    leaf = Leaf(sh.load('construct'), doc)
    ctx = C(sid=sid, key=key)
    ctx._parsing = ctx._building = True
    u = m.Unprotect(lambda c: c.sid, lambda c: c.key, leaf)
    return u, leaf, ctx, grammar.BytesIO()

def same_text(a, b):
    """Equality of texts (no text and the empty text are stored alike)."""
    if a is None: a = ''
    if b is None: b = ''
    if isinstance(a, str) and isinstance(b, str): return a == b
    return mk_bool(zs(a) == zs(b))

def encode_task(sid):
    def fn():
        e = eng()
        key = bytes_var('stream_key')
        plain = plain_text()
        doc = document(plain)
        doc.plain = plain
        prot = doc.protected()
        u, leaf, ctx, st = adapter(sid, key, doc)
        r, exc = run(u._build, doc, st, ctx, '')
        if sid == 'arcfourvariant':
            e.decided(exc is not None and not leaf.built, 'an unsupported inner stream writes nothing')
            return
        if not e.decided(exc is None and len(leaf.built) == 1, 'protecting the values of a document does not fail (%s)' % sid, repr(exc)[:300]): return
        out = leaf.built[0]
        if not isinstance(out, xmlseq.VTree): raise Unsupported('the stored document is a %s' % type(out).__name__)
        e.decided(doc.x.writes == [] and doc.x._t is plain, 'the document in memory keeps its values')
        e.decided(not [w for w in out.x.writes if w != 'text'], 'no attribute is changed')
        e.check(mk_bool(out.base.parts[0].z == doc.base.parts[0].z), 'the stored document is the document in memory')
        got = out.x._t
        if sid == 'none' or plain is None:
            e.check(same_text(got, plain), 'a value that is not encrypted is stored as it is (%s)' % sid)
            return
        want = stored(sid, key, plain)
        if bool(SymBool(prot, 'X is protected')): e.check(same_text(got, want), 'a protected value is stored as the base64 of its UTF-8 text encrypted at its position in the one key stream (%s)' % sid)
        else: e.check(same_text(got, plain), 'every other value is stored as it is (%s)' % sid)
    return fn

def decode_task(sid):
    def fn():
        e = eng()
        key = bytes_var('stream_key')
        plain = plain_text()
        cryptomods.KeyStream.made[:] = []
        doc = document(plain)
        doc.plain = plain
        prot = doc.protected()
        if plain is not None and sid in ('salsa20', 'chacha20'):
            if bool(SymBool(prot, 'X is protected')): doc.x._t = stored(sid, key, plain)
        had = doc.x._t
        u, leaf, ctx, st = adapter(sid, key, doc)
        r, exc = run(u._parse, st, ctx, '')
        if sid == 'arcfourvariant':
            e.decided(exc is not None, 'an unsupported inner stream is reported')
            return
        if not e.decided(exc is None, 'recovering the values of a stored document does not fail (%s)' % sid, repr(exc)[:300]): return
        if not isinstance(r, xmlseq.VTree): raise Unsupported('the document is a %s' % type(r).__name__)
        e.check(mk_bool(r.base.parts[0].z == doc.base.parts[0].z), 'the document returned is the stored one')
        e.decided(not [w for w in r.x.writes if w != 'text'], 'no attribute is changed')
        e.check(same_text(r.x._t, plain), 'a protected value is recovered, every other value is left as it is (%s)' % sid)
    return fn

def garbage_task(sid):
    """Values that cannot be recovered raise nothing and leave the unprotected ones alone."""
    def fn():
        e = eng()
        key = bytes_var('stream_key')
        t = plain_text()
        doc = document(t)
        prot = doc.protected()
        u, leaf, ctx, st = adapter(sid, key, doc)
        if t is None or bool(SymBool(z3.Not(prot), 'X is not protected')):
            doc.plain = None
            r, exc = run(u._parse, st, ctx, '')
            if not e.decided(exc is None, 'opening does not fail on values that are not protected (%s)' % sid, repr(exc)[:200]): return
            e.decided(isinstance(r, xmlseq.VTree) and r.x._t is t, 'a value that is not protected, and a value without text, stays as it is (%s)' % sid)
    return fn

def tasks(thorough):
    out = []
    for sid in ('salsa20', 'chacha20', 'none', 'arcfourvariant'):
        out.append(Task('encode:' + sid, encode_task(sid)))
        out.append(Task('decode:' + sid, decode_task(sid)))
    for sid in ('salsa20', 'chacha20'): out.append(Task('other values:' + sid, garbage_task(sid)))
    return out
