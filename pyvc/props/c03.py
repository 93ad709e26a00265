"""C03: the keys are derived from the credentials as the KDBX format says."""
import z3, types, binascii
from .. import libs, cryptomods
from ..core import eng, Unsupported, mk_bool, SymBool, axiom
from ..values import *
from ..values import _ieq
from ..hooks import Shadow
from ..verify import Task
from ..loops import LoopRule
from ..kpmod import engine_fault
from lxml import etree as real_etree
from ..bounded.c03 import *
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of compute_key_composite, aes_kdf, compute_transformed (KDBX 3 and 4) and compute_master discharged for all passwords, key files, seeds, '
              'round counts and KDF parameters; hashes, AES, Argon2, base64/hex and the XML parser are assumed contracts. The same contracts run on the unmodified code against an independent implementation.')
ASSUMPTIONS = []

# ---- model of the key file's XML -------------------------------------------------------------------
class XText:
    """An element of the parsed key file: text (or None) and attributes."""
    def __init__(self, doc, name):
        self.doc, self.name = doc, name
    @property
    def text(self):
        if not bool(ufp(self.name + '_hastext', [self.doc])): return None
        return ufs(self.name + '_text', [self.doc])
    @property
    def attrib(self): return XAttrib(self.doc, self.name)
    def get(self, k, d=None):
        try: return self.attrib[k]
        except KeyError: return d
    def vc_len(self): return 0
class XAttrib:
    def __init__(self, doc, name): self.doc, self.name = doc, name
    def __getitem__(self, k):
        if not isinstance(k, str): raise Unsupported('attribute name')
        if not bool(ufp('%s_has_%s' % (self.name, k), [self.doc])): raise KeyError(k)
        return ufs('%s_attr_%s' % (self.name, k), [self.doc])
    def get(self, k, d=None):
        try: return self[k]
        except KeyError: return d
    def vc_contains(self, k): return ufp('%s_has_%s' % (self.name, k), [self.doc])
class XDoc:
    def __init__(self, doc): self.doc = doc
    def find(self, path):
        path = path.replace('./', '')
        if path not in ('Meta/Version', 'Key/Data', 'Meta', 'Key'): raise Unsupported('key file path ' + path)
        n = path.replace('/', '_')
        if path == 'Key/Data' or path == 'Meta/Version':
            if not bool(ufp('has_' + n, [self.doc])): return None
            axiom(ufp('has_' + n.split('_')[0], [self.doc]).e)
            return XText(self.doc, n)
        if not bool(ufp('has_' + n, [self.doc])): return None
        return XSub(self.doc, path)
    def findtext(self, path, default=None):
        x = self.find(path)
        if x is None: return default
        t = x.text
        return '' if t is None else t
    def getroot(self): return self
class XSub(XDoc):
    def __init__(self, doc, path): self.doc, self.path = doc, path
    def find(self, p): return XDoc(self.doc).find(self.path + '/' + p)
def fromstring(b, parser=None):
    libs.assumed('lxml.etree.fromstring: raises XMLSyntaxError for what is not well-formed XML, otherwise a function of the bytes')
    if not bool(ufp('xmlok', [b])):
        raise real_etree.XMLSyntaxError('symbolic', 1, 1, 1, '<string>')
    return XDoc(SymBytes.of(b))
etree_mod = libs.module('etree', fromstring=fromstring, XML=fromstring, XMLSyntaxError=real_etree.XMLSyntaxError, parse=None, XMLParser=real_etree.XMLParser, ParseError=real_etree.ParseError,
                        tostring=None, LxmlError=real_etree.LxmlError, XMLSyntaxError_=None)
lxml_mod = libs.module('lxml', etree=etree_mod)

class KFile:
    """An open file: content and a position."""
    def __init__(self, content, pos, seekable=True, has_seekable=True):
        self.content, self.pos, self._s = content, pos, seekable
        self.closed = False
        if has_seekable: self.seekable = lambda: self._s
    def read(self, n=-1):
        if n not in (-1, None): raise Unsupported('partial read')
        r = self.content if _ieq(self.pos, 0) else self.content[self.pos:]
        self.pos = SymBytes.of(self.content).vc_len()
        return r
    def seek(self, p, whence=0):
        if not self._s: import io; raise io.UnsupportedOperation('seek')
        if whence: raise Unsupported('whence')
        self.pos = p
        return p
    def tell(self): return self.pos
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.closed = True

def make(opened=None):
    def vopen(path, mode='r', *a, **k):
        if opened is None or path is not opened[0] and not (path == opened[0]): raise FileNotFoundError(path)
        if mode != 'rb': raise Unsupported('open mode %r' % mode)
        return KFile(opened[1], 0)
    mods = dict(cryptomods.MODS)
    mods['lxml'] = lxml_mod; mods['lxml.etree'] = etree_mod
    class P:
        """pathlib.Path of the key file."""
        def __init__(self, p): self.p = p
        def read_bytes(self): return vopen(self.p, 'rb').read()
        def open(self, mode='r', *a, **k): return vopen(self.p, mode)
    import pathlib
    mods['pathlib'] = libs.module('pathlib', Path=P, PurePath=P)
    return Shadow(mods, {'open': vopen}, bare=('pykeepass', 'pykeepass.kdbx_parsing'))

# ---- specification -------------------------------------------------------------------------------
def sha256(b): return uf('sha256', [SymBytes.of(b)], 32)

class Rejects(Exception): pass

def spec_keyfile(b):
    """The key-file key, by the KDBX documentation; forks over the same facts about the file."""
    if bool(ufp('xmlok', [b])):
        d = XDoc(SymBytes.of(b))
        v, data = d.find('Meta/Version'), d.find('Key/Data')
        vt = v.text if v is not None else None
        if vt is not None and bool(vt.startswith('1.0')):
            if data is not None:
                t = data.text
                if t is None: raise Rejects()
                try: return libs.b64decode(t)
                except binascii.Error: raise Rejects()
        elif vt is not None and bool(vt.startswith('2.0')):
            if data is not None:
                t = data.text
                if t is not None:
                    try: k = libs.bytes_fromhex(t.strip())
                    except ValueError: raise Rejects()
                    try: h = libs.bytes_fromhex(data.attrib['Hash'])
                    except (KeyError, ValueError): raise Rejects()
                    if not bool(h == sha256(k)[0:4]): raise Rejects()
                    return k
    n = SymBytes.of(b).vc_len()
    if bool(mk_bool(zint(n) == 32)): return b
    if bool(mk_bool(zint(n) == 64)) and bool(ufp('hexbok', [b])): return libs.codecs_decode(b, 'hex')
    return sha256(b)

def spec_composite(pw, kb):
    p = sha256(libs.text_encode(pw)) if pw is not None else b''
    k = spec_keyfile(kb) if kb is not None else b''
    return sha256(p + k)

def run(f, *a, **k):
    """(result, None) or (None, exception)."""
    try: return f(*a, **k), None
    except Exception as ex:
        engine_fault(ex)
        return None, ex

def decide(e, got, exc, want, what):
    """The contract of compute_key_composite: the specified key, or an error where the key file is to be rejected."""
    try: w = want()
    except Rejects:
        e.decided(exc is not None, what + ': a damaged key file is rejected', repr(got)); return
    if exc is not None:
        e.decided(False, what + ': the key is computed', repr(exc)); return
    e.check(got == w if isinstance(got, (bytes, SymBytes)) else False, what + ': SHA-256(SHA-256(password) + key-file key)')

def composite(kind):
    def fn():
        e = eng()
        b = bytes_var('keyfile')
        pw = [None, '', str_var('password')][e.choose(3, 'password none/empty/any')] if kind == 'none' else [None, str_var('password')][e.choose(2, 'password')]
        if kind == 'none':
            kf, kb = [None, ''][e.choose(2, 'key file None or empty path')], None
            sh = make()
        elif kind == 'path':
            name = str_var('path')
            e.assume(mk_bool(z3.Length(name.e) > 0))
            sh, kf, kb = make((name, b)), name, b
        else:
            sh, kb = make(), b
            if kind == 'seekable stream':
                pos = int_var('pos', 0)
                e.assume(mk_bool(pos.e <= zint(b.vc_len())))
                kf = KFile(b, pos)
            else: kf = KFile(b, 0, seekable=False, has_seekable=kind == 'unseekable stream')
        m = sh.load('pykeepass.kdbx_parsing.common')
        got, exc = run(m.compute_key_composite, password=pw, keyfile=kf)
        decide(e, got, exc, lambda: spec_composite(pw, kb), 'compute_key_composite, key file by ' + kind)
    return fn

def kdf_block(seed, x, i):
    """The block x after i rounds of AES under the seed; the recursive definition (rounds(0) = x, rounds(i) = AES(rounds(i - 1))) is unfolded once."""
    if _ieq(i, 0): return SymBytes.of(x)
    r = uf('aes_rounds', [seed, i, x], 16)
    if isinstance(i, int): prev = kdf_block(seed, x, i - 1)
    else:
        if not prov(mk_bool(zint(i) >= 1)):
            axiom(z3.Implies(zint(i) == 0, r.parts[0].z == bterm(x)))
            return r
        j = i - 1
        prev = x if _ieq(j, 0) else uf('aes_rounds', [seed, j, x], 16)
    axiom(r.parts[0].z == bterm(uf('aes_enc', [seed, prev], 16)))
    return r
def kdf_at(seed, x, i):
    r = kdf_block(seed, x[:16], i) + kdf_block(seed, x[16:], i)
    if not isinstance(i, int): axiom(z3.Implies(zint(i) == 0, bterm(r) == bterm(x)))
    return r

def aeskdf_task():
    e = eng()
    seed, x = bytes_var('seed', 32), bytes_var('composite', 32)
    rounds = int_var('rounds', 0, 2 ** 64 - 1)
    global aes_current
    aes_current = (SymBytes.of(seed), SymBytes.of(x), rounds)
    # the recursive definition unfolded for the first few counts (needed only where a loop matches no invariant and is unrolled)
    for h in (x[:16], x[16:]):
        v = h
        for k in range(5):
            axiom(z3.Implies(rounds.e == k, bterm(uf('aes_rounds', [seed, rounds, h], 16)) == bterm(v)))
            v = uf('aes_enc', [SymBytes.of(seed), v], 16)
    m = make().load('pykeepass.kdbx_parsing.common')
    got, exc = run(m.aes_kdf, seed, rounds, x)
    e.decided(exc is None, 'aes_kdf returns', repr(exc))
    if exc is None: e.check(got == sha256(kdf_at(*aes_current)), 'aes_kdf == SHA-256(composite key encrypted `rounds` times with AES-ECB under the seed)')

aes_current = None
def aes_candidates(locs):
    """Loop invariant candidates: the value after i iterations is AES applied i times (whichever function holds the loop)."""
    seed, x, rounds = aes_current
    return [('AES rounds', lambda i: kdf_at(seed, x, i)), ('AES rounds of the first half', lambda i: kdf_block(seed, x[:16], i)), ('AES rounds of the second half', lambda i: kdf_block(seed, x[16:], i))]
def aes_bounds(locs): return [('rounds', lambda i: mk_bool(zint(i) <= zint(aes_current[2])))]

class Ctx:
    """What construct passes to a context function: nested containers with `_` for the parent."""
    def __init__(self, **k): self.__dict__.update(k)
    def __getitem__(self, k): return self.__dict__[k]
    def get(self, k, d=None): return self.__dict__.get(k, d)

class V:
    def __init__(self, v): self.value = v; self.data = v

def transformed(version):
    def fn():
        e = eng()
        sh = make()
        mod = sh.load('pykeepass.kdbx_parsing.kdbx%d' % version)
        pw = [None, str_var('password')][e.choose(2, 'password')]
        b = bytes_var('keyfile')
        kf, kb = (None, None) if e.choose(2, 'key file') == 0 else (KFile(b, 0), b)
        tk = [None, bytes_var('given_transformed_key', 32)][e.choose(2, 'transformed key')]
        comp = bytes_var('composite', 32)
        # callees under contract: the composite key and the AES KDF (proved above)
        calls = []
        def stub_comp(password=None, keyfile=None):
            calls.append((password, keyfile)); return comp
        def stub_kdf(key, rounds, key_composite): return uf('aeskdf', [SymBytes.of(key), rounds, SymBytes.of(key_composite)], 32)
        for n, f in (('compute_key_composite', stub_comp), ('aes_kdf', stub_kdf)):
            if not hasattr(mod, n): raise Unsupported('%s does not use %s' % (mod.__name__, n))
            setattr(mod, n, f)
        seed, rounds = bytes_var('seed', 32), int_var('rounds', 0, 2 ** 64 - 1)
        if version == 3:
            dh = Ctx(transform_seed=V(seed), transform_rounds=V(rounds))
            want = lambda: uf('aeskdf', [seed, rounds, comp], 32)
        else:
            kind = e.choose(4, 'kdf argon2d/argon2id/aes/unknown')
            ids = [b'\xefcm\xdf\x8c)DK\x91\xf7\xa9\xa4\x03\xe3\n\x0c', b'\x9e)\x8b\x19V\xdbGs\xb2=\xfc>\xc6\xf0\xa1\xe6', b'\xc9\xd9\xf3\x9ab\x8aD`\xbft\r\x08\xc1\x8aO\xea', b'?' * 16]
            it, mem, par, ver = int_var('I', 1), int_var('M', 0), int_var('P', 1), int_var('V', 0)
            d = {'$UUID': V(ids[kind]), 'S': V(seed)}
            if kind in (0, 1): d.update(I=V(it), M=V(mem), P=V(par), V=V(ver))
            if kind == 2: d['R'] = V(rounds)
            dh = Ctx(kdf_parameters=V(Ctx(dict=d)))
            want = lambda: (uf('argon2', [comp, seed, it, mk_int(mem.e / 1024), par, 0 if kind == 0 else 2, ver], 32) if kind < 2 else
                            uf('aeskdf', [seed, rounds, comp], 32) if kind == 2 else None)
        up = Ctx(password=pw, keyfile=kf, transformed_key=tk)
        ctx = Ctx(_=Ctx(_=up, header=Ctx(value=Ctx(dynamic_header=dh))))
        got, exc = run(mod.compute_transformed, ctx)
        if tk is None and not calls: raise Unsupported('the composite key is not obtained from compute_key_composite')
        if tk is not None:
            e.check(exc is None and got == tk, 'KDBX%d transformed key: the one given explicitly' % version)
        elif want() is None:
            e.decided(exc is not None, 'KDBX%d transformed key: an unknown KDF is refused' % version)
        else:
            e.decided(exc is None, 'KDBX%d transformed key is computed' % version, repr(exc))
            e.check(exc is None and got == want(), 'KDBX%d transformed key: the KDF named in the header with its parameters, applied to the composite key' % version)
            e.decided(all(p is pw and k is kf for p, k in calls) and len(calls) > 0, 'KDBX%d: the composite key is that of the given password and key file' % version, repr(calls))
    return fn

def master_task():
    e = eng()
    m = make().load('pykeepass.kdbx_parsing.common')
    seed, tk = bytes_var('master_seed'), bytes_var('transformed', 32)
    ctx = Ctx(transformed_key=tk, _=Ctx(header=Ctx(value=Ctx(dynamic_header=Ctx(master_seed=V(seed))))))
    got, exc = run(m.compute_master, ctx)
    e.check(exc is None and got == sha256(seed + tk), 'compute_master == SHA-256(master seed + transformed key)', repr(exc))

def tasks(thorough):
    r = [Task('composite key (%s)' % k, composite(k)) for k in ('none', 'path', 'seekable stream', 'unseekable stream', 'bare stream')]
    r.append(Task('AES KDF', aeskdf_task, rules={'pykeepass.*': LoopRule(aes_candidates, bounds=aes_bounds)}))
    r += [Task('transformed key KDBX%d' % v, transformed(v)) for v in (3, 4)]
    r.append(Task('master key', master_task))
    return r
