"""Assumed contracts of the libraries pykeepass calls (the trusted base).  Every model used is recorded in the
report, and cross-checked against the real library on random inputs by crosscheck.py."""
import base64 as _b64, binascii, struct as _struct, types, uuid as _uuid, hashlib as _hashlib, hmac as _hmac, zlib as _zlib
import codecs as _codecs
import z3
from .core import eng, Unsupported, mk_bool, SymBool, axiom, Engine, PathEnd
from .values import *
from .values import _ieq
from . import words
from .words import SymW

def assumed(name):
    e = Engine.current
    if e is not None: e.report.assumed.add(name)

def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m

def single(b):
    """The only part of a byte string, or None."""
    b = SymBytes.of(b)
    if len(b.parts) != 1: return None
    p = b.parts[0]
    if p.kind == 'sub' and _ieq(p.args[1], 0) and _ieq(p.args[2], p.args[0].len): return p.args[0]
    return p

def uf_args(b, name):
    """Arguments if b is exactly one application of the uninterpreted function `name`."""
    p = single(b)
    if p is not None and p.kind == 'uf' and p.args[0] == name: return p.args[1:]
    return None

# ---- text <-> bytes ---------------------------------------------------------------------------
def text_encode(s, enc='utf-8'):
    if enc.lower().replace('_', '-') not in ('utf-8', 'utf8', 'ascii'): raise Unsupported('encoding ' + enc)
    if isinstance(s, str): return s.encode(enc)
    assumed('str.encode/bytes.decode: inverse of each other, decode raises UnicodeDecodeError on invalid UTF-8')
    if s.origin and s.origin[0] == 'utf8dec': return s.origin[1]
    if s.origin and s.origin[0] == 'b64': return SymBytes(_b64bytes(s.origin[1]).parts)
    r = uf('utf8enc', [s])
    axiom((blen(r.parts[0].z) == 0) == (z3.Length(s.e) == 0))
    return r

def text_decode(b, enc='utf-8'):
    if enc.lower().replace('_', '-') not in ('utf-8', 'utf8', 'ascii'): raise Unsupported('encoding ' + enc)
    if isinstance(b, bytes): return b.decode(enc)
    assumed('str.encode/bytes.decode: inverse of each other, decode raises UnicodeDecodeError on invalid UTF-8')
    if not b.parts: return ''
    a = uf_args(b, 'utf8enc')
    if a: return a[0]
    a = uf_args(b, 'b64enc')
    if a:
        s = ufs('b64text', [a[0]])
        _b64axioms(s, a[0])
        s.origin = ('b64', a[0])
        return s
    if not bool(ufp('utf8ok', [b])): raise UnicodeDecodeError('utf-8', b'', 0, 1, 'symbolic')
    s = ufs('utf8dec', [b])
    s.origin = ('utf8dec', b)
    axiom((z3.Length(s.e) == 0) == (zint(b.vc_len()) == 0))
    return s

# ---- base64 ----------------------------------------------------------------------------------
unb64text = z3.Function('unb64text', z3.StringSort(), B)
b64valid = z3.Function('b64valid', z3.StringSort(), z3.BoolSort())
def _b64axioms(s, b):
    assumed('base64: b64decode(b64encode(x)) == x; b64decode raises binascii.Error on malformed input')
    axiom(unb64text(s.e) == bterm(b))
    axiom(b64valid(s.e))
    axiom((z3.Length(s.e) == 0) == (zint(SymBytes.of(b).vc_len()) == 0))
def _b64bytes(b):
    n = SymBytes.of(b).vc_len()
    ln = mk_int(((zint(n) + 2) / 3) * 4)
    r = uf('b64enc', [SymBytes.of(b)], ln)
    return r
def b64encode(b, altchars=None):
    if isinstance(b, (bytes, bytearray)): return _b64.b64encode(b)
    assumed('base64: b64decode(b64encode(x)) == x; b64decode raises binascii.Error on malformed input')
    if not isinstance(b, SymBytes): raise TypeError('a bytes-like object is required')
    return _b64bytes(b)
def b64decode(s, altchars=None, validate=False):
    assumed('base64: b64decode(b64encode(x)) == x; b64decode raises binascii.Error on malformed input')
    if isinstance(s, SymBytes):
        a = uf_args(s, 'b64enc')
        if a: return a[0]
        a = uf_args(s, 'utf8enc')
        if a: return b64decode(a[0])
        if not bool(ufp('b64bvalid', [s])): raise binascii.Error('symbolic')
        return uf('b64bdec', [s])
    if isinstance(s, SymStr):
        if s.origin and s.origin[0] == 'b64': return s.origin[1]
        if s.origin and s.origin[0] == 'isotext':
            assumed('base64.b64decode of an ISO time text (no padding sign): malformed, or a multiple of three bytes')
            if not bool(SymBool(b64valid(s.e), 'valid base64')): raise binascii.Error('symbolic')
            k = int_var('iso_as_base64', 2)
            return bytes_var('iso_as_base64', mk_int(3 * k.e))
        if not bool(SymBool(b64valid(s.e), 'valid base64')): raise binascii.Error('symbolic')
        z = unb64text(s.e)
        axiom(blen(z) >= 0)
        return SymBytes([BTerm('uf', ('unb64', s), z, mk_int(blen(z)))])
    if s is None: raise TypeError("argument should be a bytes-like object or ASCII string, not 'NoneType'")
    return _b64.b64decode(s)

base64_mod = module('base64', b64encode=b64encode, b64decode=b64decode)

# ---- hex -----------------------------------------------------------------------------------------
def bytes_hex(b):
    assumed('bytes.hex/bytes.fromhex/codecs hex: fromhex(hex(x)) == x')
    a = uf_args(b, 'unhex')
    s = ufs('hextext', [b])
    s.origin = ('hex', b)
    return s
def bytes_fromhex(s):
    assumed('bytes.hex/bytes.fromhex/codecs hex: fromhex(hex(x)) == x')
    if s.origin and s.origin[0] == 'hex': return s.origin[1]
    if not bool(ufp('hexok', [s])): raise ValueError('non-hexadecimal number')
    return uf('unhex', [s])
def codecs_decode(x, enc='utf-8', errors='strict'):
    if isinstance(x, SymBytes):
        if enc in ('hex', 'hex_codec'):
            assumed('codecs.decode(x, "hex"): inverse of hex, raises binascii.Error on malformed input')
            if not bool(ufp('hexbok', [x])): raise binascii.Error('Non-hexadecimal digit found')
            n = x.vc_len()
            return uf('unhexb', [x], mk_int(zint(n) / 2))
        return text_decode(x, enc)
    return _codecs.decode(x, enc, errors)
codecs_mod = module('codecs', decode=codecs_decode, encode=_codecs.encode)

# ---- integers <-> text --------------------------------------------------------------------------
istr = z3.Function('intstr', z3.IntSort(), z3.StringSort())
unistr = z3.Function('unintstr', z3.StringSort(), z3.IntSort())
isintstr = z3.Function('isintstr', z3.StringSort(), z3.BoolSort())
def int_to_text(i):
    if isinstance(i, int): return str(i)
    assumed('str(int)/int(str): int(str(i)) == i, str is injective, int(s) raises ValueError on malformed text')
    s = SymStr(istr(i.e), origin=('int', i))
    axiom(unistr(s.e) == i.e)
    axiom(isintstr(s.e))
    axiom(z3.Length(s.e) > 0)
    return s
def to_int(x, base=10):
    if isinstance(x, SymInt): return x
    if isinstance(x, words.SymW): return x
    if hasattr(x, 'vc_int'): return x.vc_int()
    if isinstance(x, SymBool): return 1 if x else 0
    if isinstance(x, SymStr):
        if base != 10: raise Unsupported('int() with base')
        if x.origin and x.origin[0] == 'int': return x.origin[1]
        if not bool(SymBool(isintstr(x.e), 'integer text')): raise ValueError('invalid literal for int()')
        return SymInt(unistr(x.e))
    if isinstance(x, SymBytes):
        if not bool(ufp('int_base%d_ok' % base, [x])): raise ValueError('invalid literal for int() with base %d' % base)
        return ufi('int_base%d' % base, [x])
    raise Unsupported('int() of %s' % type(x).__name__)
def int_from_bytes(b, byteorder, signed):
    raise Unsupported('int.from_bytes')

# ---- strings ---------------------------------------------------------------------------------------
def str_replace(s, a, b):
    if isinstance(s, SymStr) and s.origin and s.origin[0] == 'iso' and a == 'Z' and b == '+00:00':
        return s      # isoformat() never contains 'Z'
    if isinstance(s, SymStr) and s.origin and s.origin[0] == 'isotext' and a == 'Z' and b == '+00:00':
        if s.origin[2] != 'Z': return s
        from .dtmod import iso_text
        return iso_text(s.origin[1], 0)
    if isinstance(s, SymStr) and isinstance(a, str) and len(a) == 1 and isinstance(b, str):
        # a one-character pattern: replace works piece by piece
        ps = str_pieces(s)
        if len(ps) > 1 or (s.origin and s.origin[0] == 'joined'):
            out = ''
            ok = True
            for p in ps:
                if isinstance(p, SymStr):
                    if not prov(mk_bool(z3.Not(z3.Contains(p.e, z3.StringVal(a))))): ok = False; break
                    out = out + p
                else: out = out + p.replace(a, b)
            if ok:
                if isinstance(out, SymStr) and out.e.eq(s.e): return s
                return out
        elif prov(mk_bool(z3.Not(z3.Contains(s.e, z3.StringVal(a))))): return s
    f = z3.Function('str_replace_all', z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
    r = f(s.e, zs(a), zs(b))
    axiom(z3.Implies(z3.Not(z3.Contains(s.e, zs(a))), r == s.e))
    assumed('str.replace: replaces all non-overlapping occurrences (uninterpreted; identity if none)')
    return SymStr(r, origin=('replaced', s, a, b))
def str_pieces(s):
    from .xpathsym import pieces
    return pieces(s)
class SplitList:
    """s.split(sep) of an unknown text."""
    vc_is_list = True
    def __init__(self, s, sep): self.s, self.sep = s, sep
    def __eq__(self, o): return isinstance(o, SplitList) and o.sep == self.sep and mk_bool(zs(self.s) == zs(o.s))
    __hash__ = None
    def __iter__(self): raise Unsupported('parts of a symbolic string')
    __len__ = __getitem__ = __iter__
class SymList:
    """An arbitrary non-empty list of non-empty texts without `,` and `;`: joining and splitting by `;` are inverse (assumed lemma on str)."""
    vc_is_list = True
    def __init__(self, name): self.z = z3.String(eng().fresh(name))
    def vc_join(self, sep):
        if sep != ';': raise Unsupported('join with another separator')
        assumed("str: ';'.join(l).split(';') == l for a non-empty list of non-empty texts without ';'")
        axiom(z3.Length(self.z) > 0); axiom(z3.Not(z3.Contains(self.z, z3.StringVal(','))))
        return SymStr(self.z, origin=('joined', self, sep))
    def __iter__(self): raise Unsupported('elements of a symbolic list')
    __len__ = __getitem__ = __iter__
    def __bool__(self): return True
def str_split(s, sep, *a):
    if a or not isinstance(sep, str) or len(sep) != 1: raise Unsupported('split of a symbolic string')
    if s.origin and s.origin[0] == 'joined' and s.origin[2] == sep: return s.origin[1]
    ps = str_pieces(s)
    out = ['']
    for p in ps:
        if isinstance(p, str):
            q = p.split(sep)
            out[-1] = out[-1] + q[0]
            out += q[1:]
        elif prov(mk_bool(z3.Not(z3.Contains(p.e, z3.StringVal(sep))))): out[-1] = out[-1] + p
        else: return SplitList(s, sep)
    return out

# ---- hashes ------------------------------------------------------------------------------------------
HLEN = {'sha256': 32, 'sha512': 64, 'sha1': 20, 'md5': 16}
class SymDigest:
    def __init__(self, alg, data): self.alg, self.data = alg, data
    def update(self, d): self.data = self.data + d
    def digest(self):
        assumed('hashlib.%s: a function of its input with %d-byte output' % (self.alg, HLEN[self.alg]))
        return uf(self.alg, [self.data], HLEN[self.alg])
    def hexdigest(self): return bytes_hex(self.digest())
    def copy(self): return SymDigest(self.alg, self.data)
def hash_new(alg):
    def f(data=b'', **k):
        if isinstance(data, (bytes, SymBytes)): return SymDigest(alg, SymBytes.of(data))
        raise TypeError('object supporting the buffer API required')
    f.alg = alg
    return f
hashlib_mod = module('hashlib', sha256=hash_new('sha256'), sha512=hash_new('sha512'), sha1=hash_new('sha1'), md5=hash_new('md5'))
def _hnew(name, data=b''): return hash_new(name)(data)
hashlib_mod.new = _hnew

class SymHmac:
    def __init__(self, key, msg, alg): self.key, self.msg, self.alg = key, msg, alg
    def update(self, m): self.msg = self.msg + m
    def digest(self):
        assumed('hmac: a function of key, message and hash with fixed output length')
        return uf('hmac_' + self.alg, [self.key, self.msg], HLEN[self.alg])
    def hexdigest(self): return bytes_hex(self.digest())
def hmac_new(key, msg=None, digestmod=''):
    alg = digestmod if isinstance(digestmod, str) else getattr(digestmod, 'alg', None)
    if alg not in HLEN: raise Unsupported('hmac digest')
    return SymHmac(SymBytes.of(key), SymBytes.of(msg if msg is not None else b''), alg)
def hmac_digest(key, msg, digest): return hmac_new(key, msg, digest).digest()
def compare_digest(a, b): return a == b
hmac_mod = module('hmac', new=hmac_new, digest=hmac_digest, compare_digest=compare_digest)

# ---- struct ------------------------------------------------------------------------------------------
FMT = {'B': 1, 'H': 2, 'L': 4, 'I': 4, 'Q': 8, 'b': 1, 'h': 2, 'l': 4, 'i': 4, 'q': 8}
def _parse_fmt(fmt):
    if not fmt or fmt[0] not in '<>=!': raise Unsupported('struct format %r' % fmt)
    out, n = [], ''
    for c in fmt[1:]:
        if c.isdigit(): n += c; continue
        if c == ' ': continue
        if c not in FMT: raise Unsupported('struct format %r' % fmt)
        c = {'L': 'I', 'l': 'i'}.get(c, c)          # the same in standard size
        out += [c] * (int(n) if n else 1)
        n = ''
    return fmt[0], out
def pack(fmt, *args):
    if not any(isinstance(a, (SymInt, SymW)) for a in args): return _struct.pack(fmt, *args)
    assumed('struct: pack/unpack are inverse bijections between in-range integers and fixed-length bytes')
    order, items = _parse_fmt(fmt)
    if len(items) != len(args): raise _struct.error('pack expected %d items' % len(items))
    out = SymBytes([])
    for c, a in zip(items, args):
        n = FMT[c]
        if isinstance(a, int): out = out + _struct.pack(order + c, a); continue
        if isinstance(a, SymW):
            if len(a.bits) > 8 * n: raise _struct.error('argument out of range')
            c0 = a.const()
            if c0 is not None: out = out + _struct.pack(order + c, c0); continue
            z = z3.Const('w%s%d_%d' % (order, n, words.node(('pack', a.bits))), B)
            axiom(blen(z) == n)
            out = out + SymBytes([BTerm('word', (order, c, a), z, n)])
            continue
        if not isinstance(a, SymInt): raise _struct.error('required argument is not an integer')
        lo, hi = (0, 2 ** (8 * n) - 1) if c.isupper() else (-2 ** (8 * n - 1), 2 ** (8 * n - 1) - 1)
        if not bool(mk_bool(z3.And(a.e >= lo, a.e <= hi))): raise _struct.error('argument out of range')
        out = out + pack1(order, c, a)
    return out.norm()
def pack1(order, c, a):
    nm = 'pack%s%s' % ('le' if order in '<=' else 'be', c)
    r = uf(nm, [a], FMT[c])
    un = z3.Function('un' + nm, B, z3.IntSort())
    axiom(un(r.parts[0].z) == zint(a))
    return r
def unpack(fmt, b):
    if isinstance(b, (bytes, bytearray)): return _struct.unpack(fmt, b)
    assumed('struct: pack/unpack are inverse bijections between in-range integers and fixed-length bytes')
    order, items = _parse_fmt(fmt)
    total = sum(FMT[c] for c in items)
    if not bool(mk_bool(zint(b.vc_len()) == total)): raise _struct.error('unpack requires a buffer of %d bytes' % total)
    out, off = [], 0
    for c in items:
        n = FMT[c]
        x = b[off:off + n] if len(items) > 1 else b
        off += n
        out.append(unpack1(order, c, x))
    return tuple(out)
def unpack1(order, c, x):
    n = FMT[c]
    if isinstance(x, bytes): return _struct.unpack(order + c, x)[0]
    x = SymBytes.of(x)
    p = single(x)
    if p is not None and p.kind == 'word' and p.args[:2] == (order, c): return p.args[2]
    if p is not None and p.kind == 'word' and p.args[0] == order and FMT[p.args[1]] == n and c.isupper(): return p.args[2]
    nm = 'pack%s%s' % ('le' if order in '<=' else 'be', c)
    a = uf_args(x, nm)
    if a: return a[0]
    z = bterm(x)
    un = z3.Function('un' + nm, B, z3.IntSort())
    v = un(z)
    lo, hi = (0, 2 ** (8 * n) - 1) if c.isupper() else (-2 ** (8 * n - 1), 2 ** (8 * n - 1) - 1)
    axiom(z3.And(v >= lo, v <= hi))
    f = z3.Function(nm, z3.IntSort(), B)
    axiom(f(v) == z)
    return SymInt(v)
struct_mod = module('struct', pack=pack, unpack=unpack, error=_struct.error, calcsize=_struct.calcsize)

# ---- xor, padding --------------------------------------------------------------------------------------
def strxor(a, b, output=None):
    if isinstance(a, bytes) and isinstance(b, bytes):
        if len(a) != len(b): raise ValueError('Only byte strings of equal length can be xored')
        return bytes(x ^ y for x, y in zip(a, b))
    assumed('strxor: byte-wise exclusive or of equal-length strings (commutative, self-inverse)')
    a, b = SymBytes.of(a), SymBytes.of(b)
    if not bool(mk_bool(zint(a.vc_len()) == zint(b.vc_len()))): raise ValueError('Only byte strings of equal length can be xored')
    return _xor(a, b)
def _xor(a, b):
    for x, y in ((a, b), (b, a)):
        k = uf_args(x, 'xor')
        if k:
            if prov_same(k[0], y): return k[1]
            if prov_same(k[1], y): return k[0]
    za, zb = bterm(a), bterm(b)
    if za.get_id() > zb.get_id(): a, b = b, a      # ids are stable within a path
    r = uf('xor', [a, b], a.vc_len())
    axiom(z3.Function('xor', B, B, B)(bterm(b), bterm(a)) == bterm(r))
    return r
def prov_same(a, b):
    r = beq(a, b)
    return r if isinstance(r, bool) else prov(r)
strxor_mod = module('strxor', strxor=strxor)

def pad(data, size, style='pkcs7'):
    if isinstance(data, bytes): 
        from Cryptodome.Util.Padding import pad as p
        return p(data, size, style=style)
    if style != 'pkcs7': raise Unsupported('padding style')
    assumed('PKCS7: unpad(pad(x)) == x, pad extends to a multiple of the block size by 1..16 bytes, unpad raises ValueError on bad padding')
    n = data.vc_len()
    k = mk_int(size - zint(n) % size)
    return data + uf('pkcs7_%d' % size, [n], k)
def unpad(data, size, style='pkcs7'):
    if isinstance(data, bytes):
        from Cryptodome.Util.Padding import unpad as p
        return p(data, size, style=style)
    if style != 'pkcs7': raise Unsupported('padding style')
    assumed('PKCS7: unpad(pad(x)) == x, pad extends to a multiple of the block size by 1..16 bytes, unpad raises ValueError on bad padding')
    p = data.parts[-1] if data.parts else None
    if p is not None and p.kind == 'uf' and p.args[0] == 'pkcs7_%d' % size:
        rest = SymBytes(data.parts[:-1])
        if _ieq(rest.vc_len(), p.args[1]): return rest.norm()
    if not bool(ufp('pkcs7ok_%d' % size, [data])): raise ValueError('Padding is incorrect.')
    n = ufi('pkcs7len_%d' % size, [data])
    axiom(z3.And(n.e >= 0, n.e < zint(data.vc_len()), n.e >= zint(data.vc_len()) - size))
    return data[0:n]
padding_mod = module('Padding', pad=pad, unpad=unpad)
