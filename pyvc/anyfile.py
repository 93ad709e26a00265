"""Arbitrary files: a readable header followed by arbitrary bytes, opened with arbitrary credentials (C02, C04).
The block loop is cut at an arbitrary iteration: the blocks before it satisfied the block contract (induction over their number), this
one is read from an arbitrary position; if the loop goes on, the contract is checked for it."""
import z3
from . import libs, grammar, runs, fmt, fsmod, xmlseq
from .core import eng, Unsupported, mk_bool, SymBool, axiom, PathEnd
from .values import *
from .values import _ieq

def sha256(b): return uf('sha256', [SymBytes.of(b)], 32)
def sha512(b): return uf('sha512', [SymBytes.of(b)], 64)
def hmac256(k, m): return libs.hmac_new(k, m, 'sha256').digest()
def le(n, w): return libs.struct_mod.pack('<' + {2: 'H', 4: 'I', 8: 'Q'}[w], n)

class Spec:
    """What the format prescribes for this header and these credentials."""
    def __init__(self, db, pw, tk):
        self.db = db
        if tk is not None: t = tk
        else:
            comp = sha256(sha256(libs.text_encode(pw)) if pw is not None else b'')
            if db.version == 3 or db.kdf == 'aeskdf': t = uf('aes_kdf', [db.salt, db.rounds, comp], 32)
            else:
                P = {k: v for k, _, v in db.params}
                t = uf('argon2', [comp, db.salt, P['I'], P['M'] // 1024, P['P'], {'argon2': 0, 'argon2id': 2}[db.kdf], P['V']], 32)
        self.t = t
        self.hkey = sha512(SymBytes.of(db.seed) + t + b'\x01')
        self.master = sha256(SymBytes.of(db.seed) + t)
    def header_hmac(self, H): return hmac256(sha512(b'\xff' * 8 + self.hkey), H)
    def block_hmac(self, k, data):
        n = SymBytes.of(data).vc_len()
        return hmac256(sha512(SymBytes.of(le(k, 8)) + self.hkey), SymBytes.of(le(k, 8)) + le(n, 4) + data)

class Blocks:
    """Count.arbitrary: the cut of the block loop."""
    def __init__(self, version, con, file, base, spec):
        self.version, self.con, self.file, self.base, self.spec = version, con, file, base, spec
        self.at = None          # (list, position, index, stream) of the iteration being executed
        self.content, self.document = None, bytes_var('document_bytes')
        self.earlier = None
    def applies(self, count, loop, st, t):
        if self.version == 4:
            if self.is_file(st): return _ieq(st.pos, self.base + 64) or prov(mk_bool(zint(st.pos) >= zint(self.base)))
            if self.at is not None and _ieq(st.pos, 0):
                # the decrypted content: an inner header in normal form, then the document
                self.content = st.buf
                key = bytes_var('inner_stream_key', 64)
                st.buf = SymBytes.of(b'\x01\x04\0\0\0\x03\0\0\0' + b'\x02\x40\0\0\0') + key + b'\x00\0\0\0\0' + self.document
                libs.assumed('decrypted content of arbitrary files: inner header in normal form (stream id, key, end) followed by a document')
            return False
        return self.at is None and not self.is_file(st)
    def is_file(self, st): return st is self.file or self.file is None and isinstance(st, fsmod.File)
    def joined(self, rec):
        """The content of all blocks."""
        return SymBytes.of(self.earlier.joined['block_data'] if self.earlier is not None else b'') + rec['block_data']
    def lists(self, loop):
        r = [v for v in loop.locs.values() if isinstance(v, list)]
        if len(r) != 1 or r[0]: raise Unsupported('blocks are not collected in one list')
        return r[0]
    def loop(self, count, loop, st):
        e = eng()
        if count.step != 1: raise Unsupported('block numbers')
        l = self.lists(loop)
        p, k = st.pos, count.start
        if e.choose(2, 'an earlier block was read') == 1:
            k = int_var('blocks_before', 1, 2 ** 32)
            q = int_var('position', 0)
            axiom(z3.And(q.e >= zint(p) + (40 if self.version == 3 else 36), q.e <= zint(st.buf.vc_len())))
            st.pos = p = q
            l.append(runs.Run(self.con.Container, {}, {'block_data', 'hmac_hash', 'block_hash', 'block_index', 'hmac_hash_offset', 'block_hash_offset'}, k, joined={'block_data': bytes_var('earlier_blocks')}))
            self.earlier = l[0]
            k = k + count.start
        self.at = (l, p, k, st)
        n = len(l)
        yield k
        if len(l) != n + 1: raise Unsupported('blocks are not collected in one list')
        self.item(l[n], 'a block that is followed by another')
        raise PathEnd()
    def parts(self):
        """index bytes, hash, data of the block at the current position, as the format lays them out"""
        l, p, k, st = self.at
        b = SymBytes.of(st.buf)
        if self.version == 3: idx = b[p:p + 4]; p = p + 4
        else: idx = None
        h = b[p:p + 32]
        n = libs.struct_mod.unpack('<I', b[p + 32:p + 36])[0]
        d = b[p + 36:p + 36 + n]
        return idx, h, n, d, p + 36 + n
    def good(self):
        """The block at the current position satisfies the format."""
        idx, h, n, d, end = self.parts()
        l, p, k, st = self.at
        if self.version == 4: return SymBytes.of(h) == self.spec.block_hmac(k, d)
        c = zint(n) == 0
        zero = (SymBytes.of(h) == b'\0' * 32)
        sha = SymBytes.of(h) == sha256(d)
        return mk_bool(z3.And(zint(libs.struct_mod.unpack('<I', idx)[0]) == zint(k), z3.If(c, zb(zero), zb(sha))))
    def item(self, rec, what):
        e = eng()
        idx, h, n, d, end = self.parts()
        l, p, k, st = self.at
        e.check(mk_bool(zint(end) <= zint(st.buf.vc_len())), what + ' lies within the file')
        if self.version == 4:
            e.check(self.good(), what + ' matches the HMAC over its position, its length and its bytes')
        else:
            e.check(mk_bool(zint(libs.struct_mod.unpack('<I', idx)[0]) == zint(k)), what + ' carries its position in sequence')
            e.check(self.good(), what + ' matches its SHA-256 (zeros for an empty block)')
        e.check(SymBytes.of(rec['block_data']) == d, what + ': its content is the authenticated bytes')
        e.check(mk_bool(zint(st.pos) == zint(end)), what + ': the next one is read where it ends')

def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x.e

class Opened: pass

def header_of(sh, db):
    con, obj = sh.load('construct'), db.obj
    m = sh.load('pykeepass.kdbx_parsing.kdbx')
    st = grammar.BytesIO()
    for sc in m.KDBX.subcons:
        if sc.name == 'header':
            sc._build(obj.header, st, con.Container(_=con.Container(), _root=None, _params=con.Container(), _building=True, _parsing=False, _sizing=False, _subcons=None), '(building)')
    return db, SymBytes.of(st.getvalue())

def header(sh, version, cipher, comp, kdf, shape):
    """(database settings, header bytes as the format lays them out)"""
    db = fmt.DB(sh, version, cipher, comp, kdf, 'chacha20', binaries=False, text='x')
    con = sh.load('construct')
    obj = db.obj
    if shape != 'plain':
        dh = obj.header.value.dynamic_header
        order = list(dh)
        order = order[-2::-1] + ['end']
        items = [(k, dh[k]) for k in order]
        for k in order: del dh[k]
        for k, v in items: dh[k] = v
    H = header_of(sh, db)[1]
    if shape != 'plain':
        # an item that occurs twice, the first of them with other content
        c = fmt.short('comment')
        w = 4 if version == 4 else 2
        extra = b''
        for v in (c, fmt.short('comment2')): extra = SymBytes.of(extra) + b'\x01' + le(v.vc_len(), w) + v
        H = SymBytes.of(H[:12]) + extra + H[12:]
    return db, H

def open_arbitrary(version, cipher='aes256', comp=True, kdf='argon2', cred='transformed', shape='plain', path=False):
    """Opens a file with this kind of header and arbitrary bytes after it; returns what is known about the path taken."""
    e = eng()
    o = Opened()
    sh, m = fmt.stack()
    fmt.stub_kdf(sh)
    con = sh.load('construct')
    runs.Count.arbitrary = None
    db, H = header(sh, version, cipher, comp, kdf, shape)
    R = bytes_var('rest')
    o.sh, o.m, o.con, o.db, o.H, o.R = sh, m, con, db, H, R
    pw = str_var('password') if cred == 'password' else None
    tk = bytes_var('transformed_key', 32) if cred == 'transformed' else None
    F = H + R
    if path:
        fs = fsmod.FS()
        p = str_var('path')
        e.assume(mk_bool(z3.Length(p.e) > 0))
        fs.put(p, F)
        src = p
        file = None
    else: src = file = grammar.BytesIO(F)
    o.spec = Spec(db, pw, tk)
    o.blocks = Blocks(version, con, file, H.vc_len(), o.spec)
    runs.Count.arbitrary, xmlseq.NO_TEXT = o.blocks, True
    try: o.kp, o.exc = fmt.call(m.PyKeePass, src, password=pw, transformed_key=tk)
    finally: runs.Count.arbitrary, xmlseq.NO_TEXT = None, False
    return o
