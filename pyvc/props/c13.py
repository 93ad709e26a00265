"""C13: the Twofish cipher is the published one; CBC chaining is correct and invertible for every split."""
import random, struct as _s
from .. import libs, words, core, spec_twofish as spec
from ..core import eng, axiom, Unsupported
from ..values import *
from ..values import _ieq
from ..loops import LoopRule, AccList
from ..hooks import Shadow
from ..verify import Task

LEVEL = 'proof'
LEVEL_NOTE = 'All obligations of the Twofish and CBC contracts are discharged for all keys, blocks and data lengths; assumes strxor and the bytes model, trusts z3 and the pyvc engine. The same contracts are replayed on the unmodified code.'
MODS = {'struct': libs.struct_mod, 'Cryptodome.Util.strxor': libs.strxor_mod, 'Cryptodome.Util.Padding': libs.padding_mod}

def shadow():
    return Shadow(MODS, bare=('pykeepass', 'pykeepass.kdbx_parsing'))

def word_bytes(ws):
    return libs.pack('<%dL' % len(ws), *ws)

def words_of(b):
    return list(libs.unpack('<%dL' % (b.vc_len() // 4 if isinstance(b, SymBytes) else len(b) // 4), b))

def same_words(a, b):
    return len(a) == len(b) and all(words.SymW.of(x).same(y) for x, y in zip(a, b))

# ---- the block cipher -----------------------------------------------------------------------------
def block_task(nwords, direction):
    def fn():
        e = eng()
        pt = shadow().load('pykeepass.kdbx_parsing.pytwofish')
        kw = [words.var('k%d' % i, 32) for i in range(nwords)]
        p = [words.var('p%d' % i, 32) for i in range(4)]
        c = pt.Twofish(word_bytes(kw))
        K, S = spec.key_schedule(spec.Sym, kw)
        tabs = [[spec.g_byte(spec.Sym, j, i, S) for i in range(256)] for j in range(4)]
        # T[i] == g_byte(j, i) for all 256 i, hence T[x] == g_byte(j, x) for every byte x
        def g(x):
            r = 0
            for j in range(4): r = words.lookup(tabs[j], spec.Sym.byte(x, j)) ^ r
            return r
        if direction == 'encrypt':
            got = words_of(c.encrypt(word_bytes(p)))
            want = spec.encrypt_words(K, g, p)
            e.decided(same_words(got, want), 'Twofish(key).encrypt(block) == published Twofish, %d-bit keys' % (32 * nwords), backend='canonical form')
            again = words_of(c.encrypt(word_bytes(p)))
            e.decided(same_words(again, want), 'a second encryption with the same object gives the same block', backend='canonical form')
        else:
            got = words_of(c.decrypt(word_bytes(spec.encrypt_words(K, g, p))))
            e.decided(same_words(got, p), 'Twofish(key).decrypt(published encryption of p) == p, %d-bit keys' % (32 * nwords), backend='canonical form')
            two = [words.var('q%d' % i, 32) for i in range(4)]
            got = words_of(c.encrypt(word_bytes(p + two)))
            e.decided(same_words(got, spec.encrypt_words(K, g, p) + spec.encrypt_words(K, g, two)), 'two blocks are encrypted independently', backend='canonical form')
            got = words_of(c.decrypt(word_bytes(spec.encrypt_words(K, g, p) + spec.encrypt_words(K, g, two))))
            e.decided(same_words(got, p + two), 'two blocks are decrypted independently', backend='canonical form')
    return fn

def rekey_task():
    """set_key on a used object leaves nothing of the old key."""
    e = eng()
    pt = shadow().load('pykeepass.kdbx_parsing.pytwofish')
    k1 = [words.var('j%d' % i, 32) for i in range(8)]
    k2 = [words.var('k%d' % i, 32) for i in range(4)]
    p = [words.var('p%d' % i, 32) for i in range(4)]
    c = pt.Twofish(word_bytes(k1))
    c.set_key(word_bytes(k2))
    other = pt.Twofish(word_bytes(k1))      # another object, keyed in between
    d = pt.Twofish(word_bytes(k2))
    e.decided(same_words(words_of(c.encrypt(word_bytes(p))), words_of(d.encrypt(word_bytes(p)))), 'set_key replaces the whole key schedule; objects share no state', backend='canonical form')

def badkey_task():
    e = eng()
    pt = shadow().load('pykeepass.kdbx_parsing.pytwofish')
    n = int_var('keylen', 1)
    e.assume(mk_bool(z3.And(n.e != 16, n.e != 24, n.e != 32)))
    try: pt.Twofish(bytes_var('key', n)); ok = False
    except KeyError: ok = True
    e.decided(ok, 'Twofish rejects every key length other than 16, 24, 32')

def badblock_task():
    e = eng()
    pt = shadow().load('pykeepass.kdbx_parsing.pytwofish')
    c = pt.Twofish(b'k' * 16)
    n = int_var('len', 0)
    e.assume(mk_bool(n.e % 16 != 0))
    b = bytes_var('block', n)
    for f in (c.encrypt, c.decrypt):
        try: f(b); ok = False
        except ValueError: ok = True
        e.decided(ok, 'encrypt and decrypt reject every input that is not a multiple of the block size')

# ---- CBC ------------------------------------------------------------------------------------------------
class Codebook:
    """Contract of pytwofish.Twofish: a permutation of 16-byte blocks for each key."""
    def __init__(self, key, **a):
        self.key = key
    def encrypt(self, b): return self._f('E', 'D', b)
    def decrypt(self, b): return self._f('D', 'E', b)
    def _f(self, f, inv, b):
        e = eng()
        b = SymBytes.of(b)
        e.check(mk_bool(zint(b.vc_len()) == 16), 'precondition of the codebook: one 16-byte block')
        return blockf(self.key, f, inv, b)

def blockf(key, f, inv, b):
    a = libs.uf_args(b, inv)
    if a and libs.prov_same(a[0], key): return SymBytes.of(a[1])
    r = uf(f, [key, b], 16)
    g = z3.Function(inv, B, B, B)
    axiom(g(bterm(key), bterm(r)) == bterm(b))
    return r

class Chain:
    """The CBC definition: c_0 = IV, c_{i+1} = E(p_i xor c_i); p_i = D(c_{i+1}) xor c_i."""
    def __init__(self, key, iv, data, ed):
        self.key, self.iv, self.data, self.ed = key, iv, data, ed
        self.opaque = []
    def prev(self, i):
        if isinstance(i, int): return i - 1
        for o in self.opaque:
            if _ieq(i, o + 1): return o
        from .. import loops
        if loops.state and loops.state.off:         # bounded mode: unfold the definition
            for k in range(1, loops.UNROLL + 9):
                if _ieq(i, k): return k - 1
        return None
    def block(self, i): return SymBytes.of(self.data[i * 16:i * 16 + 16])
    def chain(self, i):
        """chaining value after i blocks"""
        if _ieq(i, 0): return SymBytes.of(self.iv)
        if self.ed == 'd': return SymBytes.of(self.iv) if bool(i == 0) else self.block(i - 1)
        o = self.prev(i)
        if o is not None: return self.step(o)[0]
        self._note(i)
        r = uf('cbc_chain_' + self.ed, [self.key, self.iv, self.data, i], 16)
        axiom(z3.Implies(zint(i) == 0, r.parts[0].z == bterm(self.iv)))
        return r
    def step(self, o):
        """(next chaining value, output block) of block o"""
        if self.ed == 'e':
            c = blockf(self.key, 'E', 'D', libs.strxor(self.block(o), self.chain(o)))
            return c, c
        return self.block(o), libs.strxor(self.chain(o), blockf(self.key, 'D', 'E', self.block(o)))
    def out(self, i):
        """output of the first i blocks"""
        if _ieq(i, 0): return b''
        o = self.prev(i)
        if o is not None: return self.out(o) + self.step(o)[1]
        self._note(i)
        return uf('cbc_out_' + self.ed, [self.key, self.iv, self.data, i], i * 16)
    def _note(self, i):
        if isinstance(i, SymInt) and not any(o.e.eq(i.e) for o in self.opaque): self.opaque.append(i)

current = None
def cbc_candidates(locs):
    c = current
    return [('output so far', c.out), ('chaining value', c.chain), ('data not yet processed', lambda i: c.data[i * 16:]), ('list of output blocks', lambda i: AccList(c.out(i)))]
def cbc_bounds(locs): return [('complete blocks', lambda i: mk_bool(16 * zint(i) <= zint(current.data.vc_len())))]

def cbc_task(ed, first):
    def fn():
        global current
        e = eng()
        sh = shadow()
        tw = sh.load('pykeepass.kdbx_parsing.twofish')
        sh.load('pykeepass.kdbx_parsing.pytwofish').Twofish = Codebook
        tw.pytwofish.Twofish = Codebook
        key, iv = bytes_var('key', 32), bytes_var('iv', 16)
        c = tw.Twofish.new(key, mode=tw.MODE_CBC, IV=iv)
        total = data = bytes_var('data')
        if not first:
            # an arbitrary earlier call: fewer than 16 bytes are pending (the chain's data invariant)
            n = int_var('pending', 0, 15)
            e.assume(n <= total.vc_len())
            cache, data = total[:n], total[n:]
            c.chain.cache = cache
            (c.encrypt if ed == 'e' else c.decrypt)(b'')
            e.check(beq(c.chain.cache, cache), 'fewer than 16 pending bytes stay pending')
        current = Chain(key, iv, total, ed)
        out = (c.encrypt if ed == 'e' else c.decrypt)(data)
        n = total.vc_len() // 16
        spec_ = current
        e.check(beq(out, spec_.out(n)), 'CBC %s returns the CBC chain of all complete blocks' % ed)
        e.check(beq(c.chain.IV, spec_.chain(n)), 'CBC %s leaves the chaining value of the last block' % ed)
        e.check(beq(c.chain.cache, total[n * 16:]), 'CBC %s keeps exactly the incomplete block pending' % ed)
    return fn

def lemma_inverse():
    """Induction over the number of blocks: decrypting the CBC encryption gives the data back."""
    e = eng()
    key, iv, data = bytes_var('key', 32), bytes_var('iv', 16), bytes_var('data')
    n = data.vc_len()
    i = int_var('i', 0)
    e.assume(mk_bool(16 * i.e + 16 <= zint(n)))
    enc = Chain(key, iv, data, 'e')
    ci = enc.chain(i)
    nxt, outb = enc.step(i)
    # hypothesis: the first i blocks of the ciphertext decrypt to the first i blocks of the data and the
    # chaining value of the decryption is the previous ciphertext block, which is enc.chain(i)
    e.check(beq(libs.strxor(ci, blockf(key, 'D', 'E', outb)), enc.block(i)), 'step: block i of the ciphertext decrypts to block i of the data')
    e.check(beq(outb, nxt), 'step: the ciphertext block is the next chaining value')

def wiring_task():
    e = eng()
    sh = shadow()
    tw = sh.load('pykeepass.kdbx_parsing.twofish')
    tw.pytwofish.Twofish = Codebook
    n = int_var('keylen', 0)
    key = bytes_var('key', n)
    m = int_var('ivlen', 0)
    iv = bytes_var('iv', m)
    try: c = tw.Twofish.new(key, mode=tw.MODE_CBC, IV=iv); r = 'ok'
    except ValueError: r = 'ValueError'
    except Exception: r = 'Exception'
    if r == 'ok':
        e.check(mk_bool(z3.And(z3.Or(n.e == 16, n.e == 24, n.e == 32), m.e == 16)), 'a CBC cipher is created only with a 16/24/32-byte key and a 16-byte IV')
        b = bytes_var('b', 16)
        e.check(beq(c.encrypt(b), blockf(key, 'E', 'D', libs.strxor(b, iv))), 'the cipher uses the given key and IV')
        c = tw.Twofish.new(key, mode=tw.MODE_CBC, IV=iv)
        e.check(beq(c.decrypt(b), libs.strxor(iv, blockf(key, 'D', 'E', b))), 'the cipher uses the given key and IV for decryption')
    else:
        e.check(mk_bool(z3.Not(z3.And(z3.Or(n.e == 16, n.e == 24, n.e == 32), m.e == 16))), 'valid parameters are not rejected')

def tasks(thorough):
    R = {'pykeepass.kdbx_parsing.twofish:*': LoopRule(cbc_candidates, bounds=cbc_bounds)}
    t = []
    for n in (4, 6, 8):
        for d in ('encrypt', 'decrypt'):
            t.append(Task('pytwofish %s, %d-bit key' % (d, n * 32), block_task(n, d), timeout=400))
    t += [Task('pytwofish rekeying', rekey_task), Task('pytwofish key lengths', badkey_task), Task('pytwofish block lengths', badblock_task),
          Task('CBC encryption', cbc_task('e', True), R), Task('CBC decryption', cbc_task('d', True), R),
          Task('CBC encryption, continued', cbc_task('e', False), R), Task('CBC decryption, continued', cbc_task('d', False), R),
          Task('CBC inverse (lemma)', lemma_inverse), Task('cipher construction', wiring_task)]
    return t

# ---- bounded check on the real code --------------------------------------------------------------------------
BUDGET = (25, 300)
RULE = 'random keys (16/24/32 bytes), IVs, messages up to 40 blocks, every way of splitting over calls, against the published definition'

def cases(rng, i, thorough):
    kl = (16, 24, 32)[i % 3]
    style = i % 4
    key = bytes(rng.randrange(256) for _ in range(kl)) if style else bytes([rng.choice((0, 255, 1, 128))]) * kl
    n = rng.choice((0, 1, 15, 16, 17, 31, 32, 33, 48, 64, 100, 640)) if rng.random() < .7 else rng.randrange(200)
    data = bytes(rng.randrange(256) for _ in range(n)) if rng.random() < .8 else bytes([rng.choice((0, 255, 16, 1))]) * n
    cuts = sorted(rng.randrange(n + 1) for _ in range(rng.randrange(4)))
    return dict(key=key.hex(), iv=bytes(rng.randrange(256) for _ in range(16)).hex(), data=data.hex(), cuts=cuts)

_cache = {}
def ref_cbc(key, iv, data):
    ws = list(_s.unpack('<%dL' % (len(key) // 4), key))
    K, S = spec.key_schedule(spec.Int, ws)
    tabs = [[spec.g_byte(spec.Int, j, i, S) for i in range(256)] for j in range(4)]
    g = lambda x: tabs[0][x & 255] ^ tabs[1][x >> 8 & 255] ^ tabs[2][x >> 16 & 255] ^ tabs[3][x >> 24]
    out = b''
    for i in range(0, len(data) // 16 * 16, 16):
        x = bytes(a ^ b for a, b in zip(data[i:i + 16], iv))
        iv = _s.pack('<4L', *spec.encrypt_words(K, g, list(_s.unpack('<4L', x))))
        out += iv
    return out

def check(c):
    from pykeepass.kdbx_parsing import twofish as tw
    key, iv, data = bytes.fromhex(c['key']), bytes.fromhex(c['iv']), bytes.fromhex(c['data'])
    want = ref_cbc(key, iv, data)
    cuts = [0] + c['cuts'] + [len(data)]
    x = tw.Twofish.new(key, mode=tw.MODE_CBC, IV=iv)
    got = b''.join(x.encrypt(data[a:b]) for a, b in zip(cuts, cuts[1:]))
    if got != want: return 'encrypt: got %s, published definition gives %s' % (got.hex(), want.hex())
    y = tw.Twofish.new(key, mode=tw.MODE_CBC, IV=iv)
    cuts = [min(q, len(want)) for q in cuts[:-1]] + [len(want)]
    back = b''.join(y.decrypt(want[a:b]) for a, b in zip(cuts, cuts[1:]))
    if back != data[:len(want)]: return 'decrypt: got %s, expected %s' % (back.hex(), data[:len(want)].hex())
    for bad in (0, 1, 8, 15, 17, 31, 33, 40, 64):
        try: tw.Twofish.new(b'k' * bad, mode=tw.MODE_CBC, IV=iv); return 'a key of %d bytes is accepted' % bad
        except ValueError: pass
    for bad in (0, 1, 15, 17, 32):
        try: tw.Twofish.new(key, mode=tw.MODE_CBC, IV=b'i' * bad); return 'an IV of %d bytes is accepted' % bad
        except Exception: pass
    return None
