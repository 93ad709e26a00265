"""Twofish as published (Schneier et al., 1998), written from the paper's definitions and generic in the word
type: runs on ints and on canonical symbolic words.  Independent of the code under verification: the
q-permutations come from the 4-bit t-tables by the published procedure, the MDS and RS codes from their
matrices over GF(2^8)."""

T = [[[0x8,0x1,0x7,0xD,0x6,0xF,0x3,0x2,0x0,0xB,0x5,0x9,0xE,0xC,0xA,0x4],
      [0xE,0xC,0xB,0x8,0x1,0x2,0x3,0x5,0xF,0x4,0xA,0x6,0x7,0x0,0x9,0xD],
      [0xB,0xA,0x5,0xE,0x6,0xD,0x9,0x0,0xC,0x8,0xF,0x3,0x2,0x4,0x7,0x1],
      [0xD,0x7,0xF,0x4,0x1,0x2,0x6,0xE,0x9,0xB,0x3,0x0,0x8,0x5,0xC,0xA]],
     [[0x2,0x8,0xB,0xD,0xF,0x7,0x6,0xE,0x3,0x1,0x9,0x4,0x0,0xA,0xC,0x5],
      [0x1,0xE,0x2,0xB,0x4,0xC,0x3,0x7,0x6,0xD,0xA,0x5,0xF,0x9,0x0,0x8],
      [0x4,0xC,0x7,0x5,0x1,0x6,0x9,0xA,0x0,0xE,0xD,0x8,0x2,0xB,0x3,0xF],
      [0xB,0x9,0x5,0x1,0xC,0x3,0xD,0xE,0x6,0x4,0x7,0xF,0x2,0x0,0x8,0xA]]]

def ror4(x): return (x >> 1) | ((x & 1) << 3)

def q(n, x):
    a, b = x // 16, x % 16
    a1 = a ^ b
    b1 = (a ^ ror4(b) ^ (8 * a)) & 15
    a2, b2 = T[n][0][a1], T[n][1][b1]
    a3 = a2 ^ b2
    b3 = (a2 ^ ror4(b2) ^ (8 * a2)) & 15
    a4, b4 = T[n][2][a3], T[n][3][b3]
    return 16 * b4 + a4

Q = [[q(n, x) for x in range(256)] for n in (0, 1)]

def gmul(a, b, poly):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1
        if a & 0x100: a ^= poly
        b >>= 1
    return r

MDS = [[0x01, 0xEF, 0x5B, 0x5B], [0x5B, 0xEF, 0xEF, 0x01], [0xEF, 0x5B, 0x01, 0xEF], [0xEF, 0x01, 0xEF, 0x5B]]
RS = [[0x01, 0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E], [0xA4, 0x56, 0x82, 0xF3, 0x1E, 0xC6, 0x68, 0xE5],
      [0x02, 0xA1, 0xFC, 0xC1, 0x47, 0xAE, 0x3D, 0x19], [0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E, 0x03]]

def mds_column(j, x):
    """contribution of byte j (value x) to the output word of the MDS multiplication"""
    w = 0
    for i in range(4): w |= gmul(MDS[i][j], x, 0x169) << (8 * i)
    return w

# order in which the q-permutations are applied to byte j, innermost (k=4 only) first, the last just before the MDS
QSEQ = [[1, 1, 0, 0, 1], [0, 1, 1, 0, 0], [0, 0, 0, 1, 1], [1, 0, 1, 1, 0]]

class Int:
    """word operations on Python ints"""
    @staticmethod
    def byte(x, n): return (x >> (8 * n)) & 0xff
    @staticmethod
    def tab(t, i): return t[i]
    @staticmethod
    def linear(cols, x):
        """GF(2)-linear map of the bits of x: cols[i] is the image of bit i"""
        r = 0
        for i, c in enumerate(cols):
            if (x >> i) & 1: r ^= c
        return r

class Sym:
    from .words import lookup as _lookup
    @staticmethod
    def byte(x, n): return (x >> (8 * n)) & 0xff
    @staticmethod
    def tab(t, i):
        from .words import lookup, SymW
        return lookup(t, i) if isinstance(i, SymW) else t[i]
    @staticmethod
    def linear(cols, x):
        from .words import SymW, Z, C1
        x = SymW.of(x)
        bits = []
        for j in range(32):
            s = Z
            for i, c in enumerate(cols):
                if (c >> j) & 1: s = s ^ x.bit(i)
            bits.append(s)
        return SymW(bits).norm()

def rs_word(W, even, odd):
    """RS code applied to the eight key bytes of two key words."""
    r = 0
    for j in range(8):
        w = even if j < 4 else odd
        cols = []
        for b in range(8):
            c = 0
            for i in range(4): c |= gmul(RS[i][j], 1 << b, 0x14D) << (8 * i)
            cols.append(c)
        r = W.linear(cols, W.byte(w, j % 4)) ^ r
    return r

MCOL = [[mds_column(j, Q[QSEQ[j][4]][x]) for x in range(256)] for j in range(4)]   # last q and MDS column together

def g_byte(W, j, x, L):
    """byte j of the h function's input through the key-dependent S-box, as contribution to the output word"""
    k = len(L)
    y = x
    for i in range(k - 1, -1, -1):
        # stage i uses the q before XOR with byte j of L[i]
        y = W.tab(Q[QSEQ[j][3 - i]], y) ^ W.byte(L[i], j)
    return W.tab(MCOL[j], y)

def h(W, x, L):
    r = 0
    for j in range(4): r = g_byte(W, j, W.byte(x, j), L) ^ r
    return r

def rol(x, n): return ((x << n) & 0xffffffff) | (x >> (32 - n))
def ror(x, n): return (x >> n) | ((x << (32 - n)) & 0xffffffff)

def key_schedule(W, words):
    k = len(words) // 2
    Me, Mo = words[0::2], words[1::2]
    S = [rs_word(W, Me[i], Mo[i]) for i in range(k)][::-1]
    K = []
    rho = 0x01010101
    for i in range(20):
        A = h(W, 2 * i * rho, Me)
        Bv = h(W, (2 * i + 1) * rho, Mo)
        Bv = rol(Bv, 8)
        K.append((A + Bv) % 2 ** 32)
        K.append(rol((A + 2 * Bv) % 2 ** 32, 9))
    return K, S

def encrypt_words(K, g, p):
    """16 rounds; g is the key-dependent function on words"""
    R = [p[i] ^ K[i] for i in range(4)]
    for r in range(16):
        t0 = g(R[0])
        t1 = g(rol(R[1], 8))
        f0 = (t0 + t1 + K[2 * r + 8]) % 2 ** 32
        f1 = (t0 + 2 * t1 + K[2 * r + 9]) % 2 ** 32
        R = [ror(R[2] ^ f0, 1), rol(R[3], 1) ^ f1, R[0], R[1]]
    R = [R[2], R[3], R[0], R[1]]        # undo the last swap
    return [R[i] ^ K[i + 4] for i in range(4)]

def encrypt_block(key, block):
    import struct
    ws = list(struct.unpack('<%dL' % (len(key) // 4), key))
    K, S = key_schedule(Int, ws)
    return struct.pack('<4L', *encrypt_words(K, lambda x: h(Int, x, S), list(struct.unpack('<4L', block))))
