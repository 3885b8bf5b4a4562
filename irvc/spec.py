"""The specifications (FIPS 180-4, RFC 8439, ...) written over terms.
On constant terms they evaluate to constants; selftest() compares them with hashlib."""
import math
import terms as t
from terms import const


def rotr(x, n):
    w = x.w
    return t.cat([t.slc(x, n, w - n), t.slc(x, 0, n)])


def rotl(x, n):
    return rotr(x, x.w - n)


def shr(x, n):
    return t.zext(t.slc(x, n, x.w - n), x.w)


def _primes(n):
    out = []
    p = 2
    while len(out) < n:
        if all(p % q for q in out):
            out.append(p)
        p += 1
    return out


def _icbrt(n):
    x = int(round(n ** (1 / 3)))
    while x ** 3 > n:
        x -= 1
    while (x + 1) ** 3 <= n:
        x += 1
    return x


def _frac_cbrt(p, bits):
    lo, hi = 0, p << bits
    n = p << (3 * bits)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= n:
            lo = m
        else:
            hi = m - 1
    return lo & ((1 << bits) - 1)


def _frac_sqrt(p, bits):
    return math.isqrt(p << (2 * bits)) & ((1 << bits) - 1)


K256 = [_frac_cbrt(p, 32) for p in _primes(64)]
K512 = [_frac_cbrt(p, 64) for p in _primes(80)]
P16 = _primes(16)
IV256 = [_frac_sqrt(p, 32) for p in P16[:8]]
IV512 = [_frac_sqrt(p, 64) for p in P16[:8]]
IV384 = [_frac_sqrt(p, 64) for p in P16[8:]]
IV224 = [x & 0xffffffff for x in IV384]
IV1 = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]


def be(bs):
    return t.cat(list(reversed(bs)))


def le(bs):
    return t.cat(list(bs))


def be_bytes(x):
    n = x.w // 8
    return [t.slc(x, 8 * (n - 1 - i), 8) for i in range(n)]


def le_bytes(x):
    return [t.slc(x, 8 * i, 8) for i in range(x.w // 8)]


def sum_(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = t.add(r, x)
    return r


def ch(e, f, g):
    return t.xor(t.and_(e, f), t.and_(t.not_(e), g))


def maj(a, b, c):
    return t.xor(t.xor(t.and_(a, b), t.and_(a, c)), t.and_(b, c))


def sha2_compress(H, M, w):
    """H: 8 words, M: block bytes"""
    if w == 32:
        K, S0, S1, s0, s1 = K256, (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10)
    else:
        K, S0, S1, s0, s1 = K512, (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6)
    nb = w // 8
    W = [be(M[nb * i:nb * i + nb]) for i in range(16)]
    X = lambda x, r: t.xor(t.xor(rotr(x, r[0]), rotr(x, r[1])), rotr(x, r[2]))
    x_ = lambda x, r: t.xor(t.xor(rotr(x, r[0]), rotr(x, r[1])), shr(x, r[2]))
    for i in range(16, len(K)):
        W.append(sum_(x_(W[i - 2], s1), W[i - 7], x_(W[i - 15], s0), W[i - 16]))
    a, b, c, d, e, f, g, h = H
    for i in range(len(K)):
        t1 = sum_(h, X(e, S1), ch(e, f, g), const(K[i], w), W[i])
        t2 = t.add(X(a, S0), maj(a, b, c))
        h, g, f, e, d, c, b, a = g, f, e, t.add(d, t1), c, b, a, t.add(t1, t2)
    return [t.add(x, y) for x, y in zip(H, (a, b, c, d, e, f, g, h))]


def sha1_compress(H, M, w=32):
    W = [be(M[4 * i:4 * i + 4]) for i in range(16)]
    for i in range(16, 80):
        W.append(rotl(t.xor(t.xor(W[i - 3], W[i - 8]), t.xor(W[i - 14], W[i - 16])), 1))
    a, b, c, d, e = H
    for i in range(80):
        if i < 20:
            f, k = ch(b, c, d), 0x5a827999
        elif i < 40:
            f, k = t.xor(t.xor(b, c), d), 0x6ed9eba1
        elif i < 60:
            f, k = maj(b, c, d), 0x8f1bbcdc
        else:
            f, k = t.xor(t.xor(b, c), d), 0xca62c1d6
        x = sum_(rotl(a, 5), f, e, const(k, 32), W[i])
        e, d, c, b, a = d, c, rotl(b, 30), a, x
    return [t.add(x, y) for x, y in zip(H, (a, b, c, d, e))]


class HashSpec:
    def __init__(self, name, fam, iv, w, block, digest, lenbytes, alias):
        self.name = name          # hashlib name
        self.fam = fam
        self.iv = iv
        self.w = w
        self.block = block
        self.digest = digest
        self.lenbytes = lenbytes
        self.alias = alias
        self.nw = len(iv)

    def compress(self, H, M):
        if self.fam == 'sha1':
            return sha1_compress(H, M)
        return sha2_compress(H, M, self.w)

    def pad(self, n):
        """padding bytes for a message of n bytes (concrete)"""
        z = (-(n + 1 + self.lenbytes)) % self.block
        return b'\x80' + bytes(z) + (8 * n).to_bytes(self.lenbytes, 'big')

    def hash_concrete(self, data):
        m = data + self.pad(len(data))
        H = [const(x, self.w) for x in self.iv]
        for i in range(0, len(m), self.block):
            H = self.compress(H, [const(x, 8) for x in m[i:i + self.block]])
        return b''.join(h.a[0].to_bytes(self.w // 8, 'big') for h in H)[:self.digest]


def _iv512t(nbits):
    """FIPS 180-4 5.3.6.  IV generation function"""
    H = [const(x ^ 0xa5a5a5a5a5a5a5a5, 64) for x in IV512]
    s = HashSpec('', 'sha512', IV512, 64, 128, 64, 16, '')
    m = ('SHA-512/%d' % nbits).encode()
    m = m + s.pad(len(m))
    H = s.compress(H, [const(x, 8) for x in m])
    return [h.a[0] for h in H]


SHA1 = HashSpec('sha1', 'sha1', IV1, 32, 64, 20, 8, 'sha_1_160')
SHA224 = HashSpec('sha224', 'sha256', IV224, 32, 64, 28, 8, 'sha_2_224')
SHA256 = HashSpec('sha256', 'sha256', IV256, 32, 64, 32, 8, 'sha_2_256')
SHA384 = HashSpec('sha384', 'sha512', IV384, 64, 128, 48, 16, 'sha_2_384')
SHA512 = HashSpec('sha512', 'sha512', IV512, 64, 128, 64, 16, 'sha_2_512')
SHA512_224 = HashSpec('sha512_224', 'sha512', _iv512t(224), 64, 128, 28, 16, 'sha_2_512_224')
SHA512_256 = HashSpec('sha512_256', 'sha512', _iv512t(256), 64, 128, 32, 16, 'sha_2_512_256')
HASHES = [SHA1, SHA224, SHA256, SHA384, SHA512, SHA512_224, SHA512_256]


# ------------------------------------------------------------------ ChaCha20

def chacha_rounds(S):
    x = list(S)

    def qr(a, b, c, d):
        x[a] = t.add(x[a], x[b]); x[d] = rotl(t.xor(x[d], x[a]), 16)
        x[c] = t.add(x[c], x[d]); x[b] = rotl(t.xor(x[b], x[c]), 12)
        x[a] = t.add(x[a], x[b]); x[d] = rotl(t.xor(x[d], x[a]), 8)
        x[c] = t.add(x[c], x[d]); x[b] = rotl(t.xor(x[b], x[c]), 7)
    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return [t.add(a, b) for a, b in zip(x, S)]


def chacha_block_concrete(key, ctr, nonce):
    S = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + \
        [int.from_bytes(key[4 * i:4 * i + 4], 'little') for i in range(8)] + [ctr & 0xffffffff] + \
        [int.from_bytes(nonce[4 * i:4 * i + 4], 'little') for i in range(3)]
    r = chacha_rounds([const(x, 32) for x in S])
    return b''.join(x.a[0].to_bytes(4, 'little') for x in r)


def selftest():
    import hashlib
    n = 0
    for s in HASHES:
        for m in (b'', b'abc', bytes(range(55)), bytes(range(56)), bytes(range(112)), bytes(i & 255 for i in range(300))):
            assert s.hash_concrete(m) == hashlib.new(s.name, m).digest(), s.name
            n += 1
    # RFC 8439 2.3.2
    k = bytes(range(32))
    b = chacha_block_concrete(k, 1, bytes.fromhex('000000090000004a00000000'))
    assert b.hex().startswith('10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4e')
    return n + 1


if __name__ == '__main__':
    print(selftest())
