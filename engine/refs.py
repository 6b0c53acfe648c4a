"""Reference models, written from the published specifications (RFC 8439,
draft-irtf-cfrg-xchacha, the Salsa20/XSalsa20 papers, RFC 4503, the HC-256
paper and the RC4 description), over the term builder.  With integer inputs
they compute integers; with symbolic inputs they compute terms."""

SIGMA = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]
TAU = [0x61707865, 0x3120646e, 0x79622d36, 0x6b206574]


def le_words(c, bs, n=4):
    """bytes (list of 8-bit values) -> list of 8n-bit words, little-endian"""
    return [c.concat_v([(8, b) for b in bs[i:i + n]]) for i in range(0, len(bs), n)]


def word_bytes(c, w, n=4):
    return [c.extract(w, 8 * n, 8 * i, 8) for i in range(n)]


def words_bytes(c, ws, n=4):
    return [b for w in ws for b in word_bytes(c, w, n)]


def rotl(c, x, n, w=32):
    return c.fshl(w, x, x, n)


# ------------------------------------------------------------------ ChaCha
def chacha_qr(c, s, a, b, d, e):
    # (a, b, c, d) of RFC 8439 are s[a], s[b], s[d], s[e]
    s[a] = c.add(32, s[a], s[b])
    s[e] = rotl(c, c.xor(32, s[e], s[a]), 16)
    s[d] = c.add(32, s[d], s[e])
    s[b] = rotl(c, c.xor(32, s[b], s[d]), 12)
    s[a] = c.add(32, s[a], s[b])
    s[e] = rotl(c, c.xor(32, s[e], s[a]), 8)
    s[d] = c.add(32, s[d], s[e])
    s[b] = rotl(c, c.xor(32, s[b], s[d]), 7)


def chacha_perm(c, st, rounds):
    s = list(st)
    for _ in range(rounds // 2):
        for i in range(4):
            chacha_qr(c, s, i, 4 + i, 8 + i, 12 + i)
        for i in range(4):
            chacha_qr(c, s, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4)
    return s


def chacha_block(c, key, tail, rounds):
    """key: 8 words, tail: 4 words (counter/nonce) -> 16 words"""
    st = SIGMA + list(key) + list(tail)
    s = chacha_perm(c, st, rounds)
    return [c.add(32, x, y) for x, y in zip(s, st)]


def hchacha(c, key, nonce4, rounds):
    s = chacha_perm(c, SIGMA + list(key) + list(nonce4), rounds)
    return s[0:4] + s[12:16]


# ------------------------------------------------------------------ Salsa
def salsa_qr(c, y, i0, i1, i2, i3):
    y[i1] = c.xor(32, y[i1], rotl(c, c.add(32, y[i0], y[i3]), 7))
    y[i2] = c.xor(32, y[i2], rotl(c, c.add(32, y[i1], y[i0]), 9))
    y[i3] = c.xor(32, y[i3], rotl(c, c.add(32, y[i2], y[i1]), 13))
    y[i0] = c.xor(32, y[i0], rotl(c, c.add(32, y[i3], y[i2]), 18))


def salsa_perm(c, st, rounds):
    s = list(st)
    for _ in range(rounds // 2):
        # columnround
        salsa_qr(c, s, 0, 4, 8, 12)
        salsa_qr(c, s, 5, 9, 13, 1)
        salsa_qr(c, s, 10, 14, 2, 6)
        salsa_qr(c, s, 15, 3, 7, 11)
        # rowround
        salsa_qr(c, s, 0, 1, 2, 3)
        salsa_qr(c, s, 5, 6, 7, 4)
        salsa_qr(c, s, 10, 11, 8, 9)
        salsa_qr(c, s, 15, 12, 13, 14)
    return s


def salsa_state(key, n0, n1, c0, c1):
    return [SIGMA[0], key[0], key[1], key[2], key[3], SIGMA[1], n0, n1,
            c0, c1, SIGMA[2], key[4], key[5], key[6], key[7], SIGMA[3]]


def salsa_core(c, st, rounds):
    s = salsa_perm(c, st, rounds)
    return [c.add(32, x, y) for x, y in zip(s, st)]


def hsalsa(c, key, n4, rounds):
    s = salsa_perm(c, salsa_state(key, n4[0], n4[1], n4[2], n4[3]), rounds)
    return [s[i] for i in (0, 5, 10, 15, 6, 7, 8, 9)]


# ------------------------------------------------------------------ RC4
class Rc4:
    def __init__(self, c, key):
        self.c = c
        s = c.arr_build(list(range(256)), 8)
        j = 0
        n = len(key)
        for i in range(256):
            si = c.select(s, None, i)
            j = c.add(8, c.add(8, j, si), key[i % n])
            s = self.swap(s, i, j)
        self.s = s
        self.i = 0
        self.j = 0

    def swap(self, s, i, j):
        c = self.c
        si = c.select(s, None, i)
        sj = c.select(s, None, j)
        s = c.store(s, None, i, sj)
        return c.store(s, None, j, si)

    def byte(self):
        c = self.c
        self.i = (self.i + 1) & 255
        self.j = c.add(8, self.j, c.select(self.s, None, self.i))
        self.s = self.swap(self.s, self.i, self.j)
        t = c.add(8, c.select(self.s, None, self.i), c.select(self.s, None, self.j))
        return c.select(self.s, None, t)


# ------------------------------------------------------------------ Rabbit
RA = [0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3]


class Rabbit:
    def __init__(self, c, key, iv=None):
        self.c = c
        k = le_words(c, key, 2)
        x, cc = [], []

        def j16(hi, lo):
            return c.concat_v([(16, lo), (16, hi)])
        for j in range(8):
            if j % 2 == 0:
                x.append(j16(k[(j + 1) % 8], k[j]))
                cc.append(j16(k[(j + 4) % 8], k[(j + 5) % 8]))
            else:
                x.append(j16(k[(j + 5) % 8], k[(j + 4) % 8]))
                cc.append(j16(k[j], k[(j + 1) % 8]))
        self.x, self.cc, self.b = x, cc, 0
        for _ in range(4):
            self.next()
        for j in range(8):
            self.cc[j] = c.xor(32, self.cc[j], self.x[(j + 4) % 8])
        if iv is not None:
            v = le_words(c, iv, 2)
            i0, i2 = j16(v[1], v[0]), j16(v[3], v[2])
            i1, i3 = j16(v[3], v[1]), j16(v[2], v[0])
            for j, w in enumerate((i0, i1, i2, i3, i0, i1, i2, i3)):
                self.cc[j] = c.xor(32, self.cc[j], w)
            for _ in range(4):
                self.next()

    def next(self):
        c = self.c
        g = []
        for j in range(8):
            t = c.add(64, c.add(64, c.zext(32, 64, self.cc[j]), RA[j]), c.zext(1, 64, self.b))
            self.b = c.extract(t, 64, 32, 1)
            self.cc[j] = c.extract(t, 64, 0, 32)
        for j in range(8):
            u = c.zext(32, 64, c.add(32, self.x[j], self.cc[j]))
            sq = c.mul(64, u, u)
            g.append(c.xor(32, c.extract(sq, 64, 0, 32), c.extract(sq, 64, 32, 32)))

        def r(i, n):
            return rotl(c, g[i], n)
        x = []
        for i in range(0, 8, 2):
            a, b, d = i, (i - 1) % 8, (i - 2) % 8
            x.append(c.add(32, c.add(32, g[a], r(b, 16)), r(d, 16)))
            a, b, d = i + 1, i, (i - 1) % 8
            x.append(c.add(32, c.add(32, g[a], r(b, 8)), g[d]))
        self.x = x

    def block(self):
        self.next()
        c, x = self.c, self.x

        def lo(i):
            return c.extract(x[i], 32, 0, 16)

        def hi(i):
            return c.extract(x[i], 32, 16, 16)
        out = []
        for (a, p, q, t) in ((0, 5, 3, 0), (2, 7, 5, 0), (4, 1, 7, 0), (6, 3, 1, 0)):
            out.append(c.xor(16, lo(a), hi(p)))
            out.append(c.xor(16, hi(a), lo(q)))
        return words_bytes(c, out, 2)


# ------------------------------------------------------------------ HC-256
class Hc256:
    def __init__(self, c, key, iv):
        self.c = c
        w = le_words(c, key) + le_words(c, iv)

        def rotr(x, n):
            return rotl(c, x, 32 - n)

        def f1(x):
            return c.xor(32, c.xor(32, rotr(x, 7), rotr(x, 18)), c.lshr(32, x, 3))

        def f2(x):
            return c.xor(32, c.xor(32, rotr(x, 17), rotr(x, 19)), c.lshr(32, x, 10))
        for i in range(16, 2560):
            v = c.add(32, f2(w[i - 2]), w[i - 7])
            v = c.add(32, v, f1(w[i - 15]))
            v = c.add(32, v, w[i - 16])
            w.append(c.add(32, v, i))
        self.P = c.arr_build(w[512:1536], 32)
        self.Q = c.arr_build(w[1536:2560], 32)
        self.i = 0
        for _ in range(4096):
            self.word(False)

    def word(self, out=True):
        c = self.c
        i = self.i
        self.i = (i + 1) % 2048
        j = i % 1024
        A, B = (self.P, self.Q) if i < 1024 else (self.Q, self.P)

        def at(T, k):
            return c.select(T, None, k % 1024)
        x, y = at(A, j - 3), at(A, j - 1023)
        g = c.xor(32, rotl(c, x, 22), rotl(c, y, 9))
        g = c.add(32, g, c.select(B, None, c.extract(c.xor(32, x, y), 32, 0, 10)))
        v = c.add(32, c.add(32, at(A, j), at(A, j - 10)), g)
        A = c.store(A, None, j, v)
        if i < 1024:
            self.P = A
        else:
            self.Q = A
        if not out:
            return None
        z = at(A, j - 12)
        h = None
        for k in range(4):
            b = c.extract(z, 32, 8 * k, 8)
            e = c.select(B, None, c.concat_v([(8, b), (2, k)]))
            h = e if h is None else c.add(32, h, e)
        return c.xor(32, h, v)
