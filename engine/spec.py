"""Specification side of the byte-stream properties: what each cipher's
keystream is (refs.py) and what a StreamCipher/StreamCipherSeek object has to
do with it.  A seekable cipher offers (2^w - 1) * 64 bytes of keystream, w the
width of its block counter; a position is (block, byte)."""
import re

import refs


class Cipher:
    def __init__(self, name, crate, kl, il, bs, w=None, rounds=20, feature="stream", fn=None, kind=None):
        self.name = name
        self.crate = crate
        self.kl = kl
        self.il = il
        self.bs = bs
        self.w = w
        self.rounds = rounds
        self.feature = feature
        self.fn = fn or "s_" + name
        self.kind = kind

    # keystream -----------------------------------------------------------
    def blocks(self, c, key, iv):
        """seekable ciphers: -> f(counter value of width w) = 64 bytes"""
        R = self.rounds
        kw = refs.le_words(c, key)
        k = self.kind
        if k == "ietf":
            n = refs.le_words(c, iv)
            return lambda t: refs.words_bytes(c, refs.chacha_block(c, kw, [t] + n, R))
        if k == "legacy":
            n = refs.le_words(c, iv)
            return lambda t: refs.words_bytes(c, refs.chacha_block(
                c, kw, [c.extract(t, 64, 0, 32), c.extract(t, 64, 32, 32)] + n, R))
        if k == "xchacha":
            n = refs.le_words(c, iv)
            sub = refs.hchacha(c, kw, n[:4], R)
            return lambda t: refs.words_bytes(c, refs.chacha_block(c, sub, [t, 0] + n[4:], R))
        if k == "salsa":
            n = refs.le_words(c, iv)
            return lambda t: refs.words_bytes(c, refs.salsa_core(c, refs.salsa_state(
                kw, n[0], n[1], c.extract(t, 64, 0, 32), c.extract(t, 64, 32, 32)), R))
        if k == "xsalsa":
            n = refs.le_words(c, iv)
            sub = refs.hsalsa(c, kw, n[:4], R)
            return lambda t: refs.words_bytes(c, refs.salsa_core(c, refs.salsa_state(
                sub, n[4], n[5], c.extract(t, 64, 0, 32), c.extract(t, 64, 32, 32)), R))
        raise KeyError(k)

    def stream(self, c, key, iv):
        """sequential ciphers: generator of keystream bytes"""
        if self.kind == "rc4":
            m = refs.Rc4(c, key)
            while True:
                yield m.byte()
        if self.kind == "rabbit":
            m = refs.Rabbit(c, key, iv)
            while True:
                yield from m.block()
        if self.kind == "hc256":
            m = refs.Hc256(c, key, iv)
            while True:
                yield from refs.word_bytes(c, m.word())
        raise KeyError(self.kind)


CIPHERS = {}


def _c(*a, **k):
    x = Cipher(*a, **k)
    CIPHERS[x.name] = x


for _r in (8, 12, 20):
    _c("c%d" % _r, "chacha", 32, 12, 64, 32, _r, kind="ietf")
    _c("x%d" % _r, "chacha", 32, 24, 64, 32, _r, feature="xstream", kind="xchacha")
    _c("s%d" % _r, "salsa", 32, 8, 64, 64, _r, kind="salsa")
    _c("y%d" % _r, "salsa", 32, 24, 64, 64, _r, feature="xstream", kind="xsalsa")
_c("l20", "chacha", 32, 8, 64, 64, 20, feature="lstream", kind="legacy")
_c("rc4", "rc4", 16, 0, 1, kind="rc4")
_c("rabbit", "rabbit", 16, 8, 16, kind="rabbit")
_c("rabbitk", "rabbit", 16, 0, 16, kind="rabbit")
_c("hc", "hc256", 32, 32, 4, kind="hc256")

SEEK = {"u64": 20, "u32": 21, "u128": 22, "usize": 23}
MODES = {"in": 1, "b2b": 3, "inout": 8, "write": 5, "in!": 0, "b2b!": 2, "write!": 4, "inout!": 7, "mut!": 10}


class Model:
    """what the object must do"""

    def __init__(self, P, ci, key, iv):
        self.P = P
        self.c = P.c
        self.ci = ci
        self.seekable = ci.w is not None
        if self.seekable:
            self.f = ci.blocks(P.c, key, iv)
            self.blk = 0
            self.off = 0
            self.cache = {}
            self.MAX = (1 << ci.w) - 1
        else:
            self.g = ci.stream(P.c, key, iv)

    def block(self, t):
        k = t if type(t) is int else ("t", t.id)
        b = self.cache.get(k)
        if b is None:
            b = self.cache[k] = (self.f(t), t)
        return b[0]

    def fits(self, n):
        """may n more bytes be produced?"""
        if not self.seekable:
            return True
        c, w = self.c, self.ci.w
        nb = -(-(self.off + n) // 64)
        if nb == 0:
            return True
        return self.P.cond(c.ule(w + 66, c.add(w + 66, c.zext(w, w + 66, self.blk), nb), self.MAX))

    def take(self, n):
        if not self.seekable:
            return [next(self.g) for _ in range(n)]
        out = []
        c, w = self.c, self.ci.w
        while len(out) < n:
            k = min(64 - self.off, n - len(out))
            out += self.block(self.blk)[self.off:self.off + k]
            self.off += k
            if self.off == 64:
                self.off = 0
                self.blk = c.add(w, self.blk, 1)
        return out


def gap(P, i, buf, exp):
    """bytes in front of operation i's data that have to stay as they are"""
    if buf:
        g = P.bytes("gap%d_" % i, 3)
        buf += g
        exp += g


def program(ci, ops, fn=None, kl=None, skew=0, fixed_key=None, extra_checks=True):
    """case function for a program of operations on one object.

    ops: ('seek', kind, byte)      to a symbolic block (all values), given byte
         ('seekto', kind, pos)     concrete position
         ('pos', kind)             current position
         ('check', n)              check_remaining
         (mode, n)                 process n bytes, see MODES
         ('mismatch', n, m)        buffers of different lengths
         ('re', k)                 apply in place to what operation k produced
         ('seek!', kind, byte)     the panicking seek (u64)
    """
    fn = fn or ci.fn
    kl = ci.kl if kl is None else kl

    def f(P):
        c = P.c
        key = P.bytes("k", kl)
        iv = P.bytes("iv", ci.il) if ci.il else None
        m = Model(P, ci, key, iv)
        triples, outs = [], []
        buf, inp, exp = [], [], []
        panics = False
        where = {}
        for i, op in enumerate(ops):
            o = op[0]
            gap(P, i, buf, exp)
            if o in ("seek", "seekto", "seek!"):
                kind, byte = op[1], op[2]
                bits = {"u32": 32, "u64": 64, "usize": 64, "u128": 128}[kind]
                w = ci.w
                if o == "seekto":
                    v, blk, byte = op[2], op[2] // 64, op[2] % 64
                    bw = 128
                else:
                    bw = bits - 6
                    blk = P.var("blk%d" % i, bw)
                    v = c.concat_v([(6, byte), (bw, blk)])
                if o == "seekto":
                    lo, hi = v & ((1 << 64) - 1), v >> 64
                elif bits == 128:
                    lo, hi = c.extract(v, 128, 0, 64), c.extract(v, 128, 64, 64)
                else:
                    lo, hi = c.zext(bits, 64, v), 0
                triples += [27 if o == "seek!" else SEEK[kind], lo, hi]
                # reachable iff position <= (2^w - 1) * 64
                lim = m.MAX if byte == 0 else m.MAX - 1
                if bw < w:
                    ok = True
                else:
                    ok = P.cond(c.ule(bw, blk, lim))
                if not ok and o == "seek!":
                    panics = True
                    break
                outs.append((1 if ok else 2, None))
                if ok:
                    m.blk = c.zext(bw, w, blk) if bw < w else c.extract(blk, bw, 0, w)
                    m.off = byte
            elif o == "pos":
                kind = op[1]
                bits = {"u32": 32, "u64": 64, "u128": 128}[kind]
                triples += [{"u64": 24, "u128": 25, "u32": 26}[kind], 0, 0]
                w = ci.w
                W = 140
                pos = c.add(W, c.concat_v([(6, 0), (w, m.blk), (W - 6 - w, 0)]), m.off)
                if kind == "u128":
                    outs.append((c.extract(pos, W, 0, 64), c.extract(pos, W, 64, 64)))
                else:
                    # representable: the value.  (Positions in the last,
                    # incompletely representable block may be refused.)
                    blkend = c.add(W, pos, (64 - m.off) % 64)
                    fits = c.ule(W, blkend, (1 << bits) - 1)
                    if bits - 6 > w or P.cond(fits):
                        outs.append((1, c.extract(pos, W, 0, 64)))
                    else:
                        outs.append((2, 0))
            elif o == "check":
                triples += [6, 0, op[1]]
                outs.append((1 if m.fits(op[1]) else 2, None))
            elif o == "re":
                st, n = where[op[1]]
                triples += [1, st, n]
                if m.fits(n):
                    ks = m.take(n)
                    exp[st:st + n] = [c.xor(8, x, y) for x, y in zip(exp[st:st + n], ks)]
                    outs.append((1, None))
                else:
                    outs.append((2, None))
            elif o == "mismatch":
                triples += [9, len(buf) | (op[1] << 32), op[2]]
                outs.append((2, None))
                junk = P.bytes("j%d_" % i, op[2])
                buf += junk
                exp += junk
                inp += [0] * max(0, op[1] - len(inp))
            else:
                n = op[1]
                code = MODES[o]
                a = len(buf)
                where[i] = (a, n)
                data = P.bytes("d%d_" % i, n)
                if code in (2, 3, 7, 8):
                    a |= len(inp) << 32
                    inp += data
                    here = P.bytes("j%d_" % i, n)
                else:
                    here = data
                triples += [code, a, n]
                if m.fits(n):
                    ks = m.take(n)
                    buf += here
                    exp += ks if code in (4, 5) else [c.xor(8, x, y) for x, y in zip(data, ks)]
                    outs.append((1, None))
                else:
                    buf += here
                    exp += here
                    if code in (0, 2, 4, 7, 10):
                        panics = True
                        break
                    outs.append((2, None))
        K = P.buf(key, name="key")
        args = [K, kl]
        if ci.il:
            args += [P.buf(iv, name="iv"), ci.il]
        B = P.buf(buf or [0], skew=skew, name="data")
        I = P.buf(inp or [0], skew=(skew * 3) % 16, name="input")
        O = P.u64s([0x55] * (2 * len(ops)), "outs")
        args += [P.u64s(triples), len(triples) // 3, O, B, I]
        r = P.call(fn, args)
        if panics:
            if r.kind != "panic":
                P.fail("keystream exhausted: the call must panic, it returned")
            return
        P.expect_ok(r)
        P.check("constructor", r.ret, 1, 64)
        for i, (x, y) in enumerate(outs):
            P.check("result of operation %d (%s)" % (i, ops[i][0]), P.u64at(O, 2 * i), x, 64)
            if y is not None:
                P.check("value of operation %d (%s)" % (i, ops[i][0]), P.u64at(O, 2 * i + 1), y, 64)
        P.check_bytes("output", B.vals[:len(exp)], exp)
        if extra_checks:
            if ci.il:
                P.check_bytes("nonce left unchanged", args[2].vals, iv)
            P.check_bytes("input left unchanged", I.vals[:len(inp)], inp)
            P.check_bytes("key left unchanged", K.vals, key)
    return f


# ------------------------------------------------------------------ cores
def core_program(ci, ops, fn, kl=None, skew=0):
    """programs on a StreamCipherCore.

    ops: ('set',)           position := a symbolic block counter
         ('setto', v)
         ('get',) ('rem',)
         ('w1', ) one block of keystream; ('w', n) n blocks; ('a', n) applied in
         place; ('ab', n) buffer to buffer; ('a1',) one block buffer to buffer
         ('part', n) / ('part!', n)  consume the core for the last n bytes
    """
    kl = ci.kl if kl is None else kl
    bs = ci.bs

    def f(P):
        c = P.c
        key = P.bytes("k", kl)
        iv = P.bytes("iv", ci.il) if ci.il else None
        m = Model(P, ci, key, iv)
        w = ci.w
        buf, inp, exp, outs, triples = [], [], [], [], []
        panics = False

        def blocks(n):
            if m.seekable:
                r = []
                for _ in range(n):
                    r += m.block(m.blk)
                    m.blk = c.add(w, m.blk, 1)
                return r
            return m.take(n * bs)
        for i, op in enumerate(ops):
            o = op[0]
            gap(P, i, buf, exp)
            if o == "set":
                v = P.var("ctr%d" % i, w)
                m.blk = v
                triples += [41, c.zext(w, 64, v), 0]
                outs.append((1, None))
            elif o == "setto":
                m.blk = op[1]
                triples += [41, op[1], 0]
                outs.append((1, None))
            elif o == "get":
                triples += [40, 0, 0]
                outs.append((1, c.zext(w, 64, m.blk)))
            elif o == "rem":
                triples += [42, 0, 0]
                if m.seekable:
                    rem = c.zext(w, 64, c.sub(w, m.MAX, m.blk))
                    if w > P.mod.ptrbits:
                        if P.cond(c.ule(w, c.sub(w, m.MAX, m.blk), (1 << P.mod.ptrbits) - 1)):
                            outs.append((1, rem))
                        else:
                            outs.append((2, 0))
                    else:
                        outs.append((1, rem))
                else:
                    outs.append((2, 0))
            elif o in ("w1", "w", "a"):
                n = op[1] if len(op) > 1 else 1
                a = len(buf)
                d = P.bytes("d%d_" % i, n * bs)
                buf += d
                ks = blocks(n)
                exp += [c.xor(8, x, y) for x, y in zip(d, ks)] if o == "a" else ks
                triples += [{"w1": 43, "w": 44, "a": 45}[o], a, n]
                outs.append((1, None))
            elif o in ("a1", "ab"):
                n = op[1] if len(op) > 1 else 1
                a = len(buf) | len(inp) << 32
                d = P.bytes("d%d_" % i, n * bs)
                buf += P.bytes("j%d_" % i, n * bs)
                inp += d
                exp += [c.xor(8, x, y) for x, y in zip(d, blocks(n))]
                triples += [47 if o == "a1" else 46, a, n]
                outs.append((1, None))
            elif o in ("part", "part!"):
                n = op[1]
                d = P.bytes("d%d_" % i, n)
                a = len(buf)
                if m.seekable:
                    # the last block may be used: the object is consumed
                    ok = n == 0 or P.cond(c.ule(w + 2, c.add(w + 2, c.zext(w, w + 2, m.blk), n // bs), m.MAX))
                else:
                    ok = True
                if o == "part":
                    here = P.bytes("j%d_" % i, n)
                    a |= len(inp) << 32
                    inp += d
                else:
                    here = d
                buf += here
                triples += [48 if o == "part" else 49, a, n]
                if ok:
                    ks = blocks(-(-n // bs))
                    exp += [c.xor(8, x, y) for x, y in zip(d, ks)]
                    outs.append((1, None))
                else:
                    exp += here
                    if o == "part!":
                        panics = True
                        break
                    outs.append((2, None))
                break
        K = P.buf(key, name="key")
        args = [K, kl]
        if ci.il:
            args += [P.buf(iv, name="iv"), ci.il]
        B = P.buf(buf or [0], skew=skew, name="data")
        I = P.buf(inp or [0], name="input")
        O = P.u64s([0x55] * (2 * len(ops)), "outs")
        args += [P.u64s(triples), len(triples) // 3, O, B, I]
        r = P.call(fn, args)
        if panics:
            if r.kind != "panic":
                P.fail("keystream exhausted: the call must panic, it returned")
            return
        P.expect_ok(r)
        P.check("constructor", r.ret, 1, 64)
        for i, (x, y) in enumerate(outs):
            P.check("result of operation %d (%s)" % (i, ops[i][0]), P.u64at(O, 2 * i), x, 64)
            if y is not None:
                P.check("value of operation %d (%s)" % (i, ops[i][0]), P.u64at(O, 2 * i + 1), y, 64)
        P.check_bytes("output", B.vals[:len(exp)], exp)
        P.check_bytes("input left unchanged", I.vals[:len(inp)], inp)
    return f


# ------------------------------------------------------------------ RNG
class RngModel:
    def __init__(self, P, rounds, seed):
        self.P, self.c, self.rounds = P, P.c, rounds
        self.seed = seed                    # 32 bytes
        self.stream = 0                     # 64 bits
        self.blk, self.off = 0, 0           # word position = blk * 16 + off
        self.cache = {}

    def copy(self):
        x = RngModel(self.P, self.rounds, self.seed)
        x.stream, x.blk, x.off, x.cache = self.stream, self.blk, self.off, self.cache
        return x

    @staticmethod
    def ident(t):
        return t if type(t) is int else ("t", t.id)

    def word(self):
        c = self.c
        k = (self.ident(self.blk), self.ident(self.stream), tuple(map(self.ident, self.seed)))
        b = self.cache.get(k)
        if b is None:
            kw = refs.le_words(c, self.seed)
            tail = [c.extract(self.blk, 64, 0, 32), c.extract(self.blk, 64, 32, 32),
                    c.extract(self.stream, 64, 0, 32), c.extract(self.stream, 64, 32, 32)]
            b = self.cache[k] = (refs.chacha_block(c, kw, tail, self.rounds), self.blk, self.stream, self.seed)
        v = b[0][self.off]
        self.off += 1
        if self.off == 16:
            self.off = 0
            self.blk = c.add(64, self.blk, 1)
        return v

    def pos(self):
        """68-bit word position, zero-extended to 128"""
        return self.c.concat_v([(4, self.off), (64, self.blk), (60, 0)])

    def bytes(self, n):
        c = self.c
        out = []
        while len(out) < n:
            out += refs.word_bytes(c, self.word())
        return out[:n]


def rng_program(rounds, ops, fn=None, skew=0):
    """ops, optionally prefixed by the instance ('y', op...):
       ('u32',) ('u64',) ('fill', n) ('tu32',) ('tu64',) ('tfill', n)
       ('words', n) ('dwords', n)
       ('wpos',) ('setw', off) symbolic 128-bit word position with low 4 bits = off
       ('setwto', v) ('bpos',) ('setb',) ('setbto', v) ('stream',) ('sets',) ('setsto', v)
       ('seed',) ('ser',) ('des', off) from symbolic bytes ('move',) into the other
       through serialization ('eq',) ('reseed',)
    """
    fn = fn or "r_%d" % rounds

    def f(P):
        c = P.c
        seeds = [P.bytes("s", 32), P.bytes("t", 32)]
        ms = [RngModel(P, rounds, seeds[0]), RngModel(P, rounds, seeds[1])]
        buf, inp, exp, outs, triples, names = [], [], [], [], [], []

        def halves(v, bits):
            return (c.extract(v, bits, 0, 64), c.extract(v, bits, 64, 64)) if bits == 128 else (v, 0)
        for i, op in enumerate(ops):
            me, flag = 0, 0
            if op[0] == "y":
                me, flag = 1, 256
                op = op[1:]
            m = ms[me]
            o = op[0]
            names.append(o)
            a = b = 0
            res = (1, None)
            gap(P, i, buf, exp)
            if o in ("u32", "tu32"):
                code = 0 if o == "u32" else 17
                res = (c.zext(32, 64, m.word()), 0 if o == "u32" else 1)
            elif o in ("u64", "tu64"):
                code = 1 if o == "u64" else 18
                lo = m.word()
                res = (c.concat_v([(32, lo), (32, m.word())]), 0 if o == "u64" else 1)
            elif o in ("fill", "tfill"):
                code = 2 if o == "fill" else 19
                a, b = len(buf), op[1]
                buf += P.bytes("j%d_" % i, b)
                exp += m.bytes(b)
            elif o in ("words", "dwords"):
                code = 15 if o == "words" else 16
                a, b = len(buf), op[1]
                n = b * (4 if o == "words" else 8)
                buf += [0] * n
                exp += m.bytes(n)
            elif o == "wpos":
                code = 3
                res = halves(m.pos(), 128)
            elif o == "setw":
                code = 4
                v = P.var("w%d" % i, 124)
                p = c.concat_v([(4, op[1]), (124, v)])
                a, b = halves(p, 128)
                m.blk, m.off = c.extract(v, 124, 0, 64), op[1]
            elif o == "setwto":
                code = 4
                a, b = op[1] & ((1 << 64) - 1), op[1] >> 64
                m.blk, m.off = (op[1] >> 4) & ((1 << 64) - 1), op[1] & 15
            elif o == "bpos":
                code = 5
                res = (m.blk, None)
            elif o in ("setb", "setbto"):
                code = 6
                a = P.var("b%d" % i, 64) if o == "setb" else op[1]
                m.blk, m.off = a, 0
            elif o == "stream":
                code = 7
                res = (m.stream, None)
            elif o in ("sets", "setsto"):
                code = 8
                a = P.var("st%d" % i, 64) if o == "sets" else op[1]
                m.stream, m.blk, m.off = a, 0, 0
            elif o == "seed":
                code = 9
                a = len(buf)
                buf += [0] * 32
                exp += m.seed
            elif o == "ser":
                code = 10
                a = len(buf)
                buf += [0] * 49
                sb = [c.extract(m.stream, 64, 8 * k, 8) for k in range(8)]
                pb = [c.extract(m.pos(), 128, 8 * k, 8) for k in range(9)]
                exp += list(m.seed) + sb + pb
            elif o == "des":
                code = 11
                a = len(inp)
                d = P.bytes("z%d_" % i, 48)
                hi = P.var("zh%d" % i, 4)
                off = op[1]
                # low nibble of the first position byte concrete: the offset
                ph = P.var("zp%d" % i, 4)
                raw = d[:40] + [c.concat_v([(4, off), (4, ph)])] + d[40:47] + [c.concat_v([(4, hi), (4, P.var(
                    "zj%d" % i, 4))])]
                inp += raw
                m.seed = raw[:32]
                m.stream = c.concat_v([(8, x) for x in raw[32:40]])
                pos = c.concat_v([(8, x) for x in raw[40:49]])
                m.blk, m.off = c.extract(pos, 72, 4, 64), off
            elif o == "move":
                code = 12
                ms[1 - me] = m.copy()
            elif o == "eq":
                code = 13
                x, y = ms[me], ms[1 - me]
                e = 1
                for p, q in zip(x.seed, y.seed):
                    e = c.band(1, e, c.eq(8, p, q))
                e = c.band(1, e, c.eq(64, x.stream, y.stream))
                e = c.band(1, e, c.eq(128, x.pos(), y.pos()))
                r = P.cond(e) if type(e) is not int else bool(e)
                res = (int(r), int(not r))
            elif o == "reseed":
                code = 14
                a = len(inp)
                d = P.bytes("n%d_" % i, 32)
                inp += d
                ms[me] = RngModel(P, rounds, d)
            else:
                raise KeyError(o)
            triples += [code | flag, a, b]
            outs.append(res)
        S = P.buf(seeds[0] + seeds[1], name="seeds")
        B = P.buf(buf or [0], skew=skew, name="data")
        I = P.buf(inp or [0], name="input")
        O = P.u64s([0x55] * (2 * len(ops)), "outs")
        r = P.call(fn, [S, P.u64s(triples), len(ops), O, B, I])
        P.expect_ok(r)
        for i, (x, y) in enumerate(outs):
            if x is not None:
                P.check("result of operation %d (%s)" % (i, names[i]), P.u64at(O, 2 * i), x, 64)
            if y is not None:
                P.check("second result of operation %d (%s)" % (i, names[i]), P.u64at(O, 2 * i + 1), y, 64)
        P.check_bytes("output", B.vals[:len(exp)], exp)
    return f


# ------------------------------------------------------- two instances
def two_program(ci, ops, fn, kl=None, kl2=None, same=False, ci2=None):
    """interleaved use of two objects; ops: (instance, mode, n), or
    (instance, 're', k): in place on what operation k left; same: the two
    objects get the same key and nonce; ci2: the second object's cipher"""
    kl = ci.kl if kl is None else kl
    kl2 = kl if kl2 is None else kl2

    def f(P):
        c = P.c
        keys = [P.bytes("k", kl), P.bytes("l", kl2)]
        ivs = [P.bytes("iv", ci.il), P.bytes("jv", ci.il)] if ci.il else [None, None]
        if same:
            keys[1], ivs[1] = keys[0], ivs[0]
        where = {}
        ms = [Model(P, x, keys[i], ivs[i]) for i, x in enumerate((ci, ci2 or ci))]
        buf, inp, exp, triples = [], [], [], []
        for i, (who, o, n) in enumerate(ops):
            gap(P, i, buf, exp)
            if o == "re":
                a, n = where[n]
                triples += [1 | who << 8, a, n]
                exp[a:a + n] = [c.xor(8, x, y) for x, y in zip(exp[a:a + n], ms[who].take(n))]
                continue
            code = MODES[o]
            a = len(buf)
            where[i] = (a, n)
            data = P.bytes("d%d_" % i, n)
            if code in (2, 3, 7, 8):
                a |= len(inp) << 32
                inp += data
                buf += P.bytes("j%d_" % i, n)
            else:
                buf += data
            triples += [code | who << 8, a, n]
            if not ms[who].fits(n):
                P.fail("spec: exhausted")
            ks = ms[who].take(n)
            exp += ks if code in (4, 5) else [c.xor(8, x, y) for x, y in zip(data, ks)]
        K = P.buf(keys[0] + keys[1], name="keys")
        args = [K, kl]
        if ci.il:
            args += [P.buf(ivs[0] + ivs[1], name="ivs"), ci.il]
        elif ci.kind == "rc4":
            args += [kl2]
        B = P.buf(buf, name="data")
        I = P.buf(inp or [0], name="input")
        O = P.u64s([0x55] * (2 * len(ops)), "outs")
        args += [P.u64s(triples), len(triples) // 3, O, B, I]
        r = P.call(fn, args)
        P.expect_ok(r)
        P.check("constructor", r.ret, 1, 64)
        for i in range(len(ops)):
            P.check("result of operation %d" % i, P.u64at(O, 2 * i), 1, 64)
        P.check_bytes("output", B.vals, exp)
    return f


# ------------------------------------------------------- HChaCha / HSalsa
def hfunc(kind, rounds):
    def f(P):
        c = P.c
        key, inp = P.bytes("k", 32), P.bytes("n", 16)
        K, I, O = P.buf(key, name="key"), P.buf(inp, name="input"), P.buf([0] * 32, name="out")
        P.expect_ok(P.call("h_%d" % rounds, [K, I, O], rw=0))
        h = refs.hchacha if kind == "chacha" else refs.hsalsa
        exp = refs.words_bytes(c, h(c, refs.le_words(c, key), refs.le_words(c, inp), rounds))
        P.check_bytes("subkey", O.vals, exp)
        P.check_bytes("key left unchanged", K.vals, key)
    return f


# ------------------------------------------------------- raw Salsa state
def raw_program(rounds, n):
    """SalsaCore built from 16 arbitrary words, n blocks"""
    def f(P):
        c = P.c
        st = P.words("st", 16)
        d = P.bytes("d", 64 * n)
        exp = []
        ctr = c.concat_v([(32, st[8]), (32, st[9])])
        first = ctr
        for i in range(n):
            s = list(st)
            s[8], s[9] = c.extract(ctr, 64, 0, 32), c.extract(ctr, 64, 32, 32)
            exp += refs.words_bytes(c, refs.salsa_core(c, s, rounds))
            ctr = c.add(64, ctr, 1)
        sb = []
        for x in st:
            bs = [c.extract(x, 32, 8 * k, 8) for k in range(4)]
            sb += bs[::-1] if P.bigendian else bs
        S = P.buf(sb, align=4, name="state")
        B = P.buf(d, name="data")
        O = P.u64s([0x55] * 8, "outs")
        ops = [40, 0, 0, 45, 0, n, 40, 0, 0]
        r = P.call("w_s%d" % rounds, [S, P.u64s(ops), 3, O, B, P.buf([0], name="input")])
        P.expect_ok(r)
        P.check("position read back", P.u64at(O, 1), first, 64)
        P.check("position afterwards", P.u64at(O, 5), ctr, 64)
        P.check_bytes("output", B.vals, [c.xor(8, x, y) for x, y in zip(d, exp)])
    return f


# ------------------------------------------------------- block generator
def generator(rounds, variant, calls):
    """the 4-block generator the RNGs are built on, from any counter"""
    def f(P):
        c = P.c
        seed = P.bytes("s", 32)
        w = 64 if variant == "l" else 32
        pos = P.var("pos", w)
        kw = refs.le_words(c, seed)
        exp = []
        t = pos
        for _ in range(4 * calls):
            tail = [c.extract(t, 64, 0, 32), c.extract(t, 64, 32, 32), 0, 0] if w == 64 else [t, 0, 0, 0]
            for x in refs.chacha_block(c, kw, tail, rounds):
                bs = [c.extract(x, 32, 8 * k, 8) for k in range(4)]
                exp += bs[::-1] if P.bigendian else bs
            t = c.add(w, t, 1)
        S = P.buf(seed, name="seed")
        B = P.buf([0] * (256 * calls), align=4, name="out")
        r = P.call("g_%s%d" % (variant, rounds), [S, c.zext(w, 64, pos), calls, B])
        P.expect_ok(r)
        P.check("position afterwards", r.ret, c.zext(w, 64, t), 64)
        P.check_bytes("words", B.vals, exp)
    return f


# ------------------------------------------------------- length validation
def lengths_each(fn, kls, buf, ok):
    """key-only constructor, every length of the list"""
    def f(P):
        key = P.bytes("k", buf)
        for kl in kls:
            O = P.u64s([0x55, 0x55], "outs")
            r = P.call(fn, [P.buf(key, name="key"), kl, P.u64s([0, 0, 0]), 0, O, P.buf([0], name="data"),
                            P.buf([0], name="input")])
            P.expect_ok(r)
            P.check("constructor outcome, %d bytes" % kl, r.ret, 1 if ok(kl) else 2, 64)
    return f


def lengths(fn, kmax, imax, kok, iok, kfix=None, ifix=None, pre=None):
    """constructor with symbolic key and nonce lengths (any length a slice can
    have): accepted exactly for the lengths kok / iok.  Only kmax and imax bytes
    are in memory, so looking at more than that is found too"""
    def f(P):
        c = P.c
        kl = P.var("kl", 64) if kfix is None else kfix
        il = P.var("il", 64) if ifix is None and iok is not None else ifix
        # a slice has at most 2^63 - 1 bytes
        if kfix is None and not P.cond(c.ult(64, kl, 1 << 63)):
            return
        if iok is not None and ifix is None and not P.cond(c.ult(64, il, 1 << 63)):
            return
        if pre and not P.cond(pre(c, kl)):
            return
        K = P.buf(P.bytes("k", kmax), name="key")
        args = [K, kl]
        good = P.cond(kok(c, kl))
        if iok is not None:
            I = P.buf(P.bytes("iv", imax), name="iv")
            args += [I, il]
            good = P.cond(iok(c, il)) and good
        O = P.u64s([0x55, 0x55], "outs")
        args += [P.u64s([0, 0, 0]), 0, O, P.buf([0], name="data"), P.buf([0], name="input")]
        r = P.call(fn, args)
        P.expect_ok(r)
        P.check("constructor outcome", r.ret, 1 if good else 2, 64)
    return f


# ------------------------------------------------------- drop / Debug
def drop_probe(fn, kl, il, ops, nbuf, size, witness=16):
    """no byte of the dropped object's memory depends on key, nonce, data or
    generator state any more; before the drop at least `witness` bytes did"""
    def f(P):
        c = P.c
        key = P.bytes("k", kl)
        iv = P.bytes("iv", il) if il else [0]
        triples = []
        for i, (code, a, b) in enumerate(ops):
            if a is None:
                a = P.var("p%d" % i, 32)
                a = c.zext(32, 64, a)
            triples += [code, a, b]
        B = P.buf(P.bytes("d", nbuf) if nbuf else [0], name="data")
        M = P.buf([0] * size, align=64, name="object")
        S = P.buf([0] * size, align=64, name="snapshot")
        O = P.u64s([0x55] * (2 * len(ops) + 2), "outs")
        r = P.call(fn, [P.buf(key, name="key"), P.buf(iv, name="iv"), P.u64s(triples), len(ops), O, B,
                        P.buf([0], name="input"), M, S])
        P.expect_ok(r)

        def secret(n):
            return True
        if type(r.ret) is not int or r.ret > size:
            P.fail("harness: object larger than the buffer")
        live = sum(1 for x in S.vals if P.mentions(x, secret))
        if live < witness:
            P.fail("vacuous: the object held no key material before the drop")
        P.independent("memory after drop", [x if x is not None else 0 for x in M.vals], secret)
    return f


def debug_probe(fn, kl, il, nbuf, alt, cap=400, start=None):
    """the Debug output is the same for all keys, nonces, data and states: the
    object is at a symbolic position (start = byte within the block; None: no
    position) and, for the generators, on a symbolic stream"""
    def f(P):
        c = P.c
        key = P.bytes("k", kl)
        iv = P.bytes("iv", il) if il else [0]
        B = P.buf(P.bytes("d", max(nbuf, 70)), name="data")
        W = P.buf([0] * cap, name="text")
        pos, pos2 = 0, nbuf
        if start == "block":
            pos = P.var("pos", 64)
        elif start == "rng":
            pos, pos2 = c.concat_v([(4, 5), (60, P.var("pos", 60))]), P.var("stream", 64)
        elif start is not None:
            pos = c.concat_v([(6, start), (58, P.var("pos", 58))])
        r = P.call(fn, [P.buf(key, name="key"), P.buf(iv, name="iv"), pos, pos2, B, P.buf([0], name="input"), alt, W,
                        cap])
        P.expect_ok(r)
        P.independent("length of the text", [r.ret], lambda n: True)
        P.independent("text", W.vals, lambda n: True)
        if type(r.ret) is int and not 0 < r.ret <= cap:
            P.fail("harness: text does not fit")
    return f


SECRET = re.compile(r"^(k|l|d|j|iv|jv|s|t|z|n)\d+(_\d+)?$")


def with_cpu(f):
    """the processor's features are symbolic"""
    def g(P):
        P.any_cpu()
        f(P)
    return g


def with_ct(f, secret=lambda n: SECRET.match(n) is not None):
    """constant time with respect to key, nonce, seed and data; positions,
    lengths and operation codes are public"""
    def g(P):
        P.constant_time(secret)
        f(P)
    return g
