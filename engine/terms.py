"""Hash-consed bit-vector term DAG with a canonicalising builder.

A *value* is a Python int (a concrete bit-vector; the width is known from
context) or a Term (a symbolic bit-vector).  All builders live on Ctx, which
owns one hash-consing table.  Every Term carries, lazily, its value under K
sample assignments (the "signature"), which the sweeping layer (sweep.py) uses
to find candidates for solver-proved merging.
"""
import hashlib
import random


class Term:
    __slots__ = ("op", "w", "aux", "args", "id", "sig", "_umax", "rep", "taint", "reg")

    def __init__(self, op, w, aux, args, id):
        self.op = op
        self.w = w
        self.aux = aux
        self.args = args
        self.id = id
        self.sig = None
        self._umax = None
        self.rep = None
        self.taint = None
        self.reg = False

    def __repr__(self):
        return "T%d:%s/%d" % (self.id, self.op, self.w)


class Arr:
    """Array value.  kind 'node' (aux = depth, args = two children, each an Arr
    or a leaf value), 'store' (args = (base, idx, val)), 'swap' (base, i, j)."""
    __slots__ = ("kind", "n", "ew", "args", "id", "lists", "taint")

    def __init__(self, kind, n, ew, args, id):
        self.kind = kind
        self.n = n          # number of elements (power of two)
        self.ew = ew        # element width in bits
        self.args = args
        self.id = id
        self.lists = {}
        self.taint = None


def to_signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Ctx:
    def __init__(self, seed=1, K=8, samples=None):
        self.tab = {}
        self.atab = {}
        self.nid = 0
        self.K = K
        self.rng = random.Random(seed)
        self.vars = {}            # name -> Term
        self.samples = samples or []   # list of dict name->value (prefix of the K samples)
        self.sweeper = None
        self.nodes_created = 0
        self.secret_vars = set()
        self.fixed = {}           # var name -> forced constant

    # ------------------------------------------------------------------ base
    def mk(self, op, w, aux, args):
        key = (op, w, aux) + args
        t = self.tab.get(key)
        if t is None:
            self.nid += 1
            t = Term(op, w, aux, args, self.nid)
            self.tab[key] = t
        return t

    def find(self, t):
        while type(t) is Term and t.rep is not None:
            t = t.rep
        return t

    def var(self, name, w):
        if name in self.fixed:
            return self.fixed[name]
        t = self.vars.get(name)
        if t is not None:
            assert t.w == w, name
            return t
        t = Term("var", w, name, (), self.nid + 1)
        self.nid += 1
        self.vars[name] = t
        vals = []
        nb = (w + 7) // 8 + 2
        d = hashlib.shake_128(("%s/%d" % (name, w)).encode()).digest(self.K * nb)
        for k in range(self.K):
            if k < len(self.samples) and name in self.samples[k]:
                vals.append(self.samples[k][name])
            else:
                if k >= len(self.samples) and k == self.K - 1:
                    vals.append((1 << w) - 1)
                elif k >= len(self.samples) and k == self.K - 2:
                    vals.append(0)
                else:
                    v = int.from_bytes(d[k * nb:(k + 1) * nb - 2], "little") & ((1 << w) - 1)
                    if k % 4 == 3 and w > 8:
                        bs = [x for x in (8, 16, 24, 32, 48, 64) if x <= w]
                        b = bs[d[(k + 1) * nb - 2] % len(bs)]
                        v = (v >> b << b) | ((1 << b) - 1 - d[(k + 1) * nb - 1] % 5)
                    vals.append(v)
        t.sig = tuple(vals)
        return t

    def fresh(self, name, w):
        i = 0
        while "%s#%d" % (name, i) in self.vars:
            i += 1
        return self.var("%s#%d" % (name, i), w)

    # ------------------------------------------------------------- pieces
    def pieces(self, v, w):
        """LSB-first list of (width, value)."""
        if type(v) is int:
            return [(w, v)]
        if v.op == "concat":
            return list(zip(v.aux, v.args))
        return [(w, v)]

    def concat_pieces(self, ps):
        """ps LSB-first list of (width, value) -> canonical value."""
        out = []
        for (w, v) in ps:
            if w == 0:
                continue
            if type(v) is not int and v.op == "concat":
                sub = zip(v.aux, v.args)
            else:
                sub = ((w, v),)
            for (w2, v2) in sub:
                if out:
                    (pw, pv) = out[-1]
                    if type(v2) is int:
                        if type(pv) is int:
                            out[-1] = (pw + w2, pv | (v2 << pw))
                            continue
                    elif type(pv) is not int:
                        # adjacent extracts of one base
                        b1, l1 = (pv.args[0], pv.aux) if pv.op == "extract" else (pv, 0)
                        b2, l2 = (v2.args[0], v2.aux) if v2.op == "extract" else (v2, 0)
                        if b1 is b2 and l1 + pw == l2:
                            out[-1] = (pw + w2, self.extract(b1, b1.w, l1, pw + w2))
                            continue
                out.append((w2, v2))
        if len(out) == 1:
            return out[0][1]
        # merging extracts may have produced a concat piece: re-flatten once
        for (w, v) in out:
            if type(v) is not int and v.op == "concat":
                return self.concat_pieces(out)
        tw = sum(p[0] for p in out)
        return self.mk("concat", tw, tuple(p[0] for p in out), tuple(p[1] for p in out))

    def slice_pieces(self, ps, lo, w):
        out = []
        pos = 0
        hi = lo + w
        for (pw, pv) in ps:
            a = max(lo, pos)
            b = min(hi, pos + pw)
            if a < b:
                out.append((b - a, self.extract(pv, pw, a - pos, b - a)))
            pos += pw
            if pos >= hi:
                break
        return out

    def extract(self, v, vw, lo, w):
        if w == vw:
            return v
        if type(v) is int:
            return (v >> lo) & ((1 << w) - 1)
        op = v.op
        if op == "add" and w > 1:
            n = self.umax(v).bit_length() - lo
            if n < w:
                # known zero high bits
                if n <= 0:
                    return 0
                return self.concat_pieces([(n, self.extract(v, vw, lo, n)), (w - n, 0)])
        if op == "concat":
            return self.concat_pieces(self.slice_pieces(zip(v.aux, v.args), lo, w))
        if op == "extract":
            return self.extract(v.args[0], v.args[0].w, v.aux + lo, w)
        if op == "xor" or op == "and" or op == "or":
            a, b = v.args
            if self.peek(a, lo, w) or self.peek(b, lo, w):
                ea = self.extract(a, v.w, lo, w)
                eb = self.extract(b, v.w, lo, w)
                if op == "xor":
                    return self.xor(w, ea, eb)
                return self.band(w, ea, eb) if op == "and" else self.bor(w, ea, eb)
        elif op == "not":
            if self.peek(v.args[0], lo, w):
                return self.bnot(w, self.extract(v.args[0], v.w, lo, w))
        elif op == "xorc" or op == "andc" or op == "orc":
            c = (v.aux >> lo) & ((1 << w) - 1)
            if c == 0 or c == (1 << w) - 1 or self.peek(v.args[0], lo, w):
                e = self.extract(v.args[0], v.w, lo, w)
                if op == "xorc":
                    return self.xor(w, e, c)
                return self.band(w, e, c) if op == "andc" else self.bor(w, e, c)
        elif lo == 0 and (op == "add" or op == "mul" or op == "neg"):
            if all(self.peek(a, lo, w) for a in v.args):
                es = [self.extract(a, v.w, 0, w) for a in v.args]
                c = v.aux & ((1 << w) - 1) if v.aux else 0
                if op == "add":
                    r = c
                    for e in es:
                        r = self.add(w, r, e)
                    return r
                if op == "mul":
                    return self.mul(w, es[0], es[1])
                return self.neg(w, es[0])
        elif op == "ite":
            c, a, b = v.args
            if self.peek(a, lo, w) and self.peek(b, lo, w):
                return self.ite(w, c, self.extract(a, v.w, lo, w), self.extract(b, v.w, lo, w))
        elif op == "sext":
            x = v.args[0]
            if lo + w <= x.w:
                return self.extract(x, x.w, lo, w)
        return self.mk("extract", w, lo, (v,))

    def peek(self, v, lo, w):
        """is v[lo:lo+w] made of constants and parts of variables only?"""
        if type(v) is int:
            return True
        op = v.op
        if op == "var":
            return True
        if op == "extract":
            return v.args[0].op == "var"
        if op == "concat":
            pos = 0
            hi = lo + w
            for pw, pv in zip(v.aux, v.args):
                if pos >= hi:
                    break
                if pos + pw > lo and type(pv) is not int and pv.op != "var" and not (
                        pv.op == "extract" and pv.args[0].op == "var"):
                    return False
                pos += pw
            return True
        return False

    # ------------------------------------------------------------- helpers
    def umax(self, v, w=None):
        if type(v) is int:
            return v
        m = v._umax
        if m is not None:
            return m
        op = v.op
        full = (1 << v.w) - 1
        m = full
        if op == "concat":
            m = 0
            pos = 0
            for pw, pv in zip(v.aux, v.args):
                m |= self.umax(pv, pw) << pos
                pos += pw
        elif op == "add":
            s = v.aux
            for a in v.args:
                s += self.umax(a)
            if s <= full:
                m = s
        elif op == "and":
            m = min(self.umax(a) for a in v.args)
        elif op in ("or", "xor"):
            mm = v.aux or 0
            for a in v.args:
                mm |= (1 << self.umax(a).bit_length()) - 1
            m = min(full, mm | ((1 << mm.bit_length()) - 1))
        elif op == "ite":
            m = max(self.umax(v.args[1]), self.umax(v.args[2]))
        elif op == "mul":
            p = self.umax(v.args[0]) * self.umax(v.args[1])
            if p <= full:
                m = p
        elif op == "ctpop":
            m = min(v.w, full)
        elif op == "udiv":
            m = self.umax(v.args[0])
        elif op == "urem":
            m = self.umax(v.args[0])
            if type(v.args[1]) is int and v.args[1]:
                m = min(m, v.args[1] - 1)
        v._umax = m
        return m

    def umin(self, v):
        if type(v) is int:
            return v
        if v.op == "concat":
            m = 0
            pos = 0
            for pw, pv in zip(v.aux, v.args):
                m |= self.umin(pv) << pos
                pos += pw
            return m
        if v.op == "add":
            s = v.aux
            smax = v.aux
            for a in v.args:
                s += self.umin(a)
                smax += self.umax(a)
            if smax < (1 << v.w):
                return s
        return 0

    def _lanes(self, w, op, pa, pb):
        cuts = []
        for ps in (pa, pb):
            pos = 0
            cs = set()
            for (pw, v) in ps:
                if type(v) is int:
                    # a constant can be cut anywhere
                    cs.update(range(pos + 32 - pos % 32, pos + pw, 32))
                pos += pw
                if pos % 32 == 0:
                    cs.add(pos)
            cuts.append(cs)
        cs = sorted(cuts[0] & cuts[1])
        if len(cs) < 2:
            return None
        out = []
        pos = 0
        f = {"xor": self.xor, "and": self.band, "or": self.bor}[op]
        A, B = [(pw, v) for pw, v in pa], [(pw, v) for pw, v in pb]
        for e in cs:
            lw = e - pos
            x, y = self._take(A, lw), self._take(B, lw)
            out.append((lw, f(lw, x, y)))
            pos = e
        return self.concat_pieces(out)

    def _take(self, ps, lw):
        """removes lw low bits from the piece list"""
        acc = []
        got = 0
        while got < lw:
            pw, v = ps[0]
            if got + pw <= lw:
                acc.append(ps.pop(0))
                got += pw
            else:
                k = lw - got
                acc.append((k, self.extract(v, pw, 0, k)))
                ps[0] = (pw - k, self.extract(v, pw, k, pw - k))
                got = lw
        return self.concat_pieces(acc)

    def _seg(self, w, op, a, b):
        """segment-wise evaluation if some aligned segment has a constant.
        For 'add' every segment must contain a 0.  Returns None if not applicable."""
        pa = self.pieces(a, w)
        pb = self.pieces(b, w)
        if len(pa) == 1 and len(pb) == 1:
            return None
        bounds = set()
        for ps in (pa, pb):
            pos = 0
            for (pw, _) in ps:
                pos += pw
                bounds.add(pos)
        if op != "add" and w > 32:
            # lane-wise split at common word boundaries
            r = self._lanes(w, op, pa, pb)
            if r is not None:
                return r
        bounds = sorted(bounds)
        if len(bounds) > 24:
            return None
        # classify
        ia = ib = 0
        oa = ob = 0
        segs = []
        pos = 0
        someconst = False
        for e in bounds:
            sw = e - pos
            (wa, va), (wb, vb) = pa[ia], pb[ib]
            ca = type(va) is int
            cb = type(vb) is int
            if op == "add":
                za = ca and ((va >> oa) & ((1 << sw) - 1)) == 0
                zb = cb and ((vb >> ob) & ((1 << sw) - 1)) == 0
                if not (za or zb):
                    return None
                someconst = True
            elif ca or cb:
                someconst = True
            segs.append((sw, va, wa, oa, vb, wb, ob))
            oa += sw
            ob += sw
            if oa == wa:
                ia += 1
                oa = 0
            if ob == wb:
                ib += 1
                ob = 0
            pos = e
        if not someconst:
            return None
        out = []
        for (sw, va, wa, o1, vb, wb, o2) in segs:
            x = self.extract(va, wa, o1, sw)
            y = self.extract(vb, wb, o2, sw)
            if op == "add":
                out.append((sw, y if (type(x) is int and x == 0) else x))
            elif op == "or":
                out.append((sw, self.bor(sw, x, y)))
            elif op == "xor":
                out.append((sw, self.xor(sw, x, y)))
            else:
                out.append((sw, self.band(sw, x, y)))
        return self.concat_pieces(out)

    # ------------------------------------------------------------- arithmetic
    def _add(self, w, c, args):
        if c == 0 and len(args) == 1:
            return args[0]
        if len(args) == 1 and args[0].op == "concat":
            # constant added above the non-constant low part
            a = args[0]
            ps = list(zip(a.aux, a.args))
            (hw, hv) = ps[-1]
            low = w - hw
            if type(hv) is int and c & ((1 << low) - 1) == 0:
                ps[-1] = (hw, (hv + (c >> low)) & ((1 << hw) - 1))
                return self.concat_pieces(ps)
        return self.mk("add", w, c, args)

    def add(self, w, a, b):
        if type(a) is int:
            if type(b) is int:
                return (a + b) & ((1 << w) - 1)
            a, b = b, a
        m = (1 << w) - 1
        if type(b) is int:
            if b == 0:
                return a
            if w == 1:
                return self.xor(1, a, b)
            if a.op == "add" and a.aux:
                return self._add(w, (a.aux + b) & m, a.args)
            if a.op == "concat":
                r = self._seg(w, "add", a, b)
                if r is not None:
                    return r
            return self._add(w, b, (a,))
        if w == 1:
            return self.xor(1, a, b)
        c = 0
        if a.op == "add" and a.aux:
            c += a.aux
            a = self._add(w, 0, a.args)
        if b.op == "add" and b.aux:
            c += b.aux
            b = self._add(w, 0, b.args)
        c &= m
        if type(a) is int or type(b) is int:
            return self.add(w, self.add(w, a, b), c)
        if a.op == "neg" and a.args[0] is b or b.op == "neg" and b.args[0] is a:
            return c
        if b.op == "neg" and a.op == "add" and not a.aux and len(a.args) == 2:
            n = b.args[0]
            if a.args[0] is n:
                return self.add(w, a.args[1], c)
            if a.args[1] is n:
                return self.add(w, a.args[0], c)
        if a.op == "neg" and b.op == "add" and not b.aux and len(b.args) == 2:
            n = a.args[0]
            if b.args[0] is n:
                return self.add(w, b.args[1], c)
            if b.args[1] is n:
                return self.add(w, b.args[0], c)
        if a.op == "concat" or b.op == "concat":
            r = self._seg(w, "add", a, b)
            if r is not None:
                return self.add(w, r, c) if c else r
        if a.id > b.id:
            a, b = b, a
        return self.mk("add", w, c, (a, b))

    def neg(self, w, a):
        if type(a) is int:
            return (-a) & ((1 << w) - 1)
        if a.op == "neg":
            return a.args[0]
        if a.op == "add" and len(a.args) == 1:
            return self.add(w, self.neg(w, a.args[0]), -a.aux & ((1 << w) - 1))
        return self.mk("neg", w, 0, (a,))

    def sub(self, w, a, b):
        if type(b) is int:
            return self.add(w, a, (-b) & ((1 << w) - 1))
        if a is b:
            return 0
        return self.add(w, a, self.neg(w, b))

    def mul(self, w, a, b):
        if type(a) is int:
            if type(b) is int:
                return (a * b) & ((1 << w) - 1)
            a, b = b, a
        if type(b) is int:
            if b == 0:
                return 0
            if b == 1:
                return a
            if b == (1 << w) - 1:
                return self.neg(w, a)
            if b & (b - 1) == 0:
                return self.shl(w, a, b.bit_length() - 1)
            return self.mk("mul", w, 0, (a, b))
        if a.id > b.id:
            a, b = b, a
        return self.mk("mul", w, 0, (a, b))

    def udiv(self, w, a, b):
        if type(b) is int:
            if b and b & (b - 1) == 0:
                return self.lshr(w, a, b.bit_length() - 1)
            if type(a) is int and b:
                return a // b
        return self.mk("udiv", w, 0, (a, b))

    def ctpop(self, w, a):
        if type(a) is int:
            return bin(a).count("1")
        return self.mk("ctpop", w, 0, (a,))

    def urem(self, w, a, b):
        if type(b) is int:
            if b and b & (b - 1) == 0:
                k = b.bit_length() - 1
                return self.zext(k, w, self.extract(a, w, 0, k)) if k else 0
            if type(a) is int and b:
                return a % b
        return self.mk("urem", w, 0, (a, b))

    def sdiv(self, w, a, b):
        if type(a) is int and type(b) is int and b:
            x, y = to_signed(a, w), to_signed(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q & ((1 << w) - 1)
        return self.mk("sdiv", w, 0, (a, b))

    def srem(self, w, a, b):
        if type(a) is int and type(b) is int and b:
            x, y = to_signed(a, w), to_signed(b, w)
            r = abs(x) % abs(y)
            if x < 0:
                r = -r
            return r & ((1 << w) - 1)
        return self.mk("srem", w, 0, (a, b))

    # ------------------------------------------------------------- bitwise
    def bnot(self, w, a):
        return self.xor(w, a, (1 << w) - 1)

    def xor(self, w, a, b):
        if type(a) is int:
            if type(b) is int:
                return a ^ b
            a, b = b, a
        if type(b) is int:
            if b == 0:
                return a
            if a.op == "xor" and a.aux:
                c = a.aux ^ b
                return self._xor(w, c, a.args)
            if a.op == "not" and b == (1 << w) - 1:
                return a.args[0]
            if a.op == "concat":
                r = self._seg(w, "xor", a, b)
                if r is not None:
                    return r
            if b == (1 << w) - 1:
                return self.mk("not", w, 0, (a,))
            return self.mk("xorc", w, b, (a,)) if a.op != "xorc" else self._xorc(w, a.args[0], a.aux ^ b)
        if a is b:
            return 0
        c = 0
        m = (1 << w) - 1
        if a.op == "not":
            c ^= m
            a = a.args[0]
        elif a.op == "xorc":
            c ^= a.aux
            a = a.args[0]
        if b.op == "not":
            c ^= m
            b = b.args[0]
        elif b.op == "xorc":
            c ^= b.aux
            b = b.args[0]
        if a is b:
            return c
        if a.op == "xor":
            if a.args[0] is b:
                return self.xor(w, a.args[1], c)
            if a.args[1] is b:
                return self.xor(w, a.args[0], c)
        if b.op == "xor":
            if b.args[0] is a:
                return self.xor(w, b.args[1], c)
            if b.args[1] is a:
                return self.xor(w, b.args[0], c)
        if a.op == "concat" or b.op == "concat":
            r = self._seg(w, "xor", a, b)
            if r is not None:
                return self.xor(w, r, c) if c else r
        if a.id > b.id:
            a, b = b, a
        r = self.mk("xor", w, 0, (a, b))
        return self.xor(w, r, c) if c else r

    def _xorc(self, w, a, c):
        return self.xor(w, a, c)

    def _xor(self, w, c, args):
        r = self.mk("xor", w, 0, args)
        return self.xor(w, r, c) if c else r

    def band(self, w, a, b):
        if type(a) is int:
            if type(b) is int:
                return a & b
            a, b = b, a
        m = (1 << w) - 1
        if type(b) is int:
            if b == 0:
                return 0
            if b == m:
                return a
            # constant mask -> pieces
            runs = []
            x = b
            pos = 0
            while pos < w:
                bit = (x >> pos) & 1
                e = pos
                while e < w and ((x >> e) & 1) == bit:
                    e += 1
                runs.append((pos, e - pos, bit))
                pos = e
            if len(runs) <= 16:
                return self.concat_pieces([(n, self.extract(a, w, p, n) if bit else 0)
                                           for (p, n, bit) in runs])
            return self.mk("andc", w, b, (a,))
        if a is b:
            return a
        if a.op == "not" and a.args[0] is b or b.op == "not" and b.args[0] is a:
            return 0
        if a.op == "concat" or b.op == "concat":
            r = self._seg(w, "and", a, b)
            if r is not None:
                return r
        if a.id > b.id:
            a, b = b, a
        return self.mk("and", w, 0, (a, b))

    def bor(self, w, a, b):
        if type(a) is int:
            if type(b) is int:
                return a | b
            a, b = b, a
        m = (1 << w) - 1
        if type(b) is int:
            if b == 0:
                return a
            if b == m:
                return m
            runs = []
            pos = 0
            while pos < w:
                bit = (b >> pos) & 1
                e = pos
                while e < w and ((b >> e) & 1) == bit:
                    e += 1
                runs.append((pos, e - pos, bit))
                pos = e
            if len(runs) <= 16:
                return self.concat_pieces([(n, ((1 << n) - 1) if bit else self.extract(a, w, p, n))
                                           for (p, n, bit) in runs])
            return self.mk("orc", w, b, (a,))
        if a is b:
            return a
        if a.op == "not" and a.args[0] is b or b.op == "not" and b.args[0] is a:
            return m
        if a.op == "concat" or b.op == "concat":
            r = self._seg(w, "or", a, b)
            if r is not None:
                return r
        if a.id > b.id:
            a, b = b, a
        return self.mk("or", w, 0, (a, b))

    # ------------------------------------------------------------- shifts
    def shl(self, w, a, n):
        if type(n) is int:
            if n >= w:
                return 0
            if n == 0:
                return a
            return self.concat_pieces([(n, 0), (w - n, self.extract(a, w, 0, w - n))])
        return self.mk("shl", w, 0, (a, n))

    def lshr(self, w, a, n):
        if type(n) is int:
            if n >= w:
                return 0
            if n == 0:
                return a
            return self.concat_pieces([(w - n, self.extract(a, w, n, w - n)), (n, 0)])
        return self.mk("lshr", w, 0, (a, n))

    def ashr(self, w, a, n):
        if type(n) is int:
            n = min(n, w - 1)
            if n == 0:
                return a
            return self.sext(w - n, w, self.extract(a, w, n, w - n))
        return self.mk("ashr", w, 0, (a, n))

    def fshl(self, w, a, b, n):
        if type(n) is int:
            n %= w
            if n == 0:
                return a
            return self.concat_pieces([(n, self.extract(b, w, w - n, n)),
                                       (w - n, self.extract(a, w, 0, w - n))])
        # (a<<n') | (b >> (w-n')) through a double-width shift
        n = self.urem(w, n, w)
        dw = self.concat_pieces([(w, b), (w, a)])
        s = self.shl(2 * w, dw, self.zext(w, 2 * w, n))
        return self.extract(s, 2 * w, w, w)

    def fshr(self, w, a, b, n):
        if type(n) is int:
            n %= w
            if n == 0:
                return b
            return self.fshl(w, a, b, w - n)
        n = self.urem(w, n, w)
        dw = self.concat_pieces([(w, b), (w, a)])
        s = self.lshr(2 * w, dw, self.zext(w, 2 * w, n))
        return self.extract(s, 2 * w, 0, w)

    def rotl(self, w, a, n):
        return self.fshl(w, a, a, n)

    def zext(self, fw, tw, a):
        if type(a) is int or fw == tw:
            return a
        return self.concat_pieces([(fw, a), (tw - fw, 0)])

    def sext(self, fw, tw, a):
        if fw == tw:
            return a
        if type(a) is int:
            return to_signed(a, fw) & ((1 << tw) - 1)
        ps = self.pieces(a, fw)
        (hw, hv) = ps[-1]
        if type(hv) is int:
            return self.concat_pieces(ps + [(tw - fw, ((1 << (tw - fw)) - 1) if hv >> (hw - 1) else 0)])
        return self.mk("sext", tw, 0, (a,))

    # ------------------------------------------------------------- predicates
    def eq(self, w, a, b):
        if type(a) is int:
            if type(b) is int:
                return int(a == b)
            a, b = b, a
        if a is b:
            return 1
        if w == 1:
            return self.bnot(1, self.xor(1, a, b))
        if type(b) is int:
            if b > self.umax(a) or b < self.umin(a):
                return 0
            op = a.op
            m = (1 << w) - 1
            if op == "concat":
                pos = 0
                rest = []
                for pw, pv in zip(a.aux, a.args):
                    c = (b >> pos) & ((1 << pw) - 1)
                    if type(pv) is int:
                        if pv != c:
                            return 0
                    else:
                        rest.append((pw, pv, c))
                    pos += pw
                if len(rest) < len(a.args):
                    x = self.concat_pieces([(pw, pv) for (pw, pv, c) in rest])
                    c = 0
                    pos = 0
                    for (pw, pv, cc) in rest:
                        c |= cc << pos
                        pos += pw
                    return self.eq(pos, x, c)
            elif op == "add" and a.aux:
                return self.eq(w, self._add(w, 0, a.args), (b - a.aux) & m)
            elif op == "xorc":
                return self.eq(w, a.args[0], b ^ a.aux)
            elif op == "not":
                return self.eq(w, a.args[0], b ^ m)
            elif op == "ite":
                c, x, y = a.args
                if type(x) is int and type(y) is int:
                    if x == b and y == b:
                        return 1
                    if x == b:
                        return c
                    if y == b:
                        return self.bnot(1, c)
                    return 0
            return self.mk("eq", 1, w, (a, b))
        if a.op == "add" and b.op == "add" and a.aux and b.aux:
            return self.eq(w, self.add(w, a, -b.aux & ((1 << w) - 1)), self.add(w, b, -b.aux & ((1 << w) - 1)))
        if a.op == "concat" and b.op == "concat" and a.aux == b.aux:
            for x, y in zip(a.args, b.args):
                if type(x) is int and type(y) is int and x != y:
                    return 0
        if a.id > b.id:
            a, b = b, a
        return self.mk("eq", 1, w, (a, b))

    def ult(self, w, a, b):
        if type(a) is int and type(b) is int:
            return int(a < b)
        if a is b:
            return 0
        if self.umax(a) < self.umin(b):
            return 1
        if self.umin(a) >= self.umax(b):
            return 0
        if type(b) is int and b == 1:
            return self.eq(w, a, 0)
        if type(a) is int and a == 0:
            return self.bnot(1, self.eq(w, b, 0))
        # drop common constant-zero high part
        if type(a) is not int and a.op == "concat" and type(a.args[-1]) is int and a.args[-1] == 0 \
                and type(b) is int and b < (1 << (w - a.aux[-1])):
            nw = w - a.aux[-1]
            return self.ult(nw, self.extract(a, w, 0, nw), b)
        if type(b) is not int and b.op == "concat" and type(b.args[-1]) is int and b.args[-1] == 0 \
                and type(a) is int and a < (1 << (w - b.aux[-1])):
            nw = w - b.aux[-1]
            return self.ult(nw, a, self.extract(b, w, 0, nw))
        return self.mk("ult", 1, w, (a, b))

    def ule(self, w, a, b):
        if type(b) is int:
            if b == (1 << w) - 1:
                return 1
            return self.ult(w, a, b + 1)
        if type(a) is int and a:
            return self.ult(w, a - 1, b)
        return self.bnot(1, self.ult(w, b, a))

    def slt(self, w, a, b):
        if type(a) is int and type(b) is int:
            return int(to_signed(a, w) < to_signed(b, w))
        if a is b:
            return 0
        h = 1 << (w - 1)
        if self.umax(a) < h and self.umax(b) < h:
            return self.ult(w, a, b)
        if type(b) is int and b == 0:
            return self.extract(a, w, w - 1, 1)
        if type(a) is int and a == (1 << w) - 1:
            return self.bnot(1, self.extract(b, w, w - 1, 1))
        return self.mk("slt", 1, w, (a, b))

    def sle(self, w, a, b):
        return self.bnot(1, self.slt(w, b, a))

    def ite(self, w, c, a, b):
        if type(c) is int:
            return a if c else b
        if type(a) is int and type(b) is int:
            if a == b:
                return a
            if w == 1:
                return c if a else self.bnot(1, c)
        elif a is b:
            return a
        if c.op == "not":
            c = c.args[0]
            a, b = b, a
        if w == 1:
            if type(a) is int:
                return self.bor(1, c, b) if a else self.band(1, self.bnot(1, c), b)
            if type(b) is int:
                return self.bor(1, self.bnot(1, c), a) if b else self.band(1, c, a)
        # piecewise if both are concats sharing pieces
        return self.mk("ite", w, 0, (c, a, b))

    # ------------------------------------------------------------- arrays
    def amk(self, kind, n, ew, args):
        key = (kind, n, ew) + args
        a = self.atab.get(key)
        if a is None:
            self.nid += 1
            a = Arr(kind, n, ew, args, self.nid)
            self.atab[key] = a
        return a

    def arr_build(self, vals, ew):
        n = 1
        while n < len(vals):
            n *= 2
        vals = list(vals) + [0] * (n - len(vals))
        if n == 1:
            vals = vals * 2
            n = 2
        size = 2
        level = [self.amk("node", 2, ew, (vals[i], vals[i + 1])) for i in range(0, n, 2)]
        while len(level) > 1:
            size *= 2
            level = [self.amk("node", size, ew, (level[i], level[i + 1])) for i in range(0, len(level), 2)]
        return level[0]

    def arr_set(self, a, i, v):
        """functional update of a 'node' tree at a concrete index"""
        if a.n == 2:
            l, r = a.args
            return self.amk("node", 2, a.ew, (l, v) if i else (v, r))
        h = a.n // 2
        l, r = a.args
        if i < h:
            return self.amk("node", a.n, a.ew, (self.arr_set(l, i, v), r))
        return self.amk("node", a.n, a.ew, (l, self.arr_set(r, i - h, v)))

    def arr_get(self, a, i):
        while True:
            h = a.n // 2
            s = a.args[1 if i >= h else 0]
            if a.n == 2:
                return s
            if i >= h:
                i -= h
            a = s

    def nidx(self, a, idx):
        """canonical index: width log2(n)"""
        if type(idx) is int:
            return idx
        idx = self.find(idx)
        if type(idx) is int:
            return idx
        nb = a.n.bit_length() - 1
        if idx.w > nb:
            return self.extract(idx, idx.w, 0, nb)
        if idx.w < nb:
            return self.zext(idx.w, nb, idx)
        return idx

    def concat_v(self, ps):
        return self.concat_pieces(ps)

    def store(self, a, iw, idx, v):
        """idx: index value (bounded by a.n); v: element"""
        idx = self.nidx(a, idx)
        if a.kind == "node" and type(idx) is int and not (type(v) is Term and v.op == "select" and v.aux is a):
            return self.arr_set(a, idx, v)
        if a.kind == "store":
            base, j, x = a.args
            if j is idx or (type(j) is int and type(idx) is int and j == idx):
                return self.store(base, iw, idx, v)
            # swap recognition: store(store(B,j,B[i]),i,B[j])
            bi = self.select(base, iw, idx)
            bj = self.select(base, iw, j)
            if self._same(x, bi) and self._same(v, bj):
                p, q = idx, j
                if self._key(p) > self._key(q):
                    p, q = q, p
                return self.amk("swap", a.n, a.ew, (base, p, q))
        # storing the element that is already there
        if self._same(v, self.select(a, iw, idx)):
            return a
        return self.amk("store", a.n, a.ew, (a, idx, v))

    @staticmethod
    def _same(x, y):
        return x is y or (type(x) is int and type(y) is int and x == y)

    @staticmethod
    def _key(x):
        return (0, x) if type(x) is int else (1, x.id)

    def select(self, a, iw, idx):
        """element at idx; idx must be < a.n"""
        idx = self.nidx(a, idx)
        while True:
            k = a.kind
            if k == "node":
                if type(idx) is int:
                    return self.arr_get(a, idx)
                if idx.op == "concat" and type(idx.args[-1]) is int:
                    # constant high bits: descend into the subtree
                    hw, hv = idx.aux[-1], idx.args[-1]
                    for b in range(hw - 1, -1, -1):
                        a = a.args[(hv >> b) & 1]
                        if type(a) is not Arr:
                            return a
                    idx = self.concat_pieces(list(zip(idx.aux, idx.args))[:-1])
                    continue
                break
            if k == "store":
                base, j, v = a.args
                if self._same(idx, j):
                    return v
                if type(idx) is int and type(j) is int:
                    a = base
                    continue
                break
            # swap
            base, i, j = a.args
            if self._same(idx, i):
                idx = j
                a = base
                continue
            if self._same(idx, j):
                idx = i
                a = base
                continue
            if type(idx) is int and type(i) is int:
                if type(j) is not int:
                    # away from i the swap is just the store at j (a compiler
                    # may read this element before it stores at i)
                    a = self.store(base, iw, j, self.select(base, iw, i))
                    if a.kind == "store":
                        break
                    continue
                a = base
                continue
            break
        return self.mk("select", a.ew, a, (idx,))

    # ------------------------------------------------------------- evaluation
    def arr_list(self, a, k, valof):
        """full contents under sample k (cached on the array)"""
        l = a.lists.get(k)
        if l is not None:
            return l
        chain = []
        x = a
        while x.kind != "node" and k not in x.lists:
            chain.append(x)
            x = x.args[0]
        if k in x.lists:
            l = x.lists[k]
        else:
            l = []
            def walk(t):
                for c in t.args:
                    if type(c) is Arr:
                        walk(c)
                    else:
                        l.append(valof(c, k))
            walk(x)
            x.lists[k] = l
        for y in reversed(chain):
            l = list(l)
            if y.kind == "store":
                i = valof(y.args[1], k)
                if i < len(l):
                    l[i] = valof(y.args[2], k)
            else:
                i, j = valof(y.args[1], k), valof(y.args[2], k)
                if i < len(l) and j < len(l):
                    l[i], l[j] = l[j], l[i]
            y.lists[k] = l
        return l

    def arr_elem(self, a, i, k, valof):
        if a.kind == "node":
            if i >= a.n:
                return 0
            return valof(self.arr_get(a, i), k)
        l = self.arr_list(a, k, valof)
        return l[i] if i < len(l) else 0

    def sig(self, t):
        """tuple of K values"""
        if type(t) is int:
            return (t,) * self.K
        if t.sig is None:
            # iterative post-order
            stack = [t]
            while stack:
                u = stack[-1]
                if u.sig is not None:
                    stack.pop()
                    continue
                pend = [a for a in self.deps(u) if type(a) is Term and a.sig is None]
                if pend:
                    stack.extend(pend)
                    continue
                u.sig = self.evalsig(u)
                stack.pop()
        return t.sig

    def deps(self, u):
        if u.op == "select":
            return tuple(u.args) + tuple(self.arr_deps(u.aux))
        return u.args

    def arr_deps(self, a):
        # for signature evaluation we evaluate array leaves lazily
        return ()

    def _val(self, v, k):
        if type(v) is int:
            return v
        return self.sig(v)[k]

    def evalsig(self, u):
        K = self.K
        if u.op == "select":
            idx = self.sig(u.args[0]) if type(u.args[0]) is not int else (u.args[0],) * K
            return tuple(self.arr_elem(u.aux, idx[k], k, self._val) for k in range(K))
        cols = [((a,) * K if type(a) is int else a.sig) for a in u.args]
        return evalop_vec(u, cols, K)

    def evaluate(self, t, model, cache=None):
        """concrete value of t under model (dict var name -> int, default 0)"""
        if type(t) is int:
            return t
        if cache is None:
            cache = {}
        acache = cache.setdefault("arr", {})

        def val(v):
            return v if type(v) is int else cache[v]

        def arrdeps(a, acc, seen):
            st = [a]
            while st:
                x = st.pop()
                if x.id in seen:
                    continue
                seen.add(x.id)
                for c in x.args:
                    if type(c) is Arr:
                        st.append(c)
                    elif type(c) is Term:
                        acc.append(c)

        def alist(a):
            chain = []
            x = a
            while x.kind != "node" and x.id not in acache:
                chain.append(x)
                x = x.args[0]
            if x.id in acache:
                l = acache[x.id]
            else:
                l = []
                def walk(t):
                    for c in t.args:
                        if type(c) is Arr:
                            walk(c)
                        else:
                            l.append(val(c))
                walk(x)
                acache[x.id] = l
            for y in reversed(chain):
                l = list(l)
                if y.kind == "store":
                    l[val(y.args[1])] = val(y.args[2])
                else:
                    i, j = val(y.args[1]), val(y.args[2])
                    l[i], l[j] = l[j], l[i]
                acache[y.id] = l
            return l

        seen_arr = cache.setdefault("seenarr", set())
        stack = [t]
        while stack:
            u = stack[-1]
            if u in cache:
                stack.pop()
                continue
            if u.op == "var":
                cache[u] = model.get(u.aux, 0)
                stack.pop()
                continue
            pend = [a for a in u.args if type(a) is Term and a not in cache]
            if u.op == "select":
                acc = []
                arrdeps(u.aux, acc, set())
                pend += [a for a in acc if a not in cache]
            if pend:
                stack.extend(pend)
                continue
            if u.op == "select":
                i = val(u.args[0])
                l = alist(u.aux)
                cache[u] = l[i] if i < len(l) else 0
            else:
                cache[u] = evalop_vec(u, [(val(a),) for a in u.args], 1)[0]
            stack.pop()
        return cache[t]

    # ------------------------------------------------------------- dependence
    def depends_on(self, t, names):
        """does t syntactically depend on one of the variables whose name satisfies names()?"""
        if type(t) is int:
            return False
        memo = self._depmemo = getattr(self, "_depmemo", {})
        stack = [t]
        while stack:
            u = stack[-1]
            key = u.id
            if key in memo:
                stack.pop()
                continue
            if type(u) is Term and u.op == "var":
                memo[key] = bool(names(u.aux))
                stack.pop()
                continue
            ds = [a for a in u.args if type(a) is not int]
            if type(u) is Term and u.op == "select":
                ds.append(u.aux)
            pend = [d for d in ds if d.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            memo[key] = any(memo[d.id] for d in ds)
            stack.pop()
        return memo[t.id]


def evalop_vec(u, cols, K):
    op = u.op
    w = u.w
    m = (1 << w) - 1
    aux = u.aux
    if op == "add":
        if len(cols) == 1:
            return tuple([(x + aux) & m for x in cols[0]])
        return tuple([(x + y + aux) & m for x, y in zip(cols[0], cols[1])])
    if op == "xor":
        return tuple([x ^ y for x, y in zip(cols[0], cols[1])])
    if op == "concat":
        out = [0] * K
        pos = 0
        for pw, c in zip(aux, cols):
            for k in range(K):
                out[k] |= c[k] << pos
            pos += pw
        return tuple(out)
    if op == "extract":
        return tuple([(x >> aux) & m for x in cols[0]])
    if op == "xorc":
        return tuple([x ^ aux for x in cols[0]])
    if op == "not":
        return tuple([x ^ m for x in cols[0]])
    if op == "and":
        return tuple([x & y for x, y in zip(cols[0], cols[1])])
    if op == "or":
        return tuple([x | y for x, y in zip(cols[0], cols[1])])
    if op == "andc":
        return tuple([x & aux for x in cols[0]])
    if op == "orc":
        return tuple([x | aux for x in cols[0]])
    if op == "neg":
        return tuple([(-x) & m for x in cols[0]])
    if op == "mul":
        return tuple([(x * y) & m for x, y in zip(cols[0], cols[1])])
    if op == "ite":
        return tuple([x if c else y for c, x, y in zip(*cols)])
    if op == "eq":
        return tuple([int(x == y) for x, y in zip(*cols)])
    if op == "ult":
        return tuple([int(x < y) for x, y in zip(*cols)])
    if op == "slt":
        return tuple([int(to_signed(x, aux) < to_signed(y, aux)) for x, y in zip(*cols)])
    if op == "sext":
        fw = u.args[0].w
        return tuple([to_signed(x, fw) & m for x in cols[0]])
    if op == "shl":
        return tuple([(x << n) & m if n < w else 0 for x, n in zip(*cols)])
    if op == "lshr":
        return tuple([x >> n if n < w else 0 for x, n in zip(*cols)])
    if op == "ashr":
        return tuple([(to_signed(x, w) >> min(n, w - 1)) & m for x, n in zip(*cols)])
    if op == "ctpop":
        return tuple([bin(x).count("1") for x in cols[0]])
    if op == "udiv":
        return tuple([x // y if y else m for x, y in zip(*cols)])
    if op == "urem":
        return tuple([x % y if y else x for x, y in zip(*cols)])
    if op == "sdiv" or op == "srem":
        out = []
        for x, y in zip(*cols):
            a, b = to_signed(x, w), to_signed(y, w)
            if b == 0:
                r = (1 if a < 0 else -1) if op == "sdiv" else a
            else:
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                r = q if op == "sdiv" else a - q * b
            out.append(r & m)
        return tuple(out)
    raise NotImplementedError(op)


def show(t, d=4):
    if type(t) is int:
        return hex(t)
    if type(t) is Arr:
        return "arr%d" % t.id
    if t.op == "var":
        return str(t.aux)
    if d == 0:
        return "T%d" % t.id
    return "(%s/%d%s %s)" % (t.op, t.w, "" if t.op not in ("extract", "add", "xorc", "andc", "orc") else ":%x" % t.aux,
                             " ".join(show(a, d - 1) for a in t.args))
