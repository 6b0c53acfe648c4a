"""Symbolic executor for rustc-emitted LLVM IR (see irparse.py, terms.py)."""
import re
import sys
from irparse import Parser, tokenize, strip_comment, unq, IRError, FMF, CALL_CONV
from terms import Term, Arr

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Outcome(Exception):
    """abnormal end of a path"""
    kind = "?"

    def __init__(self, msg, where=""):
        self.msg = msg
        self.where = where

    def __str__(self):
        return "%s: %s @ %s" % (self.kind, self.msg, self.where)


class PanicOut(Outcome):
    kind = "panic"


class UBOut(Outcome):
    kind = "ub"


class PathInfeasible(Exception):
    pass


NORETURN_PANIC = ("9panicking", "13unwrap_failed", "13expect_failed", "16slice_index_fail", "len_mismatch_fail",
                  "slice_start_index_len_fail", "slice_end_index_len_fail", "slice_index_order_fail",
                  "15rust_begin_panic", "panic_fmt", "17rust_begin_unwind")


class Obj:
    __slots__ = ("id", "base", "size", "cells", "align", "ro", "alive", "name", "views", "skew")

    def __init__(self, id, base, size, cells, align, ro, name):
        self.id = id
        self.base = base
        self.size = size
        self.cells = cells
        self.align = align
        self.ro = ro
        self.alive = True
        self.name = name
        self.views = None


class View:
    __slots__ = ("arr", "dirty", "lo", "stride", "size", "count")


# --------------------------------------------------------------------------
# decoding


class Decoded:
    __slots__ = ("nslots", "template", "blocks", "argslots", "entry", "lines")


def first_local(line):
    return None


class Decoder:
    def __init__(self, mod, f):
        self.mod = mod
        self.f = f
        self.slots = {}
        self.template = []
        self.consts = {}

    def slot(self, name):
        s = self.slots.get(name)
        if s is None:
            s = len(self.template)
            self.template.append(None)
            self.slots[name] = s
        return s

    def constslot(self, v):
        try:
            key = ("c", v) if not isinstance(v, list) else None
            if key is not None and key in self.consts:
                return self.consts[key]
        except TypeError:
            key = None
        s = len(self.template)
        self.template.append(v)
        if key is not None:
            self.consts[key] = s
        return s

    def val(self, p, ty):
        t = p.peek()
        if t[0] == '%':
            p.next()
            return self.slot(unq(t))
        return self.constslot(p.const(ty))

    def decode(self):
        f = self.f
        mod = self.mod
        # unnamed values/blocks are numbered sequentially; entry block may be unnamed
        argslots = [self.slot(name) for (_, _, name) in f.params]
        blocks = {}
        cur = None
        curname = None
        order = []
        buf = None
        for raw in f.lines:
            l = strip_comment(raw).rstrip()
            if not l.strip():
                continue
            if not l[0].isspace():
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
                if m:
                    curname = m.group(1).strip('"')
                    cur = []
                    blocks[curname] = cur
                    order.append(curname)
                    continue
            if cur is None:
                curname = str(len(f.params))
                cur = []
                blocks[curname] = cur
                order.append(curname)
            s = l.strip()
            if buf is not None:
                buf += " " + s
                if s.startswith(']'):
                    cur.append(buf)
                    buf = None
                continue
            if s.startswith('switch ') and not s.endswith(']'):
                buf = s
                continue
            # landingpad clauses on following lines
            if s.startswith(('cleanup', 'catch', 'filter')) or s.startswith('to label'):
                cur[-1] += " " + s
                continue
            if s.startswith('#dbg'):
                continue
            cur.append(s)
        D = Decoded()
        self.bidx = {n: i for i, n in enumerate(order)}
        D.blocks = []
        for n in order:
            phis = []
            ins = []
            term = None
            for s in blocks[n]:
                r = self.instr(s)
                if r is None:
                    continue
                k = r[0]
                if k == 'phi':
                    phis.append((r[1], r[2]))
                elif k == 'term':
                    term = r[1:]
                else:
                    ins.append(r[1])
            D.blocks.append((phis, ins, term))
        D.template = self.template
        D.argslots = argslots
        D.lines = None
        return D

    # ---------------------------------------------------------------- instrs
    def instr(self, s):
        toks = tokenize(s)
        # cut metadata
        for i, t in enumerate(toks):
            if t[0] == '!' and i > 0 and toks[i - 1] == ',':
                toks = toks[:i - 1]
                break
        p = Parser(toks, self.mod)
        dst = None
        if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%':
            dst = self.slot(unq(p.next()))
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        h = getattr(self, 'i_' + op, None)
        if h is None:
            if op in BINOPS:
                return self.binop(p, op, dst)
            if op in CASTS:
                return self.cast(p, op, dst)
            raise Unsupported("instruction %s: %s" % (op, s))
        return h(p, dst, s)

    def binop(self, p, op, d):
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FMF:
            p.next()
        ty = p.type()
        a = self.val(p, ty)
        p.expect(',')
        b = self.val(p, ty)
        meth = BINOPS[op]
        if ty[0] == 'v':
            w = self.mod.bits(ty[2])

            def h(ex, env):
                m = getattr(ex.ctx, meth)
                x, y = env[a], env[b]
                try:
                    env[d] = [m(w, i, j) for i, j in zip(x, y)]
                except (AttributeError, TypeError):
                    env[d] = [None if i is None or j is None else m(w, i, j) for i, j in zip(x, y)]
            return ('ins', h)
        w = ty[1] if ty[0] == 'i' else None
        if w is None:
            raise Unsupported("binop on %r" % (ty,))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            def h(ex, env):
                y = env[b]
                if type(y) is int:
                    if y == 0:
                        raise UBOut("division by zero", ex.where())
                else:
                    ex.require(ex.ctx.bnot(1, ex.ctx.eq(w, y, 0)), "division by zero")
                env[d] = getattr(ex.ctx, meth)(w, env[a], y)
            return ('ins', h)
        mask = (1 << w) - 1
        if op == 'add':
            def h(ex, env):
                x = env[a]
                y = env[b]
                if type(x) is int and type(y) is int:
                    env[d] = (x + y) & mask
                else:
                    env[d] = ex.bin('add', w, x, y)
        elif op == 'sub':
            def h(ex, env):
                x = env[a]
                y = env[b]
                if type(x) is int and type(y) is int:
                    env[d] = (x - y) & mask
                else:
                    env[d] = ex.bin('sub', w, x, y)
        else:
            def h(ex, env):
                env[d] = ex.bin(meth, w, env[a], env[b])
        return ('ins', h)

    def cast(self, p, op, d):
        while p.peek() in ('nuw', 'nsw', 'nneg') or p.peek() in FMF:
            p.next()
        ft = p.type()
        a = self.val(p, ft)
        p.expect('to')
        tt = p.type()
        mod = self.mod
        if op == 'bitcast':
            if ft == tt or (ft == 'ptr' and tt == 'ptr'):
                def h(ex, env):
                    env[d] = env[a]
                return ('ins', h)
            return ('ins', self.mk_bitcast(ft, tt, a, d))
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'):
            if ft[0] == 'v':
                raise Unsupported("vector ptr cast")
            fw, tw = mod.bits(ft), mod.bits(tt)
            op2 = 'trunc' if tw < fw else 'zext'
        else:
            op2 = op
            if ft[0] == 'v':
                fw, tw = mod.bits(ft[2]), mod.bits(tt[2])
            else:
                fw, tw = mod.bits(ft), mod.bits(tt)
        one = cast1(op2, fw, tw)
        if ft != 'ptr' and ft[0] == 'v':
            def h(ex, env):
                env[d] = [None if x is None else one(ex.ctx, x) for x in env[a]]
        else:
            def h(ex, env):
                x = env[a]
                env[d] = None if x is None else one(ex.ctx, x)
        return ('ins', h)

    def mk_bitcast(self, ft, tt, a, d):
        mod = self.mod
        fn = 1 if ft[0] != 'v' else ft[1]
        tn = 1 if tt[0] != 'v' else tt[1]
        fw = mod.bits(ft) // fn
        tw = mod.bits(tt) // tn
        big = mod.bigendian
        if ft[0] == 'f' or tt[0] == 'f':
            raise Unsupported("float")

        def h(ex, env):
            ctx = ex.ctx
            x = env[a]
            if fn == 1 and ft[0] != 'v':
                x = [x]
            if big:
                x = x[::-1]
            if fw == tw:
                out = x
            elif fw < tw:
                r = tw // fw
                out = []
                for i in range(0, fn, r):
                    g = x[i:i + r]
                    if all(v is None for v in g):
                        out.append(None)
                    else:
                        out.append(ctx.concat_v([(fw, ex.defined(v, fw)) for v in g]))
            else:
                r = fw // tw
                out = []
                if fw % tw:
                    raise Unsupported("bitcast")
                for v in x:
                    for i in range(r):
                        out.append(None if v is None else ctx.extract(v, fw, i * tw, tw))
            if big:
                out = out[::-1]
            env[d] = out if tt[0] == 'v' else out[0]
        return h

    def i_fneg(self, p, d, s):
        raise Unsupported("float")

    def i_icmp(self, p, d, s):
        p.accept('samesign')
        pred = p.next()
        if pred == 'samesign':
            pred = p.next()
        ty = p.type()
        a = self.val(p, ty)
        p.expect(',')
        b = self.val(p, ty)
        f = ICMP[pred]
        if ty != 'ptr' and ty[0] == 'v':
            w = self.mod.bits(ty[2])

            def h(ex, env):
                env[d] = [f(ex.ctx, w, x, y) for x, y in zip(env[a], env[b])]
            return ('ins', h)
        w = self.mod.bits(ty)
        g = ICMP_INT.get(pred)

        def h(ex, env):
            x = env[a]
            y = env[b]
            if g is not None and type(x) is int and type(y) is int:
                env[d] = int(g(x, y))
            else:
                if x is None or y is None:
                    env[d] = None
                else:
                    env[d] = f(ex.ctx, w, x, y)
        return ('ins', h)

    def i_select(self, p, d, s):
        while p.peek() in FMF:
            p.next()
        ct = p.type()
        c = self.val(p, ct)
        p.expect(',')
        ty = p.type()
        a = self.val(p, ty)
        p.expect(',')
        p.type()
        b = self.val(p, ty)
        mod = self.mod
        if ct[0] == 'v':
            w = mod.bits(ty[2])

            def h(ex, env):
                env[d] = [ex.ite(w, cc, x, y) for cc, x, y in zip(env[c], env[a], env[b])]
            return ('ins', h)

        def h(ex, env):
            cc = env[c]
            if type(cc) is int:
                env[d] = env[a] if cc else env[b]
            elif cc is None:
                raise UBOut("select on undef", ex.where())
            else:
                env[d] = ex.ite_ty(mod, ty, cc, env[a], env[b])
        return ('ins', h)

    def i_freeze(self, p, d, s):
        ty = p.type()
        a = self.val(p, ty)
        mod = self.mod

        def fz(ex, t, v):
            if isinstance(v, list):
                et = t[2] if t[0] in 'va' else None
                return [fz(ex, et if et else t[2][i], x) for i, x in enumerate(v)]
            return ex.defined(v, mod.bits(t)) if v is None else v

        def h(ex, env):
            env[d] = fz(ex, ty, env[a])
        return ('ins', h)

    def i_alloca(self, p, d, s):
        p.accept('inalloca')
        ty = p.type()
        n = 1
        al = self.mod.align(ty)
        while p.accept(','):
            if p.accept('align'):
                al = int(p.next())
            elif p.peek() == 'addrspace':
                p.next()
                p.skip_paren()
            else:
                it = p.type()
                n = p.const(it)
        size = self.mod.size(ty) * n

        def h(ex, env):
            o = ex.alloc(size, al, "alloca")
            ex.frame_objs[-1].append(o)
            env[d] = o.base
        return ('ins', h)

    def i_load(self, p, d, s):
        p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        p.type()
        a = self.val(p, 'ptr')
        al = 1
        while p.peek() is not None:
            if p.next() == 'align':
                al = int(p.next())
        ld = self.mk_load(ty)
        size = self.mod.store_size(ty)

        def h(ex, env):
            env[d] = ld(ex, env[a], al)
        return ('ins', h)

    def mk_load(self, ty):
        mod = self.mod
        if ty == 'ptr' or ty[0] == 'i':
            w = mod.bits(ty)
            n = (w + 7) // 8

            def ld(ex, addr, al):
                v = ex.load(addr, n, al)
                if w & 7 and v is not None:
                    v = ex.ctx.extract(v, n * 8, 0, w)
                return v
            return ld
        if ty[0] == 'v':
            ew = mod.bits(ty[2])
            cnt = ty[1]
            if ew % 8:
                tot = (cnt * ew + 7) // 8

                def ld(ex, addr, al):
                    v = ex.load(addr, tot, al)
                    v = ex.defined(v, tot * 8)
                    return [ex.ctx.extract(v, tot * 8, i * ew, ew) for i in range(cnt)]
                return ld
            n = ew // 8

            def ld(ex, addr, al):
                if type(addr) is int:
                    return ex.loadvec(addr, n, cnt, al)
                return [ex.load(ex.ctx.add(mod.ptrbits, addr, i * n), n, 1 if i else al) for i in range(cnt)]
            return ld
        if ty[0] in 'as':
            n = ty[1] if ty[0] == 'a' else len(ty[2])
            parts = [mod.field(ty, i) for i in range(n)]
            lds = [(o, self.mk_load(t)) for (o, t) in parts]

            def ld(ex, addr, al):
                return [f(ex, ex.ctx.add(mod.ptrbits, addr, o), 1) for (o, f) in lds]
            return ld
        raise Unsupported("load %r" % (ty,))

    def mk_store(self, ty):
        mod = self.mod
        if ty == 'ptr' or ty[0] == 'i':
            w = mod.bits(ty)
            n = (w + 7) // 8

            def st(ex, addr, v, al):
                if w & 7 and v is not None:
                    v = ex.ctx.zext(w, n * 8, v)
                ex.store(addr, n, v, al)
            return st
        if ty[0] == 'v':
            ew = mod.bits(ty[2])
            cnt = ty[1]
            if ew % 8:
                tot = (cnt * ew + 7) // 8

                def st(ex, addr, v, al):
                    x = ex.ctx.concat_v([(ew, ex.defined(e, ew)) for e in v])
                    ex.store(addr, tot, ex.ctx.zext(cnt * ew, tot * 8, x), al)
                return st
            n = ew // 8

            def st(ex, addr, v, al):
                for i in range(cnt):
                    ex.store(ex.ctx.add(mod.ptrbits, addr, i * n), n, v[i], al if i == 0 else 1)
            return st
        if ty[0] in 'as':
            n = ty[1] if ty[0] == 'a' else len(ty[2])
            parts = [mod.field(ty, i) for i in range(n)]
            sts = [(o, self.mk_store(t)) for (o, t) in parts]

            def st(ex, addr, v, al):
                for (o, f), x in zip(sts, v):
                    f(ex, ex.ctx.add(mod.ptrbits, addr, o), x, 1)
            return st
        raise Unsupported("store %r" % (ty,))

    def i_store(self, p, d, s):
        p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        v = self.val(p, ty)
        p.expect(',')
        p.type()
        a = self.val(p, 'ptr')
        al = 1
        while p.peek() is not None:
            if p.next() == 'align':
                al = int(p.next())
        st = self.mk_store(ty)

        def h(ex, env):
            st(ex, env[a], env[v], al)
        return ('ins', h)

    def i_fence(self, p, d, s):
        return None

    def i_getelementptr(self, p, d, s):
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        if p.peek() == 'inrange':
            p.next()
            p.skip_paren()
        mod = self.mod
        bt = p.type()
        p.expect(',')
        pt = p.type()
        if pt != 'ptr':
            raise Unsupported("vector gep")
        base = self.val(p, 'ptr')
        off = 0
        cur = bt
        first = True
        var = []       # (slot, width, scale)
        while p.accept(','):
            it = p.type()
            tok = p.peek()
            if tok[0] == '%':
                sl = self.val(p, it)
                if first:
                    var.append((sl, it[1], mod.size(cur)))
                else:
                    var.append((sl, it[1], mod.size(cur[2])))
                    cur = cur[2]
            else:
                iv = p.const(it)
                if iv >> (it[1] - 1):
                    iv -= 1 << it[1]
                if first:
                    off += iv * mod.size(cur)
                else:
                    o, cur = mod.field(cur, iv)
                    off += o
            first = False
        pb = mod.ptrbits
        m = (1 << pb) - 1
        if not var:
            def h(ex, env):
                b = env[base]
                if type(b) is int:
                    env[d] = (b + off) & m
                else:
                    env[d] = ex.bin('add', pb, b, off & m)
            return ('ins', h)

        def h(ex, env):
            ctx = ex.ctx
            r = ctx.add(pb, env[base], off & m) if off else env[base]
            for (sl, w, sc) in var:
                x = env[sl]
                if type(x) is int and type(r) is int:
                    if w < pb and x >> (w - 1):
                        x -= 1 << w
                    r = (r + x * sc) & m
                else:
                    if x is None:
                        raise UBOut("undef index", ex.where())
                    if w < pb:
                        x = ctx.sext(w, pb, x)
                    elif w > pb:
                        x = ctx.extract(x, w, 0, pb)
                    r = ctx.add(pb, r, ctx.mul(pb, x, sc))
            env[d] = r
        return ('ins', h)

    def i_phi(self, p, d, s):
        while p.peek() in FMF:
            p.next()
        ty = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = self.val(p, ty)
            p.expect(',')
            b = unq(p.next())
            p.expect(']')
            inc[self.bidx[b]] = v
            if not p.accept(','):
                break
        return ('phi', d, inc)

    def i_br(self, p, d, s):
        if p.accept('label'):
            return ('term', 'br', self.bidx[unq(p.next())])
        ty = p.type()
        c = self.val(p, ty)
        p.expect(',')
        p.expect('label')
        a = self.bidx[unq(p.next())]
        p.expect(',')
        p.expect('label')
        b = self.bidx[unq(p.next())]
        return ('term', 'cbr', c, a, b)

    def i_switch(self, p, d, s):
        ty = p.type()
        v = self.val(p, ty)
        p.expect(',')
        p.expect('label')
        dflt = self.bidx[unq(p.next())]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            p.type()
            c = p.const(ty)
            p.expect(',')
            p.expect('label')
            cases.append((c, self.bidx[unq(p.next())]))
        return ('term', 'switch', v, ty[1], dflt, cases)

    def i_ret(self, p, d, s):
        ty = p.type()
        if ty == 'void':
            return ('term', 'ret', None)
        return ('term', 'ret', self.val(p, ty))

    def i_unreachable(self, p, d, s):
        return ('term', 'unreachable')

    def i_resume(self, p, d, s):
        return ('term', 'unreachable')

    def i_landingpad(self, p, d, s):
        def h(ex, env):
            raise Unsupported("landingpad")
        return ('ins', h)

    def i_extractvalue(self, p, d, s):
        ty = p.type()
        a = self.val(p, ty)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))

        def h(ex, env):
            v = env[a]
            for i in idx:
                v = v[i]
            env[d] = v
        return ('ins', h)

    def i_insertvalue(self, p, d, s):
        ty = p.type()
        a = self.val(p, ty)
        p.expect(',')
        et = p.type()
        b = self.val(p, et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))

        def ins(v, i, x):
            v = list(v)
            if len(i) == 1:
                v[i[0]] = x
            else:
                v[i[0]] = ins(v[i[0]], i[1:], x)
            return v

        def h(ex, env):
            env[d] = ins(env[a], idx, env[b])
        return ('ins', h)

    def i_extractelement(self, p, d, s):
        ty = p.type()
        a = self.val(p, ty)
        p.expect(',')
        it = p.type()
        i = self.val(p, it)

        def h(ex, env):
            k = env[i]
            if type(k) is not int:
                raise Unsupported("symbolic extractelement")
            env[d] = env[a][k]
        return ('ins', h)

    def i_insertelement(self, p, d, s):
        ty = p.type()
        a = self.val(p, ty)
        p.expect(',')
        et = p.type()
        b = self.val(p, et)
        p.expect(',')
        it = p.type()
        i = self.val(p, it)

        def h(ex, env):
            k = env[i]
            if type(k) is not int:
                raise Unsupported("symbolic insertelement")
            v = list(env[a])
            v[k] = env[b]
            env[d] = v
        return ('ins', h)

    def i_shufflevector(self, p, d, s):
        ty = p.type()
        a = self.val(p, ty)
        p.expect(',')
        p.type()
        b = self.val(p, ty)
        p.expect(',')
        mt = p.type()
        m = p.const(mt)

        def h(ex, env):
            src = env[a] + env[b]
            env[d] = [None if k is None else src[k] for k in m]
        return ('ins', h)

    def i_invoke(self, p, d, s):
        r = self.call(p, d, s, True)
        return r

    def i_call(self, p, d, s):
        return self.call(p, d, s, False)

    def call(self, p, d, s, invoke):
        while p.peek() in FMF or p.peek() in CALL_CONV:
            p.next()
        p.attrs()
        rt = p.type()
        if p.peek() == '(':      # function type
            p.skip_paren()
        tok = p.peek()
        asm = None
        callee = None
        cslot = None
        if tok == 'asm':
            p.next()
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                p.next()
            asm = p.next()
            p.expect(',')
            asmc = p.next()
        elif tok[0] == '@':
            p.next()
            callee = unq(tok)
        else:
            cslot = self.val(p, 'ptr')
        p.expect('(')
        args = []
        tys = []
        ats = []
        if not p.accept(')'):
            while True:
                t = p.type()
                if t == 'metadata':
                    # skip metadata operand
                    depth = 0
                    while not (depth == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x == '(':
                            depth += 1
                        elif x == ')':
                            depth -= 1
                    args.append(None)
                    tys.append(t)
                    ats.append({})
                else:
                    ats.append(p.attrs())
                    args.append(self.val(p, t))
                    tys.append(t)
                if p.accept(')'):
                    break
                p.expect(',')
        if asm is not None:
            return ('ins', mk_asm(asm, asmc, args, tys, d, rt))
        norm = None
        if invoke:
            while p.peek() not in ('to',):
                p.next()
            p.expect('to')
            p.expect('label')
            norm = self.bidx[unq(p.next())]
        h = None
        if callee is not None and callee.startswith('llvm.'):
            h = intrinsic(self, callee, args, tys, d, rt, ats)
            if h is None:
                return None
        elif callee is not None:
            mod = self.mod
            f = mod.funcs.get(callee)

            def h(ex, env):
                env_d = ex.call(f if f is not None else mod.funcs[callee], [env[a] for a in args])
                if d is not None:
                    env[d] = env_d
        else:
            def h(ex, env):
                fp = env[cslot]
                if type(fp) is not int:
                    raise Unsupported("symbolic call target")
                f = ex.mod.addr2func.get(fp)
                if f is None:
                    # functions whose address was assigned before definition parse
                    for n, a in ex.mod.addrs.items():
                        if a == fp and n in ex.mod.funcs:
                            f = ex.mod.funcs[n]
                            break
                    if f is None:
                        raise UBOut("call through invalid pointer %x" % fp, ex.where())
                r = ex.call(f, [env[a] for a in args])
                if d is not None:
                    env[d] = r
        if invoke:
            return ('term', 'invoke', h, norm)
        return ('ins', h)


def cast1(op, fw, tw):
    if op == 'zext':
        return lambda ctx, x: x if type(x) is int else ctx.zext(fw, tw, x)
    if op == 'sext':
        return lambda ctx, x: ctx.sext(fw, tw, x)
    if op == 'trunc':
        m = (1 << tw) - 1
        return lambda ctx, x: x & m if type(x) is int else ctx.extract(x, fw, 0, tw)
    raise Unsupported("cast " + op)


BINOPS = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'udiv': 'udiv', 'urem': 'urem', 'sdiv': 'sdiv', 'srem': 'srem',
          'and': 'band', 'or': 'bor', 'xor': 'xor', 'shl': 'shl', 'lshr': 'lshr', 'ashr': 'ashr'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'}
ICMP = {
    'eq': lambda c, w, a, b: c.eq(w, a, b),
    'ne': lambda c, w, a, b: c.bnot(1, c.eq(w, a, b)),
    'ult': lambda c, w, a, b: c.ult(w, a, b),
    'ule': lambda c, w, a, b: c.ule(w, a, b),
    'ugt': lambda c, w, a, b: c.ult(w, b, a),
    'uge': lambda c, w, a, b: c.ule(w, b, a),
    'slt': lambda c, w, a, b: c.slt(w, a, b),
    'sle': lambda c, w, a, b: c.sle(w, a, b),
    'sgt': lambda c, w, a, b: c.slt(w, b, a),
    'sge': lambda c, w, a, b: c.sle(w, b, a),
}
import operator
ICMP_INT = {'eq': operator.eq, 'ne': operator.ne, 'ult': operator.lt, 'ule': operator.le, 'ugt': operator.gt,
            'uge': operator.ge}


CPUID = re.compile(r'mov \$\{0:[qk]\}, [re]bx\\0Acpuid\\0Axchg \$\{0:[qk]\}, [re]bx$')


def mk_asm(asm, cons, args, tys, d, rt):
    text = asm.strip('"')

    def h(ex, env):
        # an empty asm template is an optimisation barrier (zeroize, black_box)
        if text.strip() == '' or text.startswith('/*') or text.startswith('#'):
            if d is not None:
                raise Unsupported("asm with result: %r" % asm)
            return
        if ex.cpu is not None and CPUID.match(text) and cons.strip('"').startswith("=&r,=&{ax},=&{cx},=&{dx},1,2"):
            leaf, sub = env[args[0]], env[args[1]]
            if type(leaf) is not int or type(sub) is not int:
                raise Unsupported("symbolic CPUID leaf")
            env[d] = ex.cpu.cpuid(leaf, sub)
            return
        raise Unsupported("inline asm %r" % asm)
    return h


def intrinsic(dec, name, args, tys, d, rt, ats):
    mod = dec.mod
    parts = name.split('.')
    k = parts[1]
    if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.donothing',
                        'llvm.prefetch', 'llvm.fake.use', 'llvm.sideeffect', 'llvm.var.annotation')):
        return None
    if name == 'llvm.x86.xgetbv':
        def h(ex, env):
            if ex.cpu is None or env[args[0]] != 0:
                raise Unsupported("xgetbv")
            env[d] = ex.cpu.xcr0()
        return h
    if k == 'assume':
        a = args[0]

        def h(ex, env):
            c = env[a]
            if type(c) is int:
                if not c:
                    raise UBOut("assume(false)", ex.where())
            elif c is not None:
                ex.require(c, "llvm.assume violated")
        return h

    def vecmap(fn):
        """lift scalar fn(ctx, w, *vals) over vectors"""
        if rt != 'ptr' and rt[0] == 'v':
            w = mod.bits(rt[2])

            def h(ex, env):
                cols = [env[a] for a in args]
                env[d] = [fn(ex.ctx, w, *t) for t in zip(*cols)]
        else:
            w = mod.bits(rt) if rt[0] == 'i' else None

            def h(ex, env):
                env[d] = fn(ex.ctx, w, *[env[a] for a in args])
        return h
    if k == 'fshl':
        return vecmap(lambda c, w, a, b, n: c.fshl(w, a, b, n))
    if k == 'fshr':
        return vecmap(lambda c, w, a, b, n: c.fshr(w, a, b, n))
    if k == 'umin':
        return vecmap(lambda c, w, a, b: c.ite(w, c.ult(w, a, b), a, b))
    if k == 'umax':
        return vecmap(lambda c, w, a, b: c.ite(w, c.ult(w, a, b), b, a))
    if k == 'smin':
        return vecmap(lambda c, w, a, b: c.ite(w, c.slt(w, a, b), a, b))
    if k == 'smax':
        return vecmap(lambda c, w, a, b: c.ite(w, c.slt(w, a, b), b, a))
    if name.startswith('llvm.usub.sat'):
        return vecmap(lambda c, w, a, b: c.ite(w, c.ult(w, a, b), 0, c.sub(w, a, b)))
    if name.startswith('llvm.uadd.sat'):
        def f(c, w, a, b):
            s = c.add(w, a, b)
            return c.ite(w, c.ult(w, s, a), (1 << w) - 1, s)
        return vecmap(f)
    if k == 'bswap':
        def f(c, w, a):
            if mod.bigendian and False:
                pass
            n = w // 8
            return c.concat_v([(8, c.extract(a, w, 8 * (n - 1 - i), 8)) for i in range(n)])
        return vecmap(f)
    if k == 'bitreverse':
        return vecmap(lambda c, w, a: c.concat_v([(1, c.extract(a, w, w - 1 - i, 1)) for i in range(w)]))
    if k == 'ctpop':
        return vecmap(lambda c, w, a: c.ctpop(w, a))
    if k in ('ctlz', 'cttz'):
        def f(c, w, a, z):
            if type(a) is int:
                if k == 'ctlz':
                    return w - a.bit_length()
                return (a & -a).bit_length() - 1 if a else w
            r = w
            rng = range(w) if k == 'ctlz' else range(w - 1, -1, -1)
            for i in rng:
                r = c.ite(w, c.extract(a, w, i, 1), (w - 1 - i) if k == 'ctlz' else i, r)
            return r
        return vecmap(f)
    if k == 'abs':
        return vecmap(lambda c, w, a, z: c.ite(w, c.slt(w, a, 0), c.neg(w, a), a))
    if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and parts[2] == 'with':
        w = tys[0][1]
        a, b = args

        def h(ex, env):
            c = ex.ctx
            x, y = env[a], env[b]
            if k == 'uadd':
                r = c.add(w, x, y)
                o = c.ult(w, r, x)
                if type(o) is not int:
                    # exact overflow knowledge from bounds
                    if c.umax(x, w) + c.umax(y, w) < (1 << w):
                        o = 0
            elif k == 'usub':
                r = c.sub(w, x, y)
                o = c.ult(w, x, y)
            elif k == 'umul':
                if c.umax(x, w) * c.umax(y, w) < (1 << w):
                    r = c.mul(w, x, y)
                    o = 0
                else:
                    p = c.mul(2 * w, c.zext(w, 2 * w, x), c.zext(w, 2 * w, y))
                    r = c.extract(p, 2 * w, 0, w)
                    o = c.bnot(1, c.eq(w, c.extract(p, 2 * w, w, w), 0))
            elif k in ('sadd', 'ssub', 'smul'):
                f = {'sadd': c.add, 'ssub': c.sub, 'smul': c.mul}[k]
                ww = 2 * w
                p = f(ww, c.sext(w, ww, x), c.sext(w, ww, y))
                r = c.extract(p, ww, 0, w)
                o = c.bnot(1, c.eq(ww, p, c.sext(w, ww, r)))
            env[d] = [r, o]
        return h
    if k in ('memcpy', 'memmove'):
        dst, src, n = args[0], args[1], args[2]
        ovl_ok = k == 'memmove'

        def h(ex, env):
            ex.memcpy(env[dst], env[src], env[n], ovl_ok)
        return h
    if k == 'memset':
        dst, v, n = args[0], args[1], args[2]

        def h(ex, env):
            ex.memset(env[dst], env[v], env[n])
        return h
    if name.startswith('llvm.is.constant'):
        def h(ex, env):
            env[d] = int(type(env[args[0]]) is int)
        return h
    if k == 'expect':
        def h(ex, env):
            env[d] = env[args[0]]
        return h
    if k in ('trap', 'ubsantrap', 'debugtrap'):
        def h(ex, env):
            raise PanicOut("trap", ex.where())
        return h
    if k == 'stacksave':
        def h(ex, env):
            env[d] = 0
        return h
    if k == 'stackrestore':
        return None
    if k == 'ptrmask':
        w = mod.ptrbits
        return lambda ex, env: env.__setitem__(d, ex.ctx.band(w, env[args[0]], env[args[1]]))
    if name.startswith('llvm.vector.reduce.'):
        opn = parts[3]
        w = mod.bits(rt)
        fn = {'or': 'bor', 'and': 'band', 'xor': 'xor', 'add': 'add'}.get(opn)
        if fn is None:
            raise Unsupported(name)

        def h(ex, env):
            v = env[args[0]]
            r = v[0]
            for x in v[1:]:
                r = getattr(ex.ctx, fn)(w, r, x)
            env[d] = r
        return h
    # ---- target intrinsics
    m = re.match(r'llvm\.x86\.(ssse3|avx2|avx512)\.pshuf\.b', name)
    if m:
        def h(ex, env):
            a, b = env[args[0]], env[args[1]]
            out = []
            for i in range(len(a)):
                mk = b[i]
                if type(mk) is not int:
                    raise Unsupported("symbolic pshufb mask")
                if mk & 0x80:
                    out.append(0)
                else:
                    out.append(a[(i & ~15) + (mk & 15)])
            env[d] = out
        return h
    if name.startswith('llvm.x86.avx512.vpermi2var') or name.startswith('llvm.x86.avx512.permvar') \
            or name.startswith('llvm.x86.avx2.permd'):
        def h(ex, env):
            vs = [env[a] for a in args]
            if 'vpermi2var' in name:
                a, idx, b = vs
                src = a + b
            else:
                src, idx = vs[0], vs[1]
            out = []
            for i in idx:
                if type(i) is not int:
                    raise Unsupported("symbolic perm")
                out.append(src[i % len(src)])
            env[d] = out
        return h
    if name == 'llvm.x86.xgetbv':
        def h(ex, env):
            raise Unsupported("xgetbv")
        return h
    if name.startswith('llvm.aarch64.neon.tbl1'):
        def h(ex, env):
            t, ix = env[args[0]], env[args[1]]
            out = []
            for i in ix:
                if type(i) is not int:
                    raise Unsupported("symbolic tbl")
                out.append(t[i] if i < 16 else 0)
            env[d] = out
        return h
    m = re.match(r'llvm\.aarch64\.neon\.(ld1x|st1x)(\d)', name)
    if m:
        cnt = int(m.group(2))
        if m.group(1) == 'ld1x':
            vt = rt[2][0]
            ld = dec.mk_load(vt)
            sz = mod.size(vt)

            def h(ex, env):
                b = env[args[0]]
                env[d] = [ld(ex, ex.ctx.add(mod.ptrbits, b, i * sz), 1) for i in range(cnt)]
        else:
            vt = tys[0]
            st = dec.mk_store(vt)
            sz = mod.size(vt)

            def h(ex, env):
                b = env[args[-1]]
                for i in range(cnt):
                    st(ex, ex.ctx.add(mod.ptrbits, b, i * sz), env[args[i]], 1)
        return h
    m = re.match(r'llvm\.aarch64\.neon\.(vsli|vsri)\.', name)
    if m:
        w = mod.bits(rt[2])
        which = m.group(1)

        def h(ex, env):
            a, b, n = env[args[0]], env[args[1]], env[args[2]]
            c = ex.ctx
            out = []
            for x, y in zip(a, b):
                if which == 'vsli':
                    out.append(c.concat_v([(n, c.extract(x, w, 0, n)), (w - n, c.extract(y, w, 0, w - n))]))
                else:
                    out.append(c.concat_v([(w - n, c.extract(y, w, n, w - n)), (n, c.extract(x, w, w - n, n))]))
            env[d] = out
        return h

    def h(ex, env):
        raise Unsupported("intrinsic " + name)
    return h


# --------------------------------------------------------------------------
# execution


class Executor:
    def __init__(self, mod, ctx, path=None):
        self.mod = mod
        self.ctx = ctx
        self.objs = {}
        self.next_id = 1 << 12
        self.frame_objs = []
        self.stack = []
        self.steps = 0
        self.funcs_seen = {}
        self.path = path            # PathControl or None
        self.shift = 32 if mod.ptrbits == 64 else 16
        self.max_steps = 50_000_000
        self.hooks = {}             # function name -> python callable(ex, args)
        self.trace = None           # list of branch decisions / addresses, for CT checks
        self.ct = None
        self.cpu = None
        self.trace = None
        self.blocks_seen = set()

    # ---------------------------------------------------------------- misc
    def where(self):
        return " < ".join(short(n) for n in reversed(self.stack[-4:]))

    def defined(self, v, w):
        if v is None:
            return self.ctx.fresh("undef", w)
        return v

    def bin(self, meth, w, x, y):
        try:
            return getattr(self.ctx, meth)(w, x, y)
        except (AttributeError, TypeError):
            if x is None or y is None:
                return None
            raise

    def ite(self, w, c, a, b):
        if type(c) is int:
            return a if c else b
        if a is None or b is None:
            if a is b:
                return None
            a = self.defined(a, w)
            b = self.defined(b, w)
        return self.ctx.ite(w, c, a, b)

    def ite_ty(self, mod, ty, c, a, b):
        if isinstance(a, list):
            if ty[0] == 's':
                return [self.ite_ty(mod, t, c, x, y) for t, x, y in zip(ty[2], a, b)]
            return [self.ite_ty(mod, ty[2], c, x, y) for x, y in zip(a, b)]
        return self.ite(mod.bits(ty), c, a, b)

    def require(self, cond, msg):
        """cond must hold on this path, otherwise UB"""
        if type(cond) is int:
            if not cond:
                raise UBOut(msg, self.where())
            return
        if self.path is None:
            raise Unsupported("symbolic condition without path control")
        if not self.path.decide(self, cond, "require:" + msg):
            raise UBOut(msg, self.where())

    # -------------------------------------------------------------- memory
    def alloc(self, size, align, name, cells=None, ro=False, skew=0):
        self.next_id += 1
        base = (self.next_id << self.shift) + skew
        o = Obj(self.next_id, base, size, cells if cells is not None else [None] * size, align, ro, name)
        self.objs[self.next_id] = o
        return o

    def obj_of(self, addr):
        i = addr >> self.shift
        o = self.objs.get(i)
        if o is None:
            o = self._global_obj(i)
        return o

    def _global_obj(self, i):
        if not hasattr(self.mod, "_id2glob") or len(self.mod._id2glob) != len(self.mod.addrs):
            self.mod._id2glob = {a >> self.shift: n for n, a in self.mod.addrs.items()}
        n = self.mod._id2glob.get(i)
        if n is None or n not in self.mod.globals:
            return None
        g = self.mod.globals[n]
        cells = []
        init = self.mod.global_init(g)
        self._init_cells(g.ty, init, cells)
        o = Obj(i, i << self.shift, self.mod.size(g.ty), cells, g.align or 1, g.const, n)
        self.objs[i] = o
        return o

    def _init_cells(self, ty, v, cells):
        mod = self.mod
        start = len(cells)
        if ty == 'ptr' or ty[0] == 'i':
            n = mod.size(ty)
            if v is None:
                cells.extend([None] * n)
            else:
                cells.extend(v.to_bytes(n, 'big' if mod.bigendian else 'little'))
        elif ty[0] in 'av':
            for x in v:
                self._init_cells(ty[2], x, cells)
        elif ty[0] == 's':
            off = 0
            for i, t in enumerate(ty[2]):
                o, _ = mod.field(ty, i)
                while len(cells) - start < o:
                    cells.append(0)
                self._init_cells(t, v[i], cells)
            while len(cells) - start < mod.size(ty):
                cells.append(0)
        else:
            raise Unsupported("global init %r" % (ty,))

    def resolve(self, addr, n, al, write):
        """concrete address -> (obj, offset)"""
        o = self.objs.get(addr >> self.shift)
        if o is None:
            o = self._global_obj(addr >> self.shift)
            if o is None:
                raise UBOut("%s of %d bytes at invalid address 0x%x" % ("store" if write else "load", n, addr),
                            self.where())
        off = addr - o.base
        if off < 0 or off + n > o.size or not o.alive:
            raise UBOut("out-of-bounds %s: %d bytes at offset %d of %s[%d]%s" % (
                "store" if write else "load", n, off, o.name, o.size, "" if o.alive else " (dead)"), self.where())
        if al > 1 and addr & (al - 1):
            # the object may simply be placed at an address that satisfies its own alignment only
            raise UBOut("misaligned %s (align %d) at offset %d of %s" % ("store" if write else "load", al, off, o.name),
                        self.where())
        if write and o.ro:
            raise UBOut("store to read-only memory %s" % o.name, self.where())
        return o, off

    def cellval(self, c):
        """value (8 bit) of one cell"""
        if type(c) is tuple:
            t = c[0]
            if type(t) is Term:
                return self.ctx.extract(t, t.w, 8 * c[1], 8)
            # array marker
            e = self.ctx.select(t, None, c[1])
            return self.ctx.extract(e, t.ew, 8 * c[2], 8)
        return c

    def load_cells(self, cs):
        """little-endian value of cells; None if all undefined"""
        n = len(cs)
        c0 = cs[0]
        if type(c0) is tuple:
            t = c0[0]
            if type(t) is Term:
                if c0[1] == 0 and t.w == 8 * n:
                    ok = True
                    for i in range(1, n):
                        c = cs[i]
                        if type(c) is not tuple or c[0] is not t or c[1] != i:
                            ok = False
                            break
                    if ok:
                        return t if t.rep is None else self.ctx.find(t)
            elif c0[2] == 0 and t.ew == 8 * n:
                if all(type(c) is tuple and c[0] is t and c[1] == c0[1] and c[2] == i for i, c in enumerate(cs)):
                    return self.ctx.select(t, None, c0[1])
        else:
            try:
                return int.from_bytes(bytes(cs), 'little')
            except TypeError:
                pass
        if all(c is None for c in cs):
            return None
        ps = []
        i = 0
        while i < n:
            c = cs[i]
            if c is None:
                ps.append((8, self.defined(None, 8)))
                i += 1
            elif type(c) is tuple and type(c[0]) is Term:
                t, k = c
                j = 1
                while i + j < n and type(cs[i + j]) is tuple and cs[i + j][0] is t and cs[i + j][1] == k + j:
                    j += 1
                ps.append((8 * j, self.ctx.extract(t, t.w, 8 * k, 8 * j)))
                i += j
            else:
                ps.append((8, self.cellval(c)))
                i += 1
        return self.ctx.concat_v(ps)

    def load(self, addr, n, al):
        if type(addr) is not int:
            return self.load_sym(addr, n, al)
        o, off = self.resolve(addr, n, al, False)
        if self.trace is not None:
            self.trace.append((o.name, off, n))
        cs = o.cells[off:off + n]
        if self.mod.bigendian:
            cs.reverse()
        return self.load_cells(cs)

    def loadvec(self, addr, n, cnt, al):
        o, off = self.resolve(addr, n * cnt, al, False)
        cells = o.cells
        if self.mod.bigendian:
            return [self.load_cells(cells[off + i * n:off + i * n + n][::-1]) for i in range(cnt)]
        return [self.load_cells(cells[off + i * n:off + i * n + n]) for i in range(cnt)]

    def dirty(self, o, off, n):
        for key, v in list(o.views.items()):
            if off + n <= v.lo or off >= v.lo + v.stride * v.count:
                continue
            a = max(0, (off - v.lo - v.size + 1 + v.stride - 1) // v.stride) if off > v.lo else 0
            b = min(v.count - 1, (off + n - 1 - v.lo) // v.stride)
            if b - a > 64:
                del o.views[key]
            else:
                v.dirty.update(range(a, b + 1))

    def store(self, addr, n, v, al):
        if type(addr) is not int:
            return self.store_sym(addr, n, v, al)
        o, off = self.resolve(addr, n, al, True)
        if type(v) is int:
            o.cells[off:off + n] = v.to_bytes(n, 'big' if self.mod.bigendian else 'little')
        elif v is None:
            o.cells[off:off + n] = [None] * n
        else:
            if v.op == "concat":
                # split on byte boundaries so that constants stay visible per byte
                cs = []
                pos = 0
                ok = True
                for pw, pv in zip(v.aux, v.args):
                    if pw % 8:
                        ok = False
                        break
                    for i in range(pw // 8):
                        cs.append(((pv >> (8 * i)) & 255) if type(pv) is int else (v, (pos // 8) + i))
                    pos += pw
                if not ok:
                    cs = [(v, i) for i in range(n)]
            else:
                cs = [(v, i) for i in range(n)]
            if self.mod.bigendian:
                cs.reverse()
            o.cells[off:off + n] = cs
        if o.views:
            self.dirty(o, off, n)

    def conc(self, v, what):
        if type(v) is int:
            return v
        if v is None:
            raise UBOut("undef " + what, self.where())
        raise Unsupported("symbolic " + what + " @ " + self.where())

    def memcpy(self, dst, src, n, ovl_ok):
        n = self.conc(n, "memcpy length")
        if n == 0:
            return
        dst = self.conc(dst, "memcpy destination")
        src = self.conc(src, "memcpy source")
        so, soff = self.resolve(src, n, 1, False)
        do, doff = self.resolve(dst, n, 1, True)
        if so is do and not ovl_ok and soff != doff and abs(soff - doff) < n:
            raise UBOut("overlapping memcpy", self.where())
        do.cells[doff:doff + n] = so.cells[soff:soff + n]
        if do.views:
            self.dirty(do, doff, n)

    def memset(self, dst, v, n):
        n = self.conc(n, "memset length")
        if n == 0:
            return
        dst = self.conc(dst, "memset destination")
        o, off = self.resolve(dst, n, 1, True)
        c = v if (type(v) is int or v is None) else (v, 0)
        o.cells[off:off + n] = [c] * n
        if o.views:
            self.dirty(o, off, n)

    # ---- symbolic addresses
    def split(self, addr, n, write):
        """symbolic address -> (obj, constant part, stride, index term (w=log2), count)"""
        ctx = self.ctx
        pb = self.mod.ptrbits
        lo = ctx.umin(addr)
        o = self.obj_of(lo)
        if o is None and addr.op == 'add' and addr.aux:
            o = self.obj_of(addr.aux)
        if o is None:
            raise Unsupported("cannot resolve symbolic address @ " + self.where())
        off = ctx.add(pb, addr, (-o.base) & ((1 << pb) - 1))
        if type(off) is int:
            raise AssertionError
        c = 0
        var = off
        if off.op == 'add' and off.aux:
            c = off.aux
            var = ctx._add(pb, 0, off.args)
        # constant pieces inside var
        ps = ctx.pieces(var, pb)
        cpart = 0
        pos = 0
        vps = []
        for (w, v) in ps:
            if type(v) is int:
                cpart |= v << pos
                vps.append((w, 0))
            else:
                vps.append((w, v))
            pos += w
        c = (c + cpart) & ((1 << pb) - 1)
        var = ctx.concat_pieces(vps)
        # trailing zeros -> stride
        ps = ctx.pieces(var, pb)
        tz = ps[0][0] if type(ps[0][1]) is int else 0
        stride = 1 << tz
        umax = ctx.umax(var)
        count = (umax >> tz) + 1
        if c > o.size or count > 65536:
            # negative offsets etc: need the solver
            count = None
        if count is None or c + (count - 1) * stride + n > o.size:
            lim = o.size - n
            ok = ctx.ule(pb, off, lim) if lim >= 0 else 0
            self.require(ok, "out-of-bounds %s: %d bytes in %s[%d] at symbolic offset" % (
                "store" if write else "load", n, o.name, o.size))
            if c > o.size:
                raise Unsupported("symbolic address with unresolved base offset @ " + self.where())
            if count is None or c + (count - 1) * stride + n > o.size:
                count = (o.size - n - c) // stride + 1
                if count > 65536:
                    raise Unsupported("symbolic address range too large")
        if not o.alive:
            raise UBOut("access to dead object", self.where())
        if write and o.ro:
            raise UBOut("store to read-only memory", self.where())
        idx = ctx.lshr(pb, var, tz)
        return o, c, stride, idx, count

    def view(self, o, lo, stride, size, count):
        ctx = self.ctx
        key = (lo, stride, size, count)
        if o.views is None:
            o.views = {}
        v = o.views.get(key)
        if v is None:
            v = View()
            v.lo, v.stride, v.size, v.count = lo, stride, size, count
            v.dirty = set()
            v.arr = None
            o.views[key] = v
            # eta: all (or almost all) elements are selects of one array
            votes = {}
            if size == stride:
                for i in range(count):
                    c = o.cells[lo + i * stride]
                    if type(c) is tuple and type(c[0]) is Arr and c[1] == i and c[2] == 0 and c[0].ew == 8 * size \
                            and c[0].n >= count:
                        votes[c[0]] = votes.get(c[0], 0) + 1
            best = max(votes, key=lambda a: (votes[a], a.id)) if votes else None
            if best is not None and votes[best] >= count - 8:
                v.arr = best
                for i in range(count):
                    c = o.cells[lo + i * stride]
                    if not (type(c) is tuple and c[0] is best and c[1] == i):
                        v.dirty.add(i)
            else:
                els = []
                for i in range(count):
                    els.append(self.elem(o, lo + i * stride, size))
                v.arr = ctx.arr_build(els, 8 * size)
        if v.dirty:
            for i in sorted(v.dirty):
                e = self.elem(o, lo + i * stride, size)
                v.arr = ctx.store(v.arr, None, i, e)
            v.dirty.clear()
        return v

    def elem(self, o, off, size):
        cs = o.cells[off:off + size]
        if self.mod.bigendian:
            cs = cs[::-1]
        e = self.load_cells(cs)
        return self.defined(e, 8 * size) if e is None else e

    def load_sym(self, addr, n, al):
        if addr is None:
            raise UBOut("load through undef pointer", self.where())
        if self.ct is not None:
            self.ct.symaccess(self, addr)
        o, c, stride, idx, count = self.split(addr, n, False)
        if count == 1:
            return self.load(o.base + c, n, 1)
        v = self.view(o, c, stride, n, count)
        return self.ctx.select(v.arr, self.mod.ptrbits, idx)

    def store_sym(self, addr, n, val, al):
        if addr is None:
            raise UBOut("store through undef pointer", self.where())
        if self.ct is not None:
            self.ct.symaccess(self, addr)
        o, c, stride, idx, count = self.split(addr, n, True)
        if stride != n:
            raise Unsupported("symbolic store with stride %d size %d" % (stride, n))
        v = self.view(o, c, stride, n, count)
        na = self.ctx.store(v.arr, self.mod.ptrbits, idx, self.defined(val, 8 * n))
        cells = o.cells
        if n == 1:
            cells[c:c + count] = [(na, i, 0) for i in range(count)]
        else:
            be = self.mod.bigendian
            for i in range(count):
                for b in range(n):
                    cells[c + i * n + b] = (na, i, n - 1 - b if be else b)
        o.views = {(c, stride, n, count): v}
        v.arr = na
        v.dirty.clear()

    # ---------------------------------------------------------------- calls
    def call(self, f, args):
        name = f.name
        hk = self.hooks.get(name)
        if hk is not None:
            return hk(self, args)
        if f.decl:
            if name == 'verif_panic':
                raise PanicOut("panic", self.where())
            if name in ('memcpy', 'memmove'):
                self.memcpy(args[0], args[1], args[2], name == 'memmove')
                return args[0]
            if name == 'memset':
                self.memset(args[0], self.ctx.extract(args[1], 32, 0, 8), args[2])
                return args[0]
            if name in ('memcmp', 'bcmp'):
                return self.memcmp(args[0], args[1], args[2], name == 'bcmp')
            raise Unsupported("external function " + name)
        for s in NORETURN_PANIC:
            if s in name:
                if 'nounwind' in name or 'cannot_unwind' in name:
                    raise UBOut("unsafe precondition violated / nounwind panic", self.where() + " < " + short(name))
                raise PanicOut(short(name), self.where())
        if self.cpu is not None:
            self.cpu.enter(self, f)
        D = f.body
        if D is None:
            D = f.body = Decoder(self.mod, f).decode()
        self.funcs_seen[name] = self.funcs_seen.get(name, 0) + 1
        env = list(D.template)
        for s, a, (pt, pa, _) in zip(D.argslots, args, f.params):
            if 'byval' in pa:
                sz = self.mod.size(pt) if False else None
                raise Unsupported("byval")
            env[s] = a
        self.stack.append(name)
        self.frame_objs.append([])
        if len(self.stack) > 400:
            raise Unsupported("call depth")
        blocks = D.blocks
        bi = 0
        prev = None
        seen = self.blocks_seen
        while True:
            phis, ins, term = blocks[bi]
            if self.trace is not None:
                self.trace.append(bi)
            if phis:
                if len(phis) == 1:
                    env[phis[0][0]] = env[phis[0][1][prev]]
                else:
                    vals = [env[inc[prev]] for (_, inc) in phis]
                    for (dst, _), v in zip(phis, vals):
                        env[dst] = v
            for h in ins:
                h(self, env)
            self.steps += len(ins) + 1
            if self.steps > self.max_steps:
                raise Unsupported("step limit")
            k = term[0]
            if k == 'br':
                prev = bi
                bi = term[1]
            elif k == 'cbr':
                c = env[term[1]]
                prev = bi
                if type(c) is not int:
                    if c is None:
                        raise UBOut("branch on undef", self.where())
                    if self.ct is not None:
                        self.ct.branch(self, c)
                    if self.path is None:
                        raise Unsupported("symbolic branch without path control")
                    c = self.path.decide(self, c, "br")
                bi = term[2] if c else term[3]
            elif k == 'ret':
                r = env[term[1]] if term[1] is not None else None
                break
            elif k == 'switch':
                v = env[term[1]]
                prev = bi
                if type(v) is int:
                    bi = term[3]
                    for (c, b) in term[4]:
                        if c == v:
                            bi = b
                            break
                else:
                    if v is None:
                        raise UBOut("switch on undef", self.where())
                    bi = term[3]
                    for (c, b) in term[4]:
                        e = self.ctx.eq(term[2], v, c)
                        if type(e) is not int:
                            if self.ct is not None:
                                self.ct.branch(self, e)
                            e = self.path.decide(self, e, "switch")
                        if e:
                            bi = b
                            break
            elif k == 'unreachable':
                raise UBOut("unreachable executed", self.where())
            elif k == 'invoke':
                term[1](self, env)
                prev = bi
                bi = term[2]
            else:
                raise Unsupported("terminator " + k)
        for o in self.frame_objs.pop():
            o.alive = False
            del self.objs[o.id]
        self.stack.pop()
        return r

    def memcmp(self, a, b, n, eqonly):
        n = self.conc(n, "memcmp length")
        c = self.ctx
        if n == 0:
            return 0
        ao, aoff = self.resolve(self.conc(a, "ptr"), n, 1, False)
        bo, boff = self.resolve(self.conc(b, "ptr"), n, 1, False)
        xs = [self.cellval(x) for x in ao.cells[aoff:aoff + n]]
        ys = [self.cellval(x) for x in bo.cells[boff:boff + n]]
        xs = [self.defined(x, 8) for x in xs]
        ys = [self.defined(x, 8) for x in ys]
        if eqonly:
            X = c.concat_v([(8, x) for x in xs])
            Y = c.concat_v([(8, y) for y in ys])
            e = c.eq(8 * n, X, Y)
            return c.ite(32, e, 0, 1)
        r = 0
        for x, y in reversed(list(zip(xs, ys))):
            r = c.ite(32, c.ult(8, x, y), 0xffffffff, c.ite(32, c.ult(8, y, x), 1, r))
        return r


def short(n):
    """compressed mangled name: the last identifiers"""
    ids = re.findall(r'\d+([A-Za-z_][A-Za-z0-9_]*?)(?=\d|[A-Z]|$)', n)
    if not n.startswith('_R'):
        return n
    out = []
    i = 0
    while i < len(n):
        m = re.match(r'(\d+)_?', n[i:])
        if m and int(m.group(1)) > 1:
            k = int(m.group(1))
            s = n[i + len(m.group(0)):i + len(m.group(0)) + k]
            if len(s) == k and re.match(r'^[A-Za-z_][A-Za-z0-9_]*$', s):
                out.append(s)
                i += len(m.group(0)) + k
                continue
        i += 1
    return "::".join(out[-3:]) if out else n
