"""z3 back end: term translation, solver-proved merging (sweeping), rewrite
certification, path control and final obligations."""
import hashlib
import time
import z3
from terms import Term, Arr, Ctx, evalop_vec, show


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.lemmas = 0          # distinct local lemma shapes proved
        self.lemma_hits = 0      # instances discharged by an already proved shape
        self.merges = 0
        self.rewrite_lemmas = 0
        self.rewrite_instances = 0
        self.obligations = 0
        self.ob_merged = 0       # both sides became the same DAG node
        self.ob_solver = 0       # needed a dedicated query
        self.paths = 0
        self.forks = 0
        self.steps = 0
        self.restarts = 0
        self.max_query_s = 0.0

    def add(self, o):
        for k, v in o.__dict__.items():
            if k == "max_query_s":
                self.max_query_s = max(self.max_query_s, v)
            else:
                setattr(self, k, getattr(self, k) + v)


class LemmaFailed(Exception):
    """a rewriting step of the term builder was refuted: engine bug"""


def zconst(v, w):
    return z3.BitVecVal(v, w)


def zop(op, w, aux, zs, ws):
    """z3 expression for an operator over z3 args (ws = widths of args)"""
    if op == "add":
        r = zs[0]
        for x in zs[1:]:
            r = r + x
        if aux:
            r = r + zconst(aux, w)
        return r
    if op == "xor":
        return zs[0] ^ zs[1]
    if op == "and":
        return zs[0] & zs[1]
    if op == "or":
        return zs[0] | zs[1]
    if op == "xorc":
        return zs[0] ^ zconst(aux, w)
    if op == "andc":
        return zs[0] & zconst(aux, w)
    if op == "orc":
        return zs[0] | zconst(aux, w)
    if op == "not":
        return ~zs[0]
    if op == "neg":
        return -zs[0]
    if op == "mul":
        return zs[0] * zs[1]
    if op == "concat":
        return z3.Concat(*reversed(zs)) if len(zs) > 1 else zs[0]
    if op == "extract":
        return z3.Extract(aux + w - 1, aux, zs[0])
    if op == "ite":
        return z3.If(zs[0] == zconst(1, 1), zs[1], zs[2])
    if op == "eq":
        return z3.If(zs[0] == zs[1], zconst(1, 1), zconst(0, 1))
    if op == "ult":
        return z3.If(z3.ULT(zs[0], zs[1]), zconst(1, 1), zconst(0, 1))
    if op == "slt":
        return z3.If(zs[0] < zs[1], zconst(1, 1), zconst(0, 1))
    if op == "sext":
        return z3.SignExt(w - ws[0], zs[0])
    if op == "shl":
        return zs[0] << zs[1]
    if op == "lshr":
        return z3.LShR(zs[0], zs[1])
    if op == "ashr":
        return zs[0] >> zs[1]
    if op == "ctpop":
        return z3.Sum(*[z3.ZeroExt(w - 1, z3.Extract(i, i, zs[0])) for i in range(w)])
    if op == "udiv":
        return z3.UDiv(zs[0], zs[1])
    if op == "urem":
        return z3.URem(zs[0], zs[1])
    if op == "sdiv":
        return zs[0] / zs[1]
    if op == "srem":
        return z3.SRem(zs[0], zs[1])
    # raw forms only used by rewrite certification
    if op == "sub":
        return zs[0] - zs[1]
    if op == "zext":
        return z3.ZeroExt(w - ws[0], zs[0])
    if op == "fshl":
        n = z3.ZeroExt(w, z3.URem(zs[2], zconst(w, w)))
        return z3.Extract(2 * w - 1, w, z3.Concat(zs[0], zs[1]) << n)
    if op == "fshr":
        n = z3.ZeroExt(w, z3.URem(zs[2], zconst(w, w)))
        return z3.Extract(w - 1, 0, z3.LShR(z3.Concat(zs[0], zs[1]), n))
    raise NotImplementedError(op)


def argwidths(u):
    """widths of u.args (needed when an arg is a Python int)"""
    op = u.op
    if op == "concat":
        return u.aux
    if op in ("eq", "ult", "slt"):
        return (u.aux, u.aux)
    if op == "ite":
        return (1, u.w, u.w)
    if op in ("extract", "sext"):
        return (u.args[0].w,)
    return (u.w,) * len(u.args)


class Translator:
    """full translation of terms to z3 (variables by name)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.cache = {}
        self.acache = {}

    def tr(self, t, w=None):
        if type(t) is int:
            return zconst(t, w)
        c = self.cache
        stack = [t]
        while stack:
            u = stack[-1]
            if u in c or (type(u) is Arr and u in self.acache):
                stack.pop()
                continue
            if type(u) is Arr:
                pend = [x for x in u.args if type(x) is not int and x not in c and x not in self.acache]
                if u.kind == "node":
                    # flatten a whole tree at once
                    leaves = []

                    def walk(a):
                        for x in a.args:
                            if type(x) is Arr:
                                walk(x)
                            else:
                                leaves.append(x)
                    walk(u)
                    pend = [x for x in leaves if type(x) is Term and x not in c]
                    if pend:
                        stack.extend(pend)
                        continue
                    nb = u.n.bit_length() - 1
                    arr = z3.K(z3.BitVecSort(nb), zconst(0, u.ew))
                    for i, x in enumerate(leaves):
                        arr = z3.Store(arr, zconst(i, nb), zconst(x, u.ew) if type(x) is int else c[x])
                    self.acache[u] = arr
                    stack.pop()
                    continue
                if pend:
                    stack.extend(pend)
                    continue
                nb = u.n.bit_length() - 1
                base = self.acache[u.args[0]]

                def v(x, w):
                    return zconst(x, w) if type(x) is int else c[x]
                i, j = v(u.args[1], nb), u.args[2]
                if u.kind == "store":
                    self.acache[u] = z3.Store(base, i, v(j, u.ew))
                else:
                    j = v(j, nb)
                    self.acache[u] = z3.Store(z3.Store(base, i, z3.Select(base, j)), j, z3.Select(base, i))
                stack.pop()
                continue
            if u.op == "var":
                c[u] = z3.BitVec(u.aux, u.w)
                stack.pop()
                continue
            pend = [a for a in u.args if type(a) is Term and a not in c]
            if u.op == "select" and u.aux not in self.acache:
                pend.append(u.aux)
            if pend:
                stack.extend(pend)
                continue
            if u.op == "select":
                nb = u.aux.n.bit_length() - 1
                i = u.args[0]
                c[u] = z3.Select(self.acache[u.aux], zconst(i, nb) if type(i) is int else c[i])
            else:
                ws = argwidths(u)
                c[u] = zop(u.op, u.w, u.aux,
                           [zconst(a, ws[i]) if type(a) is int else c[a] for i, a in enumerate(u.args)], ws)
            stack.pop()
        return c[t]


class Raw:
    """unsimplified operator application, only for rewrite lemmas"""
    __slots__ = ("op", "w", "aux", "args", "id", "aw")

    def __init__(self, op, w, aux, args, aw):
        self.op = op
        self.w = w
        self.aux = aux
        self.args = args
        self.aw = aw
        self.id = 0


LEMMAS = {}     # shape key -> True (proved) / ('sat', None) / None unknown ; per process


def shape(n1, n2, depth, expand_common, limit=4000):
    """Joint cut-based shape of two nodes.

    Returns (key, leaves, complete): key is a canonical description in which
    leaves are numbered variables; complete is True if every leaf is an input
    variable or the cones were expanded entirely."""
    def reach(r):
        seen = {r: 0}
        frontier = [r]
        d = 0
        while frontier and d < depth:
            nxt = []
            for u in frontier:
                for a in u.args:
                    if type(a) is Term and a not in seen:
                        seen[a] = d + 1
                        nxt.append(a)
            frontier = nxt
            d += 1
            if len(seen) > limit:
                return None
        return seen
    s1 = reach(n1)
    s2 = reach(n2) if type(n2) is not int else {}
    if s1 is None or s2 is None:
        return None
    if expand_common:
        common = set()
        s1 = s2 = {u: min(s1.get(u, 10 ** 9), s2.get(u, 10 ** 9)) for u in set(s1) | set(s2)}
    else:
        common = set(s1) & set(s2)
    common.discard(n1)
    common.discard(n2)
    num = {}
    out = []
    leaves = []
    arrs = {}
    complete = [True]

    def visit(r, seen):
        stack = [r]
        while stack:
            u = stack[-1]
            if u in num:
                stack.pop()
                continue
            leaf = (type(u) is Term and u.op == "var") or u in common or seen.get(u, 10 ** 9) >= depth
            if u is n1 or u is n2:
                leaf = type(u) is Term and u.op == "var"
            if leaf:
                num[u] = len(out)
                out.append(("L", u.w, len(leaves)))
                leaves.append(u)
                if u.op != "var":
                    complete[0] = False
                stack.pop()
                continue
            pend = [a for a in u.args if type(a) is not int and a not in num]
            if pend:
                stack.extend(reversed(pend))
                continue
            aux = u.aux
            if u.op == "select":
                complete[0] = False
                aux = ("A", arrs.setdefault(u.aux, len(arrs)), u.aux.n)
            if type(u) is Raw:
                ws = u.aw
            else:
                ws = None
            num[u] = len(out)
            out.append((u.op, u.w, aux, tuple([("c", a) if type(a) is int else num[a] for a in u.args]), ws))
            stack.pop()
    visit(n1, s1)
    if type(n2) is int:
        r2 = ("c", n2)
    else:
        visit(n2, s2)
        r2 = num[n2]
    key = (tuple(out), num[n1], r2)
    return key, leaves, complete[0]


def lemma_z3(key):
    """key -> (z3 disequality, leaf vars)"""
    out, r1, r2 = key
    zs = []
    lv = []
    for e in out:
        if e[0] == "L":
            v = z3.BitVec("l%d" % e[2], e[1])
            zs.append((v, e[1]))
            lv.append(v)
            continue
        op, w, aux, args, ws = e
        if op == "select":
            nb = aux[2].bit_length() - 1
            A = z3.Array("A%d" % aux[1], z3.BitVecSort(nb), z3.BitVecSort(w))
            a = args[0]
            zs.append((z3.Select(A, zconst(a[1], nb) if type(a) is tuple else zs[a][0]), w))
            continue
        if ws is None:
            if op == "concat":
                ws = aux
            elif op in ("eq", "ult", "slt"):
                ws = (aux, aux)
            elif op == "ite":
                ws = (1, w, w)
            else:
                ws = tuple(w if type(a) is tuple else zs[a][1] for a in args)
        zs.append((zop(op, w, aux, [zconst(a[1], ws[i]) if type(a) is tuple else zs[a][0]
                                    for i, a in enumerate(args)], ws), w))
    e1, w1 = zs[r1]
    e2 = zconst(r2[1], w1) if type(r2) is tuple else zs[r2][0]
    return e1 != e2, lv


class Solver:
    """z3 wrapper with statistics and per-query timeout"""

    def __init__(self, stats, timeout_ms=10000):
        self.stats = stats
        self.timeout = timeout_ms

    def check(self, *assertions, timeout=None, want_model=True, logic=None):
        s = z3.SolverFor(logic) if logic else z3.Solver()
        s.set("timeout", int(timeout or self.timeout))
        for a in assertions:
            s.add(a)
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t0
        st = self.stats
        st.queries += 1
        st.solver_s += dt
        st.max_query_s = max(st.max_query_s, dt)
        if r == z3.unsat:
            st.unsat += 1
            return "unsat", None
        if r == z3.sat:
            st.sat += 1
            if not want_model:
                return "sat", None
            m = s.model()
            return "sat", m
        st.unknown += 1
        return "unknown", None


class Refine(Exception):
    """restart the path with an extra sample (a model that separates two
    nodes that agreed on all samples)"""

    def __init__(self, model):
        self.model = model


def bvvars(exprs):
    """the bit-vector variables of z3 expressions, by name"""
    vs = {}
    todo = list(exprs)
    seen = set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(e):
            vs[e.decl().name()] = e
        todo.extend(e.children())
    return vs


class PoolModel(dict):
    """a sample with some values replaced"""

    def __init__(self, ctx, k):
        super().__init__()
        self.ctx = ctx
        self.k = k

    def get(self, name, default=None):
        if name in self:
            return self[name]
        v = self.ctx.vars.get(name)
        return self.ctx.sig(v)[self.k] if v is not None else 0


class RandModel(PoolModel):
    """a sample with everything the path condition does not mention drawn anew"""

    def __init__(self, ctx, k, keep):
        super().__init__(ctx, k)
        self.keep = keep

    def get(self, name, default=None):
        if name in self:
            return self[name]
        if name in self.keep or name not in self.ctx.vars:
            return PoolModel.get(self, name)
        w = self.ctx.vars[name].w
        d = hashlib.shake_128(("%s/%d/pool%d" % (name, w, self.k)).encode()).digest((w + 7) // 8)
        self[name] = v = int.from_bytes(d, "little") & ((1 << w) - 1)
        return v


class Sweeper:
    """online solver-proved merging of equal-signature nodes"""
    SKIP = {"var"}
    MAX_MODELS = 600

    def __init__(self, ctx, solver, pc=None, min_w=8, budget_s=60.0):
        self.ctx = ctx
        self.solver = solver
        self.reps = {}
        self.min_w = min_w
        self.active = False       # False: only register
        self.budget = budget_s
        self.spent = 0.0
        self.failed = set()
        self.pc = pc or []
        self.nfail = 0
        self.models = []
        self._pcvars = None
        self._pcdata = None
        self.pool = []
        self.pooled = False
        self.sep = None
        self.order = []
        self.hard = {}
        self.full = False
        self.probed = set()
        self.pcl = {}

    def new_node(self, t):
        if t.w < self.min_w or (t.op == "extract" and t.w <= 8):
            return t
        sig = self.ctx.sig(t)
        key = (t.w, sig)
        rs = self.reps.get(key)
        on = self.active or self.pc_data()
        if rs is None:
            v0 = sig[0]
            if on and all(x == v0 for x in sig):
                if self.try_equal(t, v0):
                    t.rep = v0
                    self.solver.stats.merges += 1
                    return v0
            self.reps[key] = [[t]]
            return t
        # terms the samples cannot tell apart: a decision tree over further
        # inputs leads to the ones t may be equal to
        if len(rs) == 3:                    # [split on, {value: sub-list}, None]
            while len(rs) == 3:
                rs = rs[1].setdefault(self.ctx.evaluate(t, *self.pool[rs[0]]), [[]])
        if on:
            k = 0
            while k < len(rs[0]):
                r = rs[0][k]
                if k == 0 and 2 <= len(rs[0]) <= 6:
                    # several candidates: one that a proved lemma covers first
                    for x in rs[0]:
                        if self.known(t, x):
                            t.rep = x
                            self.solver.stats.merges += 1
                            return x
                self.sep = None
                try:
                    same = self.try_equal(t, r)
                except Refine as e:
                    # distinct after all: keep both, and let the model tell
                    # such pairs apart from now on
                    same = False
                    m = PoolModel(self.ctx, 0)
                    m.update(e.model)
                    self.models.append(e.model)
                    self.pool.append((m, {}))
                    if len(self.models) >= self.MAX_MODELS:
                        raise Refine(self.models)
                    if self.ctx.evaluate(t, m, self.pool[-1][1]) != self.ctx.evaluate(r, m, self.pool[-1][1]):
                        self.sep = len(self.pool) - 1
                if same:
                    t.rep = r
                    self.solver.stats.merges += 1
                    return r
                if self.sep is None:
                    k += 1
                    continue
                sub = {}
                for x in rs[0]:
                    sub.setdefault(self.ctx.evaluate(x, *self.pool[self.sep]), [[]])[0].append(x)
                rs[:] = [self.sep, sub, None]
                rs = sub.setdefault(self.ctx.evaluate(t, *self.pool[self.sep]), [[]])
                k = 0
        if len(rs[0]) < (16 if t.w < 16 else 512):
            rs[0].append(t)
        return t

    def try_equal(self, t, r):
        if self.spent > self.budget or self.nfail > 400:
            return False
        t0 = time.time()
        try:
            return self._try(t, r)
        finally:
            self.spent += time.time() - t0

    def pc_data(self):
        """does the path condition say anything about the data (not just about
        the processor)?  Then the reference may collapse under it, too."""
        if self._pcdata is None:
            self._pcdata = any(not n.startswith(("cpuid.", "xcr0")) for n in self.pc_info())
        return self._pcdata

    def pc_info(self):
        if self._pcvars is None:
            self._pcvars = bvvars(self.pc)
        return self._pcvars

    def probe(self, t, r, part):
        """do the values `part` of some variables (on top of a sample) separate
        t and r?  Then raise Refine with that assignment."""
        if not part:
            return
        k = (t.id, r if type(r) is int else -r.id, tuple(sorted(part.items())))
        if k in self.probed:
            return
        self.probed.add(k)
        ctx = self.ctx
        for base in (0, ctx.K // 2):
            model = {n: ctx.sig(v)[base] for n, v in ctx.vars.items()}
            model.update(part)
            cache = {}
            if ctx.evaluate(t, model, cache) != (r if type(r) is int else ctx.evaluate(r, model, cache)):
                if self.pc:
                    sub = [(v, zconst(model[n], v.size())) for n, v in self.pc_info().items() if n in model]
                    for e in self.pc:
                        if not z3.is_true(z3.simplify(z3.substitute(e, *sub))):
                            return
                raise Refine(model)

    def wide(self, t, r):
        """do further inputs, with counters about to carry, separate t and r?"""
        ctx = self.ctx
        if not self.pooled:
            self.pooled = True
            pv = self.pc_info()
            names = [n for n in pv if n in ctx.vars and not n.startswith(("cpuid.", "xcr0"))]
            names += [n for n, v in ctx.vars.items() if v.op == "var" and v.w >= 32 and n not in pv
                      and not n.startswith(("cpuid.", "xcr0"))][:4]
            k = 0
            for n in names:
                w = ctx.vars[n].w
                for s in (32, 36, 38, 64, 68, 70):
                    if s > w or (s < w < 64):
                        continue
                    for j in range(6):
                        m = PoolModel(ctx, k % ctx.K)
                        k += 1
                        m[n] = (m.get(n) >> s << s) | ((1 << s) - 1 - (j << (s % 32)))
                        if n in pv:
                            sub = [(v, zconst(m.get(x), v.size())) for x, v in pv.items()]
                            if not all(z3.is_true(z3.simplify(z3.substitute(e, *sub))) for e in self.pc):
                                continue
                        if len(self.pool) < 64:
                            self.pool.append((m, {}))
            self.pool += [(RandModel(ctx, j % ctx.K, pv), {}) for j in range(16)]
        self.order += range(len(self.order), len(self.pool))
        for k in self.order[:-65:-1]:           # lately useful or new ones
            m, cache = self.pool[k]
            if ctx.evaluate(t, m, cache) != (r if type(r) is int else ctx.evaluate(r, m, cache)):
                self.sep = k
                self.order.remove(k)
                self.order.append(k)
                return True
        return False

    DEPTHS = ((2, False), (3, False), (3, True), (4, False), (6, False), (6, True), (12, False), (12, True),
              (40, False), (10 ** 6, True))

    def known(self, t, r, depth=2):
        """does a lemma proved before cover t == r?"""
        for d, exp in self.DEPTHS[:8]:
            if d < depth:
                continue
            sh = shape(t, r, d, exp, limit=4000)
            if sh is None:
                break
            if LEMMAS.get(sh[0]) is True:
                self.solver.stats.lemma_hits += 1
                return True
        return False

    def _try(self, t, r):
        st = self.solver.stats
        # few distinct sample values: an accidental candidate is likely, so
        # only cheap local lemmas are worth a try
        shallow = not self.full and (t.w <= 8 or (not self.pc and len(set(self.ctx.sig(t))) <= 2))
        timeouts = 0
        tested = False
        k3 = None
        for depth, exp in self.DEPTHS[:4] if shallow else self.DEPTHS:
            sh = shape(t, r, depth, exp, limit=(600 if not self.pc else 2500) if depth > 100 else 4000)
            if sh is None:
                break
            key, leaves, complete = sh
            if k3 is None or depth <= 3:
                k3 = key
            p = LEMMAS.get(key)
            if p is True:
                st.lemma_hits += 1
                return True
            if not tested and (depth > 3 or complete):
                tested = True
                if self.known(t, r, 4):
                    return True
                if self.wide(t, r):
                    return False
                hard = self.hard.get(k3, 0)
                if hard >= 3 and not self.full:
                    return False            # three like it could not be decided
            if p is None:
                ne, lv = lemma_z3(key)
                res, m = self.solver.check(ne, timeout=(500 if shallow else 3000) if not complete else 8000)
                if res == "unsat":
                    LEMMAS[key] = True
                    st.lemmas += 1
                    return True
                p = LEMMAS[key] = [m.eval(v, model_completion=True).as_long() for v in lv] if res == "sat" else res
            if p == "unknown":
                timeouts += 1
                if timeouts >= 3 or complete:
                    break
                continue
            part = {l.aux: x for l, x in zip(leaves, p) if l.op == "var"}
            if not self.pc:
                if complete:
                    raise Refine(part)
                self.probe(t, r, part)
                continue
            # the same lemma under the path condition (var leaves by name)
            pv = self.pc_info()
            if not any(n in pv for n in part):
                if complete:
                    raise Refine(part)      # independent of the path condition
                self.probe(t, r, part)
                continue
            pk = (key, tuple(l.aux if l.op == "var" else None for l in leaves))
            q = self.pcl.get(pk)
            if q is None:
                ne, lv = lemma_z3(key)
                sub = [(v, z3.BitVec(l.aux, l.w)) for v, l in zip(lv, leaves) if l.op == "var"]
                res, m = self.solver.check(z3.substitute(ne, *sub), *self.pc, timeout=(500 if shallow else 3000) if not complete else 8000)
                q = res
                if res == "sat":
                    q = {n: m.eval(v, model_completion=True).as_long() for n, v in pv.items()}
                    q.update({l.aux: m.eval(z3.BitVec(l.aux, l.w), model_completion=True).as_long()
                              for l in leaves if l.op == "var"})
                self.pcl[pk] = q
            if q == "unsat":
                return True
            if q == "unknown":
                timeouts += 1
                if timeouts >= 3 or complete:
                    break
                continue
            if complete:
                raise Refine(q)
            self.probe(t, r, q)
        if not shallow:
            self.nfail += 1
            if timeouts:
                self.hard[k3] = self.hard.get(k3, 0) + 1
        return False


def model_dict(ctx, m):
    out = {}
    for d in m.decls():
        v = m[d]
        if isinstance(v, z3.BitVecNumRef):
            out[d.name()] = v.as_long()
    return out


class CertCtx(Ctx):
    """Ctx whose rewriting steps are discharged by the solver: every distinct
    shape of (operator applied to arguments) == (canonical result) is a lemma
    over bit-vectors of the actual widths, proved by z3 before it is used."""

    def __init__(self, solver, **kw):
        super().__init__(**kw)
        self.solver = solver
        self._in = False
        self._seen = set()

    def post(self, r):
        """replaces proved-equal subterms and offers r to the sweeper"""
        if type(r) is int:
            return r
        if r.rep is not None:
            return self.find(r)
        if r.reg:
            return r
        if r.op == "var":
            return r
        for a in r.args:
            if type(a) is Term and a.rep is not None:
                r2 = self.rebuild(r)
                if r2 is not r:
                    r.reg = True
                    r.rep = r2
                    return r2
                break
        r.reg = True
        if self.sweeper is not None:
            return self.sweeper.new_node(r)
        return r

    def rebuild(self, r):
        """r with its arguments replaced by their (proved equal) representatives"""
        a = [self.find(x) if type(x) is Term else x for x in r.args]
        op, w = r.op, r.w
        if op == "concat":
            return self.concat_v(list(zip(r.aux, a)))
        if op == "extract":
            return self.extract(a[0], r.args[0].w, r.aux, w)
        if op == "sext":
            return self.sext(r.args[0].w, w, a[0])
        if op == "ite":
            return self.ite(w, *a)
        if op in ("eq", "ult", "slt"):
            return getattr(self, op)(r.aux, *a)
        if op == "select":
            return self.select(r.aux, None, a[0])
        if op in ("xorc", "andc", "orc"):
            return getattr(self, {"xorc": "xor", "andc": "band", "orc": "bor"}[op])(w, a[0], r.aux)
        if op == "add":
            x = a[0] if len(a) == 1 else self.add(w, a[0], a[1])
            return self.add(w, x, r.aux) if r.aux else x
        if op in ("not", "neg"):
            return getattr(self, {"not": "bnot", "neg": "neg"}[op])(w, a[0])
        return getattr(self, {"and": "band", "or": "bor"}.get(op, op))(w, a[0], a[1])

    def array_axioms(self, n, ew):
        """the array rewrites used by select/store, proved once per array sort"""
        key = ("array", n, ew)
        if LEMMAS.get(key):
            return
        nb = n.bit_length() - 1
        A = z3.Array("A", z3.BitVecSort(nb), z3.BitVecSort(ew))
        i, j, k = z3.BitVecs("i j k", nb)
        v, w = z3.BitVecs("v w", ew)
        S, R = z3.Store, z3.Select
        sw = S(S(A, i, R(A, j)), j, R(A, i))
        facts = [
            R(S(A, i, v), i) == v,
            z3.Implies(i != k, R(S(A, i, v), k) == R(A, k)),
            S(S(A, i, v), i, w) == S(A, i, w),
            S(A, i, R(A, i)) == A,
            S(S(A, j, R(A, i)), i, R(A, j)) == sw,
            R(sw, i) == R(A, j),
            R(sw, j) == R(A, i),
            z3.Implies(z3.And(k != i, k != j), R(sw, k) == R(A, k)),
        ]
        for f in facts:
            r, _ = self.solver.check(z3.Not(f), timeout=20000, want_model=False)
            if r != "unsat":
                raise LemmaFailed("array axiom")
            self.solver.stats.rewrite_lemmas += 1
        LEMMAS[key] = True

    def select(self, a, iw, idx):
        if self._in:
            return Ctx.select(self, a, iw, idx)
        self.array_axioms(a.n, a.ew)
        idx = self.nidx(a, idx)
        self._in = True
        try:
            r = Ctx.select(self, a, iw, idx)
        finally:
            self._in = False
        return self.post(r)

    def store(self, a, iw, idx, v):
        if self._in:
            return Ctx.store(self, a, iw, idx, v)
        self.array_axioms(a.n, a.ew)
        idx = self.nidx(a, idx)
        self._in = True
        try:
            return Ctx.store(self, a, iw, idx, v)
        finally:
            self._in = False

    def _prof(self, a):
        return a if type(a) is int else (a.op, a.w, a.aux if type(a.aux) is not Arr else 0, len(a.args))

    def ac_axioms(self, w):
        """the laws the normal form of sums relies on, proved per width"""
        key = ("ac", w)
        if LEMMAS.get(key):
            return
        x, y, z = z3.BitVecs("x y z", w)
        for f in (x + y == y + x, (x + y) + z == x + (y + z), x + zconst(0, w) == x):
            r, _ = self.solver.check(z3.Not(f), timeout=60000, want_model=False)
            if r != "unsat":
                raise LemmaFailed("sum axiom")
            self.solver.stats.rewrite_lemmas += 1
        LEMMAS[key] = True

    @staticmethod
    def ac_equal(w, args, res):
        """are sum(args) and res the same sum of atoms and constant (two levels)?"""
        def flat(t, d, acc):
            if type(t) is int:
                return t
            if t.op == "add" and d:
                c = t.aux
                for x in t.args:
                    c += flat(x, d - 1, acc)
                return c
            acc[t] = acc.get(t, 0) + 1
            return 0
        m = (1 << w) - 1
        for d in (1, 2):
            p, q = {}, {}
            cp = sum(flat(a, d, p) for a in args) & m
            cq = flat(res, d, q) & m
            if cp == cq and p == q:
                return True
            q = {}
            cq = flat(res, d + 1, q) & m
            if cp == cq and p == q:
                return True
        return False

    def cert(self, op, w, aux, args, aw, res):
        key = (op, w, aux) + tuple([self._prof(a) for a in args]) + (self._prof(res),)
        st = self.solver.stats
        st.rewrite_instances += 1
        if key in self._seen:
            return
        # direct construction: nothing was rewritten
        if type(res) is Term and res.op == op and res.aux == aux and res.args == tuple(args):
            self._seen.add(key)
            return
        raw = Raw(op, w, aux, tuple(args), aw)
        if op == "add" and self.ac_equal(w, args, res):
            self.ac_axioms(w)
            return
        for depth, exp in ((2, False), (3, False), (2, True), (3, True), (4, False), (4, True), (6, False), (6, True),
                           (9, False), (9, True), (14, True)):
            sh = shape(raw, res, depth, exp)
            if sh is None:
                continue
            lk = sh[0]
            p = LEMMAS.get(lk)
            if p is True:
                break
            if p is None:
                ne, _ = lemma_z3(lk)
                r, m = self.solver.check(ne, timeout=10000, want_model=False)
                if r == "unsat":
                    LEMMAS[lk] = True
                    st.rewrite_lemmas += 1
                    break
                LEMMAS[lk] = r
        else:
            raise LemmaFailed("rewrite not certified: %s/%d %s -> %s" % (op, w, [show(a) for a in args], show(res)))
        self._seen.add(key)


OPNAME = {"band": "and", "bor": "or", "bnot": "not", "concat_v": "concat"}


def _wrap(name, kind):
    base = getattr(Ctx, name)
    op = OPNAME.get(name, name)

    def top(self, r, fargs, args, aux, w, aw):
        """certifies the rewriting r of (op, args), then canonicalises r"""
        if type(r) is int and all(type(a) is int for a in args):
            return r
        self.cert(op, w, aux, args, aw, r)
        return self.post(r)

    if kind == "bin":
        cmp = name in ("eq", "ult", "slt")

        def f(self, w, a, b):
            if self._in or (type(a) is int and type(b) is int):
                return base(self, w, a, b)
            self._in = True
            try:
                r = base(self, w, a, b)
            finally:
                self._in = False
            return top(self, r, None, (a, b), w if cmp else 0, 1 if cmp else w, (w, w))
    elif kind == "un":
        def f(self, w, a):
            if self._in or type(a) is int:
                return base(self, w, a)
            self._in = True
            try:
                r = base(self, w, a)
            finally:
                self._in = False
            return top(self, r, None, (a,), 0, w, (w,))
    elif kind == "fsh":
        def f(self, w, a, b, n):
            if self._in or (type(a) is int and type(b) is int and type(n) is int):
                return base(self, w, a, b, n)
            self._in = True
            try:
                r = base(self, w, a, b, n)
            finally:
                self._in = False
            return top(self, r, None, (a, b, n), 0, w, (w, w, w))
    elif kind == "ite":
        def f(self, w, c, a, b):
            if self._in or type(c) is int:
                return base(self, w, c, a, b)
            self._in = True
            try:
                r = base(self, w, c, a, b)
            finally:
                self._in = False
            return top(self, r, None, (c, a, b), 0, w, (1, w, w))
    elif kind == "ext":
        def f(self, fw, tw, a):
            if self._in or type(a) is int or fw == tw:
                return base(self, fw, tw, a)
            self._in = True
            try:
                r = base(self, fw, tw, a)
            finally:
                self._in = False
            return top(self, r, None, (a,), 0, tw, (fw,))
    elif kind == "extract":
        def f(self, v, vw, lo, w):
            if self._in or type(v) is int or w == vw:
                return base(self, v, vw, lo, w)
            self._in = True
            try:
                r = base(self, v, vw, lo, w)
            finally:
                self._in = False
            return top(self, r, None, (v,), lo, w, (vw,))
    elif kind == "concat":
        def f(self, ps):
            if self._in:
                return base(self, ps)
            self._in = True
            try:
                r = base(self, ps)
            finally:
                self._in = False
            if type(r) is int or len(ps) < 2:
                return r
            ws = tuple(p[0] for p in ps)
            return top(self, r, None, tuple(p[1] for p in ps), ws, sum(ws), ws)
    return f


for _n in ("add", "sub", "mul", "xor", "band", "bor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem",
           "eq", "ult", "slt"):
    setattr(CertCtx, _n, _wrap(_n, "bin"))
for _n in ("bnot", "neg", "ctpop"):
    setattr(CertCtx, _n, _wrap(_n, "un"))
for _n in ("fshl", "fshr"):
    setattr(CertCtx, _n, _wrap(_n, "fsh"))
CertCtx.ite = _wrap("ite", "ite")
CertCtx.zext = _wrap("zext", "ext")
CertCtx.sext = _wrap("sext", "ext")
CertCtx.extract = _wrap("extract", "extract")
CertCtx.concat_v = _wrap("concat_v", "concat")


class Fork(Exception):
    """both sides of a condition are feasible: the driver explores both"""

    def __init__(self, z):
        self.z = z


class Inconclusive(Exception):
    pass


class PathControl:
    """decides symbolic branches along one path.  `assume` is the path
    condition (z3); every sample of ctx satisfies it, so a sample is a witness
    that a side is feasible.  A branch with two feasible sides raises Fork."""

    def __init__(self, ctx, solver, assume=(), timeout=20000):
        self.ctx = ctx
        self.solver = solver
        self.pc = list(assume)
        self.tr = Translator(ctx)
        self.timeout = timeout
        self.cache = {}
        self.implied = 0

    def decide(self, ex, cond, why):
        ctx = self.ctx
        cond = ctx.find(cond)
        if type(cond) is int:
            return bool(cond)
        k = self.cache.get(cond)
        if k is not None:
            return k
        if cond.op == "not":
            r = not self.decide(ex, cond.args[0], why)
            self.cache[cond] = r
            return r
        z = self.tr.tr(cond) == zconst(1, 1)
        sig = ctx.sig(cond)
        can_t, can_f = 1 in sig, 0 in sig
        if not can_f:
            r, _ = self.solver.check(*self.pc, z3.Not(z), timeout=self.timeout, want_model=False)
            can_f = r != "unsat"
        elif not can_t:
            r, _ = self.solver.check(*self.pc, z, timeout=self.timeout, want_model=False)
            can_t = r != "unsat"
        if can_t and can_f:
            self.solver.stats.forks += 1
            raise Fork(z)
        self.implied += 1
        self.cache[cond] = can_t
        return can_t
