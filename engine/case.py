"""Cases: one symbolic execution problem each, explored path by path.

A case is a function f(P).  The same function is run symbolically (P is Sym:
reference terms against the terms the executor derives from the IR) and, for
the replay of counterexamples and for trace validation, concretely against the
natively compiled code (P is Conc)."""
import os
import random
import sys
import time
import traceback

import z3

import build
import native
from cpu import Cpu
from execir import Executor, PanicOut, UBOut, Outcome, Unsupported
from irparse import Module
from solve import (CertCtx, Fork, Inconclusive, LemmaFailed, PathControl, Refine, Solver, Stats, Sweeper, Translator,
                   bvvars, model_dict, zconst)
from terms import Ctx, Term, Arr

_modules = {}


def module(cfg):
    ll = build.build_ir(cfg)
    m = _modules.get(ll)
    if m is None:
        m = _modules[ll] = Module(open(ll).read())
    return m


class Violation(Exception):
    def __init__(self, model, label, detail=""):
        self.model = model
        self.label = label
        self.detail = detail


class Buf:
    def __init__(self, vals, align, skew, name):
        self.vals = list(vals)
        self.align = align
        self.skew = skew
        self.name = name
        self.obj = None

    def __len__(self):
        return len(self.vals)


class Res:
    """outcome of a call: kind ok/panic/ub, ret, and the buffers are updated"""

    def __init__(self, kind, ret, why=""):
        self.kind = kind
        self.ret = ret
        self.why = why


class CT:
    """constant-time monitor: no branch and no memory address may depend on a
    secret (a condition that the path condition decides is no branch)"""

    def __init__(self, P, secret):
        self.P = P
        self.secret = secret

    def leak(self, t, what, ex):
        P = self.P
        c = P.c
        if type(t) is not Term or not c.depends_on(t, self.secret):
            return
        base = P.fixed_model(0)
        v0 = c.evaluate(t, base, {})
        for k in range(1, c.K):
            alt = dict(base)
            for n, v in c.vars.items():
                if self.secret(n):
                    alt[n] = c.sig(v)[k]
            if c.evaluate(t, alt, {}) != v0:
                m = dict(base)
                m.update({"alt:" + n: x for n, x in alt.items() if self.secret(n)})
                raise Violation(m, "%s depends on a secret @ %s" % (what, ex.where()))
        # two assignments of the secrets, the same public values
        tr = P.path.tr
        z = tr.tr(t)
        vs = [(v, z3.BitVec(v.aux, v.w)) for v in c.vars.values() if self.secret(v.aux)]
        sub = [(x, z3.BitVec("alt:" + v.aux, v.w)) for v, x in vs]
        pc2 = [z3.substitute(e, *sub) for e in P.path.pc]
        r, m = P.solver.check(*P.path.pc, *pc2, z != z3.substitute(z, *sub), timeout=20000)
        if r == "unsat":
            return
        if r == "unknown":
            raise Inconclusive("constant-time query timed out")
        base.update(model_dict(c, m))
        raise Violation(base, "%s depends on a secret @ %s" % (what, ex.where()))

    def branch(self, ex, t):
        self.leak(t, "branch", ex)

    def symaccess(self, ex, addr):
        self.leak(addr, "memory address", ex)


class Base:
    """operations common to both modes"""

    def bytes(self, name, n):
        return [self.var("%s%d" % (name, i), 8) for i in range(n)]

    def words(self, name, n):
        return [self.var("%s%d" % (name, i), 32) for i in range(n)]

    def word64(self, name):
        return self.c.concat_v([(32, self.var(name + "lo", 32)), (32, self.var(name + "hi", 32))])

    def buf(self, vals, align=1, skew=0, name="buf"):
        return Buf(vals, align, skew, name)

    def u64s(self, vals, name="ops"):
        """buffer of native-endian u64 values"""
        out = []
        for v in vals:
            bs = [self.c.extract(v, 64, 8 * i, 8) for i in range(8)]
            if self.bigendian:
                bs.reverse()
            out += bs
        return Buf(out, 8, 0, name)

    def u64at(self, buf, i):
        bs = buf.vals[8 * i:8 * i + 8]
        if self.bigendian:
            bs = bs[::-1]
        return self.c.concat_v([(8, b) for b in bs])

    def eq(self, w, a, b):
        return self.c.eq(w, a, b)

    cpu = None

    def any_cpu(self):
        """the processor's features are symbolic"""
        self.cpu = Cpu(self)

    def count(self):
        pass

    def check_bytes(self, label, got, exp):
        assert len(got) == len(exp), label
        for i, (g, e) in enumerate(zip(got, exp)):
            self.check("%s[%d]" % (label, i), g, e, 8)

    def expect_ok(self, r, label="outcome"):
        if r.kind != "ok":
            self.fail("%s: %s %s" % (label, r.kind, r.why))


class Sym(Base):
    conc = False

    def __init__(self, case, ctx, solver, path, sweeper, mod, stats):
        self.case = case
        self.c = ctx
        self.solver = solver
        self.path = path
        self.sweeper = sweeper
        self.mod = mod
        self.bigendian = mod.bigendian
        self.stats = stats
        self.funcs = {}
        self.ct = None
        self.pending = []
        self.reached = set()

    def var(self, name, w):
        return self.c.var(name, w)

    def cond(self, t):
        if type(t) in (int, bool):
            return bool(t)
        return self.path.decide(None, t, "spec")

    def fixed_model(self, k):
        m = {n: self.c.sig(t)[k] for n, t in self.c.vars.items() if t.op == "var"}
        m.update(self.c.fixed)
        return m

    def fail(self, label):
        raise Violation(self.fixed_model(0), label)

    def call(self, fn, args, rw=64):
        f = self.mod.funcs.get(fn)
        if f is None:
            raise Unsupported("harness function %s not found in the IR" % fn)
        if len(f.params) != len(args):
            raise Unsupported("harness function %s takes %d arguments" % (fn, len(f.params)))
        ex = Executor(self.mod, self.c, self.path)
        ex.ct = self.ct
        if self.cpu is not None:
            self.cpu.start(self.mod, f)
            ex.cpu = self.cpu
        for g in self.mod.globals:
            if "STORAGE" in g:
                v = build.token_value(g, self.case.cfg.tokens)
                if v is not None:
                    ex.obj_of(self.mod.addr(g)).cells[0] = v
        av = []
        bufs = []
        for a in args:
            if isinstance(a, Buf):
                cells = []
                for v in a.vals:
                    cells.append(v if type(v) is int or v is None else (v, 0))
                o = ex.alloc(len(cells), max(a.align, 1), a.name, cells, skew=a.skew)
                a.obj = o
                av.append(o.base)
                bufs.append(a)
            else:
                av.append(a)
        self.sweeper.active = self.case.sweep
        kind, ret, why = "ok", None, ""
        try:
            ret = ex.call(f, av)
        except PanicOut as e:
            kind, why = "panic", str(e)
        except UBOut as e:
            kind, why = "ub", str(e)
        finally:
            self.sweeper.active = False
            self.stats.steps += ex.steps
            for n, k in ex.funcs_seen.items():
                self.funcs[n] = self.funcs.get(n, 0) + k
        self.lastex = ex
        if kind == "ok":
            for b in bufs:
                b.vals = [ex.cellval(x) for x in b.obj.cells]
        if kind == "ub":
            raise Violation(self.fixed_model(0), "undefined behaviour / unsafe precondition: " + why)
        return Res(kind, ret, why)

    def constant_time(self, secret):
        self.ct = CT(self, secret)

    def independent(self, label, vals, secret):
        """every value must be a function of the public inputs alone"""
        c = self.c
        for i, t in enumerate(vals):
            self.stats.obligations += 1
            t = c.find(t) if type(t) is Term else t
            if type(t) is not Term or not c.depends_on(t, secret):
                self.stats.ob_merged += 1
                continue
            base = self.fixed_model(0)
            v0 = c.evaluate(t, base, {})
            for k in range(1, c.K):
                alt = dict(base)
                alt.update({n: c.sig(v)[k] for n, v in c.vars.items() if secret(n)})
                if c.evaluate(t, alt, {}) != v0:
                    base.update({"alt:" + n: x for n, x in alt.items() if secret(n)})
                    raise Violation(base, "%s[%d] depends on a secret" % (label, i))
            z = self.path.tr.tr(t)
            sub = [(z3.BitVec(v.aux, v.w), z3.BitVec("alt:" + v.aux, v.w)) for v in c.vars.values() if secret(v.aux)]
            pc2 = [z3.substitute(e, *sub) for e in self.path.pc]
            r, m = self.solver.check(*self.path.pc, *pc2, z != z3.substitute(z, *sub), timeout=20000)
            if r == "unsat":
                self.stats.ob_solver += 1
                continue
            if r == "unknown":
                raise Inconclusive("independence query timed out")
            base.update(model_dict(c, m))
            raise Violation(base, "%s[%d] depends on a secret" % (label, i))

    def count(self):
        self.stats.obligations += 1
        self.stats.ob_solver += 1

    def mentions(self, t, secret):
        return type(t) is Term and self.c.depends_on(self.c.find(t), secret)

    def check(self, label, got, exp, w):
        self.stats.obligations += 1
        c = self.c
        if type(got) is Term:
            got = c.find(got)
        if type(exp) is Term:
            exp = c.find(exp)
        if got is exp or (type(got) is int and type(exp) is int and got == exp):
            self.stats.ob_merged += 1
            return
        if got is None:
            raise Violation(self.fixed_model(0), label, "uninitialised value in the result")
        sg, se = c.sig(got), c.sig(exp)
        for k in range(c.K):
            if sg[k] != se[k]:
                raise Violation(self.fixed_model(k), label)
        self.pending.append((label, got, exp, w))

    def finish(self):
        """discharges the obligations that are not closed by merging"""
        if not self.pending:
            return
        tr = self.path.tr
        # first try local lemmas, then a full query
        self.sweeper.full = True
        self.sweeper.budget = self.sweeper.spent + 120
        self.sweeper.nfail = 0
        for (label, got, exp, w) in self.pending:
            c = self.c
            got = c.find(got) if type(got) is Term else got
            exp = c.find(exp) if type(exp) is Term else exp
            if got is exp:
                self.stats.ob_merged += 1
                continue
            a, b = (got, exp) if type(got) is Term else (exp, got)
            if self.sweeper.try_equal(a, b):
                self.stats.ob_solver += 1
                continue
            r, m = self.solver.check(*self.path.pc, tr.tr(got, w) != tr.tr(exp, w), timeout=self.case.query_ms)
            if r == "unsat":
                self.stats.ob_solver += 1
                continue
            if r == "sat":
                md = self.fixed_model(0)
                for n in md:
                    if n not in self.c.fixed:
                        md[n] = 0
                md.update(model_dict(c, m))
                raise Violation(md, label)
            raise Inconclusive("solver timeout on %s" % label)
        self.pending = []


class Mismatch(Exception):
    pass


def holds(z, model):
    """is the condition true in the model (false if it does not say)?"""
    sub = [(z3.BitVec(n, v.size()), zconst(model[n], v.size())) for n, v in bvvars([z]).items() if n in model]
    return z3.is_true(z3.simplify(z3.substitute(z, *sub)))


class BiasedModel(dict):
    """inputs on demand: mostly random, now and then close to a boundary"""

    def __init__(self, seed):
        self.rng = random.Random(seed)

    def draw(self, w):
        r = self.rng
        if w <= 8 or r.random() < 0.6:
            return r.getrandbits(w)
        k = r.choice([x for x in (16, 24, 26, 32, 48, 58, 64, w) if x <= w])
        return ((r.getrandbits(w) << k) | ((1 << k) - 1 - r.choice([0, 1, 2, 3, 5]))) & ((1 << w) - 1)


class Conc(Base):
    """concrete run of a case: backend 'native' or 'ir'"""
    conc = True

    def __init__(self, case, model, backend="native", mod=None):
        self.case = case
        self.c = Ctx()
        self.model = model
        self.backend = backend
        self.mod = mod or module(case.cfg)
        self.bigendian = self.mod.bigendian
        self.calls = []
        self.rng = random.Random(7)
        self.secret = None
        self.trace = None
        self.obs = []
        self.second = False

    def var(self, name, w):
        v = self.model.get(name)
        if v is None:
            if isinstance(self.model, BiasedModel):
                v = self.model[name] = self.model.draw(w)
            else:
                v = self.model[name] = random.Random("%s/%d" % (name, w)).getrandbits(w)
        return v & ((1 << w) - 1)

    def cond(self, t):
        return bool(t)

    def fail(self, label):
        raise Mismatch(label)

    def call(self, fn, args, rw=64):
        rec = {"fn": fn, "args": [bytes(a.vals).hex() if isinstance(a, Buf) else a for a in args]}
        if self.backend == "native":
            nargs = [("buf", bytes(a.vals), max(a.align, 16), a.skew) if isinstance(a, Buf) else a for a in args]
            kind, ret, outs = native.call(build.build_native(self.case.cfg), fn, nargs, rw)
            if kind == "ok":
                for b, o in zip([a for a in args if isinstance(a, Buf)], outs):
                    b.vals = list(o)
            rec["outcome"] = kind
            rec["ret"] = ret
            self.calls.append(rec)
            if kind not in ("ok", "panic"):
                raise Mismatch("native run: " + kind)
            return Res(kind, ret)
        ex = Executor(self.mod, self.c, None)
        if self.cpu is not None:
            self.cpu.start(self.mod, self.mod.funcs[fn])
            ex.cpu = self.cpu
        if self.trace is not None:
            ex.trace = self.trace
        for g in self.mod.globals:
            if "STORAGE" in g:
                v = build.token_value(g, self.case.cfg.tokens)
                if v is not None:
                    ex.obj_of(self.mod.addr(g)).cells[0] = v
        av, bufs = [], []
        for a in args:
            if isinstance(a, Buf):
                o = ex.alloc(len(a.vals), max(a.align, 1), a.name, list(a.vals), skew=a.skew)
                av.append(o.base)
                bufs.append((a, o))
            else:
                av.append(a)
        kind, ret, why = "ok", None, ""
        try:
            ret = ex.call(self.mod.funcs[fn], av)
            for a, o in bufs:
                a.vals = list(o.cells)
        except PanicOut as e:
            kind, why = "panic", str(e)
        except UBOut as e:
            rec["outcome"] = "ub " + str(e)
            self.calls.append(rec)
            raise Mismatch("undefined behaviour: " + str(e))
        rec["outcome"] = kind
        rec["ret"] = ret
        self.calls.append(rec)
        return Res(kind, ret, why)

    def check(self, label, got, exp, w):
        if type(got) is not int or got != exp:
            raise Mismatch("%s: got %s expected %s" % (label, hex(got) if type(got) is int else got, hex(exp)))

    def constant_time(self, secret):
        self.secret = secret
        if self.backend == "ir":
            self.trace = []

    def independent(self, label, vals, secret):
        self.secret = secret
        self.obs.append((label, list(vals)))

    def mentions(self, t, secret):
        return True

    def finish(self):
        """two-run properties: the same run with other secrets"""
        if self.secret is None or self.second or (self.backend == "native" and not self.obs):
            return
        m = dict(self.model)
        for n in list(m):
            if not n.startswith("alt:") and self.secret(n):
                m[n] = m.get("alt:" + n, m[n] ^ 0x5a5a5a5a5a5a5a5a5a5a)
        P = Conc(self.case, m, self.backend, self.mod)
        P.second = True
        self.case.fn(P)
        if P.obs != self.obs:
            raise Mismatch("%s differs when only secrets differ" % self.obs[0][0])
        if P.trace != self.trace:
            raise Mismatch("execution trace (branches, addresses) differs when only secrets differ")


class Case:
    def __init__(self, name, cfg, fn, timeout=300, query_ms=30000, K=8, max_paths=200, native=True, key=None,
                 validate=1, sweep=True):
        self.name = name
        self.cfg = cfg
        self.fn = fn
        self.timeout = timeout
        self.query_ms = query_ms
        self.K = K
        self.max_paths = max_paths
        self.native = native and build.cpu_supports(cfg)
        self.validate = validate
        self.sweep = sweep          # look for equivalent terms while executing
        self.key = key      # identification for known findings

    # ------------------------------------------------------------ samples
    def samples(self, assume, solver, K, seed):
        """K models of the path condition, and the variables it fixes"""
        if not assume:
            return [], {}
        vs = bvvars(assume)
        rng = random.Random(seed)
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*assume)
        t0 = time.time()
        out = []
        r = s.check()
        if r == z3.unsat:
            return None, {}
        if r != z3.sat:
            raise Inconclusive("path condition not decided")

        def grab():
            m = s.model()
            return {n: m.eval(v, model_completion=True).as_long() for n, v in vs.items()}
        out.append(grab())
        names = sorted(vs)
        tries = 0
        while len(out) < K and tries < 4 * K:
            tries += 1
            s.push()
            for n in names:
                v = vs[n]
                mode = (0, 1, 1, 2, 1, 0, 1, 2)[(tries + names.index(n)) % 8] if len(out) < K - 1 else rng.randrange(3)
                if mode == 1:
                    # low bits all ones, minus a little: counters (of blocks,
                    # words or bytes) whose low half is about to carry
                    k = rng.choice([x for x in (16, 24, 28, 31, 32, 32, 36, 38, 38, 38, 48, 63, 64, 68, 70, 70)
                                    if x <= v.size()] or [0])
                    if k:
                        s.push()
                        s.add(z3.Extract(k - 1, 0, v) == (1 << k) - 1 - rng.choice([0, 0, 1, 2, 3, 4, 7, 64, 130]))
                        if s.check() != z3.sat:
                            s.pop()
                if mode == 0:
                    s.push()
                    s.add(v == rng.getrandbits(v.size()))
                    if s.check() != z3.sat:
                        s.pop()
                        # keep a few random bits
                        for b in rng.sample(range(v.size()), min(4, v.size())):
                            s.push()
                            s.add(z3.Extract(b, b, v) == rng.getrandbits(1))
                            if s.check() != z3.sat:
                                s.pop()
                else:
                    for b in rng.sample(range(v.size()), min(3, v.size())):
                        s.push()
                        s.add(z3.Extract(b, b, v) == rng.getrandbits(1))
                        if s.check() != z3.sat:
                            s.pop()
            if s.check() == z3.sat:
                out.append(grab())
            s.reset()
            s.set("timeout", 20000)
            s.add(*assume)
        while len(out) < K:
            out.append(dict(out[0]))
        fixed = {}
        for n in names:
            x = out[0][n]
            if all(o[n] == x for o in out):
                r, _ = solver.check(*assume, vs[n] != x, timeout=20000, want_model=False)
                if r == "unsat":
                    fixed[n] = x
        solver.stats.solver_s += time.time() - t0
        return out, fixed

    # ------------------------------------------------------------ exploration
    def explore(self, seed=1, deadline=None):
        """-> dict(result)"""
        stats = Stats()
        t0 = time.time()
        solver = Solver(stats)
        funcs = {}
        work = [((), [])]
        res = {"case": self.name, "status": "ok", "violations": [], "paths": 0, "validated": 0, "samples": []}
        try:
            mod = module(self.cfg)
            if self.native and self.native_runs(res, 1, seed):
                work = []
            while work:
                assume, carried = work.pop()
                if time.time() - t0 > self.timeout or (deadline and time.time() > deadline):
                    raise Inconclusive("case time limit")
                if res["paths"] >= self.max_paths:
                    raise Inconclusive("path limit")
                try:
                    samples, fixed = self.samples(assume, solver, self.K, seed)
                    if samples is None:
                        continue
                    p, model = self.path(assume, samples, fixed, solver, mod, stats, funcs, seed, carried)
                except Fork as f:
                    for z in (z3.Not(f.z), f.z):
                        work.append((assume + (z,), [m for m in f.extra if holds(z, m)]))
                    continue
                except Violation as v:
                    stats.paths += 1
                    res["paths"] += 1
                    res["violations"].append(self.confirm(v, mod))
                    if len(res["violations"]) >= 4:
                        break
                    continue
                stats.paths += 1
                res["paths"] += 1
                if self.native and res["validated"] < self.validate:
                    why = self.validate_trace(model)
                    if why:
                        res["violations"].append({"label": "native trace: " + why, "model": model, "confirmed": True,
                                                  "why": why})
                    res["validated"] += 1
                    if len(res["samples"]) < 2:
                        res["samples"].append({"case": self.name, "assumptions": [str(a)[:200] for a in assume][:6],
                                               "inputs": dict(list(sorted(model.items()))[:6])})
            if res["violations"]:
                res["status"] = "violation"
            elif res["paths"] == 0:
                res["status"] = "error"
                res["why"] = "no feasible path (vacuous)"
        except (Inconclusive, Unsupported, LemmaFailed, build.BuildError) as e:
            # undecided: the case has no verdict, unless the compiled code
            # visibly differs from the reference
            if self.native and not res["violations"] and not isinstance(e, build.BuildError):
                self.native_runs(res, 40, seed + 1)
            res["status"] = "violation" if res["violations"] else "error"
            res["why"] = "%s: %s" % (type(e).__name__, e)
        except RecursionError as e:
            res["status"] = "error"
            res["why"] = "RecursionError"
        except Exception:
            res["status"] = "violation" if res["violations"] else "error"
            res["why"] = traceback.format_exc()
        res["stats"] = stats.__dict__
        res["funcs"] = funcs
        res["wall"] = time.time() - t0
        return res

    def path(self, assume, samples, fixed, solver, mod, stats, funcs, seed, carried=()):
        extra = list(carried)[:24]      # separating inputs found on the way here
        for attempt in range(30):
            sm = [dict(x) for x in extra] + list(samples)
            K = self.K + len(extra)
            ctx = CertCtx(solver, seed=seed, K=K, samples=sm)
            ctx.fixed = dict(fixed)
            path = PathControl(ctx, solver, assume)
            ctx.sweeper = sw = Sweeper(ctx, solver, pc=path.pc, budget_s=max(60, self.timeout / 2))
            P = Sym(self, ctx, solver, path, sw, mod, stats)
            try:
                self.fn(P)
                P.finish()
            except Refine as r:
                stats.restarts += 1
                for m in (r.model if type(r.model) is list else [r.model]):
                    m = dict(m)
                    for n, t in ctx.vars.items():
                        m.setdefault(n, ctx.sig(t)[0] if t.op == "var" else 0)
                    extra.insert(0, m)
                continue
            except Fork as f:
                f.extra = extra + [m for m in sw.models if type(m) is dict]
                raise
            finally:
                for n, k in P.funcs.items():
                    funcs[n] = funcs.get(n, 0) + k
            return P, P.fixed_model(0)
        raise Inconclusive("too many refinements")

    def confirm(self, v, mod):
        """replays a counterexample against the compiled code"""
        out = {"label": v.label, "detail": v.detail, "model": dict(v.model), "confirmed": False}
        for be in (["native", "ir"] if self.native else ["ir"]):
            P = Conc(self, dict(v.model), be, mod)
            try:
                self.fn(P)
                P.finish()
            except Mismatch as e:
                out["confirmed"] = True
                out["why"] = "%s replay: %s" % (be, e)
                out["model"] = P.model
                out["calls"] = P.calls
                return out
            except Exception as e:
                out["why"] = "%s replay failed: %r" % (be, e)
        return out

    def native_runs(self, res, n, seed):
        """the compiled code against the reference on n arbitrary inputs:
        validates harness, reference and build before the symbolic run.
        -> True if they differ"""
        for k in range(n):
            model = BiasedModel(seed * 1000 + k)
            try:
                why = self.validate_trace(model, keep=True)
            except Exception as e:      # not comparable: leave it to the symbolic run
                why = None
            res["native_runs"] = res.get("native_runs", 0) + 1
            if why:
                res["violations"].append(self.confirm(Violation(model, "native run: " + why), module(self.cfg)))
                res["status"] = "violation"
                return True
        return False

    def validate_trace(self, model, keep=False):
        P = Conc(self, model if keep else dict(model), "native")
        try:
            self.fn(P)
            P.finish()
        except Mismatch as e:
            return str(e)
        return None
