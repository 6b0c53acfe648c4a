#!/usr/bin/env python3-vt
"""run.py PROPERTY [--tier quick|thorough] [--jobs N] [--only SUBSTR] [--list]
run.py --replay FILE

Decides one property: builds the harness crates against /repo's working tree,
executes the IR symbolically case by case (in parallel), replays every
counterexample natively and writes evidence/<property>.json."""
import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)

import build
import case as casemod
import props
from solve import Stats

ROOT = os.path.dirname(HERE)
KNOWN = os.path.join(ROOT, "known_findings.txt")


def known_findings(prop):
    """lines 'finding: property=<id> case=<name> label=<label> :: text'"""
    out = []
    try:
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            head, _, text = line[len("finding:"):].partition("::")
            f = dict(p.split("=", 1) for p in head.strip().split(" | ") if "=" in p)
            if f.get("property") == prop:
                f["text"] = text.strip()
                out.append(f)
    except OSError:
        pass
    return out


def is_known(fs, v, name):
    for f in fs:
        if f.get("case") == name and f.get("label", "") == v["label"]:
            return f
    return None


def worker(cases, i, seed, wfd, deadline):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
        c = cases[i]
        res = c.explore(seed=seed, deadline=deadline)
    except MemoryError:
        res = {"case": cases[i].name, "status": "error", "why": "memory limit", "violations": [], "paths": 0,
               "validated": 0, "samples": [], "stats": Stats().__dict__, "funcs": {}, "wall": 0}
    except BaseException:
        res = {"case": cases[i].name, "status": "error", "why": traceback.format_exc(), "violations": [], "paths": 0,
               "validated": 0, "samples": [], "stats": Stats().__dict__, "funcs": {}, "wall": 0}
    with os.fdopen(wfd, "wb") as fh:
        pickle.dump(res, fh)
    os._exit(0)


def run_cases(cases, jobs, seed, deadline, log, stop_on_violation=True):
    """forks one process per case, at most `jobs` at a time"""
    # group by configuration, building everything in parallel first
    cfgs = {}
    for c in cases:
        cfgs.setdefault(c.cfg.key(), c.cfg)
    for c in cfgs.values():
        build.prepare(c.crate)
    results = []
    t0 = time.time()
    order = list(cfgs)
    with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
        futs = {ex.submit(build.build_ir, cfgs[k]): k for k in order}
        for f in cf.as_completed(futs):
            f.result()
    log("built %d configurations in %.1fs" % (len(cfgs), time.time() - t0))
    # native objects for the replay (also in parallel)
    nat = {}
    for c in cases:
        if c.native:
            nat.setdefault((c.cfg.key(), tuple(sorted(c.cfg.tokens.items()))), c.cfg)
    with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
        list(ex.map(build.build_native, nat.values()))
    log("native objects ready %.1fs" % (time.time() - t0))
    for c in cases:
        casemod.module(c.cfg)
    log("modules parsed %.1fs" % (time.time() - t0))
    todo = list(range(len(cases)))
    running = {}
    import select
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                worker(cases, i, seed, w, deadline)
            os.close(w)
            running[r] = (pid, i, time.time(), bytearray())
        rs, _, _ = select.select(list(running), [], [], 1.0)
        now = time.time()
        for r in list(running):
            pid, i, st, acc = running[r]
            done = None
            if r in rs:
                b = os.read(r, 1 << 20)
                if b:
                    acc += b
                    continue
                os.waitpid(pid, 0)
                try:
                    done = pickle.loads(bytes(acc))
                except Exception:
                    done = err(cases[i], "worker ended without a result")
            elif now - st > cases[i].timeout + 90 or (deadline and now > deadline + 60):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                done = err(cases[i], "time limit")
            if done is not None:
                os.close(r)
                del running[r]
                results.append(done)
                log("%-6s %6.1fs %s%s" % (done["status"], done["wall"], done["case"][:100],
                                          "" if done["status"] == "ok" else "  " + str(done.get("why") or [
                                              (v["label"], v["confirmed"]) for v in done["violations"]])[-600:]))
                if stop_on_violation and any(v["confirmed"] for v in done["violations"]):
                    for r2, (p2, _, _, _) in running.items():
                        try:
                            os.killpg(p2, signal.SIGKILL)
                        except OSError:
                            pass
                        os.waitpid(p2, 0)
                        os.close(r2)
                    return results, len(todo) + len(running)
    return results, 0


def err(c, why):
    return {"case": c.name, "status": "error", "why": why, "violations": [], "paths": 0, "validated": 0,
            "samples": [], "stats": Stats().__dict__, "funcs": {}, "wall": c.timeout}


def replay(path):
    d = json.load(open(path))
    for c in props.cases(d["property"], d.get("tier", "thorough")):
        if c.name == d["case"]:
            for be in (("native", "ir") if c.native else ("ir",)):
                P = casemod.Conc(c, {k: v for k, v in d["model"].items()}, be)
                try:
                    c.fn(P)
                    P.finish()
                except casemod.Mismatch as e:
                    print("%s run: VIOLATED: %s" % (be, e))
                    return 1
                print("%s run: holds" % be)
            return 0
    print("no such case")
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)))
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.property
    t0 = time.time()
    cases = props.cases(prop, a.tier)
    if a.only:
        cases = [c for c in cases if a.only in c.name]
    if a.list:
        for c in cases:
            print(c.name)
        return 0
    budget = 780 if a.tier == "quick" else 6 * 3600
    log = lambda s: print("[%6.1f] %s" % (time.time() - t0, s), flush=True)
    evpath = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evpath), exist_ok=True)
    try:
        os.remove(evpath)
    except OSError:
        pass
    try:
        results, skipped = run_cases(cases, a.jobs, seed, t0 + budget, log, not a.keep_going)
    except build.BuildError as e:
        print("ERROR: " + str(e))
        return 2
    stats = Stats()
    funcs = {}
    for r in results:
        s = Stats()
        s.__dict__.update(r["stats"])
        stats.add(s)
        for n, k in r["funcs"].items():
            funcs[n] = funcs.get(n, 0) + k
    fs = known_findings(prop)
    new, unconfirmed, known = [], [], []
    for r in results:
        for v in r["violations"]:
            k = is_known(fs, v, r["case"])
            if k:
                known.append(k)
            elif v["confirmed"]:
                new.append((r, v))
            else:
                unconfirmed.append((r, v))
    for f in {k["text"]: k for k in known}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    errors = [r for r in results if r["status"] == "error"]
    validated = sum(r["validated"] for r in results)
    samples = [s for r in results for s in r["samples"]][:8]
    files = {}
    desc = props.INFO.get(prop, {})
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": stats.paths, "transitions": stats.steps, "traces_validated_against_impl": validated,
            "samples": samples or [{"case": r["case"]} for r in results[:3]],
            "cases": len(results), "cases_ok": sum(1 for r in results if r["status"] == "ok"),
            "cases_not_run": skipped,
            "paths": stats.paths, "forks": stats.forks, "ir_instructions_executed": stats.steps,
            "obligations": stats.obligations, "discharged": stats.ob_merged + stats.ob_solver,
            "obligations_closed_by_proved_merging": stats.ob_merged,
            "obligations_closed_by_dedicated_queries": stats.ob_solver,
            "solver_queries": stats.queries, "solver_unsat": stats.unsat, "solver_sat": stats.sat,
            "solver_unknown": stats.unknown, "solver_seconds": round(stats.solver_s, 2),
            "longest_query_seconds": round(stats.max_query_s, 3),
            "equivalence_lemmas_proved": stats.lemmas, "lemma_instances": stats.lemma_hits + stats.lemmas,
            "rewrite_lemmas_proved": stats.rewrite_lemmas, "rewrite_instances": stats.rewrite_instances,
            "functions_encoded": sorted(funcs),
            "bounds": desc.get("bounds", ""), "outside_the_bounds": desc.get("outside", ""),
            "case_names": [r["case"] for r in results],
            "tree": build.repo_state(),
        },
        "assumptions": ["rustc's LLVM IR (opt-level 1) of the harness and its dependencies is what is analysed",
                        "the executor's semantics of LLVM instructions and of the x86/AArch64 vector intrinsics",
                        "z3's unsat verdicts"] + desc.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(evpath, "w") as fh:
        json.dump(ev, fh, indent=1)
    log("%d cases, %d paths, %d instructions, %d obligations, %d queries (%.1fs in the solver), %d native traces" % (
        len(results), stats.paths, stats.steps, stats.obligations, stats.queries, stats.solver_s, validated))
    if new:
        r, v = new[0]
        rp = os.path.join(ROOT, "evidence", "%s.violation.json" % prop)
        with open(rp, "w") as fh:
            json.dump({"property": prop, "tier": a.tier, "case": r["case"], "label": v["label"],
                       "why": v.get("why"), "model": v["model"], "calls": v.get("calls", [])[:4]}, fh, indent=1)
        print("case: %s\nfails: %s\n%s" % (r["case"], v["label"], v.get("why")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors or unconfirmed or skipped:
        for r in errors:
            print("ERROR: %s: %s" % (r["case"], r.get("why")))
        for r, v in unconfirmed:
            print("ERROR: %s: counterexample did not replay: %s (%s)" % (r["case"], v["label"], v.get("why")))
        return 2
    if not results or stats.obligations == 0:
        print("ERROR: nothing was checked")
        return 2
    print("OK property=%s: held on everything explored" % prop)
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
