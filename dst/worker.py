"""One shard of one check (or a replay), in its own process."""
from __future__ import annotations

import argparse
import copy
import json
import os
import random
import sys
import traceback


def run_case(sc, case, base):
    """Execute one case in a fresh World.  -> (Run, violation|None)"""
    from . import sim
    from .scenario import Run

    w = sim.begin_world(case["seed"], base)
    r = Run(w)
    v = None
    try:
        with sim.CpuLimit(sc.cpu_limit):
            try:
                sc.run(case, r)
            except sim.Violation as e:
                v = {"kind": e.kind, "message": e.message[:2000]}
            except sim.SimHang as e:
                v = {"kind": "hang", "message": str(e)}
            except sim.Discard:
                r.note("discarded")
                r.nontrivial = False
            except Exception as e:
                if sim.in_repo_traceback(e):
                    v = {"kind": f"crash:{type(e).__name__}@{sim.where(e)}",
                         "message": f"planner code raised {type(e).__name__}: {e}"}
                elif isinstance(e, (TypeError, KeyError, IndexError, ValueError, ZeroDivisionError)):
                    # the oracle could not make sense of what the planner returned
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    v = {"kind": f"malformed-result:{type(e).__name__}",
                         "message": f"{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}"}
                else:
                    raise
    except sim.SimHang as e:  # limit hit in cleanup code
        v = v or {"kind": "hang", "message": str(e)}
    finally:
        sim.end_world(w)
    return r, v


def outcome_digest(r, v):
    from . import sim

    return sim.digest([r.observed, v and v["kind"], r.w.trace, sorted(r.w.faults.items())])


def minimise(sc, case, v, base, deadline, now):
    """ddmin over the case's lists, then its scalars, keeping the violation kind."""

    def fails(c):
        try:
            _, vv = run_case(sc, c, base)
        except Exception:
            return None
        return vv if vv and vv["kind"] == v["kind"] else None

    best, bestv = copy.deepcopy(case), v
    tries = 0
    changed = True
    while changed and now() < deadline:
        changed = False
        for key in sc.shrink:
            lst = best.get(key)
            if not isinstance(lst, list) or not lst:
                continue
            chunk = max(1, len(lst) // 2)
            while chunk >= 1 and now() < deadline:
                i = 0
                while i < len(best[key]) and now() < deadline:
                    c = copy.deepcopy(best)
                    del c[key][i : i + chunk]
                    tries += 1
                    vv = fails(c)
                    if vv:
                        best, bestv, changed = c, vv, True
                    else:
                        i += chunk
                chunk //= 2
        for key, val in sc.simplify.items():
            if key in best and best[key] != val and now() < deadline:
                c = copy.deepcopy(best)
                c[key] = val
                tries += 1
                vv = fails(c)
                if vv:
                    best, bestv, changed = c, vv, True
    return best, bestv, tries


def contain():
    """planner code that runs wild gets a MemoryError here instead of harming the machine, and nobody outlives the check"""
    import ctypes
    import resource
    import signal

    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--cases", type=int, default=10)
    ap.add_argument("--budget", type=float, default=30)
    ap.add_argument("--out")
    ap.add_argument("--base", required=True)
    ap.add_argument("--replay")
    ap.add_argument("--cross", type=int, default=0)
    ap.add_argument("--only", default="")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    contain()
    from . import sim

    now = sim.REAL_MONO
    t0 = now()
    sim.boot()
    from . import scenario
    from .scenarios import load

    load()
    scs = scenario.REGISTRY[a.prop]
    byname = {s.name: s for s in scs}

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        v = None
        for item in rp["cases"]:
            r, v = run_case(byname[item["scenario"]], item["case"], a.base)
        res = {"violation": v, "digest": outcome_digest(r, v), "trace": r.w.trace[-200:]}
        if a.out:
            with open(a.out, "w") as f:
                json.dump(res, f, default=str)
        else:
            print(json.dumps(res, indent=1, default=str))
        return 0

    def case_for(k):
        """(scenario, case) of global case number k"""
        rng = random.Random(f"{a.seed}/{a.prop}/{k}")
        tot = sum(s.weight for s in scs)
        x = rng.random() * tot
        for sc in scs:
            x -= sc.weight
            if x <= 0:
                break
        faulty = rng.random() < 0.6
        case = sc.gen(rng, faulty)
        case["seed"] = f"{a.seed}/{a.prop}/{k}"
        case = json.loads(json.dumps(case))
        return sc, case

    known = load_known(a.prop)
    out = {
        "executed": 0, "nontrivial": 0, "checks": 0, "faults": {}, "states": [], "notes": {},
        "scen": {}, "sim_time": 0.0, "sim_steps": 0, "digests": {}, "samples": [], "known": {},
        "violation": None, "error": None, "redo_mismatch": 0, "redo": 0, "faulty_runs": 0,
        "nontrivial_digests": [], "trace_lens": 0, "pool_sched": [],
    }
    states, ntd, psched = set(), set(), set()
    prefix = []
    # cross-shard determinism: the first cases of the next shard as well, so the
    # same seed runs in two processes with different string-hash seeds
    own = list(range(a.shard, a.cases, a.shards))
    cross = [k for k in range((a.shard + 1) % a.shards, a.cases, a.shards)][: a.cross]
    work = [(k, "cross") for k in cross] + [(k, "own") for k in own]
    for k, why in work:
        if now() - t0 > a.budget:
            out["stopped_at"] = k
            break
        sc, case = case_for(k)
        if a.only and sc.name != a.only:
            continue
        try:
            r, v = run_case(sc, case, a.base)
        except Exception:
            out["error"] = {"case": k, "scenario": sc.name, "tb": traceback.format_exc(), "json": case}
            break
        prefix.append({"scenario": sc.name, "case": case})
        out["digests"][str(k)] = [sc.name, outcome_digest(r, v)]
        if why == "cross":
            continue
        out["executed"] += 1
        out["checks"] += r.checks
        out["sim_time"] += max(0.0, r.w.clock.now - r.w.clock.start)
        out["sim_steps"] += r.w.sim_steps
        out["trace_lens"] += len(r.w.trace)
        for f, n in r.w.faults.items():
            out["faults"][f] = out["faults"].get(f, 0) + n
        if r.w.faults:
            out["faulty_runs"] += 1
        for f, n in r.notes.items():
            out["notes"][f] = out["notes"].get(f, 0) + n
        s = out["scen"].setdefault(sc.name, [0, 0])
        s[0] += 1
        states |= r.states
        ps = [t for t in r.w.trace if t and t[0] in ("take", "finish", "pool")]
        if ps:
            psched.add(sim.digest(ps))
        if r.nontrivial:
            s[1] += 1
            out["nontrivial"] += 1
            ntd.add(sim.digest([sc.name, {x: y for x, y in case.items() if x != "seed"}]))
            if len(out["samples"]) < 2:
                out["samples"].append({"case_no": k, "scenario": sc.name, "case": shorten(case), "notes": r.notes, "faults": r.w.faults})
        if a.verbose:
            print(k, sc.name, "nontrivial" if r.nontrivial else "-", v, r.notes, flush=True)
        if v:
            kf = match_known(known, v, case)
            if kf:
                out["known"][kf] = out["known"].get(kf, 0) + 1
                continue
            best, bv, tries = minimise(sc, case, v, a.base, now() + 25, now)
            kf = match_known(known, bv, best)
            if kf and match_known(known, v, case):
                out["known"][kf] = out["known"].get(kf, 0) + 1
                continue
            out["violation"] = {
                "case_no": k, "scenario": sc.name, "violation": bv, "case": best,
                "original": case, "original_violation": v, "tries": tries, "prefix": prefix,
                "hashseed": os.environ.get("PYTHONHASHSEED"),
            }
            break
        if out["executed"] % 16 == 1:
            # exact repeatability: the same case again, later, in the same process
            r2, v2 = run_case(sc, case, a.base)
            out["redo"] += 1
            if outcome_digest(r2, v2) != outcome_digest(r, v):
                out["redo_mismatch"] += 1
                out["mismatch_case"] = {"case_no": k, "scenario": sc.name}
    out["states"] = sorted(states)
    out["nontrivial_digests"] = sorted(ntd)
    out["pool_sched"] = sorted(psched)
    out["wall"] = now() - t0
    with open(a.out, "w") as f:
        json.dump(out, f, default=str)
    return 0


def shorten(o, depth=0):
    if isinstance(o, dict):
        return {k: shorten(v, depth + 1) for k, v in o.items()}
    if isinstance(o, list):
        if len(o) > 6:
            return [shorten(x, depth + 1) for x in o[:6]] + [f"... {len(o) - 6} more"]
        return [shorten(x, depth + 1) for x in o]
    if isinstance(o, str) and len(o) > 120:
        return o[:120] + "..."
    return o


def load_known(prop):
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    try:
        with open(p) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop]


def match_known(known, v, case):
    for k in known:
        if k["kind"] == v["kind"] and all(s in v["message"] for s in k.get("message_contains", [])):
            return k["id"]
    return None


if __name__ == "__main__":
    sys.exit(main())
