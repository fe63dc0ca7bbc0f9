"""Driver of one property's check: shards, evidence, verdict."""
from __future__ import annotations

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def build_shim(where):
    so = os.path.join(VERIF, "build", "diskshim.so")
    src = os.path.join(VERIF, "dst", "native", "diskshim.c")
    if os.path.exists(so) and os.path.getmtime(so) >= os.path.getmtime(src):
        return so
    tmp = os.path.join(where, "diskshim.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl"], check=True)
    return tmp


def child_env(shim, hashseed):
    e = {
        "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(hashseed), "PYTHONPATH": f"{VERIF}:/repo",
        "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PROJ_NETWORK": "OFF",
        "LD_PRELOAD": shim, "PYTHONWARNINGS": "ignore", "GDAL_NUM_THREADS": "1",
    }
    if "DST_REPO" in os.environ:
        e["DST_REPO"] = os.environ["DST_REPO"]
        e["PYTHONPATH"] = f"{VERIF}:{os.environ['DST_REPO']}"
    return e


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    props = {}
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        for line in f:
            if line.strip():
                d = json.loads(line)
                props[d["id"]] = d
    with open(os.path.join(VERIF, "checks.json")) as f:
        conf = json.load(f)[a.prop]
    base = tempfile.mkdtemp(prefix=f"dst-{a.prop}-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        shim = build_shim(base)
        if a.replay:
            return do_replay(a, base, shim)
        return do_check(a, base, shim, conf, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def do_replay(a, base, shim):
    with open(a.replay) as f:
        rp = json.load(f)
    out = os.path.join(base, "replay.out")
    p = subprocess.run([PY, "-m", "dst.worker", a.prop, "--replay", os.path.abspath(a.replay), "--base", base, "--out", out],
                       env=child_env(shim, rp.get("hashseed", 0)), cwd=VERIF, timeout=600)
    if p.returncode != 0:
        return 2
    with open(out) as f:
        res = json.load(f)
    print(json.dumps(res["violation"], indent=1))
    print("digest", res["digest"], "recorded", rp.get("digest"))
    if res["violation"]:
        print(f"VIOLATION property={a.prop} replay={a.replay}")
        return 1
    return 0


def replay_once(prop, path, base, shim, hashseed):
    out = os.path.join(base, "replay.out")
    if os.path.exists(out):
        os.unlink(out)
    try:
        subprocess.run([PY, "-m", "dst.worker", prop, "--replay", path, "--base", base, "--out", out],
                       env=child_env(shim, hashseed), cwd=VERIF, timeout=300, check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        with open(out) as f:
            return json.load(f)
    except (subprocess.SubprocessError, OSError, ValueError):
        return {"violation": None, "digest": None}


def do_check(a, base, shim, conf, t0):
    tier = "thorough" if a.tier == "thorough" else "quick"
    cases = a.cases or conf[tier]["cases"]
    budget = a.budget or conf[tier]["budget"]
    n = min(a.shards, cases)
    hs = [0, 1, 2, 3, 101, 202, 303, 404]
    procs = []
    for i in range(n):
        out = os.path.join(base, f"s{i}.json")
        sb = os.path.join(base, f"s{i}")
        os.mkdir(sb)
        cmd = [PY, "-m", "dst.worker", a.prop, "--seed", str(a.seed), "--shard", str(i), "--shards", str(n),
               "--cases", str(cases), "--budget", str(budget), "--out", out, "--base", sb,
               "--cross", str(conf.get("cross", 2))]
        if a.only:
            cmd += ["--only", a.only]
        if a.verbose:
            cmd += ["--verbose"]
        log = open(os.path.join(base, f"s{i}.log"), "w")
        procs.append((i, out, log, subprocess.Popen(cmd, env=child_env(shim, hs[i % len(hs)]), cwd=VERIF,
                                                    stdout=None if a.verbose else log, stderr=subprocess.STDOUT if not a.verbose else None)))
    res, errors = [], []
    hard = budget + 150
    for i, out, log, p in procs:
        try:
            p.wait(timeout=max(1, hard - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append(f"shard {i} exceeded its wall-clock limit")
            continue
        if os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
            r["shard"] = i
            res.append(r)
            if r["error"]:
                errors.append(f"shard {i} harness error in case {r['error']['case']} ({r['error']['scenario']}):\n{r['error']['tb']}")
        else:
            log.flush()
            with open(log.name) as f:
                errors.append(f"shard {i} exit {p.returncode}:\n" + f.read()[-3000:])

    # determinism across processes and hash seeds
    seen, mism = {}, []
    for r in res:
        for k, (sc, d) in r["digests"].items():
            if k in seen and seen[k][1] != d:
                mism.append({"case": int(k), "scenario": sc})
            seen.setdefault(k, (sc, d))
    pairs = sum(len(r["digests"]) for r in res) - len(seen)

    viol = sorted((r for r in res if r["violation"]), key=lambda r: r["violation"]["case_no"])
    merged = merge(res)
    merged["mism"] = mism
    replay_path = None
    for r in viol:
        replay_path = write_replay(a.prop, r["violation"], base, shim)
        if replay_path:
            break
    if viol and not replay_path:
        errors.append("a violation did not reproduce in a fresh process: " + json.dumps(viol[0]["violation"]["violation"]))
    write_evidence(a, tier, conf, merged, pairs, mism, time.monotonic() - t0, 1 if replay_path else 0, errors)
    if replay_path:
        v = viol[0]["violation"]
        with open(replay_path) as f:
            v = json.load(f)
        print(f"{a.prop}: {v['violation']['kind']}: {v['violation']['message'][:600]}")
        print(f"VIOLATION property={a.prop} replay={replay_path}")
        return 1
    if errors:
        for e in errors:
            print("CHECK-ERROR:", e, file=sys.stderr)
        return 2
    for k, cnt in sorted(merged["known"].items()):
        desc = next((x["what"] for x in known_all() if x["id"] == k), k)
        print(f"KNOWN-FINDING: property={a.prop} {desc}")
    if mism or merged["redo_mismatch"]:
        print(f"note: {len(mism)} cross-process and {merged['redo_mismatch']} in-process digest mismatches: {mism[:3]}", file=sys.stderr)
    print(f"{a.prop}: held on {merged['executed']} runs ({merged['nontrivial']} non-trivial), "
          f"{sum(merged['faults'].values())} faults injected, {time.monotonic() - t0:.1f}s")
    return 0


def known_all():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f).get("findings", [])
    except FileNotFoundError:
        return []


def merge(res):
    m = {"executed": 0, "nontrivial": 0, "checks": 0, "sim_time": 0.0, "sim_steps": 0, "redo": 0, "redo_mismatch": 0,
         "faulty_runs": 0, "trace_lens": 0, "faults": {}, "notes": {}, "known": {}, "scen": {}, "samples": []}
    st, nt, ps = set(), set(), set()
    for r in res:
        for k in ("executed", "nontrivial", "checks", "sim_time", "sim_steps", "redo", "redo_mismatch", "faulty_runs", "trace_lens"):
            m[k] += r[k]
        for k in ("faults", "notes", "known"):
            for x, n in r[k].items():
                m[k][x] = m[k].get(x, 0) + n
        for x, (p, q) in r["scen"].items():
            s = m["scen"].setdefault(x, [0, 0])
            s[0] += p
            s[1] += q
        st.update(r["states"])
        nt.update(r["nontrivial_digests"])
        ps.update(r["pool_sched"])
        if len(m["samples"]) < 4:
            m["samples"] += r["samples"][:1]
    m["states"], m["ntd"], m["psched"] = len(st), len(nt), len(ps)
    return m


def write_replay(prop, v, base, shim):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{v['case_no']}.json")
    hs = v["hashseed"] or "0"
    tries = [[{"scenario": v["scenario"], "case": v["case"]}], [{"scenario": v["scenario"], "case": v["original"]}]]
    pre = v["prefix"]
    n = 2
    while n < 2 * len(pre):
        tries.append(pre[-min(n, len(pre)):])
        n *= 4
    for cs in tries:
        body = {"property": prop, "hashseed": hs, "violation": v["violation"], "cases": cs,
                "how": f"cd /verif && ./check {prop} --replay {path}"}
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        r1 = replay_once(prop, path, base, shim, hs)
        if not r1["violation"]:
            continue
        r2 = replay_once(prop, path, base, shim, hs)
        body["violation"] = r1["violation"]
        body["digest"] = r1["digest"]
        body["replayed_identically"] = r1["digest"] == r2["digest"]
        body["trace"] = r1.get("trace")
        body["minimiser_runs"] = v["tries"]
        body["original_case"] = v["original"]
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        return path
    return None


def write_evidence(a, tier, conf, m, pairs, mism, wall, nviol, errors):
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        man = json.load(f)
    level = next((c["level"] for c in man["checks"] if c["property"] == a.prop), "exploration")
    hours = max(wall, 1e-6) / 3600
    ev = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": level,
        "coverage": {
            "evaluations": m["executed"],
            "distinct_nontrivial": m["ntd"],
            "rule": conf["rule"],
            "samples": m["samples"],
            "assertions_checked": m["checks"],
            "runs_by_scenario": {k: {"runs": p, "nontrivial": q} for k, (p, q) in sorted(m["scen"].items())},
            "seeds_per_hour": round(m["executed"] / hours),
            "simulated_seconds": round(m["sim_time"], 3),
            "scheduler_steps": m["sim_steps"],
            "runs_with_faults": m["faulty_runs"],
            "faults_injected": dict(sorted(m["faults"].items())),
            "distinct_states": m["states"],
            "distinct_states_measure": conf.get("state_measure", "digest of the observable state after each step"),
            "distinct_worker_schedules": m["psched"],
            "determinism": {"same_process_reruns": m["redo"], "same_process_mismatches": m["redo_mismatch"],
                            "cross_process_pairs": pairs, "cross_process_mismatches": len(mism)},
            "notes": dict(sorted(m["notes"].items())),
            "real_components": conf["real"],
            "stub_components": conf["stub"],
            "known_findings_hit": m["known"],
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    if errors:
        ev["coverage"]["errors"] = [e[:500] for e in errors]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
