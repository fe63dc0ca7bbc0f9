"""C15: the same inputs in another process; C16: after other runs in this process."""
from __future__ import annotations

import json
import os

from .. import sim
from ..scenario import Run, Scenario, register
from ..twin import Twin
from . import jobs

TZ = [None, "UTC", "Asia/Tokyo", "America/Los_Angeles"]


def own(r, job, vary, keep=None):
    with sim.CpuLimit(100):
        try:
            res = jobs.do_job(job, r.w, vary, keep)
        except sim.SimHang as e:
            raise sim.Violation("hang", str(e))
    k = res.pop("keep", None)
    return json.loads(json.dumps(res, default=str)), k


def first(res):
    return res["err"] if "err" in res else [len(res["sites"]), len(res["links"])]


class Twins(Scenario):
    """one run here and one in another process, told nothing but the inputs"""
    name = "other-process"
    shrink = ()
    cpu_limit = 250.0

    def gen(self, rng, faulty):
        job = jobs.gen_job(rng, faulty)
        for f in job.get("faults", []):
            job["faults"] = []  # which task fails is part of the schedule
        return {"job": job, "hash": rng.choice([5, 77, 1234]), "order": rng.randrange(1 << 20) if rng.random() < 0.6 else None,
                "sched": rng.randrange(1, 1 << 20), "tz": rng.choice(TZ)}

    def run(self, case, r: Run):
        job = case["job"]
        a, _ = own(r, job, {})
        vary = {"sched": case["sched"], "order": case["order"]}
        b = Twin.get(case["hash"], os.path.dirname(r.w._sd.path)).ask({"seed": r.w.seed + "/twin", "jobs": [[job, vary]], "tz": case["tz"]})
        kind = job["k"] + ("-" + job["what"] if "what" in job else "")
        r.check(("err" in a) == ("err" in b) and (a.get("err") or [0])[0] == (b.get("err") or [0])[0], f"outcome-differs:{kind}",
                lambda: f"here {first(a)}, in another process {first(b)}")
        if "err" not in a:
            for part in ("sites", "links", "sectors", "demands", "files"):
                r.check(a[part] == b[part], f"{part}-differ:{kind}", lambda: f"{jobs.delta(a, b)}")
            r.nontrivial = True
        r.note(f"{kind}:{'ok' if 'err' not in a else a['err'][0]}")
        r.state(kind, first(a))
        r.see(first(a))


class History(Scenario):
    """a run after other runs, against the same run in a fresh process"""
    name = "history"
    shrink = ("steps",)
    cpu_limit = 250.0

    def gen(self, rng, faulty):
        n = rng.choice([1, 1, 2, 3])
        steps = [jobs.gen_job(rng, rng.random() < 0.7) for _ in range(n)]
        last = jobs.gen_job(rng, faulty)
        if rng.random() < 0.35:  # the same settings objects again
            last = json.loads(json.dumps(steps[-1]))
            if last["k"] == "plan" and rng.random() < 0.6:
                q = jobs.gen_plan_job(rng, faulty)
                last.update(sites=q["sites"], edges=q["edges"], plan=q["plan"])
        return {"steps": steps + [last], "reuse": rng.random() < 0.7}

    def run(self, case, r: Run):
        steps = case["steps"]
        keep = None
        prev = None
        for i, job in enumerate(steps):
            again = case["reuse"] and prev is not None and prev.get("make") == job.get("make") and prev is not None and prev["k"] == job["k"] and (
                job["k"] == "plan" and job["params"] == prev["params"] or
                job["k"] == "candidates" and all(job[k] == prev[k] for k in ("devs", "detect", "los", "rf")))
            res, keep = own(r, job, {}, keep if again else None)
            if "params" in res:
                r.check(res["params"], f"params-changed:{job['k']}", "the caller's settings were modified")
            prev = job
            r.note(f"{job['k']}:{'ok' if 'err' not in res else res['err'][0]}")
            if again:
                r.note("settings reused")
        last = steps[-1]
        b = Twin.get(os.environ.get("PYTHONHASHSEED", "0"), os.path.dirname(r.w._sd.path)).ask({"seed": r.w.seed, "jobs": [[last, {}]]})
        kind = last["k"] + ("-" + last["what"] if "what" in last else "")
        r.check(res.get("err") == b.get("err"), f"outcome-differs:{kind}", lambda: f"after other runs {first(res)}, alone {first(b)}")
        if "err" not in res:
            for part in ("sites", "links", "sectors", "demands", "files"):
                r.check(res[part] == b[part], f"{part}-differ:{kind}", lambda: f"{jobs.delta(res, b)}")
        r.nontrivial = len(steps) > 1
        r.state([s["k"] for s in steps], first(res))
        r.see(first(res))


register("C15", Twins())
register("C16", History())
