"""Whole planner runs as jobs: a JSON description in, a JSON result out (C15, C16)."""
from __future__ import annotations

import copy
import hashlib
import json
import os
import random
import re
import shutil
import time

from .. import gen, sim
from . import opt
from .c03_candidates import Candidates
from .c13_report import ERRS, KIND
from .c10_read import MASK

CAND = Candidates()
LONG = re.compile(rb"\d+\.\d{7,}(?:e-?\d+)?")


class _Null:
    """stands in for a Run where only the world matters"""

    def __init__(self, w):
        self.w = w


def warm():
    import terragraph_planner.los.core  # noqa: F401
    import terragraph_planner.optimization.topology_optimization  # noqa: F401


# ------------------------------------------------------------------ generation


def gen_plan_job(rng, faulty):
    net = opt.gen_network(rng, fixed=rng.random() < 0.5)
    p = opt.gen_params(rng)
    p["topology_routing"] = rng.choice([None, "SHORTEST_PATH", "MCS_COST_PATH", "DPA_PATH"])
    p["availability_sim_time"] = rng.choice([0.0, 1.0, 5.0])
    p["availability_seed"] = rng.randint(0, 3)
    return {"k": "plan", **net, "params": p, "plan": opt.gen_plan(rng, faulty), "seed": rng.randrange(1 << 30)}


def gen_candidates_job(rng, faulty):
    c = CAND.gen(rng, faulty)
    c["faults"] = c["faults"][:1]
    return {"k": "candidates", **c, "seed": rng.randrange(1 << 30)}


def gen_config_job(rng, faulty):
    """a run from a configuration file: candidate network alone, plan of a given network, or both"""
    what = rng.choice(["los", "plan", "plan", "both"])
    j = {"k": "config", "what": what, "seed": rng.randrange(1 << 30), "fmt": rng.choice(["yaml", "yml", "json"]), "upper": rng.random() < 0.5,
         "system": rng.choice([None, "", {"debug_mode": True}, {"debug_mode": False, "logger_level": "DEBUG"}, {"log_file": "run.log"},
                               {"debug_mode": True, "log_file": "x.log", "logger_level": "ERROR"}])}
    if what != "plan":
        j["los"] = gen_candidates_job(rng, False)
    if what != "los":
        p = gen_plan_job(rng, faulty)
        j.update(params=p["params"], plan=p["plan"])
        if what == "plan":
            j["net"] = {"sites": p["sites"], "edges": p["edges"]}
    if faulty and rng.random() < 0.4:
        j["broken"] = rng.choice(["missing", "typo", "value", "syntax"])
    return j


def gen_job(rng, faulty, kinds=("plan", "plan", "candidates", "config")):
    k = rng.choice(kinds)
    j = {"plan": gen_plan_job, "candidates": gen_candidates_job, "config": gen_config_job}[k](rng, faulty)
    j["make"] = {}
    for d in ("DN1", "DN4", "CN1"):  # devices of a name need not be the same in every run
        if rng.random() < 0.25:
            j["make"][d] = rng.choice([{"capex": 700.0}, {"maximum_tx_power": 10.0}, {"antenna_boresight_gain": 24.0}, {"rain_rate": 90.0},
                                       {"minimum_mcs_level": 6}, {"horizontal_scan_range": 60.0}])
    return j


class makes:
    """device definitions of one job"""

    def __init__(self, job):
        self.job = job

    def __enter__(self):
        self.old = {k: dict(v) for k, v in gen.DEVICES.items()}
        for k, v in self.job.get("make", {}).items():
            gen.DEVICES[k] = {**gen.DEVICES[k], **v}

    def __exit__(self, *a):
        gen.DEVICES.clear()
        gen.DEVICES.update(self.old)


# ------------------------------------------------------------------ execution


def fresh_world(w, job, vary, scratch):
    """the simulated outside as a job meets it; planner state of the process is left alone"""
    from .. import sim_xpress

    key = str(job["seed"])
    w.sched = random.Random(f"{key}/sched/{vary.get('sched', 0)}")
    w.solver_rng = random.Random(key + "/solver")
    w.entropy = random.Random(f"{key}/entropy/{vary.get('sched', 0)}")
    start = w.clock.now
    w.clock = sim.SimClock()
    w.clock.start = min(w.clock.start, w.clock.now)
    w.pool_faults, w.pool_tasks_run, w.pool_mode, w.pool_bias, w.cpus = {}, 0, "inline", 0.5, 8
    w.sim_total = getattr(w, "sim_total", 0.0) + max(0.0, start - w.clock.start)
    sw = sim_xpress.SolverWorld(rng=w.solver_rng, clock=w.clock)
    old = w.solver.fault_counts
    for k, n in old.items():
        w.faults[k] = w.faults.get(k, 0) + n
    sim_xpress.install_world(sw)
    w.solver = sw
    w.scratch = scratch
    w.salt = vary.get("sched", 0)


def canon(T):
    same = {}  # building numbers carry no meaning beyond telling buildings apart
    for k, s in T.sites.items():
        if s.building_id is not None and s.building_id >= 0:
            same[s.building_id] = min(k, same.get(s.building_id, k))
    return rounded({
        "sites": {k: [s.status_type.name, s.polarity.name, s.site_type.name, s.name, s.device.device_sku, s.location_type.name,
                      s.number_of_subscribers, s.altitude, same.get(s.building_id, s.building_id), s.breakdowns] for k, s in T.sites.items()},
        "links": {k: [l.status_type.name, l.is_wireless, l.tx_sector.sector_id if l.tx_sector else None, l.rx_sector.sector_id if l.rx_sector else None,
                      l.confidence_level, l.capacity, l.is_redundant] for k, l in T.links.items()},
        "sectors": {k: [q.status_type.name, q.channel, q.ant_azimuth] for k, q in T.sectors.items()},
        "demands": {k: [d.demand, d.num_sites, sorted(s.site_id for s in d.connected_sites)] for k, d in T.demand_sites.items()},
    })


def rounded(o):
    if isinstance(o, float):
        return float("%.9g" % o)
    if isinstance(o, dict):
        return {k: rounded(v) for k, v in o.items()}
    return [rounded(v) for v in o] if isinstance(o, (list, tuple)) else o


def stamps(d):
    out = {}
    for a, ds, fs in os.walk(d):
        for f in fs:
            st = os.stat(os.path.join(a, f))
            out[os.path.join(a, f)] = (st.st_mtime_ns, st.st_ino)
    return out


def relabelled(b):
    """building numbers follow the order of the building file: number them by first appearance instead"""
    import csv
    import io
    rows = list(csv.reader(io.StringIO(b.decode("utf-8", "replace"))))
    col, seen = None, {}
    for r in rows:
        if "Building Id" in r:
            col = r.index("Building Id")
        elif col is not None and len(r) > col and r[col] not in ("", "-1", "None", "nan"):
            r[col] = "b%d" % seen.setdefault(r[col], len(seen))
    return "\n".join("|".join(r) for r in rows).encode()


def tree(d, skip=(), loose=False, old=None):
    """every file below a directory by content; debug files carry the time in their name.  loose: in any order of lines"""
    out = {}
    for a, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(a, f)
            n = os.path.relpath(p, d)
            if old and p in old and stamps(a)[p] == old[p]:
                continue  # left by an earlier run
            if n.split(os.sep)[0] in skip:
                continue
            if n.startswith("debug"):
                n = n.rstrip(".lp").rstrip("0123456789") if n.endswith(".lp") else n.rsplit("_", 1)[0]
            with open(p, "rb") as fh:
                b = fh.read()
            if n.endswith((".yaml", ".csv")):  # sums may be taken in any order
                b = LONG.sub(lambda m: b"%.9g" % float(m[0]), b)
            if os.path.basename(n) == "site.csv":
                b = relabelled(b)
            if loose:
                b = b"\n".join(sorted(b.split(b"\n")))
            out.setdefault(n, []).append(hashlib.sha256(b).hexdigest()[:12] if not n.endswith(".yaml") else b.decode("utf-8", "replace"))
    return {k: sorted(v) for k, v in out.items()}


def note_params(o):
    from .c10_read import plain

    return json.dumps(plain(o), sort_keys=True, default=str)


def permuted(job, order):
    if order is None:
        return job
    rng = random.Random(order)
    j = copy.deepcopy(job)
    if j["k"] == "candidates":
        # not the buildings: candidates are picked building by building, in the order of the file
        for k in ("sites", "zones"):
            rng.shuffle(j[k])
    return j


def do_job(job, w, vary, keep=None):
    with makes(job):
        return _do_job(job, w, vary, keep)


def _do_job(job, w, vary, keep):
    """-> {"err": ...} or the canonical result.  `keep` carries parameter objects from an earlier job."""
    from terragraph_planner.common.utils import current_system_params

    order = vary.get("order")
    # every job finds its inputs at the same paths and the outputs of earlier jobs where it puts its own
    scratch, out = os.path.join(w._sd.path, "job"), os.path.join(w._sd.path, "out")
    shutil.rmtree(scratch, ignore_errors=True)
    os.mkdir(scratch)
    os.makedirs(os.path.join(out, "output"), exist_ok=True)
    fresh_world(w, job, vary, scratch)
    old = stamps(out)
    res = {}
    try:
        if job["k"] == "plan":
            from terragraph_planner.optimization import topology_optimization as TO

            T = opt.build(job, order=order)
            P = (keep or {}).get("P") or params_of(job)
            before = note_params(P)
            current_system_params.output_dir = out
            opt.install_plan(w, job["plan"])
            res["keep"] = {"P": P}
            try:
                TO.optimize_and_report_topology(T, P)
            finally:
                res["params"] = note_params(P) == before
            res.update(canon(T), files=tree(out, ("debug",), old=old))
        elif job["k"] == "candidates":
            from terragraph_planner.los import core

            j = permuted(job, order)
            GP, L, B, devices = CAND.inputs(j, _Null(w))
            L, GP = (keep or {}).get("L") or L, GP
            before = note_params(GP), note_params(L)
            current_system_params.output_dir = out
            schedule(w, j, vary)
            f = (job["faults"] or [None])[0]
            res["keep"] = {"L": L}
            with fault(w, f):
                try:
                    T = core.generate_candidate_topology(L, GP)
                finally:
                    res["params"] = (note_params(GP), note_params(L)) == before
            res.update(canon(T), files=tree(out, ("debug",), True, old))
        else:
            cfg = write_config(job, w, scratch, out, order)
            if "los" in job:
                schedule(w, job["los"], vary)
            opt.install_plan(w, job.get("plan", []))
            if job["what"] == "los":
                from terragraph_planner.los import core

                T = core.generate_candidate_topology_with_config_file(cfg)
            else:
                from terragraph_planner.optimization import topology_optimization as TO

                T = TO.optimize_and_report_topology_with_config_file(cfg)
            res.update(canon(T), files=tree(out, (), "los" in job, old))
    except sim.SimHang:
        raise
    except Exception as e:
        keep2 = {k: res[k] for k in ("keep", "params") if k in res}
        msg = re.sub(r"tmp[a-z0-9_]{8}", "tmp", str(e).replace(w._sd.path, "<S>"))
        if not sim.in_repo_traceback(e) and not isinstance(e, OSError):
            raise
        res = {"err": [type(e).__name__, msg], **keep2}
    return res


def params_of(job):
    from terragraph_planner.common.configuration.enums import TopologyRouting

    kw = dict(job["params"])
    if kw.get("topology_routing"):
        kw["topology_routing"] = TopologyRouting[kw["topology_routing"]]
    return opt.make_params(kw)


def schedule(w, j, vary):
    rng = random.Random(f"{j['seed']}/{vary.get('sched', 0)}")
    if vary.get("sched"):
        w.cpus, w.pool_bias, b = rng.choice([1, 2, 3, 8]), rng.choice([0.1, 0.5, 0.9]), rng.choice([1, 2, 7, 1000])
        w.pool_mode = rng.choice(["inline", "inline", "fork"])
    else:
        w.cpus, w.pool_bias, b = j["cpus"], j["bias"], j["batch"]
    sim.patch_everywhere("BATCH_SIZE", b)


class fault:
    def __init__(self, w, f):
        self.w, self.f = w, f

    def __enter__(self):
        f = self.f
        if f and f["k"] == "worker":
            self.w.pool_faults = {f["task"]: f["what"]}
        elif f:
            sim.DISK.arm(self.w._sd.path, MASK[f["mask"]], f["nth"], KIND[f["kind"]], ERRS[f["err"]], f["sticky"])

    def __exit__(self, *a):
        f = self.f
        self.w.pool_faults = {}
        if f and f["k"] == "disk":
            n = sim.DISK.fired()
            sim.DISK.disarm()
            if n:
                self.w.fault(f"disk_{f['mask']}_{f['kind']}", n)


def write_config(job, w, scratch, out, order):
    from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file

    rng = random.Random(job["seed"])
    devs = []
    for n, d in gen.DEVICES.items():
        if "los" in job and n not in job["los"]["devs"] and job["what"] == "los":
            continue
        q = dict(d)
        devs.append({"device_sku": n, "device_type": q.pop("dtype"), "node_capex": q.pop("capex"), "number_of_nodes_per_site": q.pop("nodes"),
                     "sector_params": q or {"tx_diversity_gain": 0.0}})
    cfg = {"radio": {"device_list": devs}}
    s = job["system"]
    cfg["system"] = {"output_dir": out, "log_to_stderr": False}
    if isinstance(s, dict):
        cfg["system"].update(s)
        if "log_file" in s:
            cfg["system"]["log_file"] = os.path.join(scratch, s["log_file"])
    if "los" in job:
        j = permuted(dict(job["los"]), order)
        GP, L, B, devices = CAND.inputs(j, _Null(w))
        cfg["data"] = {k: v for k, v in vars(GP).items() if v}
        cfg["line_of_sight"] = {**{k: v for k, v in j["los"].items() if v is not None}, "site_detection": {k: v for k, v in j["detect"].items() if v is not None}}
    if job["what"] != "los":
        p = {k: v for k, v in job["params"].items() if v is not None}
        if "redundancy_level" in p:
            p["redundancy_level"] = p["redundancy_level"].capitalize()
        net = {}
        groups = {"budget": "financial", "demand": "dimensioning", "enable_uniform_demand": "dimensioning", "enable_cn_demand": "dimensioning",
                  "demand_spacing": "dimensioning", "demand_connection_radius": "dimensioning"}
        for k, v in p.items():
            if k in groups:
                net.setdefault(groups[k], {})[k] = v
            else:
                net[k] = v
        if job["what"] == "plan":
            path = os.path.join(scratch, "candidates.kml")
            write_to_kml_file(opt.build(job["net"]), path)
            net["candidate_topology_file_path"] = path
        cfg["network_design"] = net
    br = job.get("broken")
    if br == "typo":
        cfg["radio"]["rain_rat"] = 3
    elif br == "value":
        cfg["radio"]["device_list"][0]["node_capex"] = -5.0

    def case(o):
        if isinstance(o, dict):
            return {(k.upper() if job["upper"] else k): case(v) for k, v in o.items()}
        if isinstance(o, list):
            return [case(x) for x in o]
        return o

    # section names are upper case in the documentation
    cfg = {k.upper(): case(v) for k, v in cfg.items()}
    path = os.path.join(scratch, "config." + job["fmt"])
    with open(path, "w", encoding="utf-8") as fh:
        if job["fmt"] == "json":
            json.dump(cfg, fh, indent=1)
        else:
            import yaml

            yaml.safe_dump(cfg, fh, sort_keys=False)
        if br == "syntax":
            fh.write("\n}: [")
    return path + "x" if br == "missing" else path


def serve(req, base):
    """one request in a fresh process"""
    if req.get("tz"):
        os.environ["TZ"] = req["tz"]
        time.tzset()
    w = sim.begin_world(req["seed"], base)
    try:
        with sim.CpuLimit(100):
            res = None
            for job, vary in req["jobs"]:
                res = do_job(job, w, vary)
        res.pop("keep", None)
        return json.loads(json.dumps(res, default=str))
    finally:
        sim.end_world(w)


def delta(a, b):
    """where two results differ"""
    out = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x == y:
            continue
        if isinstance(x, dict) and isinstance(y, dict):
            ks = [q for q in sorted(set(x) | set(y)) if x.get(q) != y.get(q)]
            if k == "files":
                x, y = ({q: sorted(set(u[q][0].split("\n")) - set((v.get(q) or [""])[0].split("\n"))) if q in u else None for q in ks} for u, v in ((x, y), (y, x)))
            out.append((k, len(ks), [(q, x.get(q), y.get(q)) for q in ks[:2]]))
        else:
            out.append((k, str(x)[:300], str(y)[:300]))
    return out
