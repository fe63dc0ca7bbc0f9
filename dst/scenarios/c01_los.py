"""C01 / C02: the line-of-sight stage under the simulated worker pool."""
from __future__ import annotations

import math

from .. import sim
from ..scenario import Run, Scenario, register

EPSG = 32610
X0, Y0 = 550000, 4180000


def make_elevation(spec):
    import numpy as np
    from osgeo import osr
    from terragraph_planner.common.structs import UTMBoundingBox
    from terragraph_planner.los.elevation import Elevation

    sr = osr.SpatialReference()
    sr.ImportFromEPSG(EPSG)
    w, h, res = spec["w"], spec["h"], spec["res"]
    nx, ny = int(w / res) + 1, int(h / res) + 1
    m = np.full((ny, nx), float(spec["ground"]), dtype=np.float32)
    for x0, y0, x1, y1, z in spec["boxes"]:
        for iy in range(ny):
            y = h - iy * res
            if y0 <= y <= y1:
                ix0, ix1 = max(0, math.ceil(x0 / res)), min(nx - 1, math.floor(x1 / res))
                if ix1 >= ix0:
                    m[iy, ix0 : ix1 + 1] = z
    return Elevation(
        data_matrix=m,
        utm_bounding_box=UTMBoundingBox(max_utm_x=X0 + w, max_utm_y=Y0 + h, min_utm_x=X0, min_utm_y=Y0),
        x_resolution=float(res), y_resolution=float(res), left_top_x=float(X0), left_top_y=float(Y0 + h),
        spatial_reference=sr, collection_time=None,
    )


def make_site(s):
    from terragraph_planner.common.configuration.configs import DeviceData, SectorParams
    from terragraph_planner.common.configuration.enums import DeviceType, LocationType, SiteType, StatusType
    from terragraph_planner.common.geos import GeoLocation
    from terragraph_planner.common.topology_models.site import DetectedSite, Site

    loc = GeoLocation(utm_x=X0 + s["x"], utm_y=Y0 + s["y"], utm_epsg=EPSG, altitude=s["z"])
    st = SiteType[s["t"]]
    if s["b"] is not None and s["b"] >= 0:
        return DetectedSite(st, loc, s["b"])
    dt = DeviceType.CN if st == SiteType.CN else DeviceType.DN
    return Site(
        st, loc, DeviceData(device_sku="SKU_" + dt.name, device_type=dt, sector_params=SectorParams()),
        StatusType.CANDIDATE, LocationType.STREET_LEVEL if s["b"] is None else LocationType.ROOFTOP, s["b"], s["n"], None,
    )


def gen_layout(rng, nmax):
    n = rng.randint(2, nmax)
    W = rng.choice([60, 120, 200])
    sites = []
    pts = []
    for i in range(n):
        if pts and rng.random() < 0.3:
            x, y, z = pts[rng.randrange(len(pts))]  # same pole / same corner
            if rng.random() < 0.3 and z is not None:
                z = z + rng.choice([-3.0, 2.0])
        else:
            x, y = rng.randint(0, W), rng.randint(0, W)
            z = rng.choice([None, 10.0, 20.0]) if rng.random() < 0.2 else round(rng.uniform(5, 25), 1)
        pts.append((x, y, z))
        t = rng.choice(["POP", "DN", "DN", "CN"])
        b = None
        u = rng.random()
        if u < 0.45:
            b, t = rng.randrange(3), ("DN" if rng.random() < 0.7 else "CN")
        elif u < 0.6:
            b = -1
        sites.append({"x": x, "y": y, "z": z, "t": t, "b": b, "n": f"s{i}"})
    links = []
    for i in range(n):
        for j in range(i + 1, n):
            a, c = sites[i]["t"], sites[j]["t"]
            if a == "POP" and c == "POP" or a == "CN" and c == "CN":
                continue
            if rng.random() < 0.15:
                continue
            if c == "CN":
                links.append([i, j, 0])
            elif a == "CN":
                links.append([j, i, 0])
            else:
                links.append([i, j, 1])
    rng.shuffle(links)
    return W, sites, links


class LosSchedules(Scenario):
    """Random layouts decided under random worker counts, batch sizes, completion
    orders and worker isolation modes; compared with the same pairs decided one
    at a time, and with an independent oracle for the distance / elevation-angle /
    same-building / exclusion-zone rules."""

    name = "los_schedules"
    shrink = ("links", "zones", "boxes")
    simplify = {"mode": "inline", "surface": None}

    def gen(self, rng, faulty):
        W, sites, links = gen_layout(rng, 14 if rng.random() < 0.8 else 24)
        zones = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            x, y = rng.randint(0, W), rng.randint(0, W)
            zones.append([x, y, x + rng.randint(1, 40), y + rng.randint(1, 40)])
        surface = None
        boxes = []
        if rng.random() < 0.5:
            surface = {"w": W, "h": W, "res": rng.choice([1, 2]), "ground": 0.0}
            for q in sites:
                q["z"] = 12.5 if q["z"] is None else q["z"]
            for _ in range(rng.randint(0, 4)):
                x, y = rng.randint(0, W), rng.randint(0, W)
                boxes.append([x, y, x + rng.randint(2, 25), y + rng.randint(2, 25), float(rng.choice([3, 12, 30]))])
        min_d = rng.choice([1, 5, 20])
        return {
            "sites": sites, "links": links, "zones": zones, "boxes": boxes, "surface": surface,
            "max_d": min_d + rng.choice([30, 80, 300]), "min_d": min_d, "max_el": rng.choice([5, 15, 25, 89]),
            "thr": rng.choice([0.3, 0.6, 1.0]), "ell": rng.random() < 0.4, "radius": rng.choice([0.5, 1.0]),
            "freq": 60000.0,
            "configs": [
                {
                    "workers": rng.choice([None, 1, 2, 3, 4, 8, 64]), "cpus": rng.choice([1, 2, 4, 8]),
                    "batch": rng.choice([1, 2, 3, 5, 7, 13, 50, 1000]),
                    "bias": rng.choice([0.1, 0.5, 0.9]),
                }
                for _ in range(3)
            ],
            "mode": "fork" if rng.random() < 0.08 else "inline",
        }

    def run(self, case, r: Run):
        from shapely.geometry import LineString, box
        from terragraph_planner.common.structs import CandidateLOS
        from terragraph_planner.los import core

        w = r.w
        sites = [make_site(s) for s in case["sites"]]
        links = [CandidateLOS(i, j, bool(b)) for i, j, b in case["links"] if i < len(sites) and j < len(sites)]
        zones = [box(X0 + a, Y0 + b, X0 + c, Y0 + d) for a, b, c, d in case["zones"]]
        surf = make_elevation({**case["surface"], "boxes": case["boxes"]}) if case["surface"] else None

        def compute(ls, workers):
            res, _ = r.call(
                "compute_los", core.compute_los, sites, ls, surf, zones, case["max_d"], case["min_d"], case["max_el"],
                case["thr"], case["ell"], case["radius"], case["freq"], workers,
            )
            return [(int(a), int(b), float(c)) for a, b, c in res]

        # reference: every pair on its own, one worker
        w.cpus, w.pool_mode = 1, "inline"
        sim.patch_everywhere("BATCH_SIZE", 1000)
        alone = {}
        for l in links:
            alone[(l.site1_idx, l.site2_idx)] = compute([l], 1)
        expected = sorted(x for v in alone.values() for x in v)

        # independent oracle for the simple rules
        for l in links:
            s1, s2 = case["sites"][l.site1_idx], case["sites"][l.site2_idx]
            got = alone[(l.site1_idx, l.site2_idx)]
            want_n = (2 if l.is_bidirectional else 1)
            r.check(len(got) in (0, want_n), "los-direction-count",
                    lambda: f"pair {l} produced {got}")
            if got:
                dirs = sorted((a, b) for a, b, _ in got)
                exp = [(l.site1_idx, l.site2_idx)] + ([(l.site2_idx, l.site1_idx)] if l.is_bidirectional else [])
                r.check(dirs == sorted(exp), "los-direction", lambda: f"{dirs} != {exp}")
                conf = {c for _, _, c in got}
                # (an ellipsoid whose end point lies inside the surface is degenerate)
                buried = surf is not None and case["ell"] and any(
                    b[0] - 2 <= q["x"] <= b[2] + 2 and b[1] - 2 <= q["y"] <= b[3] + 2 and q["z"] <= b[4]
                    for q in (s1, s2) for b in case["boxes"])
                r.check(buried or len(conf) == 1 and 0 < min(conf) <= 1.0 and min(conf) >= case["thr"] - 1e-9,
                        "los-confidence-range", lambda: f"{got} thr {case['thr']}")
            dx, dy = s1["x"] - s2["x"], s1["y"] - s2["y"]
            both = s1["z"] is not None and s2["z"] is not None
            dz = s1["z"] - s2["z"] if both else 0.0
            dist = math.sqrt(dx * dx + dy * dy + dz * dz)
            bad = None
            sure = True
            el = math.degrees(math.asin(min(1, abs(dz) / dist))) if dist > 0 and both else 0.0
            if dx == 0 and dy == 0:
                bad = "same location"
            elif s1["b"] is not None and s1["b"] >= 0 and s1["b"] == s2["b"]:
                bad = "same building"
            elif dist > case["max_d"] * 1.05 or dist < case["min_d"] * 0.95:
                bad = "distance"
            elif el > case["max_el"] + 4:
                bad = "elevation angle"
            else:
                line = LineString([(X0 + s1["x"], Y0 + s1["y"]), (X0 + s2["x"], Y0 + s2["y"])])
                if any(z.buffer(-1e-6).intersects(line) for z in zones):
                    bad = "exclusion zone"
                else:
                    sure = (
                        case["min_d"] * 1.0 <= dist <= case["max_d"] and el <= case["max_el"]
                        and not any(z.buffer(1e-6).intersects(line) for z in zones)
                    )
            if bad:
                r.check(not got, "los-forbidden", lambda: f"pair {s1} {s2} accepted although: {bad}")
            elif sure and surf is None:
                r.check(got and all(abs(c - 1.0) < 1e-9 for _, _, c in got), "los-missing",
                        lambda: f"pair {s1} {s2} rejected/downgraded with no obstruction data: {got}")
            elif sure and both:
                # terrain: nothing above ground within 6 m of the beam axis -> clear
                near = [b for b in case["boxes"]
                        if box(b[0] - 6, b[1] - 6, b[2] + 6, b[3] + 6).intersects(
                            LineString([(s1["x"], s1["y"]), (s2["x"], s2["y"])]))]
                if not near and min(s1["z"], s2["z"]) >= 5:
                    r.check(got, "los-missing", lambda: f"pair {s1} {s2} rejected, no obstruction near the path")
                    r.note("clear_paths")
                # a tall box squarely across the middle of the beam -> blocked
                mx, my = (s1["x"] + s2["x"]) / 2, (s1["y"] + s2["y"]) / 2
                if dist > 12 and not case["ell"] and case["surface"]["res"] <= case["radius"] and any(
                    b[0] + 3 <= mx <= b[2] - 3 and b[1] + 3 <= my <= b[3] - 3 and b[4] == 30.0 for b in case["boxes"][-1:]
                ) and max(s1["z"], s2["z"]) <= 25 and 0 <= mx <= case["surface"]["w"] and 0 <= my <= case["surface"]["h"]:
                    r.check(not got, "los-through-wall", lambda: f"pair {s1} {s2} accepted through a 30 m block")
                    r.note("blocked_paths")

        base = None
        for ci, cfg in enumerate(case["configs"]):
            w.cpus, w.pool_bias = cfg["cpus"], cfg["bias"]
            w.pool_mode = case["mode"]
            n = sim.patch_everywhere("BATCH_SIZE", cfg["batch"])
            got = compute(links, cfg["workers"])
            if w.pools:
                p = w.pools[-1]
                cap = cfg["cpus"] if cfg["workers"] is None else min(cfg["workers"], cfg["cpus"])
                r.check(p["workers"] <= max(cap, 1), "los-too-many-workers", lambda: f"{p} cap {cap}")
            # (a memo hit may have been computed in the other direction: last-bit noise)
            r.check(rounded(got) == rounded(expected), "los-schedule-dependent",
                    lambda: f"config {cfg}: {diff(got, expected)}")
            # same configuration, another schedule: identical list, identical order
            again = compute(links, cfg["workers"])
            r.check(again == got, "los-order-schedule-dependent",
                    lambda: f"config {cfg}: two schedules returned the links in different order or content")
            r.state(cfg["batch"], len(got), got[:5])
        sim.patch_everywhere("BATCH_SIZE", 1000)
        r.see(expected)
        r.nontrivial = len(links) > 3 and 0 < len(expected) and len(alone) > 0
        r.note("pairs", len(links))
        r.note("valid_links", len(expected))


def rounded(v):
    return sorted((a, b, round(c, 9)) for a, b, c in v)


def diff(a, b):
    sa, sb = rounded(a), rounded(b)
    extra = [x for x in sa if x not in sb][:4]
    miss = [x for x in sb if x not in sa][:4]
    return f"extra {extra} missing {miss} counts {len(sa)} vs {len(sb)}"


class LosWorkerFaults(Scenario):
    """A worker fails on a chosen task: the run must fail loudly; retried without
    the fault it gives exactly the fault-free answer (no residue)."""

    name = "los_worker_faults"
    shrink = ("links",)
    weight = 0.6

    def gen(self, rng, faulty):
        W, sites, links = gen_layout(rng, 14)
        return {
            "sites": sites, "links": links, "batch": rng.choice([1, 1, 2, 3, 7]), "workers": rng.choice([1, 2, 3, 8]),
            "bias": rng.choice([0.1, 0.5, 0.9]),
            "faults": [[rng.randrange(12), rng.choice(["exception", "memory", "oserror", "unpicklable"])]
                       for _ in range(rng.choice([1, 1, 2]) if faulty else 0)],
            "ell": rng.random() < 0.3,
        }

    def run(self, case, r):
        from terragraph_planner.common.structs import CandidateLOS
        from terragraph_planner.los import core

        w = r.w
        sites = [make_site(s) for s in case["sites"]]
        links = [CandidateLOS(i, j, bool(b)) for i, j, b in case["links"]]
        args = (None, [], 300, 1, 89, 0.5, case["ell"], 1.0, 60000.0)
        sim.patch_everywhere("BATCH_SIZE", case["batch"])
        w.pool_bias = case["bias"]
        try:
            ref, _ = r.call("compute_los", core.compute_los, sites, links, *args, case["workers"])
            tasks = w.pool_tasks_run
            w.pool_tasks_run = 0
            w.pool_faults = {int(k): f for k, f in case["faults"]}
            fired = sum(w.faults.values())
            try:
                got = core.compute_los(sites, links, *args, case["workers"])
                err = None
            except Exception as e:
                got, err = None, e
            hit = sum(w.faults.values()) - fired
            w.pool_faults = {}
            if hit == 0:
                r.check(err is None, "los-spurious-failure", lambda: f"no fault fired but {err!r}")
            if err is None:
                r.check(sorted(got) == sorted(ref), "los-partial-result",
                        lambda: f"{hit} worker failures, run returned {len(got)} links of {len(ref)} without an error")
            else:
                r.note("loud_failures")
            r.see(repr(type(err)), hit)
            w.pool_tasks_run = 0
            again, _ = r.call("compute_los after failure", core.compute_los, sites, links, *args, case["workers"])
            r.check(list(again) == list(ref), "los-residue", "the run after a failed run differs from a clean run")
            r.nontrivial = hit > 0 and tasks > 1
            r.state(hit, tasks, len(ref))
        finally:
            sim.patch_everywhere("BATCH_SIZE", 1000)


register("C01", LosSchedules())
register("C02", LosWorkerFaults())
