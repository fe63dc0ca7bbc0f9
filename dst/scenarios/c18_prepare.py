"""C18: what preparing a network for planning adds, against a model of its own."""
from __future__ import annotations

import math

from .. import gen
from ..scenario import Run, Scenario, register
from .opt import gen_hub, gen_network, make_params

R = 6371e3
TOL = 0.02          # degrees in which being inside or outside a sector is left open
ACTIVE = {"PROPOSED", "EXISTING"}


def metres(a, b):
    la, lb = math.radians(a.latitude), math.radians(b.latitude)
    h = math.sin((lb - la) / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(math.radians(b.longitude - a.longitude) / 2) ** 2
    return 2 * R * math.asin(min(1.0, math.sqrt(h)))


def bearing(a, b):
    la, lb, d = math.radians(a.latitude), math.radians(b.latitude), math.radians(b.longitude - a.longitude)
    return math.degrees(math.atan2(math.sin(d) * math.cos(lb), math.cos(la) * math.sin(lb) - math.sin(la) * math.cos(lb) * math.cos(d))) % 360


def off(a, b):
    d = abs(a - b) % 360
    return min(d, 360 - d)


def build(net, order=None):
    import random

    from terragraph_planner.common.configuration.enums import StatusType
    from terragraph_planner.common.topology_models.demand_site import DemandSite
    from terragraph_planner.common.topology_models.link import Link
    from terragraph_planner.common.topology_models.sector import Sector
    from terragraph_planner.common.topology_models.topology import Topology

    sites = [gen.make_site(s) for s in net["sites"]]
    links = []
    for i, j, st, c in net["edges"]:
        for a, b in ((i, j), (j, i)):
            if net["sites"][a]["t"] != "CN":
                links.append(Link(sites[a], sites[b], status_type=StatusType[st], confidence_level=c))
    sectors = [Sector(sites[q[0]], q[1], q[2], q[3], StatusType[q[4]]) for q in net.get("sectors", [])]
    demands = [DemandSite(gen.loc_ll(d[1], d[0]) if d[3] else gen.loc(d[0], d[1]), num_sites=d[2]) for d in net.get("demands", [])]
    if order is not None:
        rng = random.Random(order)
        for l in (sites, links, sectors, demands):
            rng.shuffle(l)
    return Topology(sites=sites, links=links, sectors=sectors, demand_sites=demands)


def state(T):
    return {"sites": {k: [v.status_type.name, v.site_type.name, v.name, v.device.device_sku, v.latitude, v.longitude] for k, v in T.sites.items()},
            "links": {k: [v.status_type.name, v.is_wireless, v.confidence_level] for k, v in T.links.items()}}


def overlap(nodes, h, n):
    """nodes: centre bearings; whether two of them certainly overlap / possibly overlap"""
    m = min((off(a, b) for i, a in enumerate(nodes) for b in nodes[:i]), default=360.0)
    return m - h * n


STEP = 3  # degrees between the orientations that are considered


def best_cover(az, nodes, h, n):
    """most neighbours any allowed placement of the nodes on multiples of STEP covers"""
    import numpy as np

    W, N = h * n, 360 // STEP
    k = min(int(360 / W), nodes)
    if k == 0:
        return 0
    cnt = np.zeros(N)
    for c in range(N):
        secs = [c * STEP + h * (i - (n - 1) / 2) for i in range(n)]
        cnt[c] = sum(any(off(a, s) < h / 2 - TOL for s in secs) for a in az)
    if k == 1:
        return int(cnt.max())
    best = 0
    g = int(math.ceil(W / STEP - 1e-9))
    for f in range(N):
        last = int(math.floor(f + (360 - W) / STEP + 1e-9))
        run = np.full(2 * N, -1.0)
        run[f] = cnt[f]
        for _ in range(k - 1):
            acc = np.maximum.accumulate(run)
            new = np.full(2 * N, -1.0)
            idx = np.arange(f + g, last + 1)
            prev = acc[idx - g]
            new[idx] = np.where(prev >= 0, prev + cnt[idx % N], -1.0)
            run = new
        best = max(best, int(run.max()))
    return best


class Prepared(Scenario):
    """several networks are prepared one after the other in one process"""
    name = "prepared"
    shrink = ("nets",)
    cpu_limit = 60.0

    def gen(self, rng, faulty):
        return {"nets": [self.gen_net(rng) for _ in range(rng.choice([1, 1, 2, 3]))]}

    def gen_net(self, rng):
        net = gen_hub(rng) if rng.random() < 0.35 else gen_network(rng, nmax=9)
        S = net["sites"]
        for s in S:
            if s["t"] == "CN" and rng.random() < 0.3:
                s["subs"] = rng.randint(1, 4)
            if rng.random() < 0.35:
                s["b"] = rng.choice([-1, 0, 1, 1, 2, 7])
        for s in list(S):  # clients and relays sharing a spot, also at another height
            if rng.random() < 0.15:
                t = rng.choice(["CN", "DN"]) if s["t"] != "CN" else rng.choice(["DN", "DN", "CN"])
                d = dict(s, t=t, n=s["n"] + "x", st="CANDIDATE", dev="CN1" if t == "CN" else rng.choice(["DN1", "DN4"]))
                d.pop("subs", None)
                if t == "CN" and rng.random() < 0.5:
                    d["subs"] = 3
                if t == s["t"] or rng.random() < 0.2:
                    d["z"] = s["z"] + 5
                if not any((o["x"], o["y"], o["z"], o["t"], o.get("dev") or "DN1") == (d["x"], d["y"], d["z"], d["t"], d["dev"])
                           or o["t"] == t == "CN" and (o["x"], o["y"], o["z"]) == (d["x"], d["y"], d["z"]) for o in S):
                    S.append(d)
                    for k, e in enumerate(list(net["edges"])):
                        i, j = e[0], e[1]
                        if S[i] is s and rng.random() < 0.6 and not (t == "CN" and S[j]["t"] == "CN"):
                            net["edges"].append([len(S) - 1, j, "UNAVAILABLE" if S[j]["st"] == "UNAVAILABLE" else "CANDIDATE", 1.0])
        deg = rng.random() < 0.15
        if deg:  # in degrees, also where longitudes wrap around
            lat0, lon0 = rng.choice([0.0, 37.5, -43.2, 64.1]), rng.choice([179.9985, -179.9995, 0.0, 10.0])
            for s in S:
                la = lat0 + s["y"] / 111195.0
                lo = lon0 + s["x"] / (111195.0 * math.cos(math.radians(lat0)))
                s["lat"], s["lon"] = round(la, 7), round((lo + 180) % 360 - 180, 7)
        p = {"demand": rng.choice([0.025, 0.3]), "pop_capacity": rng.choice([2.0, 10.0]),
             "enable_cn_demand": rng.random() < 0.7, "enable_uniform_demand": rng.random() < 0.35, "enable_manual_demand": rng.random() < 0.4}
        if not any(p[k] for k in p if k.startswith("enable")):
            p["enable_cn_demand"] = True
        p["demand_spacing"] = rng.choice([30.0, 55.0, 80.0])
        p["demand_connection_radius"] = rng.choice([5.0, 30.0, 60.0, 150.0])
        net["params"] = p
        net["demands"] = []
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            o = rng.choice(S)
            dx, dy = rng.uniform(-90, 90), rng.uniform(-90, 90)
            if deg:
                net["demands"].append([(o["lon"] + dx / 111195.0 + 180) % 360 - 180, o["lat"] + dy / 111195.0, rng.choice([1, 2]), 1])
            else:
                net["demands"].append([o["x"] + dx, o["y"] + dy, rng.choice([1, 2]), 0])
        net["sectors"], net["bad"] = self.gen_sectors(rng, S) if rng.random() < 0.3 else ([], None)
        net["order"] = rng.randrange(1000)
        return net

    def gen_sectors(self, rng, S):
        """sectors the user gave, possibly some that cannot be mounted"""
        out, bad = [], None
        for i, s in enumerate(S):
            if rng.random() < 0.5:
                continue
            d = gen.DEVICES[s.get("dev") or ("CN1" if s["t"] == "CN" else "DN1")]
            h, n, N = float(d.get("horizontal_scan_range", 70)), d.get("number_sectors_per_node", 1), d.get("nodes", 1)
            st = s["st"] if s["st"] in ("EXISTING", "UNAVAILABLE", "UNREACHABLE") else "CANDIDATE"
            fit = int(360 // (h * n + 1)) if 360 % (h * n) else int(360 / (h * n))
            k = rng.randint(1, max(1, min(N, fit)))
            slack = 360 - k * h * n
            a = rng.uniform(0, 360) if slack > 0 else float(rng.randrange(0, 360, 5))
            gap = rng.uniform(0, slack / k) if slack > 0 else 0.0
            sec = [[i, q, j, round((a + q * (h * n + gap) + j * h) % 360, 6), st] for q in range(k) for j in range(n)]
            if bad is None and rng.random() < 0.12:
                bad = rng.choice(["nodes", "missing", "apart", "overlap"])
                if bad == "nodes" and h * n * (N + 1) <= 359:
                    sec = [[i, q, j, round((a + q * 360 / (N + 1) + j * h) % 360, 6), st] for q in range(N + 1) for j in range(n)]
                elif bad == "missing" and n > 1:
                    sec.pop()
                elif bad == "apart" and n > 1:
                    sec[0][3] = (sec[0][3] - rng.choice([2.0, 15.0])) % 360
                elif bad == "overlap" and N > 1:
                    sec = sec[:n] + [[i, 9, q[2], (q[3] + rng.choice([1.0, h * 0.5, h * 0.9])) % 360, st] for q in sec[:n]]
                else:
                    bad = None
            elif N > 1 and slack == 0 and k > 1:
                sec = sec[:n]  # touching nodes are left to the planner
            out += sec
        return out, bad

    def run(self, case, r: Run):
        first = None
        for i, net in enumerate(case["nets"]):
            T, err = self.prepare(r, net, None)
            got = self.verify(r, net, T, err)
            if i == 0:
                first = got
            if got is not None and not net["params"]["enable_manual_demand"] and net["order"] % 2:
                from terragraph_planner.optimization import topology_preparation as TP

                r.call("prepare again", TP.prepare_topology_for_optimization, T, T.P)
                self.same(r, got, self.verify(r, net, T, None), "prepared twice")
            T2, err2 = self.prepare(r, net, net["order"])
            self.same(r, got, self.verify(r, net, T2, err2), "listed in another order")
        T, err = self.prepare(r, case["nets"][0], None)
        self.same(r, first, self.verify(r, case["nets"][0], T, err), "prepared again after other networks")

    def same(self, r, a, b, how):
        r.check((a is None) == (b is None), "order", lambda: f"{how}: {'refused' if b is None else 'accepted'}")
        if a is not None:
            for k in a:
                d = [x for x in a[k].keys() | b[k].keys() if a[k].get(x) != b[k].get(x)]
                r.check(not d, "order", lambda: f"{how}: {k} {d[0]}: {a[k].get(d[0])} became {b[k].get(d[0])}")

    def prepare(self, r, net, order):
        from terragraph_planner.common.exceptions import PlannerException
        from terragraph_planner.optimization import topology_preparation as TP

        T, err = build(net, order), None
        P = make_params(net["params"])
        before = state(T)
        given = {k: (q.ant_azimuth, q.status_type.name, q.site.site_id) for k, q in T.sectors.items()}
        manual = {k: d.num_sites for k, d in T.demand_sites.items()}
        _, err = r.call("prepare", TP.prepare_topology_for_optimization, T, P, allow=(PlannerException,))
        T.given, T.manual, T.P = given, manual, P
        if err is None:
            after = state(T)
            for k in before:
                r.check(before[k] == after[k], "changed", lambda: f"preparing changed the {k}")
        return T, err

    # ------------------------------------------------------------------
    def verify(self, r, net, T, err):
        p = net["params"]
        if net["bad"] is not None:
            r.check(err is not None, "impossible-sectors", lambda: f"sectors that cannot be mounted ({net['bad']}) were accepted")
        if err is not None:
            why = str(err)
            if net["bad"] is not None:
                return None
            if "No demand sites" in why:
                r.check(not p["enable_cn_demand"] or not any(s.site_type.name == "CN" for s in T.sites.values()), "no-demand", lambda: why)
                r.check(not (p["enable_manual_demand"] and T.manual), "no-demand", lambda: why)
                r.check(not p["enable_uniform_demand"] or p["demand_connection_radius"] < 0.72 * p["demand_spacing"], "no-demand", lambda: why)
                return None
            if "active link to not have a valid sector" in why:
                r.check(any(e[2] in ACTIVE for e in net["edges"]), "refused", lambda: why)
                return None
            r.check(False, "refused", lambda: f"a network in order was refused: {why}")
        r.nontrivial = True
        self.hardware(r, T)
        self.demand(r, T, p)
        r.w.sim_steps += 1
        r.state(len(T.sites), len(T.sectors), len(T.demand_sites))
        return {
            "sectors": {k: (round(q.ant_azimuth, 6), q.status_type.name, q.channel) for k, q in T.sectors.items()},
            "links": {k: (l.tx_sector and l.tx_sector.sector_id, l.rx_sector and l.rx_sector.sector_id, round(l.capacity, 9)) for k, l in T.links.items()},
            "demands": {k: (d.demand, tuple(sorted(s.site_id for s in d.connected_sites))) for k, d in T.demand_sites.items()},
        }

    def hardware(self, r, T):
        by = {}
        for q in T.sectors.values():
            r.check(T.sites.get(q.site.site_id) is q.site, "sector", "a sector belongs to a site that is not in the network")
            by.setdefault(q.site.site_id, []).append(q)
        given = {v[2] for v in T.given.values()}
        for k, v in T.given.items():
            q = T.sectors.get(k)
            ok = q is not None and q.ant_azimuth == v[0] and (q.status_type.name == v[1] or v[1] == "CANDIDATE" and q.status_type.name == "PROPOSED")
            r.check(ok, "given-sector", lambda: f"sector {k} given as {v} is {q and (q.ant_azimuth, q.status_type.name)}")
        near = {}
        for l in T.links.values():
            near.setdefault(l.tx_site.site_id, set()).add(l.rx_site.site_id)
            if l.rx_site.site_type.name == "CN":
                near.setdefault(l.rx_site.site_id, set()).add(l.tx_site.site_id)
        for k, s in T.sites.items():
            d, secs = s.device, by.get(k, [])
            h, n = float(d.sector_params.horizontal_scan_range), d.sector_params.number_sectors_per_node
            nodes = {}
            for q in secs:
                nodes.setdefault(q.node_id, {})[q.position_in_node] = q
            if k in given:
                r.check({q.sector_id for q in secs} == {x for x, v in T.given.items() if v[2] == k}, "given-sector",
                        lambda: f"{s.name}: sectors were added to the ones given")
                continue
            r.check(len(nodes) <= d.number_of_nodes_per_site, "too-many-nodes",
                    lambda: f"{s.name}: {len(nodes)} nodes on a device with {d.number_of_nodes_per_site}")
            if not near.get(k):
                continue
            r.check(len(nodes) > 0, "no-sectors", lambda: f"{s.name} has {len(near[k])} possible neighbors but no sectors")
            for nid, pos in nodes.items():
                r.check(sorted(pos) == list(range(n)), "node", lambda: f"{s.name}: node {nid} has sectors {sorted(pos)}, the device has {n}")
                for i in range(n - 1):
                    r.check(abs((pos[i + 1].ant_azimuth - pos[i].ant_azimuth) % 360 - h) < 1e-6, "node",
                            lambda: f"{s.name}: sectors {[pos[x].ant_azimuth for x in range(n)]} are not {h} degrees apart")
            c = [(pos[0].ant_azimuth + h * (n - 1) / 2) % 360 for pos in nodes.values()]
            r.check(overlap(c, h, n) > -1e-6, "overlap", lambda: f"{s.name}: nodes at {c} overlap")
            want = {"EXISTING", "UNAVAILABLE", "UNREACHABLE"} & {s.status_type.name}
            for q in secs:
                ok = q.status_type.name in want if want else q.status_type.name in ("CANDIDATE", "PROPOSED")
                if q.status_type.name == "PROPOSED":
                    ok = any(l.status_type.name in ACTIVE and q in (l.tx_sector, l.rx_sector) for l in T.links.values())
                r.check(ok, "sector-status", lambda: f"sector {q.sector_id} of {s.name} ({s.status_type.name}) is {q.status_type.name}")
            if s.site_type.name != "CN":
                az = [bearing(s, T.sites[j]) for j in sorted(near[k])]
                cov = sum(any(off(a, q.ant_azimuth) < h / 2 + TOL for q in secs) for a in az)
                best = best_cover(az, d.number_of_nodes_per_site, h, n)
                r.check(cov >= best, "coverage", lambda: f"{s.name}: sectors at {[q.ant_azimuth for q in secs]} see {cov} of {len(az)} neighbors, {best} could be seen")
        for l in T.links.values():
            ends = []
            for s, o in ((l.tx_site, l.rx_site), (l.rx_site, l.tx_site)):
                lim = float(s.device.sector_params.horizontal_scan_range) / 2 if s.site_type.name != "CN" else 180.0
                dv = {q.sector_id: off(bearing(s, o), q.ant_azimuth) for q in by.get(s.site_id, [])}
                m = min(dv.values(), default=999.0)
                ends.append((dv, m < lim - TOL or m <= 180.0 <= lim, m > lim + TOL, m))
            has = l.tx_sector is not None and l.rx_sector is not None
            r.check(has or l.tx_sector is None and l.rx_sector is None, "half-link", lambda: f"link {l.link_id} has a sector at one end only")
            name = f"link {l.tx_site.name}-{l.rx_site.name}"
            if ends[0][1] and ends[1][1]:
                r.check(has, "no-sector", lambda: f"{name} lies within sectors of both ends but has none")
            if ends[0][2] or ends[1][2]:
                r.check(not has, "outside-sector", lambda: f"{name} lies outside all sectors of one end but has sectors")
            if has:
                for q, e in ((l.tx_sector, ends[0]), (l.rx_sector, ends[1])):
                    r.check(q.sector_id in e[0] and e[0][q.sector_id] <= e[3] + TOL, "wrong-sector", lambda: f"{name} uses {q.sector_id}, another sector points closer")
                    r.check(T.sectors.get(q.sector_id) is q, "wrong-sector", lambda: f"{name} uses a sector that is not in the network")
                rev = T.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
                r.check(rev is None or rev.tx_sector is l.rx_sector and rev.rx_sector is l.tx_sector, "mirror", lambda: f"{name} and its reverse use different sectors")
            else:
                r.check(l.capacity == 0, "capacity", lambda: f"{name} has capacity {l.capacity} without sectors")
        # capacity depends on the devices and the distance alone and falls with distance
        rows = {}
        for l in T.links.values():
            if l.tx_sector is not None:
                rows.setdefault((l.tx_site.device.device_sku, l.rx_site.device.device_sku), []).append((l.distance, l.capacity, l.link_id))
        for v in rows.values():
            v.sort()
            for a, b in zip(v, v[1:]):
                r.check(b[1] <= a[1] or b[0] - a[0] < 1e-6, "capacity", lambda: f"capacity {a[1]} over {a[0]:.1f} m but {b[1]} over {b[0]:.1f} m")

    def demand(self, r, T, p):
        S = list(T.sites.values())
        cn = {}
        for s in S:
            if s.site_type.name == "CN":
                cn.setdefault((s.latitude, s.longitude), []).append(s)
        partners = {}
        for s in S:
            if s.site_type.name == "CN":
                partners[s.site_id] = {
                    o.site_id for o in S if o.site_type.name != "CN" and (
                        (o.latitude, o.longitude, o.altitude) == (s.latitude, s.longitude, s.altitude)
                        or s.location_type.name == o.location_type.name == "ROOFTOP" and s.building_id is not None
                        and s.building_id == o.building_id and s.building_id > -1)}
        rad = p["demand_connection_radius"]
        left = dict(T.demand_sites)

        def served(d, sure, maybe, what):
            got = [s.site_id for s in d.connected_sites]
            r.check(len(got) == len(set(got)), "twice", lambda: f"{what}: a site is connected twice")
            for s in d.connected_sites:
                r.check(T.sites.get(s.site_id) is s, "connected", lambda: f"{what} is connected to a site that is not in the network")
            low = sure | {x for c in sure for x in partners.get(c, ())}
            high = low | maybe | {x for c in maybe for x in partners.get(c, ())}
            nm = {s.site_id: s.name for s in S}
            r.check(low <= set(got), "connected", lambda: f"{what} is not connected to {[nm[x] for x in low - set(got)]}")
            r.check(set(got) <= high, "connected", lambda: f"{what} is connected to {[nm[x] for x in set(got) - high]}")
            r.check(d.demand == p["demand"], "demand", lambda: f"{what} asks for {d.demand}, the settings say {p['demand']}")

        def around(d):
            m = {s.site_id: metres(s, d) for s in S}
            return {k for k, v in m.items() if v < rad - 1e-3}, {k for k, v in m.items() if v <= rad + 1e-3}

        # clients
        spots = {(d.latitude, d.longitude): k for k, d in T.demand_sites.items()}
        for at, c in cn.items():
            if p["enable_cn_demand"]:
                k = spots.get(at)
                r.check(k is not None, "client-demand", lambda: f"client {c[0].name} has no demand")
                if k in T.manual:
                    continue
                d = left.pop(k)
                r.check(d.num_sites in {s.number_of_subscribers for s in c}, "subscribers", lambda: f"demand at {c[0].name} stands for {d.num_sites} subscribers")
                served(d, {s.site_id for s in c}, set(), f"demand at client {c[0].name}")
        # given by the user
        for k, num in T.manual.items():
            if not p["enable_manual_demand"]:
                r.check(k not in left, "manual-demand", "demand locations are used although manual demand is off")
                continue
            r.check(k in T.demand_sites, "manual-demand", "a given demand location is gone")
            if k in left:
                d = left.pop(k)
                if (d.latitude, d.longitude) in cn:
                    continue
                r.check(d.num_sites == num, "manual-demand", lambda: f"a given demand for {num} subscribers now stands for {d.num_sites}")
                served(d, *around(d), "given demand")
        # grid
        r.check(p["enable_uniform_demand"] or not left, "extra-demand", lambda: f"{len(left)} demand locations nobody asked for")
        if not p["enable_uniform_demand"]:
            return
        sp = p["demand_spacing"]
        for d in left.values():
            sure, maybe = around(d)
            r.check(maybe, "idle-demand", "a grid location without any site in range was kept")
            served(d, sure, maybe, f"grid demand ({d.latitude:.6f}, {d.longitude:.6f})")
        if not left:
            r.check(rad < 0.72 * sp, "grid", "no grid location serves any site")
            return
        # a grid: whole numbers of steps from one of its locations, and all of them
        o = left[sorted(left)[0]]
        mx = math.radians(1) * R * math.cos(math.radians(o.latitude))
        my = math.radians(1) * R
        pts = {}
        xy = lambda s: (((s.longitude - o.longitude + 180) % 360 - 180) * mx / sp, (s.latitude - o.latitude) * my / sp)
        for d in left.values():
            x, y = xy(d)
            r.check(abs(x - round(x)) < 0.02 + 0.002 * abs(x) and abs(y - round(y)) < 0.02 + 0.002 * abs(y), "grid",
                    lambda: f"grid locations are {x:.3f} and {y:.3f} spacings apart")
            key = (round(x), round(y))
            r.check(key not in pts, "grid", "two grid locations on one spot")
            pts[key] = d
        at = [xy(s) for s in S]
        x0, x1, y0, y1 = min(a[0] for a in at), max(a[0] for a in at), min(a[1] for a in at), max(a[1] for a in at)
        for i in range(math.ceil(x0 - 1e-3), math.floor(x1 + 1e-3) + 1):
            for j in range(math.ceil(y0 - 1e-3), math.floor(y1 + 1e-3) + 1):
                if (i, j) not in pts:
                    m = min(math.hypot(a[0] - i, a[1] - j) for a in at) * sp
                    if any(abs(xy(d)[0] - i) + abs(xy(d)[1] - j) < 1e-3 for d in T.demand_sites.values()):
                        continue  # stands for a client or a given demand at the same place
                    r.check(m > rad * 0.98 - 1, "grid", lambda: f"a location of the grid {m:.1f} m from a site is missing (radius {rad})")


register("C18", Prepared())
