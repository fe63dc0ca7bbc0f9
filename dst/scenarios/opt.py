"""C06 / C07 / C08: the optimisation pipeline under the simulated solver."""
from __future__ import annotations

import copy
import math
import os

from .. import gen, sim
from ..scenario import Run, Scenario, register

ACTIVE = {"PROPOSED", "EXISTING"}
FROZEN = {"EXISTING", "UNAVAILABLE"}
BAD = ["timeout_nosol", "infeasible", "numerical"]
MEH = ["incumbent", "timeout_incumbent", "slop"]


def gen_hub(rng, nmax=9):
    """a POP or relay with spokes in many directions: sectors, channels and angle rules matter"""
    n = rng.randint(4, nmax)
    hub = {"t": "POP", "x": 0.0, "y": 0.0, "z": 10.0, "st": "CANDIDATE", "n": "POP0", "dev": rng.choice(["DN2", "DN4", "DN3", "DN22", "DN23"])}
    sites, edges = [hub], []
    k = 0
    if rng.random() < 0.3:  # the hub is one hop away from the POP
        hub.update(t="DN", n="DN0")
        sites.append({"t": "POP", "x": rng.choice([-90.0, 90.0]), "y": 30.0, "z": 10.0, "st": "CANDIDATE", "n": "POP1", "dev": "DN4"})
        edges.append([1, 0, "CANDIDATE", 1.0])
    a = rng.uniform(0, 360)
    for i in range(n):
        a += rng.choice([30, 45, 50, 60, 80, 95, 120]) + rng.uniform(-4, 4)
        d = rng.choice([50, 70, 100, 160, 200])
        t = rng.choice(["DN", "DN", "CN"])
        j = len(sites)
        sites.append({"t": t, "x": round(d * math.sin(math.radians(a)), 1), "y": round(d * math.cos(math.radians(a)), 1), "z": 10.0, "st": "CANDIDATE",
                      "n": f"{t}{j}", "dev": "CN1" if t == "CN" else rng.choice(["DN1", "DN2", "DN4"])})
        edges.append([0, j, "CANDIDATE", 1.0])
        if t == "DN":  # each relay serves a client of its own further out
            sites.append({"t": "CN", "x": round((d + 60) * math.sin(math.radians(a + 5)), 1), "y": round((d + 60) * math.cos(math.radians(a + 5)), 1),
                          "z": 10.0, "st": "CANDIDATE", "n": f"CN{j + 1}", "dev": "CN1"})
            edges.append([j, j + 1, "CANDIDATE", 1.0])
    if not any(s["t"] == "CN" for s in sites):
        sites[-1].update(t="CN", dev="CN1", n=f"CN{len(sites) - 1}")
    return {"sites": sites, "edges": edges}


def gen_network(rng, nmax=8, fixed=True):
    n = rng.randint(4, nmax)
    pops = rng.choice([1, 1, 1, 2])
    W = rng.choice([150, 250, 350])
    sites = gen.gen_sites(rng, n, W=W, pops=pops, cns=rng.choice([0.3, 0.5]), zs=(10.0, 10.0, 18.0))
    if not any(s["t"] == "CN" for s in sites):
        sites[-1]["t"] = "CN"
        sites[-1]["n"] = f"CN{n - 1}"
    for s in sites:
        if s["t"] != "CN":
            s["dev"] = rng.choice(["DN1", "DN2", "DN4", "DN4", "DN3", "DN22", "DN23"])
        elif rng.random() < 0.2:
            s["subs"] = 2
    if fixed:
        for s in sites:
            u = rng.random()
            if u < 0.25:
                s["st"] = "EXISTING"
            elif u < 0.37:
                s["st"] = "UNAVAILABLE"
            elif u < 0.41:
                s["st"] = "PROPOSED"
    # co-located alternatives (a CN that could be upgraded to a DN, two DN models)
    if rng.random() < 0.35:
        o = rng.choice(sites[pops:])
        t = "DN" if o["t"] == "CN" else rng.choice(["CN", "DN"])
        d = dict(o, t=t, n=o["n"] + "b", dev="CN1" if t == "CN" else ("DN4" if o.get("dev") != "DN4" else "DN1"))
        d["st"] = "CANDIDATE"
        sites.append(d)
    edges = []
    maxd = rng.choice([140, 250, 250])
    for i in range(len(sites)):
        for j in range(i + 1, len(sites)):
            a, b = sites[i], sites[j]
            if (a["t"] == b["t"] == "CN") or a["t"] == b["t"] == "POP":
                continue
            if gen.dist(a, b) > maxd or gen.dist(a, b) < 1 or rng.random() < 0.1:
                continue
            st = gen.link_status(rng, a["st"], b["st"])
            edges.append([i, j, st, round(rng.uniform(0.5, 1), 2)])
    return {"sites": sites, "edges": edges}


def build(case, order=None):
    """the network of a case; `order` permutes the order components are listed in"""
    links = []
    for i, j, st, c in case["edges"]:
        a, b = case["sites"][i], case["sites"][j]
        if a["t"] != "CN":
            links.append([i, j, st, 1, c])
        if b["t"] != "CN":
            links.append([j, i, st, 1, c])
    spec = {"sites": case["sites"], "links": links}
    if order is None:
        return gen.make_topology(spec)[0]
    import random

    from terragraph_planner.common.topology_models.topology import Topology

    T, sites = gen.make_topology(spec)
    rng = random.Random(order)
    ss, ll = list(T.sites.values()), list(T.links.values())
    rng.shuffle(ss)
    rng.shuffle(ll)
    return Topology(sites=ss, links=ll)


def make_params(p):
    from terragraph_planner.common.configuration.configs import OptimizerParams
    from terragraph_planner.common.configuration.enums import RedundancyLevel

    kw = dict(p)
    if "redundancy_level" in kw:
        kw["redundancy_level"] = RedundancyLevel[kw["redundancy_level"]]
    return OptimizerParams(device_list=[gen.make_device(d) for d in gen.DEVICES], **kw)


def gen_params(rng):
    p = {
        "number_of_channels": rng.choice([1, 1, 2]),
        "enable_legacy_redundancy_method": rng.random() < 0.5,
        "redundancy_level": rng.choice(["NONE", "LOW", "MEDIUM", "HIGH"]),
        "budget": rng.choice([5000.0, 15000.0, 40000.0, 300000.0]),
        "pop_capacity": rng.choice([2.0, 10.0]),
        "demand": rng.choice([0.025, 0.3]),
        "maximum_number_hops": rng.choice([1, 2, 15, 15]),
        "always_active_pops": rng.random() < 0.6,
        "maximize_common_bandwidth": rng.random() < 0.25,
        "backhaul_link_redundancy_ratio": rng.choice([0.0, 0.2, 0.5]),
        "dn_total_sector_limit": rng.choice([3, 15]),
        "dn_dn_sector_limit": rng.choice([1, 2]),
        "diff_sector_angle_limit": rng.choice([0.0, 25.0]),
        "near_far_length_ratio": rng.choice([3.0, 3.0, 1.5]),
        "near_far_angle_limit": rng.choice([45.0, 45.0, 80.0, 0.0]),
        "number_of_extra_pops": rng.choice([0, 0, 0, 0, 1]),
        "oversubscription": rng.choice([1.0, 2.0]),
    }
    if rng.random() < 0.2:
        p.update(enable_uniform_demand=True, enable_cn_demand=rng.random() < 0.5, demand_spacing=60.0, demand_connection_radius=80.0)
    return p


def gen_plan(rng, faulty):
    """answers of the solver by solve number; anything else is optimal"""
    if not faulty:
        return []
    style = rng.random()
    k = rng.choice([1, 1, 2, 3])
    out = {}
    for _ in range(k):
        i = min(int(rng.expovariate(0.25)), 11)
        a = rng.choice(MEH) if style < 0.4 else rng.choice(BAD) if style < 0.8 else rng.choice(MEH + BAD)
        out[i] = a
    if rng.random() < 0.08:
        out[rng.randrange(8)] = "raise"
    return [[i, a] for i, a in sorted(out.items())]


def install_plan(w, plan, every=None):
    d = {int(i): a for i, a in plan}
    w.solver.plan = lambda idx, p: every or d.get(idx, "optimal")


def snap(T):
    """observable state of a network"""
    return {
        "sites": {k: [v.status_type.name, v.polarity.name, v.site_type.name, v.name, v.device.device_sku] for k, v in T.sites.items()},
        "links": {k: [v.status_type.name, v.is_wireless, v.tx_sector.sector_id if v.tx_sector else None,
                      v.rx_sector.sector_id if v.rx_sector else None] for k, v in T.links.items()},
        "sectors": {k: [v.status_type.name, v.channel, round(v.ant_azimuth, 6)] for k, v in T.sectors.items()},
        "demands": {k: [v.demand, v.num_sites, [s.site_id for s in v.connected_sites]] for k, v in T.demand_sites.items()},
    }


def fixed_part(T):
    return {
        "sites": {k: v.status_type.name for k, v in T.sites.items() if v.status_type.name in FROZEN},
        "links": {k: v.status_type.name for k, v in T.links.items() if v.status_type.name in FROZEN},
        "sectors": {k: v.status_type.name for k, v in T.sectors.items() if v.status_type.name in FROZEN},
    }


def colocated(T):
    out = {}
    for s in T.sites.values():
        out.setdefault((s.latitude, s.longitude), []).append(s)
    return out


def reach(T, maxhops=None, usable=lambda s: True, cap=False, edge=lambda l: True):
    """own breadth-first search from the usable POPs"""
    frontier = [k for k, s in T.sites.items() if s.site_type.name == "POP" and usable(s)]
    hops = {k: 0 for k in frontier}
    n = 0
    while frontier and (maxhops is None or n < maxhops):
        n += 1
        nxt = []
        for l in T.links.values():
            a, b = l.tx_site.site_id, l.rx_site.site_id
            if a in hops and hops[a] == n - 1 and b not in hops and edge(l) and usable(l.rx_site):
                nxt.append(b)
                hops[b] = n
        frontier = nxt
    return hops


def run_steps(r, T, P, upto="optimize", allow=None):
    """pre-check, prepare, optimise -> (failed step or None, exception)"""
    from terragraph_planner.common.exceptions import PlannerException
    from terragraph_planner.optimization import topology_optimization as TO

    from .. import sim_xpress

    allow = allow or (PlannerException, sim_xpress.SolverError)
    for step, fn in (("pre-check", lambda: TO.pre_opt_check(T, P)),
                     ("prepare", lambda: TO.prepare_topology_for_optimization(T, P)),
                     ("optimize", lambda: TO.optimize_topology(T, P))):
        _, err = r.call(step, fn, allow=allow)
        if err is not None:
            return step, err
        if step == upto:
            break
    return None, None


#: internal inconsistencies reported through the planner's own assertions: the
#: planner noticing that it produced nonsense is not a documented outcome
INTERNAL = (
    "Cannot change the", "must be the same as site status", "must be candidate, proposed or existing",
    "with an unreachable tx or rx site must be", "from/to an unavailable sites must be", "with a candidate tx or rx site cannot be",
    "have conflicting status types", "must be connected to existing sectors", "must be connected to active sectors",
    "cannot be connected to inactive sectors", "Channels of the two sectors", "cannot be both odd and even",
    "CN sector can only have one incoming link", "Sector cannot have multiple channels", "Sector must have at least one channel",
    "Could not find best sector position", "Active link cannot be connected to inactive site", "No sector found for link",
    "No flow in solution, but common bandwidth", "connected to inactive sites", "must be connected to existing sites",
    "must be connected to active sites",
)


def check_internal(r, step, err):
    if err is not None:
        from terragraph_planner.common.exceptions import TopologyException

        r.check(not any(m in str(err) for m in INTERNAL) and not (step == "optimize" and isinstance(err, TopologyException)), f"internal-inconsistency:{step}",
                lambda: f"{step} failed on a network the planner accepts: {type(err).__name__}: {err}")


def fixed_signature(T):
    return {
        "sites": {k: v.status_type.name for k, v in T.sites.items() if v.status_type.name in FROZEN},
        "links": {k: v.status_type.name for k, v in T.links.items() if v.status_type.name in FROZEN},
    }


def input_signature(T):
    """what the user gave and no planning step may alter"""
    return {
        "sites": {k: [v.site_type.name, v.name, v.device.device_sku, v.latitude, v.longitude, v.altitude, v.building_id,
                      v.location_type.name, v.number_of_subscribers] for k, v in T.sites.items()},
        "links": {k: [v.tx_site.site_id, v.rx_site.site_id, v.is_wireless, v.confidence_level] for k, v in T.links.items()},
    }


class OptScenario(Scenario):
    shrink = ("edges", "plan")
    cpu_limit = 120.0
    fixed_p = 0.6

    def gen(self, rng, faulty):
        net = gen_network(rng, fixed=rng.random() < self.fixed_p)
        return {**net, "params": gen_params(rng), "plan": gen_plan(rng, faulty), "debug": rng.random() < 0.1}

    def setup(self, case, r):
        P = make_params(case["params"])
        if case.get("debug"):
            from terragraph_planner.common.utils import current_system_params

            current_system_params.debug_mode = True
        return P


class FixedStatus(OptScenario):
    """C06: what the user declared existing or unavailable stays so, at every instant and whatever happens"""
    name = "fixed-status"
    fixed_p = 1.0

    def run(self, case, r: Run):
        T = build(case)
        P = self.setup(case, r)
        fix0, in0 = fixed_signature(T), input_signature(T)
        d = {int(i): a for i, a in case["plan"]}

        def look(when):
            f, i = fixed_signature(T), input_signature(T)
            for k in ("sites", "links"):
                r.check(f[k] == fix0[k], f"fixed-status-changed:{k}",
                        lambda: f"{when}: user-fixed {k} differ: {diff(fix0[k], f[k])}")
                lost = {x: v for x, v in in0[k].items() if i[k].get(x) != v}
                r.check(not lost, f"input-altered:{k}", lambda: f"{when}: input {k} altered: "
                        f"{[(x, v, i[k].get(x)) for x, v in list(lost.items())[:2]]}")
            for l in T.links.values():
                if l.status_type.name in ACTIVE:
                    r.check(l.tx_site.status_type.name in ACTIVE and l.rx_site.status_type.name in ACTIVE, "active-link-on-inactive-site",
                            lambda: f"{when}: link {l.link_id} {l.status_type.name} between {l.tx_site.status_type.name} and {l.rx_site.status_type.name}")
            for q in T.sectors.values():
                st, ss = q.status_type.name, q.site.status_type.name
                r.check(st == ss if ss in ("UNAVAILABLE", "UNREACHABLE") else st in ("CANDIDATE", "PROPOSED", "EXISTING"),
                        "sector-status", lambda: f"{when}: sector {st} on a site {ss}")

        def plan(idx, p):
            look(f"at solve {idx} ({p.name})")
            return d.get(idx, "optimal")

        r.w.solver.plan = plan
        step, err = run_steps(r, T, P)
        look(f"after {step or 'optimize'} ({'failed: ' + str(err)[:80] if err else 'ok'})")
        check_internal(r, step, err)
        r.note("ok" if err is None else f"loud:{step}")
        if any(x == "EXISTING" for x in fix0["links"].values()):
            r.note("with existing links")
        r.nontrivial = err is None and bool(fix0["sites"])
        for s in r.w.solver.solves:
            r.state(s.name, s.answer, s.ncols)
        r.see(step, str(err)[:60], snap(T)["sites"] if err is None else None)


def diff(a, b):
    return [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:3]


def angle(a, b):
    d = abs(a - b) % 360
    return min(d, 360 - d)


def bearing(l):
    """bearing from tx to rx on the sphere, own formula"""
    a, b = l.tx_site, l.rx_site
    la, lb = math.radians(a.latitude), math.radians(b.latitude)
    dl = math.radians(b.longitude - a.longitude)
    return math.degrees(math.atan2(math.sin(dl) * math.cos(lb),
                                   math.cos(la) * math.sin(lb) - math.sin(la) * math.cos(lb) * math.cos(dl))) % 360


def flat(l):
    """horizontal length of a link in metres, own formula"""
    a, b = l.tx_site, l.rx_site
    la, lb = math.radians(a.latitude), math.radians(b.latitude)
    h = math.sin((la - lb) / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(math.radians(a.longitude - b.longitude) / 2) ** 2
    return 2 * 6371000 * math.asin(math.sqrt(h))


def validate(r, T, P, case, cap0, reachable0):
    """C07: what any accepted plan must satisfy"""
    # sites the user wants in the plan although no POP reaches them: outside the network that is planned
    asked = {x["n"] for x in case["sites"] if x["st"] == "PROPOSED"}
    cut = {k for k, s in T.sites.items() if s.name in asked and k not in reachable0}
    co = colocated(T)
    shared = {s.site_id for ss in co.values() if len(ss) > 1 for s in ss}
    act = {k: s for k, s in T.sites.items() if s.status_type.name in ACTIVE}
    for k, s in T.sites.items():
        if s.status_type.name == "PROPOSED" and k not in cut:
            r.check(k in reachable0, "selected-unreachable-site",
                    lambda: f"{s.name} was selected although no POP reaches it within {P.maximum_number_hops} usable hops")
    for l in T.links.values():
        if l.status_type.name not in ACTIVE:
            continue
        nm = f"{l.tx_site.name}->{l.rx_site.name}"
        r.check(l.tx_site.site_id in act and l.rx_site.site_id in act, "active-link-inactive-site", lambda: nm)
        rev = [m for m in T.links.values() if m.tx_site is l.rx_site and m.rx_site is l.tx_site]
        for m in rev:
            r.check(m.status_type == l.status_type, "asymmetric-link", lambda: f"{nm} {l.status_type.name} but reverse {m.status_type.name}")
        if l.status_type.name == "PROPOSED" and l.link_id in cap0:
            r.check(cap0[l.link_id] > 0, "zero-capacity-link-selected", lambda: nm)
        skip = l.status_type.name == "EXISTING" and (l.tx_site.site_id in shared or l.rx_site.site_id in shared)
        if skip:
            continue
        r.check(l.tx_sector is not None and l.rx_sector is not None, "active-link-no-sector", lambda: nm)
        for q, s in ((l.tx_sector, l.tx_site), (l.rx_sector, l.rx_site)):
            r.check(q.site is s and T.sectors.get(q.sector_id) is q, "link-sector-stale", lambda: f"{nm} uses a sector that is not {s.name}'s")
            r.check(q.status_type.name in ACTIVE, "active-link-inactive-sector", lambda: f"{nm}: sector {q.sector_id[-8:]} {q.status_type.name}")
            r.check(0 <= q.channel < P.number_of_channels, "sector-channel", lambda: f"{nm}: channel {q.channel} of {P.number_of_channels}")
        r.check(l.tx_sector.channel == l.rx_sector.channel, "link-channel-mismatch", lambda: nm)
        br = bearing(l)
        hs = l.tx_site.device.sector_params.horizontal_scan_range
        r.check(angle(br, l.tx_sector.ant_azimuth) <= hs / 2 + 0.6, "link-outside-tx-sector",
                lambda: f"{nm}: bearing {br:.1f}, sector at {l.tx_sector.ant_azimuth:.1f} spans {hs}")
        hs = l.rx_site.device.sector_params.horizontal_scan_range
        r.check(angle(br + 180, l.rx_sector.ant_azimuth) <= hs / 2 + 0.6, "link-outside-rx-sector",
                lambda: f"{nm}: bearing {br + 180:.1f}, sector at {l.rx_sector.ant_azimuth:.1f} spans {hs}")
        if l.rx_site.site_type.name != "CN":
            ps = {l.tx_site.polarity.name, l.rx_site.polarity.name}
            r.check(ps == {"ODD", "EVEN"}, "polarity", lambda: f"{nm}: both ends {ps}")
    # one radio link per client
    for k, s in act.items():
        if s.site_type.name == "CN":
            inc = [l for l in T.links.values() if l.rx_site is s and l.status_type.name in ACTIVE]
            if k in cut:
                continue
            if s.status_type.name == "PROPOSED":
                r.check(len(inc) == 1, "cn-links", lambda: f"selected client {s.name} has {len(inc)} active links")
            else:
                inc = [l for l in inc if l.tx_site.site_id not in shared]
                r.check(len([l for l in inc if l.status_type.name == "PROPOSED"]) <= (0 if any(l.status_type.name == "EXISTING" for l in inc) else 1),
                        "cn-links", lambda: f"existing client {s.name} has {[l.status_type.name for l in inc]}")
    # one site per spot, or an upgrade
    rank = {"CN": 1, "DN": 2, "POP": 3}
    for ss in co.values():
        if len(ss) < 2:
            continue
        prop = [s for s in ss if s.status_type.name == "PROPOSED"]
        exi = [s for s in ss if s.status_type.name == "EXISTING"]
        r.check(len(prop) <= 1 or any(x.get("st") == "PROPOSED" for x in case["sites"]), "colocated-selected",
                lambda: f"{[s.name for s in prop]} selected on one spot")
        for p in prop:
            for e in exi:
                r.check(rank[p.site_type.name] > rank[e.site_type.name], "colocated-existing",
                        lambda: f"{p.name} selected on top of existing {e.name}")
    # everything selected is fed by an active POP
    fed = reach(T, None, lambda s: s.status_type.name in ACTIVE, edge=lambda l: l.status_type.name in ACTIVE)
    for k, s in act.items():
        if s.status_type.name == "PROPOSED" and k not in cut:
            r.check(k in fed, "selected-site-not-fed", lambda: f"{s.name} is selected but no active POP feeds it")
    # sectors: same node same status; within the device's limits
    for s in T.sites.values():
        mine = [q for q in T.sectors.values() if q.site is s]
        nodes = {q.node_id for q in mine}
        r.check(len(nodes) <= s.device.number_of_nodes_per_site, "too-many-nodes", lambda: f"{s.name}: {len(nodes)} nodes")
        for n in nodes:
            st = {q.status_type.name for q in mine if q.node_id == n}
            r.check(len(st) == 1, "node-status", lambda: f"{s.name} node {n}: {st}")
    if any(q.status_type.name in ACTIVE for q in T.sectors.values()):
        r.note("active sectors")
    # radio limits per sector
    on = {}
    for l in T.links.values():
        if l.status_type.name in ACTIVE and l.tx_sector is not None:
            on.setdefault(l.tx_site.site_id, set()).add(l.tx_sector.channel)
    if any(len(c) > 1 for c in on.values()):
        r.note("several channels on one site")
    user = {l.link_id for l in T.links.values() if l.status_type.name == "EXISTING"} or any(e[2] == "PROPOSED" for e in case["edges"])
    if not user:
        for q in T.sectors.values():
            if q.site.site_type.name == "CN":
                continue
            out = [l for l in T.links.values() if l.tx_sector is q and l.status_type.name in ACTIVE]
            dn = [l for l in out if l.rx_site.site_type.name != "CN"]
            r.check(len(dn) <= P.dn_dn_sector_limit, "sector-dn-limit",
                    lambda: f"{q.site.name} sector {q.sector_id[-8:]}: {len(dn)} backhaul links, limit {P.dn_dn_sector_limit}")
            r.check(len(out) <= P.dn_total_sector_limit, "sector-total-limit",
                    lambda: f"{q.site.name} sector {q.sector_id[-8:]}: {len(out)} links, limit {P.dn_total_sector_limit}")
        # angle between links leaving different sectors of a site on one channel
        lim = P.diff_sector_angle_limit
        if lim:
            for s in act.values():
                out = [l for l in T.links.values() if l.tx_site is s and l.status_type.name in ACTIVE]
                for i, l in enumerate(out):
                    for m in out[i + 1:]:
                        if l.tx_sector is not m.tx_sector and l.tx_sector.channel == m.tx_sector.channel:
                            a = angle(bearing(l), bearing(m))
                            r.check(a > lim - 0.5, "angle-limit",
                                    lambda: f"{s.name}: links {a:.1f} degrees apart leave different sectors, limit {lim}")
        # a long and a short link leaving different sectors need a wider angle
        lim, ratio = P.near_far_angle_limit, P.near_far_length_ratio
        for s in act.values():
            out = [l for l in T.links.values() if l.tx_site is s and l.status_type.name in ACTIVE]
            for i, l in enumerate(out):
                for m in out[i + 1:]:
                    if l.tx_sector is not m.tx_sector and l.tx_sector.channel == m.tx_sector.channel:
                        a = angle(bearing(l), bearing(m))
                        x, y = sorted((flat(l), flat(m)))
                        if y > ratio * x * 1.02:
                            r.note("near-far pairs")
                            r.check(a > lim - 0.5, "near-far-limit",
                                    lambda: f"{s.name}: links of {x:.0f} m and {y:.0f} m, {a:.1f} degrees apart, leave different sectors, limit {lim}")
    # a polarity for every active distribution site in use
    for s in act.values():
        if s.site_type.name != "CN" and s.site_id in fed and s.site_id not in shared and any(
                l.status_type.name in ACTIVE and s in (l.tx_site, l.rx_site) and not {l.tx_site.site_id, l.rx_site.site_id} & shared
                for l in T.links.values()):
            r.check(s.polarity.name in ("ODD", "EVEN"), "no-polarity", lambda: s.name)
    r.check(any(s.site_type.name == "POP" for s in act.values()), "no-active-pop", "the plan has no active POP")


class ValidPlan(OptScenario):
    """C07: an accepted plan is a deployable network"""
    name = "valid-plan"
    fixed_p = 0.4

    def gen(self, rng, faulty):
        case = super().gen(rng, faulty)
        if rng.random() < 0.3:
            case.update(gen_hub(rng))
            case["params"].update(number_of_channels=rng.choice([1, 2, 2, 3]), dn_dn_sector_limit=rng.choice([1, 2, 2]), demand=rng.choice([0.3, 0.6, 1.0]),
                                  maximum_number_hops=15, number_of_extra_pops=0)
        return case

    def run(self, case, r: Run):
        T = build(case)
        P = self.setup(case, r)
        install_plan(r.w, case["plan"])
        step, err = run_steps(r, T, P, upto="prepare")
        if err is not None:
            check_internal(r, step, err)
            r.note(f"loud:{step}")
            return
        cap0 = {k: l.capacity for k, l in T.links.items()}
        names0 = set(T.sites)
        off = {k for d in (T.sites, T.links) for k, v in d.items() if v.status_type.name in ("UNAVAILABLE", "UNREACHABLE")}
        hops = reach(T, P.maximum_number_hops, lambda s: s.status_type.name not in ("UNAVAILABLE", "UNREACHABLE"),
                     edge=lambda l: l.status_type.name not in ("UNAVAILABLE", "UNREACHABLE"))
        step, err = run_steps_opt(r, T, P)
        check_internal(r, step, err)
        if err is not None:
            r.note("loud:" + str(err)[:50])
            r.see(str(err)[:80])
            return
        extra = [s for k, s in T.sites.items() if k not in names0]
        r.check(len(extra) <= max(0, P.number_of_extra_pops), "extra-pops", lambda: f"{len(extra)} POPs added, {P.number_of_extra_pops} asked")
        if extra:
            for s in extra:
                r.check(s.site_type.name == "POP" and any(o is not s and o.site_type.name == "DN" and (o.latitude, o.longitude) == (s.latitude, s.longitude)
                                                          for o in T.sites.values()), "extra-pop-spot", lambda: s.name)
            # the POPs added at relays are sources too
            hops = reach(T, P.maximum_number_hops, lambda s: s.site_id not in off, edge=lambda l: l.link_id not in off)
        validate(r, T, P, case, cap0, hops)
        r.nontrivial = any(l.status_type.name == "PROPOSED" for l in T.links.values())
        for s in r.w.solver.solves:
            r.state(s.name, s.answer, s.ncols, s.objective)
        r.see(snap(T))


def run_steps_opt(r, T, P):
    from terragraph_planner.common.exceptions import PlannerException
    from terragraph_planner.optimization import topology_optimization as TO

    from .. import sim_xpress

    _, err = r.call("optimize", lambda: TO.optimize_topology(T, P), allow=(PlannerException, sim_xpress.SolverError))
    return "optimize", err


register("C06", FixedStatus())
register("C07", ValidPlan())
