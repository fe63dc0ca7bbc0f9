"""C13: reports against the plan they describe, with failing solver steps and failing disks."""
from __future__ import annotations

import csv
import math
import os
import random

from .. import gen, sim
from ..scenario import Run, Scenario, register
from . import opt
from .c12_outage import Model

ACTIVE = {"PROPOSED", "EXISTING"}
REACHABLE = ACTIVE | {"CANDIDATE"}


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def phys(l):
    """a radio or cable connection, whichever direction"""
    return tuple(sorted((l.tx_site.site_id, l.rx_site.site_id)))


def spot(l):
    """the same, with alternative devices of a site type on one spot taken as one"""
    return tuple(sorted((s.latitude, s.longitude, s.site_type.name) for s in (l.tx_site, l.rx_site)))


def counts(T):
    """every counter of the report, from the plan"""
    S, L, Q = T.sites.values(), T.links.values(), T.sectors.values()
    c = {}
    for pre, ok in (("active", ACTIVE), ("total", None)):
        ins = [s for s in S if ok is None or s.status_type.name in ok]
        by = {t: [s for s in ins if s.site_type.name == t] for t in ("POP", "DN", "CN")}
        if ok is None:  # one per spot and type
            n = {t: len({(s.latitude, s.longitude, s.altitude) for s in v}) for t, v in by.items()}
        else:
            n = {t: len(v) for t, v in by.items()}
        for t, v in n.items():
            c[f"{pre}_{t.lower()}_sites"] = v
        c[f"{pre}_sites"] = sum(n.values())
        qs = [q for q in Q if ok is None or q.status_type.name in ok]
        for t in ("DN", "CN"):
            c[f"{pre}_{t.lower()}_nodes"] = len({(q.site.site_id, q.node_id) for q in qs if q.sector_type.name == t})
        c[f"{pre}_nodes"] = c[f"{pre}_dn_nodes"] + c[f"{pre}_cn_nodes"]
        c[f"{pre}_sectors"] = len(qs)
        if ok:
            c["active_cn_sectors"] = sum(q.sector_type.name == "CN" for q in qs)
            c["active_dn_sectors_on_pops"] = sum(q.sector_type.name == "DN" and q.site.site_type.name == "POP" for q in qs)
            c["active_dn_sectors_on_dns"] = sum(q.sector_type.name == "DN" and q.site.site_type.name != "POP" for q in qs)
        for t, nm in (("WIRELESS_BACKHAUL", "backhaul"), ("WIRELESS_ACCESS", "access"), ("ETHERNET", "wired")):
            c[f"{pre}_{nm}_links"] = len({spot(l) for l in L if l.link_type.name == t and (ok is None or l.status_type.name in ok)})
    fed = opt.reach(T, None, lambda s: s.status_type.name in REACHABLE, edge=lambda l: l.status_type.name in REACHABLE)
    for t in ("DN", "CN"):
        c[f"connectable_{t.lower()}_sites"] = len({(s.latitude, s.longitude, s.altitude) for s in S if s.site_type.name == t and s.site_id in fed})
    for t in ("POP", "DN", "CN"):
        c[f"active_demand_connected_{t.lower()}_sites"] = len({s.site_id for d in T.demand_sites.values() for s in d.connected_sites
                                                              if s.site_type.name == t and s.status_type.name in ACTIVE})
    back = {}
    for l in L:
        if l.rx_site.site_type.name == "CN" and l.rx_site.status_type.name in ACTIVE and l.tx_sector is not None \
                and l.tx_sector.status_type.name in ACTIVE:
            back[l.rx_site.site_id] = back.get(l.rx_site.site_id, 0) + 1
    c["active_cns_with_backup_dns"] = sum(v > 1 for v in back.values())
    return c


def capex(T, P):
    cost = {"POP": P.pop_site_capex, "DN": P.dn_site_capex, "CN": P.cn_site_capex}
    out = {"PROPOSED": 0.0, "EXISTING": 0.0}
    for s in T.sites.values():
        if s.status_type.name in out:
            out[s.status_type.name] += cost[s.site_type.name]
    nodes = {}
    for q in T.sectors.values():
        nodes.setdefault((q.site.site_id, q.node_id), q)
    for q in nodes.values():
        if q.status_type.name in out:
            out[q.status_type.name] += q.site.device.node_capex
    return out


def stats(v, n=None):
    v = list(v)
    return (sum(v) / (n or len(v)) if v and (n or len(v)) else 0, max(v, default=0), min(v, default=0))


def usable(T):
    return {(l.tx_site.site_id, l.rx_site.site_id): l for l in T.links.values()
            if l.status_type.name in ACTIVE and l.capacity > 0 and not l.is_redundant
            and l.tx_site.status_type.name in ACTIVE and l.rx_site.status_type.name in ACTIVE}


def check_routes(r, T, P, M, base):
    """the links set aside are those the chosen routing does not need"""
    if P.topology_routing is None:
        for l in T.links.values():
            r.check(not l.is_redundant, "unused-without-routing", lambda: f"{l.tx_site.name}->{l.rx_site.name} is set aside although no routing was asked for")
        return
    own = Model(T, ACTIVE)
    own.links = {k: l for k, l in own.links.items() if not l.is_redundant}
    lost = base - own.served()
    r.check(not lost, "route-lost", lambda: f"no route left to connected demands {sorted(lost)}")
    if P.topology_routing.name == "SHORTEST_PATH":
        a, b = M.dist(False), own.dist(False)
        for k in sorted(base):
            x, y = (min(d[s] for s in M.dem[k] if s in d) for d in (a, b))
            r.check(x == y, "route-longer", lambda: f"demand {k}: {y} hops over the routes, {x} over the plan")


def best_buffer(T, P):
    """the largest bandwidth every connected demand can be given at once: own linear program"""
    import numpy as np
    from scipy.optimize import linprog
    from scipy.sparse import csr_matrix

    U = usable(T)
    pops = {k for k, s in T.sites.items() if s.site_type.name == "POP" and s.status_type.name in ACTIVE}
    seen, todo = set(pops), list(pops)
    while todo:
        u = todo.pop()
        for a, b in U:
            if a == u and b not in seen:
                seen.add(b)
                todo.append(b)
    conn = {k: {s.site_id for s in d.connected_sites if s.site_id in seen} for k, d in T.demand_sites.items()}
    conn = {k: v for k, v in conn.items() if v}
    nd = sum(T.demand_sites[k].num_sites for k in conn)
    if not conn:
        return 0.0, conn, nd
    allp = sum(s.site_type.name == "POP" for s in T.sites.values()) * P.pop_capacity
    maxcap = max((l.capacity for l in T.links.values()), default=P.pop_capacity)
    cols, ub = {}, []

    def col(*k):
        if k not in cols:
            cols[k] = len(cols)
            ub.append(None)
        return cols[k]

    B = col("beta")
    rows, rhs, eq = [], [], []

    def add(terms, b, e=False):
        rows.append(terms)
        rhs.append(b)
        eq.append(e)

    net, out, inc = {}, {}, {}
    for (a, b), l in U.items():
        f = col("f", a, b)
        if l.is_wireless:
            t = col("t", a, b)
            ub[t] = 1.0
            add({f: 1.0, t: -l.capacity}, 0.0)
            out.setdefault(l.tx_sector.sector_id, {})[t] = 1.0
            inc.setdefault(l.rx_sector.sector_id, {})[t] = 1.0
        else:
            ub[f] = min(l.capacity, allp)
        net.setdefault(b, {})[f] = 1.0
        net.setdefault(a, {})[f] = -1.0
    for d in (out, inc):
        for terms in d.values():
            add(terms, 1.0)
    for p in pops:
        s = col("s", p)
        ub[s] = P.pop_capacity
        net.setdefault(p, {})[s] = 1.0
    for k, v in conn.items():
        for i in range(T.demand_sites[k].num_sites):
            terms = {B: -1.0}
            for s in v:
                d = col("d", k, i, s)
                ub[d] = min(maxcap, allp)
                terms[d] = 1.0
                net.setdefault(s, {})[d] = -1.0
            add(terms, 0.0, True)
    for k, terms in net.items():
        add(dict(terms), 0.0, True)
        add({c: 1.0 for c, v in terms.items() if v > 0}, allp)
    for p in pops:
        add({c: 1.0 for c, v in net[p].items() if v < 0}, P.pop_capacity)

    def mat(sel):
        R = [i for i in range(len(rows)) if eq[i] == sel]
        d, ri, ci = [], [], []
        for n, i in enumerate(R):
            for c, v in rows[i].items():
                ri.append(n), ci.append(c), d.append(v)
        return csr_matrix((d, (ri, ci)), shape=(len(R), len(cols))), [rhs[i] for i in R]

    A, a = mat(False)
    E, e = mat(True)
    c = np.zeros(len(cols))
    c[B] = -1
    res = linprog(c, A_ub=A, b_ub=a, A_eq=E, b_eq=e, bounds=[(0, u) for u in ub], method="highs")
    assert res.status == 0, res.message
    return -res.fun, conn, nd


def rows_of(df):
    return [dict(zip(df.columns, r)) for r in df.itertuples(index=False, name=None)]


def plain(m, skip=()):
    """the metrics that no tie between equally good routes decides"""
    d = m._asdict()
    for k in skip:
        d.pop(k, None)
    d["demand_metrics"] = {k: v for k, v in m.demand_metrics._asdict().items() if "disjoint" not in k}
    return d


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return near(a, b)
    if hasattr(a, "_asdict"):
        a, b = a._asdict(), b._asdict()
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def verify(r, T, P, A, exact, skip_flow=False):
    m = A.metrics
    c = counts(T)
    got = m.counts._asdict()
    for k, v in c.items():
        r.check(got[k] == v, f"count:{k}", lambda: f"{k} reported as {got[k]}, the plan has {v}")
    r.check(set(got) == set(c), "count-unknown", lambda: f"{set(got) ^ set(c)}")
    cx = capex(T, P)
    r.check(near(m.capex.total_capex, sum(cx.values())) and near(m.capex.proposed_capex, cx["PROPOSED"]), "capex",
            lambda: f"capex {m.capex} recomputed {cx}")
    sku = {}
    for s in T.sites.values():
        if s.status_type.name in ACTIVE:
            sku[s.device.device_sku] = sku.get(s.device.device_sku, 0) + 1
    r.check(dict(m.active_site_sku_counter) == sku, "sku-counter", lambda: f"{m.active_site_sku_counter} vs {sku}")
    ch, mcs, dist = {}, {"WIRELESS_BACKHAUL": {}, "WIRELESS_ACCESS": {}}, {"WIRELESS_BACKHAUL": [], "WIRELESS_ACCESS": []}
    per = {"WIRELESS_BACKHAUL": {}, "WIRELESS_ACCESS": {}}
    act = [l for l in T.links.values() if l.status_type.name in ACTIVE]
    for l in act:
        t = l.link_type.name
        if not l.is_wireless:
            continue
        ch[phys(l)] = l.link_channel
        mcs[t].setdefault(phys(l), set()).add(l.mcs_level)
        dist[t].append(l.distance)
        for q in (l.tx_sector, l.rx_sector):
            if q is not None and q.sector_type.name == "DN":
                per[t].setdefault(q.sector_id, set()).add(spot(l))
    cc = {}
    for v in ch.values():
        cc[v] = cc.get(v, 0) + 1
    r.check(dict(m.channel_occupancy_counter) == cc, "channel-counter", lambda: f"{m.channel_occupancy_counter} vs {cc}")
    dnq = [q.sector_id for q in T.sectors.values() if q.sector_type.name == "DN" and q.status_type.name in ACTIVE]
    for lm, cnt, t in ((m.backhaul_link, m.backhaul_mcs, "WIRELESS_BACKHAUL"), (m.access_link, m.access_mcs, "WIRELESS_ACCESS")):
        r.check(lm.active_count == len({spot(l) for l in act if l.link_type.name == t}), f"link-count:{t}", lambda: f"{lm.active_count} vs {len(mcs[t])}")
        w = stats(dist[t])
        r.check(all(near(x, y) for x, y in zip(lm.link_dist, w)), f"link-dist:{t}", lambda: f"{lm.link_dist} vs {w}")
        w = stats(len(per[t].get(q, ())) for q in dnq)
        r.check(all(near(x, y) for x, y in zip(lm.links_per_sector, w)), f"links-per-sector:{t}", lambda: f"{lm.links_per_sector} vs {w}")
        r.check(sum(cnt.values()) == len(mcs[t]), f"mcs-count:{t}", lambda: f"{dict(cnt)} for {len(mcs[t])} links")
        left = dict(cnt)  # one of the two directions of every link
        for v in sorted(mcs[t].values(), key=len):
            hit = [x for x in v if left.get(x, 0) > 0]
            r.check(hit, f"mcs:{t}", lambda: f"{dict(cnt)} for {list(mcs[t].values())}")
            if len(v) == 1:
                left[hit[0]] -= 1
    # demand
    M = Model(T, ACTIVE)
    base = M.served()
    d = m.demand_metrics
    check_routes(r, T, P, M, base)
    at_pop = {k for k, s in M.dem.items() if s & M.pops}
    tot = sum(x.demand * x.num_sites for x in T.demand_sites.values() if x.demand is not None)
    want = (len(T.demand_sites), len(T.demand_sites) - len(base), len(at_pop))
    have = (d.number_of_demands, d.number_of_disconnected_demands, d.number_of_demands_connected_to_pops)
    r.check(have == want, "demand-counts", lambda: f"(demands, disconnected, at POP) {have}, recomputed {want}")
    r.check(near(d.total_demand, tot) and near(d.total_demand_oversubscribed, tot / P.oversubscription), "demand-total", lambda: f"{d.total_demand} vs {tot}")
    sure, may = 0, 0
    for k in sorted(base - at_pop):
        alt = []
        for p in M.shortest_paths(k):
            cut = set()
            for a, b in zip(p, p[1:]):
                if T.sites[b].site_type.name == "CN":
                    break
                cut.add((a, b))
            alt.append(k in M.served(cut))
        sure += all(alt)
        may += any(alt)
    r.check(sure <= d.number_of_demands_with_disjoint_path <= may, "demand-disjoint",
            lambda: f"{d.number_of_demands_with_disjoint_path} demands with disjoint paths, between {sure} and {may} recomputed")
    rest = d.number_of_demands - d.number_of_demands_connected_to_pops
    r.check(near(d.percentage_of_demand_with_disjoint_path, 100 * d.number_of_demands_with_disjoint_path / rest if rest > 0 else 0),
            "demand-disjoint-percentage", lambda: str(d))
    # outages
    bh = sorted({phys(l) for l in M.links.values() if l.link_type.name == "WIRELESS_BACKHAUL"})
    edge = {k: len(base - M.served({k, k[::-1]})) for k in bh}
    site = {s: len(base - M.served(dead=s)) for s in M.act if T.sites[s].site_type.name != "CN"}
    f = m.failure_disruption
    w = stats(edge.values())
    r.check(all(near(x, y) for x, y in zip(f.edge_fail_effect, w)), "edge-outages", lambda: f"{f.edge_fail_effect} vs {w}")
    for nm, st, t in (("pop", f.pop_fail_effect, "POP"), ("dn", f.dn_fail_effect, "DN")):
        w = stats(v for k, v in site.items() if T.sites[k].site_type.name == t)
        r.check(all(near(x, y) for x, y in zip(st, w)), f"{nm}-outages", lambda: f"{nm} {st} vs {w}")
    av = m.availability_metrics
    vals = [av.percentiles[p] for p in (0, 25, 50, 75, 100)]
    r.check(vals == sorted(vals) and all(-1e-6 <= v <= 100 + 1e-6 for v in vals + [av.avg]) and vals[0] - 1e-6 <= av.avg <= vals[-1] + 1e-6,
            "availability", lambda: str(av))
    if P.availability_sim_time <= 0 or not base:
        r.check(av.avg == 0, "availability-none", lambda: str(av))
    # limits
    bad = set()
    for q in T.sectors.values():
        if q.sector_type.name != "DN" or q.status_type.name not in ACTIVE:
            continue
        out = [l for l in act if l.tx_sector is q]
        dn = sum(l.rx_site.site_type.name != "CN" for l in out)
        if dn > P.dn_dn_sector_limit or len(out) > P.dn_total_sector_limit:
            bad.add(q.sector_id)
    r.check(m.sector_link_limit_violations == len(bad), "sector-limit-violations", lambda: f"{m.sector_link_limit_violations} vs {len(bad)}")
    # throughput
    fm = m.flow_metrics
    beta = None
    if fm is not None:
        beta = fm.minimum_bandwdith_for_connected_demand
        best, conn, nd = best_buffer(T, P)
        if nd and exact:
            r.check(near(beta, best, 1e-4), "throughput", lambda: f"every connected demand can be given {best:.6f} Gbps, reported {beta:.6f}")
        elif nd:
            r.check(-1e-3 <= beta <= best * 1.001 + 1e-3, "throughput-bound", lambda: f"reported {beta:.6f} Gbps, possible {best:.6f}")
        if nd:
            r.check(near(fm.total_bandwidth, beta * nd, 1e-5), "total-bandwidth", lambda: f"{fm.total_bandwidth} for {nd} demands given {beta}")
        flow = {k: 0.0 for k in T.sites}
        for l in act:
            q, u = l.proposed_flow, l.utilization
            r.check(-1e-3 <= q <= l.capacity * 1.001 + 1e-3, "flow-over-capacity", lambda: f"{l.tx_site.name}->{l.rx_site.name} carries {q} of {l.capacity}")
            r.check(q < 1e-3 or not l.is_redundant, "flow-on-unused-link", lambda: f"{l.tx_site.name}->{l.rx_site.name} carries {q}")
            if l.capacity > 0:
                r.check(abs(u - 100 * q / l.capacity) < 0.5 or (u == 0 and q < 1e-3), "utilization", lambda: f"{q} of {l.capacity}: {u} percent")
            flow[l.tx_site.site_id] -= q
            flow[l.rx_site.site_id] += q
        tol = 2e-3 * (1 + beta * max(nd, 1))
        for k, v in flow.items():
            s = T.sites[k]
            if s.site_type.name == "POP":
                continue
            n = sum(x.num_sites for kk, x in T.demand_sites.items() if kk in conn and s in x.connected_sites)
            r.check(-tol <= v <= n * beta + tol, "flow-balance", lambda: f"{s.name} takes {v:.5f} Gbps for {n} demands given {beta:.5f}")
        uts = fm.link_capacity_utilization
        if act:
            u = [l.utilization for l in act if l.capacity > 0]
            r.check(not u or near(uts.max, max(u), 1e-3), "utilization-max", lambda: f"{uts} vs {max(u)}")
    else:
        r.check(all(not l.proposed_flow for l in act), "flow-without-solution", "links carry flow although no flow was found")
    # tables
    names = {}
    for s in T.sites.values():
        names.setdefault(s.site_hash, []).append(s)
    if act:
        r.check(len(A.link_df) == len(T.links), "link-rows", lambda: f"{len(A.link_df)} rows for {len(T.links)} links")
        for l, row in zip(T.links.values(), rows_of(A.link_df)):
            nm = f"{l.tx_site.name}->{l.rx_site.name}"
            r.check(row["Tx Site Name"] == l.tx_site.name and row["Rx Site Name"] == l.rx_site.name and row["Status"] == l.status_type.name,
                    "link-row", lambda: f"{nm} {l.status_type.name}: {row}")
            for k, v in (("Distance", l.distance), ("Throughput (Gbps)", l.capacity), ("Data Flow (Gbps)", l.proposed_flow)):
                if v is not None:
                    r.check(abs(row[k] - v) <= 0.00501, "link-row-value", lambda: f"{nm}: {k} {row[k]} vs {v}")
            if l.status_type.name in ACTIVE and l.link_type.name == "WIRELESS_BACKHAUL" and phys(l) in edge:
                r.check(row["Outages Caused"] == edge[phys(l)], "link-outages", lambda: f"{nm}: {row['Outages Caused']} outages, recomputed {edge[phys(l)]}")
            r.check(bool(row["Violates Sector Link Limit"]) == (l.tx_sector is not None and l.tx_sector.sector_id in bad), "link-limit", lambda: nm)
    if any(s.status_type.name in ACTIVE for s in T.sites.values()):
        r.check(len(A.site_df) == len(T.sites), "site-rows", lambda: f"{len(A.site_df)} rows for {len(T.sites)} sites")
        hops = opt.reach(T, None, lambda s: s.status_type.name in ACTIVE, edge=lambda l: l.status_type.name in ACTIVE)
        cost = {"POP": P.pop_site_capex, "DN": P.dn_site_capex, "CN": P.cn_site_capex}
        for s, row in zip(T.sites.values(), rows_of(A.site_df)):
            k = s.site_id
            aq = [q for q in T.sectors.values() if q.site is s and q.status_type.name in ACTIVE]
            want = {"Status": s.status_type.name, "Site Type": s.site_type.name, "Active Sectors": len(aq), "Active Nodes": len({q.node_id for q in aq}),
                    "Active Links": len({spot(l) for l in act if s in (l.tx_site, l.rx_site) and l.is_wireless}), "Site Capex": cost[s.site_type.name],
                    "Hops to Nearest Pop": hops.get(k, "disconnected"), "Site Name": s.name, "Device SKU": s.device.device_sku,
                    "Number of Subscribers": s.number_of_subscribers}
            if s.site_type.name != "CN":
                want["Outages Caused"] = site.get(k, 0)
            for x, v in want.items():
                if x == "Number of Subscribers" and v is None:
                    continue
                r.check(row[x] == v, f"site-row:{x}", lambda: f"{s.name}: {x} {row[x]!r}, recomputed {v!r}")
            o = sum(l.proposed_flow or 0 for l in act if l.tx_site is s)
            i = sum(l.proposed_flow or 0 for l in act if l.rx_site is s)
            r.check(near(row["Outgoing Flow"], o, 1e-5) and near(row["Incoming Flow"], i, 1e-5), "site-flow", lambda: f"{s.name}: {row} vs {o} {i}")
    aq = [q for q in T.sectors.values() if q.status_type.name in ACTIVE]
    if aq:
        r.check(len(A.sector_df) == len(aq), "sector-rows", lambda: f"{len(A.sector_df)} rows for {len(aq)} sectors")
        for q, row in zip(aq, rows_of(A.sector_df)):
            for x, t in (("Active Backhaul Links", "WIRELESS_BACKHAUL"), ("Active Access Links", "WIRELESS_ACCESS")):
                n = len({spot(l) for l in act if l.link_type.name == t and q in (l.tx_sector, l.rx_sector)})
                r.check(row[x] == n, "sector-links", lambda: f"{q.sector_id}: {row[x]} {x}, recomputed {n}")
            r.check(row["Status"] == q.status_type.name and bool(row["Violates Link Load"]) == (q.sector_id in bad), "sector-row", lambda: str(row))
    return beta


def plan_state(T):
    """what reporting must leave alone (radio estimates, flows and outage numbers are its results)"""
    return opt.snap(T)


def reorder(T, seed):
    from terragraph_planner.common.topology_models.topology import Topology

    rng = random.Random(seed)
    v = [list(x.values()) for x in (T.sites, T.links, T.sectors, T.demand_sites)]
    for x in v:
        rng.shuffle(x)
    return Topology(sites=v[0], links=v[1], sectors=v[2], demand_sites=v[3])


def gen_report_params(rng):
    p = opt.gen_params(rng)
    p["redundancy_level"] = rng.choice(["NONE", "NONE", "NONE", "LOW", "MEDIUM"])
    p["number_of_extra_pops"] = 0
    p["topology_routing"] = rng.choice([None, "SHORTEST_PATH", "MCS_COST_PATH", "DPA_PATH"])
    p["availability_sim_time"] = rng.choice([0, 0, 0.5])
    return p


def params_of(p):
    from terragraph_planner.common.configuration.enums import TopologyRouting

    p = dict(p)
    if p.get("topology_routing"):
        p["topology_routing"] = TopologyRouting[p["topology_routing"]]
    return opt.make_params(p)


class Reports(opt.OptScenario):
    name = "reports"
    shrink = ("edges", "plan")

    def gen(self, rng, faulty):
        net = opt.gen_network(rng, nmax=rng.choice([6, 8]), fixed=rng.random() < 0.6)
        if rng.random() < 0.3:  # a network that is already built
            for s in net["sites"]:
                if s["st"] == "CANDIDATE" and not s["n"].endswith("b") and rng.random() < 0.8:
                    s["st"] = "EXISTING"
            for e in net["edges"]:
                a, b = (net["sites"][i]["st"] for i in e[:2])
                e[2] = gen.link_status(rng, a, b)
        cn = {i for i, s in enumerate(net["sites"]) if s["t"] == "CN"}
        for i in cn:  # a client has one link
            seen = False
            for e in net["edges"]:
                if i in e[:2] and e[2] in ACTIVE:
                    if seen:
                        e[2] = "CANDIDATE"
                    seen = True
        pr = gen_report_params(rng)
        return {**net, "params": pr, "routing2": rng.choice([pr["topology_routing"], None, "SHORTEST_PATH", "DPA_PATH"]), "plan": opt.gen_plan(rng, faulty and rng.random() < 0.5),
                "report": rng.choice([None, None, "timeout_nosol", "infeasible", "incumbent", "timeout_incumbent", "slop"]) if faulty else None,
                "order": rng.randrange(1 << 30)}

    def run(self, case, r: Run):
        from terragraph_planner.common.exceptions import PlannerException
        from terragraph_planner.optimization import topology_report as TR

        T = opt.build(case)
        P = params_of(case["params"])
        opt.install_plan(r.w, case["plan"])
        step, err = opt.run_steps(r, T, P)
        if err is not None:
            r.note(f"loud:{step}")
            return
        before = plan_state(T)
        opt.install_plan(r.w, [], every=case["report"])
        A, _ = r.call("analyze", TR.analyze, T, P)
        after = plan_state(T)
        for k in before:
            r.check(before[k] == after[k], f"report-changed-plan:{k}", lambda: str(opt.diff(before[k], after[k])))
        r.check(A.topology is T, "report-other-plan", "the report describes another network")
        beta = verify(r, T, P, A, case["report"] is None)
        if case["report"] in ("timeout_nosol", "infeasible"):
            r.w.fault("flow_" + case["report"])
        # again, listed in another order and perhaps with another routing
        opt.install_plan(r.w, [])
        T2 = reorder(T, case["order"])
        P2 = params_of(dict(case["params"], topology_routing=case["routing2"]))
        B, _ = r.call("analyze again", TR.analyze, T2, P2)
        beta2 = verify(r, T2, P2, B, True)
        skip = ("flow_metrics", "availability_metrics")
        a, b = plain(A.metrics, skip), plain(B.metrics, skip)
        for k in a:
            if k.endswith("_mcs"):
                continue
            r.check(same(a[k], b[k]), f"order:{k}", lambda: f"{k} differs when the network is listed in another order: {a[k]} / {b[k]}")
        if case["report"] is None and case["params"]["topology_routing"] is case["routing2"] is None and beta is not None and beta2 is not None:
            r.check(near(beta, beta2, 1e-4), "order:throughput", lambda: f"{beta} / {beta2} when listed in another order")
        r.nontrivial = bool(beta and beta > 1e-6)
        if any(l.status_type.name == "EXISTING" for l in T.links.values()):
            r.note("with existing links")
        for s in r.w.solver.solves:
            r.state(s.name, s.answer, s.ncols, s.objective)
        r.see(str(a), beta)


register("C13", Reports())


KIND = {"errno": 1, "short": 2, "torn": 3}
ERRS = {"ENOSPC": 28, "EIO": 5, "EDQUOT": 122, "EACCES": 13, "EMFILE": 24}
MASKS = {"open": 2, "write": 8, "close": 16, "mkdir": 32, "any": 2 | 8 | 32}


def gen_disk_faults(rng, masks=("open", "write", "write", "write", "mkdir", "close", "any")):
    m = rng.choice(masks)
    k = rng.choice(["errno", "errno", "short", "torn"]) if m == "write" else "errno"
    e = rng.choice(["ENOSPC", "EIO", "EDQUOT"]) if m != "open" else rng.choice(["EACCES", "EMFILE", "EIO", "ENOSPC"])
    return {"mask": m, "nth": rng.randint(1, 8) if rng.random() < 0.7 else rng.randint(1, 40), "kind": k, "err": e, "sticky": int(rng.random() < 0.3)}


def with_fault(r, root, f, fn, what, allow):
    """run fn with the simulated disk under `root`; -> (value, error, fired)"""
    sim.DISK.arm(root, MASKS[f["mask"]], f["nth"], KIND[f["kind"]], ERRS[f["err"]], f["sticky"])
    try:
        v, err = r.call(what, fn, allow=allow)
    finally:
        n = sim.DISK.fired()
        sim.DISK.disarm()
    if n:
        r.w.fault(f"disk_{f['mask']}_{f['kind']}" + ("" if f["kind"] == "short" else "_" + f["err"]), n)
    return v, err, n


class Dump(Scenario):
    """the report files on a disk that fails"""
    name = "report-files"
    shrink = ("faults",)
    weight = 0.5

    def gen(self, rng, faulty):
        net = opt.gen_network(rng, nmax=4, fixed=False)
        net["sites"] = [s for s in net["sites"] if not s["n"].endswith("b")]
        n = len(net["sites"])
        cn = {}
        for s in net["sites"]:
            s["st"] = "EXISTING"
        for e in net["edges"]:
            if max(e[:2]) < n:
                c = [i for i in e[:2] if net["sites"][i]["t"] == "CN"]
                e[2] = "CANDIDATE" if any(cn.get(i) for i in c) else "EXISTING"
                for i in c:
                    cn[i] = 1
        net["edges"] = [e for e in net["edges"] if max(e[:2]) < n]
        p = {"topology_routing": rng.choice([None, "SHORTEST_PATH"]), "availability_sim_time": 0}
        return {**net, "params": p, "faults": [gen_disk_faults(rng) for _ in range(rng.randint(1, 4))] if faulty else [],
                "fresh": rng.random() < 0.5}

    def run(self, case, r: Run):
        import pandas as pd
        import yaml
        from terragraph_planner.common.exceptions import PlannerException
        from terragraph_planner.common.utils import current_system_params
        from terragraph_planner.optimization import topology_optimization as TO
        from terragraph_planner.optimization import topology_report as TR

        T = opt.build(case)
        P = params_of(case["params"])
        _, err = r.call("prepare", TO.prepare_topology_for_optimization, T, P, allow=(PlannerException,))
        if err is not None:
            return
        root = os.path.join(r.w.scratch, "out")

        def target(i):
            d = os.path.join(root, str(i))
            os.makedirs(d, exist_ok=True)
            current_system_params.output_dir = d
            return d

        def read(d):
            out = {}
            for base, _, fs in os.walk(d):
                for f in fs:
                    with open(os.path.join(base, f), "rb") as fh:
                        out[f] = fh.read()
            return out

        d0 = target("ref")
        A, _ = r.call("analyze_with_dump", TR.analyze_with_dump, T, P)
        ref = read(d0)
        r.check(set(ref) == {"link.csv", "site.csv", "sector.csv", "metrics.yaml", "reporting_topology.kml"}, "report-files", lambda: str(sorted(ref)))
        for nm, df in (("link.csv", A.link_df), ("site.csv", A.site_df), ("sector.csv", A.sector_df)):
            with open(os.path.join(d0, "output", nm)) as fh:
                rows = list(csv.reader(fh))
            r.check(len(rows) - 1 == len(df) and (not len(df) or all(c in rows[0] for c in df.columns)), "report-csv", lambda: f"{nm}: {len(rows) - 1} rows of {len(df)}")
        with open(os.path.join(d0, "output", "metrics.yaml")) as fh:
            y, _ = r.call("metrics.yaml", yaml.safe_load, fh, allow=(yaml.YAMLError,))
        r.check(y is not None and y["counts"] == A.metrics.counts._asdict() and near(y["capex"]["total_capex"], A.metrics.capex.total_capex), "report-yaml",
                lambda: f"metrics.yaml cannot be read back: {str(_)[:100]}")
        # write the same results again, on a failing disk
        real, TR.analyze = TR.analyze, lambda *a, **k: A
        try:
            fired = 0
            for i, f in enumerate(case["faults"]):
                d = target(i if case["fresh"] else "ref")
                _, err, n = with_fault(r, d, f, lambda: TR.analyze_with_dump(T, P), "write reports", (OSError, PlannerException))
                fired += n
                got = read(d)
                if err is None:
                    r.check(got == ref, "report-partial", lambda: f"{f}: reported as written, but differ: {[k for k in ref if got.get(k) != ref[k]]}")
                else:
                    r.check(n > 0, "report-error", lambda: f"writing reports failed without a fault: {err}")
                r.note("write failed" if err else "write succeeded")
                _, err = r.call("write reports again", TR.analyze_with_dump, T, P)
                r.check(read(d) == ref, "report-after-failure", lambda: "reports written after a failed attempt are not complete")
                r.state(f["mask"], f["nth"], f["kind"], n, bool(err))
            r.nontrivial = fired > 0
        finally:
            TR.analyze = real
        r.see(sorted((k, len(v)) for k, v in ref.items()))


register("C13", Dump())
