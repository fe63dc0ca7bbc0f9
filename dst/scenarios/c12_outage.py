"""C12: outage analysis against recomputed connectivity, on shared state and with interrupted analyses."""
from __future__ import annotations

import random

from .. import gen
from ..scenario import Run, Scenario, register

ACTIVE = {"PROPOSED", "EXISTING"}
REACHABLE = ACTIVE | {"CANDIDATE"}
INF = float("inf")


class InjectedFailure(MemoryError):
    pass


def gen_net(rng):
    n = rng.randint(3, 9)
    pops = rng.choice([1, 1, 2])
    sites = gen.gen_sites(rng, n, W=300, pops=pops, cns=0.3, statuses=("PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE"),
                          pop_statuses=("PROPOSED", "EXISTING"))
    links = []
    for i in range(n):
        for j in range(i + 1, n):
            a, b = sites[i], sites[j]
            if a["t"] == b["t"] == "CN" or a["t"] == b["t"] == "POP" or rng.random() < 0.45:
                continue
            st = gen.link_status(rng, a["st"], b["st"])
            links.append([i, j, st, 1 if rng.random() < 0.93 or "CN" in (a["t"], b["t"]) else 0, rng.choice([0, 2, 4, 9, 9, 12, 13])])
    demands = []
    for _ in range(rng.randint(1, 7)):
        demands.append([rng.randint(0, 300), rng.randint(0, 300), rng.sample(range(n), rng.choice([1, 1, 1, 2, 3]))])
    return {"sites": sites, "links": links, "demands": demands}


def build(case):
    n = len(case["sites"])
    links, mcs = [], {}
    for i, j, st, wl, m in case["links"]:
        a, b = case["sites"][i], case["sites"][j]
        if a["t"] != "CN":
            links.append([i, j, st, wl, None])
        if b["t"] != "CN":
            links.append([j, i, st, wl, None])
    spec = {"sites": case["sites"], "links": links,
            "demands": [[d[0], d[1], 1, 0.1, [i for i in d[2] if i < n]] for d in case["demands"]]}
    T, ss = gen.make_topology(spec)
    for i, j, st, wl, m in case["links"]:
        for a, b in ((i, j), (j, i)):
            l = T.get_link_by_site_ids(ss[a].site_id, ss[b].site_id)
            if l is not None:
                l._mcs_level = m
                l._capacity = 0.0 if m == 0 else 1.0
    return T


class Model:
    """the network's paths, from the network itself"""

    def __init__(self, T, ok):
        self.T, self.ok = T, ok
        act = {k for k, s in T.sites.items() if s.status_type.name in ok}
        self.pops = {k for k in act if T.sites[k].site_type.name == "POP"}
        self.links = {(l.tx_site.site_id, l.rx_site.site_id): l for l in T.links.values()
                      if l.status_type.name in ok and l.tx_site.site_id in act and l.rx_site.site_id in act}
        self.dem = {}
        for k, d in T.demand_sites.items():
            self.dem[k] = {s.site_id for s in d.connected_sites if s.site_id in act}
        self.act = act

    def fed(self, cut=frozenset(), dead=None):
        """sites with a path from a POP, without the links in `cut`; `dead` passes nothing on"""
        seen, todo = set(self.pops), list(self.pops)
        while todo:
            u = todo.pop()
            if u == dead:
                continue
            for a, b in self.links:
                if a == u and b not in seen and (a, b) not in cut:
                    seen.add(b)
                    todo.append(b)
        return seen

    def served(self, cut=frozenset(), dead=None):
        f = self.fed(cut, dead) - {dead}
        return {k for k, c in self.dem.items() if c & f}

    def cost(self, l):
        m = l.mcs_level
        return 1 if m > 8 else 15 if m in (2, 3) else 3 if 4 <= m <= 8 else INF

    def dist(self, weight, links=None, within=None):
        """least cost from the source to every site (source-POP counts one)"""
        import heapq

        links = self.links if links is None else links
        d = {}
        q = [(1, p) for p in sorted(self.pops) if within is None or p in within]
        while q:
            c, u = heapq.heappop(q)
            if u in d:
                continue
            d[u] = c
            for (a, b), l in links.items():
                if a == u and b not in d:
                    heapq.heappush(q, (c + (self.cost(l) if weight else 1), b))
        return d

    def shortest_paths(self, demand, cap=400):
        """all minimum-hop site paths POP..site that serve the demand"""
        d = self.dist(False)
        best = min((d[s] for s in self.dem[demand] if s in d), default=None)
        if best is None:
            return []
        out = []
        stack = [[s] for s in sorted(self.dem[demand]) if d.get(s) == best]
        while stack and len(out) < cap:
            p = stack.pop()
            if d[p[0]] == 1:
                out.append(p)
                continue
            for (a, b) in self.links:
                if b == p[0] and d.get(a) == d[p[0]] - 1:
                    stack.append([a] + p)
        return out


def graph_snap(G):
    return {"nodes": sorted((str(n), str(sorted(d.items()))) for n, d in G.nodes(data=True)),
            "edges": sorted((a, b, str(sorted(d.items()))) for a, b, d in G.edges(data=True))}


def net_snap(T):
    return {"sites": {k: v.status_type.name for k, v in T.sites.items()},
            "links": {k: [v.status_type.name, v.mcs_level, v.capacity] for k, v in T.links.items()},
            "demands": {k: sorted(s.site_id for s in v.connected_sites) for k, v in T.demand_sites.items()}}


def sk(a, b):
    return (min(a, b), max(a, b))


class Outages(Scenario):
    name = "outages"
    shrink = ("ops", "demands", "links")
    cpu_limit = 60.0

    def gen(self, rng, faulty):
        net = gen_net(rng)
        ops = []
        for _ in range(rng.randint(2, 8)):
            k = rng.choice(["edge", "site", "disjoint", "disjoint", "routing", "disruptive", "availability", "connected"])
            ops.append([k, rng.randrange(3), rng.randint(1, 9) if faulty and rng.random() < 0.35 else 0])
        return {**net, "ops": ops}

    def run(self, case, r: Run):
        import networkx as nx
        from terragraph_planner.common.configuration.enums import StatusType, TopologyRouting
        from terragraph_planner.optimization import topology_networkx as TN
        from terragraph_planner.optimization.topology_availability import compute_availability

        T = build(case)
        M = Model(T, ACTIVE)
        if not M.pops:
            return
        C = Model(T, REACHABLE)
        G = TN.build_digraph(T, StatusType.active_status())
        GC = TN.build_digraph(T, StatusType.reachable_status())
        g0, c0, t0 = graph_snap(G), graph_snap(GC), net_snap(T)
        fail = {"in": 0}
        real = {}

        def inject(name):
            real[name] = getattr(nx, name)

            def f(*a, **k):
                if fail["in"] > 0:
                    fail["in"] -= 1
                    if fail["in"] == 0:
                        r.w.fault("analysis_interrupted")
                        raise InjectedFailure("simulated allocation failure")
                return real[name](*a, **k)

            setattr(nx, name, f)

        for nme in ("descendants", "has_path", "shortest_path", "single_source_shortest_path"):
            inject(nme)
        try:
            lost = 0
            for kind, x, when in case["ops"]:
                fail["in"] = when
                fn = {"edge": lambda: TN.single_edge_failures(G), "site": lambda: TN.single_site_failures(G),
                      "disjoint": lambda: TN.disjoint_paths(T, G), "connected": lambda: TN.find_connected_demands(G),
                      "routing": lambda: TN.get_topology_routing_results(T, G, list(TopologyRouting)[x % len(TopologyRouting)]),
                      "disruptive": lambda: TN.find_most_disruptive_links(G, GC, 1 + x),
                      "availability": lambda: compute_availability(G, 90, 1.0, None, 5)}[kind]
                res, err = r.call(kind, fn, allow=(InjectedFailure,))
                fail["in"] = 0
                if err is None:
                    lost += self.verify(r, kind, x, res, M, C, T)
                r.note(kind if err is None else kind + " interrupted")
                g, c, t = graph_snap(G), graph_snap(GC), net_snap(T)
                for a, b, nm in ((g0, g, "graph"), (c0, c, "candidate graph")):
                    for k in a:
                        r.check(a[k] == b[k], f"{kind}-changed-graph", lambda: f"{kind}{' (interrupted)' if err else ''} changed the {nm}'s {k}: "
                                f"{[e for e in a[k] if e not in b[k]][:2]} became {[e for e in b[k] if e not in a[k]][:2]}")
                r.check(t == t0, f"{kind}-changed-network", lambda: f"{kind} changed the network")
                r.state(kind, x, bool(err))
                r.see(kind, norm(res))
            r.nontrivial = lost > 0
        finally:
            for k, f in real.items():
                setattr(nx, k, f)

    def verify(self, r, kind, x, res, M, C, T):
        base = M.served()
        if kind == "connected":
            r.check(set(res) == base, "connected", lambda: f"connected demands {len(res)}, recomputed {len(base)}")
            return 0
        if kind == "edge":
            want = {}
            for (a, b), l in M.links.items():
                if l.link_type.name == "WIRELESS_BACKHAUL":
                    want[sk(a, b)] = base - M.served({(a, b), (b, a)})
            r.check(set(res) == set(want), "edge-outages", lambda: f"outage of {len(res)} links analysed, {len(want)} backhaul links in the network")
            for k, v in want.items():
                r.check(set(res[k]) == v, "edge-outage", lambda: f"without link {k} demands {sorted(res[k])} reported lost, recomputed {sorted(v)}")
            return sum(map(bool, want.values()))
        if kind == "site":
            pop, dn = res
            n = 0
            for s in sorted(M.act):
                t = M.T.sites[s].site_type.name
                if t == "CN":
                    continue
                v = base - M.served(dead=s)
                got = set((pop if t == "POP" else dn).get(s, ()))
                n += bool(v)
                r.check(got == v, "site-outage", lambda: f"without {M.T.sites[s].name} demands {sorted(got)} reported lost, recomputed {sorted(v)}")
            for s in list(pop) + list(dn):
                r.check(s in M.act and M.T.sites[s].site_type.name == ("POP" if s in pop else "DN"), "site-outage-unknown", lambda: s)
            return n
        if kind == "disjoint":
            r.check(set(res.disconnected_demand_locations) == set(M.dem) - base, "disjoint-disconnected",
                    lambda: f"{sorted(res.disconnected_demand_locations)} reported disconnected, recomputed {sorted(set(M.dem) - base)}")
            at_pop = {k for k, c in M.dem.items() if c & M.pops}
            r.check(set(res.demand_connected_to_pop) == at_pop, "disjoint-at-pop",
                    lambda: f"{sorted(res.demand_connected_to_pop)} reported at a POP, recomputed {sorted(at_pop)}")
            for k in sorted(base - at_pop):
                alt = []
                for p in M.shortest_paths(k):
                    cut = set()
                    for a, b in zip(p, p[1:]):
                        if M.T.sites[b].site_type.name == "CN":
                            break
                        cut.add((a, b))
                    alt.append(k in M.served(cut))
                got = k in res.demand_with_disjoint_paths
                r.check(got in alt, "disjoint", lambda: f"demand {k}: disjoint paths {got}, but for its shortest paths {alt}")
            r.check(set(res.demand_with_disjoint_paths) <= base - at_pop, "disjoint-extra", lambda: "a demand without a routed path has disjoint paths")
            return 1
        if kind == "routing":
            used = set(res)
            byid = {l.link_id: k for k, l in M.links.items()}
            r.check(used <= set(byid), "routing-inactive", lambda: f"routes use links that are not active: {sorted(used - set(byid))[:2]}")
            sub = {byid[u]: M.links[byid[u]] for u in used}
            from terragraph_planner.common.configuration.enums import TopologyRouting

            mode = list(TopologyRouting)[x % len(TopologyRouting)].name
            d_all, d_sub = M.dist(mode == "MCS_COST_PATH"), M.dist(mode == "MCS_COST_PATH", sub)
            for k in sorted(base):
                a = min((d_all[s] for s in M.dem[k] if s in d_all), default=None)
                b = min((d_sub[s] for s in M.dem[k] if s in d_sub), default=None)
                r.check(b is not None, "routing-lost", lambda: f"{mode}: no route to connected demand {k}")
                if mode != "DPA_PATH":
                    r.check(b == a, "routing-longer", lambda: f"{mode}: demand {k} is {b} away over the routes, {a} over the network")
            return len(used)
        if kind == "disruptive":
            cut = set()
            for a, b in res:
                r.check(sk(a, b) in {sk(*k) for k, l in M.links.items() if l.link_type.name == "WIRELESS_BACKHAUL"}, "disruptive-unknown",
                        lambda: f"{(a, b)} is no active backhaul link")
                cut |= {(a, b), (b, a)}
                r.check(base - M.served({(a, b), (b, a)}), "disruptive-harmless", lambda: f"{(a, b)} disrupts nothing")
            r.check(C.served(cut) >= C.served(), "disruptive-cut", lambda: f"without {sorted(res)} the candidate network loses {sorted(C.served() - C.served(cut))}")
            if len(res) < 1 + x:  # fewer than asked for: every other link that matters is one the candidate network cannot do without
                for k, l in M.links.items():
                    if l.link_type.name == "WIRELESS_BACKHAUL" and k not in cut and base - M.served({k, k[::-1]}):
                        r.check(C.served() - C.served(cut | {k, k[::-1]}), "disruptive-missed",
                                lambda: f"{k} disrupts demands and the candidate network can do without it, but it was not chosen ({len(res)} of {1 + x})")
            return len(res)
        if kind == "availability":
            r.check(set(res[0]) == base, "availability-demands", lambda: f"{sorted(res[0])} vs {sorted(base)}")
            r.check(set(res[1]) == {sk(*k) for k, l in M.links.items() if l.link_type.name == "WIRELESS_BACKHAUL"}, "availability-links",
                    lambda: f"availability of {len(res[1])} links")
        return 0


class Adversarial(Scenario):
    """the redundancy step's weakest links, on networks with links that carry nothing"""
    name = "weakest-links"
    shrink = ("demands", "links")
    weight = 0.4

    def gen(self, rng, faulty):
        net = gen_net(rng)
        if rng.random() < 0.4:
            o = rng.choice(net["sites"])
            net["sites"].append(dict(o, t="CN" if o["t"] == "DN" else "DN", st="CANDIDATE", n=o["n"] + "b"))
        return {**net, "ratio": rng.choice([0.0, 0.2, 0.5, 1.0])}

    def run(self, case, r: Run):
        from terragraph_planner.optimization.topology_operations import get_adversarial_links

        T = build(case)
        M = Model(T, ACTIVE)
        if not M.pops:
            return
        t0 = net_snap(T)
        res, _ = r.call("get_adversarial_links", get_adversarial_links, T, case["ratio"])
        r.check(net_snap(T) == t0, "weakest-links-changed-network", "the network differs afterwards")
        base = M.served()
        bh = {sk(*k) for k, l in M.links.items() if l.link_type.name == "WIRELESS_BACKHAUL"}
        cut = set()
        for a, b in res:
            r.check(sk(a, b) in bh, "weakest-unknown", lambda: f"{(a, b)} is no active backhaul link")
            r.check(base - M.served({(a, b), (b, a)}), "weakest-harmless", lambda: f"{(a, b)} disrupts nothing")
            cut |= {(a, b), (b, a)}
        C = Model(T, REACHABLE)
        C.links = {k: l for k, l in C.links.items() if l.capacity > 0}
        co = {}
        for s in T.sites.values():
            co.setdefault((s.latitude, s.longitude), []).append(s)
        if all(len(v) == 1 for v in co.values()):
            r.check(C.served(cut) >= C.served(), "weakest-cut", lambda: f"without {sorted(res)} the usable network loses {sorted(C.served() - C.served(cut))}")
        r.check(case["ratio"] > 0 or not res, "weakest-ratio", "links reported although none were asked for")
        r.nontrivial = bool(res)
        r.state(len(res), case["ratio"])
        r.see(sorted(res))


def norm(o):
    if isinstance(o, dict):
        return sorted((str(k), norm(v)) for k, v in o.items())
    if isinstance(o, (set, frozenset)):
        return sorted(map(str, o))
    if isinstance(o, tuple):
        return [norm(x) for x in o]
    return str(o)


register("C12", Outages(), Adversarial())
