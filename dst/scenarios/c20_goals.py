"""C20: plans against own optimisation models written from the documentation, at every stage of planning."""
from __future__ import annotations

import copy
import math
import random

from ..scenario import Run, register
from .c08_degrade import FAIL, LEVELS, failed, lowest_skip
from .opt import ACTIVE, OptScenario, build, check_internal, gen_network, gen_hub, gen_params, make_params, run_steps

DIST = {"POP", "DN"}
RANK = {"CN": 0, "DN": 1, "POP": 2}
RED = {"LOW": lambda many: (2, 2, 2), "MEDIUM": lambda many: (1, 1, 2) if many else (2, 1, 2), "HIGH": lambda many: (2, 1, 4) if many else (3, 1, 3)}
MEH = ["incumbent", "timeout_incumbent", "slop"]
INF = float("inf")


class Plain:
    """a copy of everything planning depends on, free of planner objects"""

    def __init__(self, T, P):
        self.site = {k: dict(t=s.site_type.name, st=s.status_type.name, at=(s.longitude, s.latitude, s.altitude), n=s.name) for k, s in T.sites.items()}
        price = {"POP": P.pop_site_capex, "DN": P.dn_site_capex, "CN": P.cn_site_capex}
        nodes = {}
        for q in T.sectors.values():
            nodes.setdefault(q.site.site_id, {})[q.node_id] = q.node_capex
        for k, s in self.site.items():
            s["cost"] = price[s["t"]] + sum(nodes.get(k, {}).values())
        self.link = {}
        for l in T.links.values():
            self.link[l.tx_site.site_id, l.rx_site.site_id] = dict(
                st=l.status_type.name, cap=l.capacity, tx=l.tx_sector.sector_id if l.tx_sector else None, rx=l.rx_sector.sector_id if l.rx_sector else None)
        self.demand = {}
        for k, d in T.demand_sites.items():
            for i in range(d.num_sites):
                self.demand[k, i] = (d.demand / P.oversubscription, sorted(s.site_id for s in d.connected_sites))
        self.popcap = P.pop_capacity
        self.always = P.always_active_pops
        self.total = sum(v for v, _ in self.demand.values())
        # a demand location hangs on a site by a link no better than the best one
        self.tail = max((l["cap"] for l in self.link.values()), default=self.popcap)

    def usable(self, l):
        return l["st"] not in ("UNAVAILABLE", "UNREACHABLE") and l["tx"] is not None and l["rx"] is not None and l["cap"] > 0

    def off(self, k):
        return self.site[k]["st"] in ("UNAVAILABLE", "UNREACHABLE")

    def price(self, sites):
        return sum(self.site[k]["cost"] for k in sites if self.site[k]["st"] != "EXISTING")

    def spots(self):
        out = {}
        for k, s in self.site.items():
            out.setdefault(s["at"], []).append(k)
        return out.values()


class LP:
    def __init__(self):
        self.n, self.lb, self.ub, self.int, self.rows, self.c = 0, [], [], [], [], {}

    def var(self, lb=0.0, ub=INF, integer=False):
        self.lb.append(lb), self.ub.append(ub), self.int.append(int(integer))
        self.n += 1
        return self.n - 1

    def add(self, terms, lo, hi):
        if terms:
            self.rows.append((terms, lo, hi))

    def solve(self, twice=False):
        """-> objective value, None when infeasible; raises TimeoutError when not decided.
        twice: the lower of two solves, as HiGHS' presolve can cut off the optimum"""
        import numpy as np
        from scipy.optimize import Bounds, LinearConstraint, milp
        from scipy.sparse import csr_matrix

        d, ri, ci = [], [], []
        for i, (t, _, _) in enumerate(self.rows):
            for c, v in t.items():
                d.append(v), ri.append(i), ci.append(c)
        A = csr_matrix((d, (ri, ci)), shape=(len(self.rows), self.n))
        c = np.zeros(self.n)
        for k, v in self.c.items():
            c[k] = v
        cons = LinearConstraint(A, [r[1] for r in self.rows], [r[2] for r in self.rows])
        bad, best = False, None
        for pre in (True, False):
            res = milp(c, integrality=self.int, bounds=Bounds(self.lb, self.ub), constraints=cons,
                       options={"mip_rel_gap": 0.0, "presolve": pre, "time_limit": 20.0})
            if res.status == 0:
                v = A @ res.x
                if any(y < lo - 1e-5 or y > hi + 1e-5 for y, (_, lo, hi) in zip(v, self.rows)):
                    bad = True  # an answer that breaks its own constraints
                    continue
                if best is None or res.fun < best:
                    self.x, best = res.x, float(res.fun)
                if not twice:
                    return best
            if res.status == 1:
                raise TimeoutError
        if best is not None:
            return best
        if bad:
            raise TimeoutError
        return None


def plus(d, k, v):
    d[k] = d.get(k, 0.0) + v


class Design:
    """site selection as the documentation states it: flows with shortage, time division, polarity, one site per spot"""

    def __init__(self, N: Plain, polarity=True, blocked=()):
        self.N = N
        m = self.m = LP()
        self.s = {k: m.var(0, 0 if N.off(k) else 1, True) for k in N.site}
        odd = {k: m.var(0, 1, True) for k, s in N.site.items() if s["t"] in DIST} if polarity else {}
        inc, out, txs, rxs = {}, {}, {}, {}
        for (a, b), l in N.link.items():
            live = l["st"] in ACTIVE
            if polarity and live and a in odd and b in odd:
                m.add({odd[a]: 1.0, odd[b]: 1.0}, 1, 1)
            if not N.usable(l) or (a, b) in blocked:
                continue
            f, t = m.var(), m.var(0, 1)
            m.add({f: 1.0, t: -l["cap"]}, -INF, 0)
            plus(inc.setdefault(b, {}), f, 1.0)
            plus(out.setdefault(a, {}), f, 1.0)
            plus(txs.setdefault((a, l["tx"]), {}), t, 1.0)
            plus(rxs.setdefault((b, l["rx"]), {}), t, 1.0)
            if polarity and not live and a in odd and b in odd:
                m.add({t: 1.0, odd[a]: -1.0, odd[b]: -1.0}, -INF, 0)
                m.add({t: 1.0, odd[a]: 1.0, odd[b]: 1.0}, -INF, 2)
        for d in (txs, rxs):
            for (k, _), terms in d.items():
                m.add({**terms, self.s[k]: -1.0}, -INF, 0)
        for k, s in N.site.items():
            if s["t"] == "POP":
                f = m.var(0, N.popcap)
                plus(inc.setdefault(k, {}), f, 1.0)
        self.phi, self.into = {}, {}
        for d, (want, via) in N.demand.items():
            self.phi[d] = m.var(0, want)
            terms = {self.phi[d]: 1.0}
            for k in via:
                f = m.var(0, N.tail)
                plus(terms, f, 1.0)
                plus(out.setdefault(k, {}), f, 1.0)
            m.add(terms, want, want)
        for k, s in N.site.items():
            i, o = inc.get(k, {}), out.get(k, {})
            bal = dict(i)
            for c, v in o.items():
                plus(bal, c, -v)
            m.add(bal, 0, 0)
            if i:
                m.add({**i, self.s[k]: -N.total}, -INF, 0)
            if o:
                m.add({**o, self.s[k]: -N.total}, -INF, 0)
            if s["t"] == "POP" and o:
                m.add(dict(o), -INF, N.popcap)

    def fixed(self, always=None):
        """what the user decided stays; one site per spot, upgrades of what is there"""
        N, m = self.N, self.m
        always = N.always if always is None else always
        given = {k for k, s in N.site.items() if s["st"] in ACTIVE or (always and s["t"] == "POP" and not N.off(k))}
        for spot in N.spots():
            here = [k for k in spot if k in given]
            terms = {self.s[k]: 1.0 for k in spot}
            if not here:
                if len(spot) > 1:
                    m.add(terms, -INF, 1)
                continue
            m.add(terms, 1, 1)
            top = max(RANK[N.site[k]["t"]] for k in here)
            for k in spot:
                r = RANK[N.site[k]["t"]]
                if (r != top and not (top == 0 and r > 0)) or (r == top and k not in given):
                    m.ub[self.s[k]] = 0

    def only(self, sites):
        for k, v in self.s.items():
            if k not in sites:
                self.m.ub[v] = 0

    def coverage(self, level):
        self.m.add({v: 1.0 for v in self.phi.values()}, -INF, (1 - level) * self.N.total)

    def cheapest(self):
        for k, v in self.s.items():
            if self.N.site[k]["st"] != "EXISTING":
                self.m.c[v] = self.N.site[k]["cost"]
        return self.m.solve()

    def budget(self, amount):
        self.m.add({v: self.N.site[k]["cost"] for k, v in self.s.items() if self.N.site[k]["st"] != "EXISTING"}, -INF, amount)

    def least_shortage(self, twice=False):
        for v in self.phi.values():
            self.m.c[v] = 1.0
        return self.m.solve(twice)


def shortage(N: Plain, sites, links, blocked=()):
    """demand that active sites and links cannot carry: a linear program"""
    M = copy.copy(N)
    M.link = {k: l for k, l in N.link.items() if k in links}
    M.tail = INF
    D = Design(M, polarity=False, blocked=blocked)
    D.only(sites)
    for v in D.s.values():
        D.m.int[v] = 0
    return D.least_shortage(twice=True)


def backup(N: Plain, caps, dns, links, sites):
    """paths each relay has over given links and sites: own maximum flows; total missing"""
    import networkx as nx

    pop, dn, sink = caps
    miss = 0.0
    for d in dns:
        G = nx.DiGraph()
        G.add_node("S")
        G.add_node(("i", d))
        for k in sites:
            t = N.site[k]["t"]
            if t not in DIST:
                continue
            if k != d:
                G.add_edge(("i", k), ("o", k), capacity=pop if t == "POP" else dn)
            if t == "POP":
                G.add_edge("S", ("i", k), capacity=pop)
        for a, b in links:
            if a in sites and b in sites and a != d:
                G.add_edge(("o", a), ("i", b), capacity=1)
        miss += sink - min(sink, nx.maximum_flow_value(G, "S", ("i", d)))
    return miss


class Backup:
    """redundancy as the documentation states it"""

    def __init__(self, N: Plain, caps, dns, links):
        pop, dn, sink = caps
        m = self.m = LP()
        self.N = N
        links = {k for k in links if N.usable(N.link[k]) and N.site[k[0]]["t"] in DIST and N.site[k[1]]["t"] in DIST}
        names = {x for k in links for x in k} | {k for k, s in N.site.items() if s["t"] == "POP"}
        self.s, odd = {}, {}
        for k in sorted(names):
            s = N.site[k]
            act = s["st"] in ACTIVE
            self.s[k] = m.var(1 if act else 0, 0 if N.off(k) or (s["t"] == "POP" and not act) else 1, True)
            odd[k] = m.var(0, 1, True)
        for spot in N.spots():
            terms = {self.s[k]: 1.0 for k in spot if k in self.s}
            if len(terms) > 1:
                m.add(terms, -INF, 1)
        self.phi = {}
        for d in dns:
            inc, out = {}, {}
            for a, b in sorted(links):
                f = m.var(0, 1)
                inc.setdefault(b, {})[f] = 1.0
                out.setdefault(a, {})[f] = 1.0
                if N.link[a, b]["st"] not in ACTIVE:
                    m.add({f: 1.0, odd[a]: -1.0, odd[b]: -1.0}, -INF, 0)
                    m.add({f: 1.0, odd[a]: 1.0, odd[b]: 1.0}, -INF, 2)
            for k in self.s:
                if N.site[k]["t"] == "POP":
                    inc.setdefault(k, {})[m.var(0, pop)] = 1.0
            self.phi[d] = m.var(0, sink)
            for k in self.s:
                cap = pop if N.site[k]["t"] == "POP" else sink if k == d else dn
                bal = dict(inc.get(k, {}))
                for c in out.get(k, {}):
                    plus(bal, c, -1.0)
                if k == d:
                    m.add({**bal, self.phi[d]: 1.0}, sink, INF)
                else:
                    m.add(bal, 0, 0)
                if inc.get(k):
                    m.add({**inc[k], self.s[k]: -float(cap)}, -INF, 0)
        for a, b in links:
            if N.link[a, b]["st"] in ACTIVE:
                m.add({odd[a]: 1.0, odd[b]: 1.0}, 1, 1)

    def least_shortage(self):
        self.m.c = {v: 1.0 for v in self.phi.values()}
        return self.m.solve()

    def cheapest_without_shortage(self):
        for v in self.phi.values():
            self.m.ub[v] = 0
        self.m.c = {v: self.N.site[k]["cost"] for k, v in self.s.items() if self.N.site[k]["st"] != "EXISTING"}
        return self.m.solve()


def disjoint(N: Plain, links, src, dst, cap):
    """node-disjoint paths between two sites, at most cap"""
    import networkx as nx

    G = nx.DiGraph()
    G.add_edge("S", ("o", src), capacity=cap)
    G.add_node(("i", dst))
    for k, s in N.site.items():
        if k != src and (s["t"] == "DN" and not N.off(k) or s["t"] == "POP" and s["st"] in ACTIVE):
            G.add_edge(("i", k), ("o", k), capacity=4 if s["t"] == "POP" else 1)
    for a, b in links:
        l = N.link[a, b]
        if b != src and N.site[a]["t"] in DIST and N.site[b]["t"] in DIST and not N.off(a) and not N.off(b) \
                and l["st"] not in ("UNAVAILABLE", "UNREACHABLE") and l["cap"] > 0:
            G.add_edge(("o", a), ("i", b), capacity=1)
    return nx.maximum_flow_value(G, "S", ("i", dst))


class Watch:
    """answers the solver and keeps a copy of the network at the start of each stage"""

    def __init__(self, r, T, P, case):
        self.r, self.T, self.P = r, T, P
        self.plan = {(k, n): a for k, n, a in case["plan"]}
        self.seed = case["seed"]
        self.count, self.log, self.at = {}, [], {}
        self.level0 = None
        self.restricted = self.adversarial = None

    def __call__(self, idx, p):
        name = p.name
        n = self.count.get(name, 0)
        self.count[name] = n + 1
        a = self.plan.get((name, n), "optimal")
        self.r.w.solver.rng = random.Random(f"{self.seed}/{name}/{n}")
        self.log.append((name, a))
        if name not in self.at:
            self.at[name] = Plain(self.T, self.P)
            if name == "MinCostNetwork":
                self.level0 = lowest_skip(self.T, self.P)
            elif name == "RedundantNetwork":
                self.restricted = helper(pruned, self.T)
            elif name == "MaxCoverageNetwork":
                self.adversarial = helper(critical, self.T, self.P)
        return a

    def answers(self, name):
        return [(a, s.answer) for (n, a), s in zip(self.log, self.r.w.solver.solves) if n == name]


def helper(f, T, *rest):
    """what a step of the planner itself finds, when it can be asked on its own"""
    try:
        return f(copy.deepcopy(T), *rest)
    except Exception:
        return None


def pruned(T):
    """the links the documented heuristic leaves for the redundancy step"""
    from itertools import chain

    from terragraph_planner.optimization.ilp_models.redundancy_optimization import compute_candidate_edges_for_redundancy

    E = compute_candidate_edges_for_redundancy(topology=T, pop_source_capacity=4.0, dn_source_capacity=2.0)
    nodes = set(chain(*E))
    return E | {(l.tx_site.site_id, l.rx_site.site_id) for l in T.links.values()
                if l.tx_site.site_id in nodes and l.rx_site.site_id in nodes and l.status_type.name in ACTIVE}


def critical(T, P):
    from terragraph_planner.optimization.topology_operations import get_adversarial_links

    return set(get_adversarial_links(T, P.backhaul_link_redundancy_ratio))


def gen_mesh(rng):
    """POPs and relays close together, clients that need one of the relays: several ways to each relay"""
    from .. import gen

    pops, dns, cns = rng.choice([1, 2, 2, 3]), rng.choice([3, 4, 5, 6]), rng.choice([1, 1, 2, 2, 3])
    sites = []
    for i in range(pops + dns + cns):
        t = "POP" if i < pops else "DN" if i < pops + dns else "CN"
        while True:
            x, y = round(rng.uniform(0, 220), 1), round(rng.uniform(0, 220), 1)
            if all(gen.dist({"x": x, "y": y, "z": 0}, dict(s, z=0)) > 12 for s in sites):
                break
        s = {"t": t, "x": x, "y": y, "z": 10.0, "n": f"{t}{i}"}
        if t != "CN":
            s["dev"] = rng.choice(["DN4", "DN4", "DN4", "DN22", "DN2"])
        if rng.random() < {"POP": 0.55, "DN": 0.2, "CN": 0.1}[t]:
            s["st"] = rng.choice(["EXISTING", "EXISTING", "PROPOSED", "UNAVAILABLE"]) if t != "POP" else "EXISTING"
        sites.append(s)
    p = rng.choice([1.0, 0.9, 0.7])
    edges = [[i, j, "CANDIDATE", 1.0] for i in range(pops + dns) for j in range(max(i + 1, pops), pops + dns) if rng.random() < p]
    for j in range(pops + dns, len(sites)):
        for i in rng.sample(range(pops, pops + dns), rng.choice([1, 1, 2])):
            edges.append([i, j, "CANDIDATE", 1.0])
    for e in edges:
        e[2] = gen.link_status(rng, sites[e[0]].get("st", "CANDIDATE"), sites[e[1]].get("st", "CANDIDATE"))
    return {"sites": sites, "edges": edges}


class Goals(OptScenario):
    name = "goals"

    def gen(self, rng, faulty):
        net = gen_hub(rng, 6) if rng.random() < 0.25 else gen_network(rng, nmax=9, fixed=rng.random() < 0.4)
        if rng.random() < 0.15:
            # a street along a parallel or a meridian: relays on one line
            flat = rng.random() < 0.5
            for i, s in enumerate(net["sites"]):
                off = 0.37 * i if s["t"] == "DN" else 0.0
                s["lat"], s["lon"] = round(37.5 + (s["y"] + off) * 9e-6, 8), round(-122.0 + (s["x"] + off) * 1.13e-5, 8)
                if s["t"] == "DN":
                    s["lat" if flat else "lon"] = 37.5005 if flat else -121.998
        P = gen_params(rng)
        if rng.random() < 0.25:
            net = gen_mesh(rng)
            P["redundancy_level"] = rng.choice(["HIGH", "HIGH", "MEDIUM", "LOW"])
            P["enable_legacy_redundancy_method"] = False
        if rng.random() < 0.12:
            # a relay as an alternative at the place of a POP
            ss = net["sites"]
            i = rng.choice([i for i, s in enumerate(ss) if s["t"] == "POP"])
            if not any(s["t"] == "DN" and (s["x"], s["y"]) == (ss[i]["x"], ss[i]["y"]) for s in ss):
                ss.append(dict(ss[i], t="DN", n=ss[i]["n"] + "d", st="CANDIDATE"))
                net["edges"] += [[min(len(ss) - 1, b if a == i else a), len(ss) - 1, "CANDIDATE", c] for a, b, st, c in list(net["edges"])
                                 if i in (a, b) and ss[b if a == i else a].get("st", "CANDIDATE") == "CANDIDATE"]
        P["maximize_common_bandwidth"] = False
        P["demand"] = rng.choice([0.025, 0.3, 0.6, 1.2])
        P["pop_capacity"] = rng.choice([0.7, 2.0, 2.0, 10.0])
        if rng.random() < 0.3:
            P["number_of_extra_pops"] = rng.choice([1, 2])
        for k in ("min_cost_rel_stop", "redundancy_rel_stop", "max_coverage_rel_stop", "pop_proposal_rel_stop", "interference_rel_stop"):
            P[k] = 0.0
        P["pop_site_capex"] = rng.choice([1500.0, 0.0, 4000.0])
        P["dn_site_capex"] = rng.choice([1500.0, 700.0, 300.0])
        P["cn_site_capex"] = rng.choice([150.0, 400.0])
        if rng.random() < (0.85 if P["enable_legacy_redundancy_method"] else 0.5):
            P["budget"] = float(rng.choice([4000, 7000, 10000, 15000, 25000, 40000]))
        plan = []
        if faulty:
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice(["MinCostNetwork", "MinCostNetwork", "RedundantNetwork", "MaxCoverageNetwork", "POPProposalNetwork"])
                if k == "MinCostNetwork" and rng.random() < 0.6:
                    for n in range(rng.choice([1, 1, 2, 3])):
                        plan.append([k, n, rng.choice(FAIL)])
                else:
                    plan.append([k, rng.choice([0, 0, 1]), rng.choice(MEH + FAIL)])
        seen, out = set(), []
        for k, n, a in plan:
            if (k, n) not in seen:
                seen.add((k, n))
                out.append([k, n, a])
        return {**net, "params": P, "plan": out, "debug": False}

    def run(self, case, r: Run):
        T = build(case)
        P = make_params(case["params"])
        before = {k: (s.longitude, s.latitude, s.site_type.name, s.status_type.name) for k, s in T.sites.items()}
        W = Watch(r, T, P, case)
        r.w.solver.plan = W
        r.w.solver.twice = True
        given = {}
        from terragraph_planner.optimization import topology_optimization as TO

        step, err = run_steps(r, T, P, upto="prepare")
        if err is None:
            given = Plain(T, P)
            _, err = r.call("optimize", lambda: TO.optimize_topology(T, P), allow=self.allowed())
            step = "optimize" if err is not None else None
        r.state([x[0] for x in W.log], [x[1] for n in sorted(W.at) for x in W.answers(n)], step)
        r.see(step, type(err).__name__ if err else None, sorted((k, s.status_type.name) for k, s in T.sites.items()))
        check_internal(r, step, err)
        if "MinCostNetwork" not in W.at:
            return
        if err is None and P.enable_legacy_redundancy_method and "MinInterferenceNetwork" in W.at and "MaxCoverageNetwork" not in W.at:
            N = W.at["MinInterferenceNetwork"]
            base = N.price({k for k, s in N.site.items() if s["st"] in ACTIVE})
            r.check(base >= P.budget - 1e-6, "coverage-step-skipped", lambda: f"nothing is added though {P.budget - base:.2f} of the budget is left")
        try:
            if W.at.get("POPProposalNetwork") is not None:
                self.extra_pops(r, W, P, given)
            self.min_cost(r, W, P, err)
        except TimeoutError:
            r.note("own model not decided in time")
        nxt = [n for n in ("RedundantNetwork", "MaxCoverageNetwork") if n in W.at]
        if nxt and "MinInterferenceNetwork" in W.at:
            try:
                (self.redundancy if nxt[0] == "RedundantNetwork" else self.extra_coverage)(r, W, P)
            except TimeoutError:
                r.note("own model not decided in time")

    @staticmethod
    def allowed():
        from terragraph_planner.common.exceptions import PlannerException

        from .. import sim_xpress

        return (PlannerException, sim_xpress.SolverError)

    # -- extra POPs
    def extra_pops(self, r, W, P, G):
        N = W.at["MinCostNetwork"]
        new = {k for k in N.site if k not in G.site}
        r.check(len(new) <= P.number_of_extra_pops, "too-many-extra-pops", lambda: f"{len(new)} POPs added, {P.number_of_extra_pops} asked for")
        spot = {}
        for k, s in G.site.items():
            spot.setdefault(s["at"], []).append(k)
        for k in new:
            here = spot.get(N.site[k]["at"], [])
            r.check(N.site[k]["t"] == "POP" and any(G.site[x]["t"] == "DN" and not G.off(x) for x in here), "extra-pop-nowhere",
                    lambda: f"{N.site[k]} is not at a usable DN")
            r.check(not any(G.site[x]["t"] == "POP" and not G.off(x) for x in here), "extra-pop-on-pop", lambda: f"{N.site[k]} is added at a POP")
            short = [self.lost_links(N, G, k, d) for d in here if G.site[d]["t"] == "DN" and not G.off(d)]
            r.check(not short or not all(short), "extra-pop-without-link", lambda: f"{N.site[k]} lacks links of the relay at its place: {short}")
        ans = W.answers("POPProposalNetwork")
        if not ans or ans[0][1] != "optimal":
            return
        # the access network that serves most from so many places
        A = copy.copy(G)
        A.site = {k: dict(s) for k, s in G.site.items()}
        given = {k for k, s in G.site.items() if s["t"] == "POP"}
        taken = {G.site[k]["at"] for k in given}
        drop = {k for k, s in G.site.items() if s["t"] == "DN" and s["at"] in taken}
        for k, s in A.site.items():
            if s["t"] == "DN" and k not in drop:
                s["t"] = "POP"
            if k in given and s["st"] == "CANDIDATE":
                s["st"] = "PROPOSED"
        A.link = {k: l for k, l in G.link.items() if A.site[k[1]]["t"] == "CN" and A.site[k[0]]["t"] == "POP"}
        A.always = False
        live = [k for k in given if not G.off(k)]
        places = [k for k, s in A.site.items() if s["t"] == "POP" and not A.off(k)]
        if any(s["st"] in ACTIVE for k, s in A.site.items() if k not in given and s["t"] == "POP"):
            return  # relays already in use take part, which the documentation leaves open
        D = Design(A, polarity=False)
        D.fixed(False)
        n = min(P.number_of_extra_pops + len(live), len(places))
        D.m.add({D.s[k]: 1.0 for k in places}, n, n)
        best = D.least_shortage()
        if best is None or A.total - best < 1e-6:
            return
        dup = {k for x in new for k in spot[N.site[x]["at"]] if G.site[k]["t"] == "DN"}
        S = set(live) | dup | {k for k, s in A.site.items() if s["t"] == "CN"}
        got = shortage(A, S, set(A.link))
        r.check(got is not None and got <= best + 1e-3 * max(1.0, A.total), "extra-pops-not-best",
                lambda: f"chosen places leave {got:.4f} of {A.total:.4f} unserved, the best {n} leave {best:.4f}")
        r.note("extra POPs compared")

    @staticmethod
    def lost_links(N, G, k, d):
        out = []
        for (a, b), l in G.link.items():
            o = b if a == d else a
            if d in (a, b) and G.usable(l) and G.site[o]["t"] != "POP" and not G.off(o):
                twin = N.link.get((k, o) if a == d else (o, k))
                if twin is None or abs(twin["cap"] - l["cap"]) > 1e-9:
                    out.append((a == d, G.site[o]["n"], twin))
        return out

    # -- minimum cost
    def min_cost(self, r, W, P, err):
        N = W.at["MinCostNetwork"]
        mc = W.answers("MinCostNetwork")
        if W.level0 is None or not N.demand or N.total <= 0:
            return
        done = bool(mc) and not failed(mc[-1][1]) and mc[-1][1] != "raise"
        after = next((W.at[n] for n in ("RedundantNetwork", "MaxCoverageNetwork", "MinInterferenceNetwork") if n in W.at), None)
        for i, (asked, a) in enumerate(mc):
            level = 1.0 - 0.1 * (W.level0 + i)
            if asked == "optimal" and failed(a) and a.endswith("/infeasible"):
                D = Design(N)
                D.fixed()
                D.coverage(level + 1e-4)
                own = D.cheapest()
                r.check(own is None, "refused-feasible-demand", lambda: f"no network found for {level:.0%} of the demand, but there is one for {own:.2f}")
                r.note("refusal confirmed")
        if not done or after is None:
            return
        level = 1.0 - 0.1 * (W.level0 + len(mc) - 1)
        S = {k for k, s in after.site.items() if s["st"] in ACTIVE}
        L = {k for k, l in after.link.items() if l["st"] in ACTIVE}
        used = {N.site[k]["at"] for k in S}
        for k, s in N.site.items():
            if s["st"] in ACTIVE and s["t"] == "CN" and s["at"] not in used:
                near = [a for a, b in N.link if b == k and a in S and N.usable(N.link[a, b])]
                r.check(not near, "fixed-site-dropped", lambda: f"{s} is not in the minimum network, though {[N.site[a]['n'] for a in near]} can serve it")
        miss = shortage(N, S, L)
        r.check(miss is not None and miss <= (1 - level) * N.total + 1e-4 * max(1.0, N.total), "promised-demand-not-served",
                lambda: f"accepted for {level:.0%} of {N.total:.4f}, but active sites and links leave {miss if miss is None else round(miss, 5)} unserved")
        r.nontrivial = True
        r.note(f"served at {level:.0%}")
        if mc[-1][0] != "optimal":
            return
        D = Design(N)
        D.fixed()
        D.coverage(level - 1e-5)
        best = D.cheapest()
        cost = N.price(S)
        if best is None:
            r.note("own model is infeasible at the tolerance")
            return
        r.check(cost <= best + 1 + 2e-4 * best, "not-cheapest", lambda: f"the network for {level:.0%} costs {cost:.2f}, {best:.2f} is enough")
        r.note("cost compared")

    # -- redundancy
    def redundancy(self, r, W, P):
        N, F = W.at["RedundantNetwork"], W.at["MinInterferenceNetwork"]
        ans = W.answers("RedundantNetwork")
        self.kept(r, N, F)
        if any(failed(a) for _, a in ans) or len(ans) < 2:
            return
        act = {k for k, s in N.site.items() if s["st"] in ACTIVE}
        more = [s for k, s in F.site.items() if s["st"] in ACTIVE and s["t"] == "POP" and k not in act]
        r.check(not more, "redundancy-adds-pop", lambda: f"POPs that the redundancy step must not propose: {more}")
        dns = [k for k in act if N.site[k]["t"] == "DN"]
        caps = RED[P.redundancy_level.name](sum(N.site[k]["t"] == "POP" for k in act) > 1)
        S = {k for k, s in F.site.items() if s["st"] in ACTIVE}
        L = {k for k, l in F.link.items() if l["st"] in ACTIVE and F.usable(l)}
        miss = backup(F, caps, dns, L, S)
        if W.restricted is None:
            return
        self.enough_links(r, W, N, act, dns)
        if ans[0][0] != "optimal":
            return
        B = Backup(N, caps, dns, W.restricted)
        best = B.least_shortage()
        r.check(best is None or miss <= best + 1e-3, "not-redundant",
                lambda: f"{P.redundancy_level.name}: {miss} disjoint paths to relays are missing, {best:.3f} would do ({len(dns)} relays)")
        r.note("redundancy compared")
        if best is not None and best < 1e-6 and ans[1][0] == "optimal":
            own = B.cheapest_without_shortage()
            dist = {k for k in S if F.site[k]["t"] in DIST}
            cost = N.price(dist)
            r.check(own is None or cost <= own + 1 + 2e-4 * own, "redundancy-not-cheapest",
                    lambda: f"{P.redundancy_level.name}: redundant sites cost {cost:.2f}, {own:.2f} is enough")
            r.note("redundancy cost compared")

    def enough_links(self, r, W, N, act, dns):
        """leaving links out to make the problem smaller keeps the disjoint paths it promises to keep"""
        pops = [k for k in act if N.site[k]["t"] == "POP"]
        pairs = [(p, d, 4) for p in pops for d in dns]
        if len(dns) <= 3:
            pairs += [(a, b, 2) for a in dns for b in dns if a != b]
        sym = all((b, a) in N.link and N.usable(N.link[b, a]) == N.usable(l) for (a, b), l in N.link.items() if N.site[b]["t"] in DIST)
        for a, b, cap in pairs:
            if N.site[a]["t"] == "DN" and not sym:
                continue
            full, left = disjoint(N, N.link, a, b, cap), disjoint(N, W.restricted, a, b, cap)
            r.check(left >= full, "redundant-links-left-out",
                    lambda: f"{left} of {full} disjoint paths from {N.site[a]} to {N.site[b]} are left for the redundancy step")
        r.note("candidate links for redundancy compared")

    def kept(self, r, N, F):
        """a later step adds relays; it only takes away clients that become relays"""
        at = {}
        for k, s in F.site.items():
            if s["st"] in ACTIVE:
                at.setdefault(s["at"], []).append(s["t"])
        for k, s in N.site.items():
            if s["st"] in ACTIVE:
                r.check(F.site[k]["st"] in ACTIVE or (s["t"] == "CN" and set(at.get(s["at"], [])) & DIST), "step-drops-site",
                        lambda: f"{s} of the minimum network is {F.site[k]['st']} after the redundancy step")

    # -- extra coverage
    def extra_coverage(self, r, W, P):
        N, F = W.at["MaxCoverageNetwork"], W.at["MinInterferenceNetwork"]
        ans = W.answers("MaxCoverageNetwork")
        if not ans or failed(ans[-1][1]):
            return
        S = {k for k, s in F.site.items() if s["st"] in ACTIVE}
        L = {k for k, l in F.link.items() if l["st"] in ACTIVE}
        base = N.price({k for k, s in N.site.items() if s["st"] in ACTIVE})
        cost = N.price(S)
        r.check(cost <= max(P.budget, base) + 1e-6, "over-budget", lambda: f"{cost:.2f} spent, budget {P.budget:.2f}, minimum network {base:.2f}")
        r.note("budget compared")
        if ans[-1][0] != "optimal" or W.adversarial is None:
            return
        D = Design(N, blocked=W.adversarial)
        D.fixed()
        D.budget(P.budget)
        best = D.least_shortage()
        if best is None or N.total - best < 1e-4:
            return
        miss = shortage(N, S, L, blocked=W.adversarial)
        r.check(miss is not None and miss <= best + 1e-3 * max(1.0, N.total), "coverage-not-best",
                lambda: f"without the {len(W.adversarial)} critical links {miss:.4f} of {N.total:.4f} is unserved, {best:.4f} is possible within the budget")
        r.note("coverage compared")


register("C20", Goals())
