"""C11: the availability simulation against an executable reference model, under simulated clocks."""
from __future__ import annotations

import math
import sys

from ..scenario import Run, Scenario, register

SRC = "SUPERSOURCE"


def gen_graph(rng):
    """a backhaul graph as the planner builds it: source -> POPs, both directions of backhaul, access, demand"""
    npop, ndn, ncn, ndem = rng.choice([1, 1, 2]), rng.randint(1, 6), rng.randint(0, 3), rng.randint(1, 6)
    pops = [f"P{i}" for i in range(npop)]
    dns = [f"D{i}" for i in range(ndn)]
    cns = [f"C{i}" for i in range(ncn)]
    names = pops + dns
    rng.shuffle(names)
    ren = {n: f"s{k}" for k, n in enumerate(names)}  # so that sorted order is unrelated to type
    bb = []
    p = rng.choice([0.3, 0.5, 0.8])
    for i, a in enumerate(pops + dns):
        for b in (pops + dns)[i + 1:]:
            if not (a in pops and b in pops) and rng.random() < p:
                bb.append([ren[a], ren[b], "WIRELESS_BACKHAUL" if rng.random() < 0.93 else "ETHERNET"])
    for i, b in enumerate(dns):
        a = rng.choice(pops + dns[:i])
        if rng.random() < 0.8 and not any({ren[a], ren[b]} == {x, y} for x, y, _ in bb):
            bb.append([ren[a], ren[b], "WIRELESS_BACKHAUL"])
    acc = [[ren[rng.choice(pops + dns)], c] for c in cns if rng.random() < 0.9]
    dem = []
    for i in range(ndem):
        con = rng.sample([ren[x] for x in pops + dns] + cns, rng.choice([1, 1, 1, 2]) if npop + ndn + ncn > 1 else 1)
        for s in con:
            dem.append([s, f"d{i}"])
    edges = [[SRC, ren[x], "SUPER"] for x in pops]
    for a, b, t in bb:
        edges += [[a, b, t], [b, a, t]]
    edges += [[a, b, "WIRELESS_ACCESS"] for a, b in acc] + [[a, b, "DEMAND"] for a, b in dem]
    rng.shuffle(edges)
    return {"edges": edges, "types": {**{ren[x]: "POP" for x in pops}, **{ren[x]: "DN" for x in dns}, **{c: "CN" for c in cns}}}


def make_graph(case):
    import networkx as nx
    from terragraph_planner.common.configuration.enums import LinkType, SiteType
    from terragraph_planner.optimization import constants as K

    G = nx.DiGraph()
    G.add_edges_from([])
    for a, b, t in case["edges"]:
        a = K.SUPERSOURCE if a == SRC else a
        lt = K.SUPERSOURCE if t == "SUPER" else K.DEMAND if t == "DEMAND" else LinkType[t]
        G.add_edge(a, b, link_type=lt, link_cost=1)
    for n in G.nodes:
        G.nodes[n]["site_type"] = K.SUPERSOURCE if n == K.SUPERSOURCE else K.DEMAND if n.startswith("d") else SiteType[case["types"][n]]
    return G


def graph_snap(G):
    return [sorted((n, str(d)) for n, d in G.nodes(data=True)), sorted((a, b, str(sorted(d.items(), key=lambda x: x[0]))) for a, b, d in G.edges(data=True))]


def served(edges, down):
    """demands with a path from the source when the links in `down` carry nothing; own search"""
    out = {}
    for a, b, t in edges:
        if (min(a, b), max(a, b)) not in down:
            out.setdefault(a, []).append(b)
    seen, todo = {SRC}, [SRC]
    while todo:
        for b in out.get(todo.pop(), []):
            if b not in seen:
                seen.add(b)
                todo.append(b)
    return {x for x in seen if x.startswith("d")}


def histories(G, avail, length, seed):
    """failure history of each backhaul link: alternating up and down times drawn in link order"""
    import numpy as np
    from terragraph_planner.common.configuration.enums import LinkType

    rng = np.random.default_rng(seed)
    up, down = avail / 100, 1.0 - avail / 100
    h = {}
    for a, b, t in G.edges(data="link_type"):
        k = (min(a, b), max(a, b))
        if t != LinkType.WIRELESS_BACKHAUL or k in h:
            continue
        h[k] = []
        cur = 0
        while cur < length:
            cur += rng.exponential(up)
            f = cur
            cur += rng.exponential(down)
            h[k].append((f, cur))
    return h


def reference(case, h, length):
    """[(t, demand shares, link shares)]: exact shares of [0, t] in which each demand is served and
    each link is up, at every failure or repair and at the end"""
    ev = sorted((x, k, d) for k, iv in h.items() for f, t in iv for x, d in ((f, 1), (t, -1)) if x < length)
    base = served(case["edges"], set())
    dem = {d: 0.0 for d in base}
    lk = {k: 0.0 for k in h}
    down, memo, out, last = {k: 0 for k in h}, {}, [], 0.0
    for x, k, d in ev + [(length, None, 0)]:
        if x > last:
            key = frozenset(q for q, n in down.items() if n)
            if key not in memo:
                memo[key] = served(case["edges"], key) & base
            for q in memo[key]:
                dem[q] += x - last
            for q in h:
                if q not in key:
                    lk[q] += x - last
            last = x
            out.append((x, {q: v / x for q, v in dem.items()}, {q: v / x for q, v in lk.items()}))
        if k is not None:
            down[k] += d
    return out


class Availability(Scenario):
    name = "availability"
    shrink = ("edges",)
    cpu_limit = 60.0

    def gen(self, rng, faulty):
        g = gen_graph(rng)
        c = {**g, "avail": rng.choice([0, 1, 20, 50, 80, 95, 99, 99.9, 100]), "length": rng.choice([0.5, 1, 3, 10, 20]),
             "rng_seed": rng.randrange(1 << 30), "tick": 0.0, "jumps": [], "limit": None}
        if c["avail"] in (0, 1, 20) and c["length"] > 10:
            c["length"] = 10
        if faulty:
            c["limit"] = rng.choice([1, 5, 30, 60])
            c["tick"] = rng.choice([0.01, 0.2, 1.0, 5.0, 100.0])
            if rng.random() < 0.4:
                c["jumps"] = [rng.choice([0.0, 0.1, -3600.0, 7200.0, 1.0]) for _ in range(rng.randint(1, 12))]
        elif rng.random() < 0.5:
            c["limit"] = 3600
        return c

    def sim(self, case, r, G):
        from terragraph_planner.optimization.topology_availability import compute_availability

        w = r.w
        w.clock.tick = case["tick"]
        w.clock.script = list(case["jumps"])
        n0 = w.clock.readings
        try:
            (av, lav), _ = r.call("compute_availability", compute_availability, G, case["avail"], case["length"], case["limit"], case["rng_seed"])
        finally:
            w.clock.tick, w.clock.script = 0.0, []
        if case["jumps"]:
            w.fault("clock_jump", len(case["jumps"]))
        if case["limit"] is not None and case["tick"]:
            w.fault("slow_clock")
        return {str(k): float(v) for k, v in av.items()}, {k: float(v) for k, v in lav.items()}, w.clock.readings - n0

    def run(self, case, r: Run):
        if not any(e[0] == SRC for e in case["edges"]):
            return
        have = {(a, b) for a, b, t in case["edges"]}
        case = dict(case, edges=[e for e in case["edges"] if e[2] not in ("WIRELESS_BACKHAUL", "ETHERNET") or (e[1], e[0]) in have])
        G = make_graph(case)
        s0 = graph_snap(G)
        av, lav, reads = self.sim(case, r, G)
        r.check(graph_snap(G) == s0, "graph-changed", "the simulated graph differs after the simulation")
        h = histories(G, case["avail"], case["length"], case["rng_seed"])
        base = served(case["edges"], set())
        r.check(set(av) == base, "demands", lambda: f"availability of {sorted(av)}, connected demands are {sorted(base)}")
        r.check(set(lav) == set(h), "links", lambda: f"availability of links {sorted(lav)}, backhaul links are {sorted(h)}")
        for k, v in list(av.items()) + list(lav.items()):
            r.check(-1e-9 <= v <= 1 + 1e-9 and math.isfinite(v), "out-of-range", lambda: f"{k}: {v}")
        ref = reference(case, h, case["length"])
        _, full_d, full_l = ref[-1]
        direct = {b for a, b, t in case["edges"] if t == "DEMAND" and any(e[0] == SRC and e[1] == a for e in case["edges"])}
        for d in direct & base:
            r.check(abs(av[d] - 1) < 1e-9, "pop-demand", lambda: f"{d} hangs on a POP but has availability {av[d]}")

        def same(a, b):
            return all(abs(a[k] - b[k]) < 1e-7 for k in a)

        if same(av, full_d) and same(lav, full_l):
            r.note("whole horizon")
        else:
            r.check(case["limit"] is not None and case["tick"] * 1.0 + sum(map(abs, case["jumps"])) > 0, "not-exact",
                    lambda: f"availability {worst(av, full_d)} links {worst(lav, full_l)}")
            hit = [t for t, q, l in ref if same(av, q) and same(lav, l)]
            r.check(hit, "not-exact-when-stopped",
                    lambda: f"stopped by the time limit, but the result is not the availability over any simulated prefix: {sorted(av.items())[:3]} "
                            f"{sorted((str(k), v) for k, v in lav.items())[:3]}")
            r.note("stopped early")
            r.w.fault("time_limit_hit")
            r.note("events before the limit", sum(1 for t, _, _ in ref if t <= hit[-1]))
        # the run cannot go on long after its limit
        if case["limit"] is not None and case["tick"] and not case["jumps"]:
            r.check(reads * case["tick"] <= case["limit"] + 60 * case["tick"] + 1, "time-limit-ignored",
                    lambda: f"limit {case['limit']} s, the simulation took {reads * case['tick']:.1f} s of simulated time")
        # same seed, same history, whatever the clock does
        again = dict(case, tick=0.0, jumps=[], limit=None)
        av2, lav2, _ = self.sim(again, r, make_graph(case))
        r.check(same(av2, full_d) and same(lav2, full_l), "not-exact", lambda: f"without time limit: {worst(av2, full_d)} links {worst(lav2, full_l)}")
        r.nontrivial = any(1e-9 < v < 1 - 1e-9 for v in av.values())
        r.state(sorted(av.items()))
        for iv in h.values():
            r.state(len(iv))
        r.w.sim_steps += sum(2 * len(iv) for iv in h.values())
        r.see(sorted(av.items()), sorted((str(k), v) for k, v in lav.items()))


def worst(a, b):
    k = max(a, key=lambda x: abs(a[x] - b[x]), default=None)
    return k and f"{k}: {a[k]:.6f}, recomputed {b[k]:.6f}"


register("C11", Availability())
