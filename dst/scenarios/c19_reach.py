"""C19: reachability against own search, over edit histories and inside planning."""
from __future__ import annotations

import random

from .. import gen
from ..scenario import Run, Scenario, register
from .opt import OptScenario, build, install_plan, make_params, run_steps

ACTIVE = {"PROPOSED", "EXISTING"}
REACHABLE = ACTIVE | {"CANDIDATE"}
FROZEN = {"EXISTING", "UNAVAILABLE"}


class Mirror:
    """plain copy of the network: site -> [type, status], link -> [a, b, status]"""

    def __init__(self):
        self.sites, self.links, self.sectors = {}, {}, {}

    def hops(self, ok, no_sites=frozenset(), no_links=frozenset()):
        h = {k: 0 for k, (t, st) in self.sites.items() if t == "POP" and st in ok and k not in no_sites}
        level, n = set(h), 0
        while level:
            n += 1
            new = {b for a, b, st in self.links.values() if a in level and b not in h and st in ok and self.sites[b][1] in ok
                   and b not in no_sites and (a, b) not in no_links}
            for b in new:
                h[b] = n
            level = new
        return h

    def mark(self, limit):
        h = self.hops(REACHABLE)
        hit = [k for k, (t, st) in self.sites.items() if st == "CANDIDATE" and (k not in h or (limit and h[k] > limit))]
        for k in hit:
            self.sites[k][1] = "UNREACHABLE"
        for l in self.links.values():
            if (l[0] in hit or l[1] in hit) and l[2] not in FROZEN:
                l[2] = "UNREACHABLE"
        for q in self.sectors.values():
            if self.sites[q[0]][1] == "UNREACHABLE":
                q[1] = "UNREACHABLE"
        return hit


class History(Scenario):
    name = "marking-history"
    shrink = ("ops", "links0")
    cpu_limit = 30.0

    def gen(self, rng, faulty):
        n = rng.randint(4, 10)
        sites = gen.gen_sites(rng, n, W=300, pops=rng.choice([0, 1, 1, 2]), cns=0.25,
                              statuses=("CANDIDATE", "CANDIDATE", "CANDIDATE", "EXISTING", "PROPOSED", "UNAVAILABLE"))
        links = [[i, j, gen.link_status(rng, sites[i]["st"], sites[j]["st"]), rng.random() < 0.9]
                 for i in range(n) for j in range(i + 1, n)
                 if not (sites[i]["t"] == sites[j]["t"] == "CN") and not (sites[i]["t"] == sites[j]["t"] == "POP")
                 and rng.random() < rng.choice([0.2, 0.35, 0.6])]
        ops = []
        for _ in range(rng.randint(2, 14)):
            k = rng.choice(["mark", "mark", "mark", "rm_link", "add_link", "release", "rm_site", "hops", "demands", "occupy", "prep"])
            ops.append([k, rng.randrange(n), rng.randrange(n), rng.choice([None, None, 1, 2, 3, 15]), rng.randrange(4)])
        ops.append(["mark", 0, 0, rng.choice([None, 1, 2, 15]), 0])
        dem = [[rng.randint(0, 300), rng.randint(0, 300), rng.sample(range(n), rng.choice([1, 2]))] for _ in range(rng.randint(0, 4))]
        return {"sites": sites, "links0": links, "ops": ops, "demands": dem, "sectors": [rng.random() < 0.7 for _ in range(n)]}

    def run(self, case, r: Run):
        from terragraph_planner.common.configuration.enums import StatusType
        from terragraph_planner.common.exceptions import PlannerException
        from terragraph_planner.common.topology_models.link import Link
        from terragraph_planner.optimization import topology_operations as TO

        links = []
        for i, j, st, both in case["links0"]:
            a, b = case["sites"][i], case["sites"][j]
            if a["t"] != "CN":
                links.append([i, j, st, 1, None])
            if b["t"] != "CN" and (both or a["t"] == "CN"):
                links.append([j, i, st, 1, None])
        sec = [[i, "0", 0, 0.0, s["st"] if s["st"] in ("UNAVAILABLE", "EXISTING", "PROPOSED") else "CANDIDATE"]
               for i, s in enumerate(case["sites"]) if case["sectors"][i]]
        T, ss = gen.make_topology({"sites": case["sites"], "links": links, "sectors": sec,
                                   "demands": [[d[0], d[1], 1, 0.1, d[2]] for d in case["demands"]]})
        M = Mirror()
        ids = [s.site_id for s in ss]
        for s in T.sites.values():
            M.sites[s.site_id] = [s.site_type.name, s.status_type.name]
        for l in T.links.values():
            M.links[l.link_id] = [l.tx_site.site_id, l.rx_site.site_id, l.status_type.name]
        for q in T.sectors.values():
            M.sectors[q.sector_id] = [q.site.site_id, q.status_type.name]
        dem = {k: [s.site_id for s in d.connected_sites] for k, d in T.demand_sites.items()}
        nm = {s.site_id: s.name for s in ss}
        marked = 0

        def compare(when):
            for what, mine, theirs in (
                    ("site", {k: v[1] for k, v in M.sites.items()}, {k: v.status_type.name for k, v in T.sites.items()}),
                    ("link", {k: v[2] for k, v in M.links.items()}, {k: v.status_type.name for k, v in T.links.items()}),
                    ("sector", {k: v[1] for k, v in M.sectors.items()}, {k: v.status_type.name for k, v in T.sectors.items()})):
                bad = [k for k in mine if theirs.get(k) != mine[k]]
                r.check(not bad and len(mine) == len(theirs), f"marking-{what}",
                        lambda: f"{when}: {what} {nm.get(bad[0], bad[0]) if bad else '?'} is {theirs.get(bad[0]) if bad else len(theirs)}, "
                                f"own search says {mine[bad[0]] if bad else len(mine)}")

        for k, i, j, lim, z in case["ops"]:
            a, b = ids[i % len(ids)], ids[j % len(ids)]
            if k == "mark":
                r.call("mark_unreachable_components", TO.mark_unreachable_components, T, lim)
                hit = M.mark(lim)
                marked += len(hit)
                compare(f"marking with at most {lim} hops")
                r.call("mark_unreachable_components", TO.mark_unreachable_components, T, lim)
                compare("marking twice")
                r.w.sim_steps += 1
            elif k == "rm_link":
                key = sorted(M.links)[z % len(M.links)] if M.links else None
                if key:
                    T.remove_link(key)
                    del M.links[key]
            elif k == "add_link":
                if a == b or a not in M.sites or b not in M.sites or any(v[:2] == [a, b] for v in M.links.values()):
                    continue
                st = {M.sites[a][1], M.sites[b][1]}
                st = "UNAVAILABLE" if "UNAVAILABLE" in st else "UNREACHABLE" if "UNREACHABLE" in st else "CANDIDATE"
                if M.sites[a][0] == "CN" or M.sites[a][0] == M.sites[b][0] == "POP":
                    continue
                l = Link(T.sites[a], T.sites[b], status_type=StatusType[st])
                _, err = r.call("add_link", T.add_link, l, allow=(PlannerException,))
                if err is None:
                    M.links[l.link_id] = [a, b, st]
            elif k == "release":
                # unreachable parts are offered to planning again
                for s in sorted(M.sites):
                    if M.sites[s][1] == "UNREACHABLE":
                        T.sites[s].status_type = StatusType.CANDIDATE
                        M.sites[s][1] = "CANDIDATE"
                for lk, l in sorted(M.links.items()):
                    if l[2] == "UNREACHABLE":
                        T.links[lk].status_type = StatusType.CANDIDATE
                        l[2] = "CANDIDATE"
                for qk, q in sorted(M.sectors.items()):
                    if q[1] == "UNREACHABLE":
                        T.sectors[qk].status_type = StatusType.CANDIDATE
                        q[1] = "CANDIDATE"
            elif k == "occupy":
                if M.sites.get(a, [0, ""])[1] == "CANDIDATE":
                    T.sites[a].status_type = StatusType.PROPOSED
                    M.sites[a][1] = "PROPOSED"
            elif k == "rm_site" and z == 0:
                if a in M.sites and len(M.sites) > 2 and not any(a in v for v in dem.values()):
                    T.remove_site(a)
                    del M.sites[a]
                    M.links = {x: v for x, v in M.links.items() if a not in v[:2]}
                    M.sectors = {x: v for x, v in M.sectors.items() if v[0] != a}
            elif k in ("hops", "demands"):
                ok = [ACTIVE, REACHABLE, {"CANDIDATE", "UNREACHABLE"}, REACHABLE | {"UNREACHABLE"}][z]
                flt = {StatusType[x] for x in ok}
                pick = random.Random(f"{i},{j},{lim},{z}")
                ns = {a} if lim and pick.random() < 0.6 else set()
                # single directions, or both of a pair
                nl = {tuple(v[:2]) for v in pick.sample(list(M.links.values()), min(len(M.links), lim or 0))}
                if pick.random() < 0.3:
                    nl |= {(q, p) for p, q in nl}
                want = M.hops(ok, ns, nl)
                if k == "hops":
                    got, _ = r.call("hops_from_pops", TO.hops_from_pops, T, flt, ns, nl)
                    r.check(dict(got) == want, "hops", lambda: f"hops {diffs(got, want, nm)}")
                else:
                    got, _ = r.call("get_reachable_demand_sites", TO.get_reachable_demand_sites, T, flt, ns, nl)
                    w = {d for d, c in dem.items() if any(x in want for x in c)}
                    r.check(set(got) == w, "reachable-demands", lambda: f"demands {sorted(got)} reachable, own search {sorted(w)}")
            compare(k)
            r.state(sorted(v[1] for v in M.sites.values()), k)
        r.nontrivial = marked > 0
        r.see({k: v[1] for k, v in M.sites.items()})


def diffs(a, b, nm):
    return [(nm.get(k, k), a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:3]


class InPlanning(OptScenario):
    """what planning marks and reports as unreachable, whatever the solver does"""
    name = "marking-in-planning"
    weight = 0.08
    fixed_p = 0.5

    def gen(self, rng, faulty):
        c = super().gen(rng, faulty)
        c["params"]["maximum_number_hops"] = rng.choice([1, 2, 3, 15])
        c["params"]["number_of_extra_pops"] = 0
        c["debug"] = False
        if not faulty:
            c["plan"] = [[i, "incumbent"] for i in range(12)]
        return c

    def run(self, case, r: Run):
        T = build(case)
        P = make_params(case["params"])
        install_plan(r.w, case["plan"])
        step, err = run_steps(r, T, P, upto="prepare")
        if err is not None:
            return
        M = Mirror()
        for s in T.sites.values():
            M.sites[s.site_id] = [s.site_type.name, s.status_type.name]
        for l in T.links.values():
            M.links[l.link_id] = [l.tx_site.site_id, l.rx_site.site_id, l.status_type.name]
        M.mark(P.maximum_number_hops)
        want = {k for k, v in M.sites.items() if v[1] == "UNREACHABLE"}
        d = {int(i): a for i, a in case["plan"]}

        def look(when):
            got = {k for k, s in T.sites.items() if s.status_type.name == "UNREACHABLE"}
            r.check(got == want, "planning-marks", lambda: f"{when}: unreachable {[T.sites[k].name for k in sorted(got)]}, own search "
                    f"{[T.sites[k].name for k in sorted(want)]}")

        def plan(i, p):
            look(f"at solve {i} ({p.name})")
            return d.get(i, "optimal")

        r.w.solver.plan = plan
        from .opt import run_steps_opt

        step, err = run_steps_opt(r, T, P)
        if err is None:
            look("after planning")
        r.nontrivial = bool(want) and err is None
        r.state(len(want), err is None)
        r.see(sorted(want), str(err)[:60])


register("C19", History(), InPlanning())
