"""C08: what planning does when steps of it fail."""
from __future__ import annotations

import copy
import random
import re

from ..scenario import Run, Scenario, register
from .opt import ACTIVE, OptScenario, build, check_internal, diff, gen_network, gen_params, make_params, run_steps, snap

MANDATORY = {"MinCostNetwork", "MinInterferenceNetwork"}
OPTIONAL = {"POPProposalNetwork", "RedundantNetwork", "MaxCoverageNetwork"}
FAIL = ["timeout_nosol", "infeasible", "numerical"]
SERVE = {"MinCostNetwork", "MaxCoverageNetwork", "MinInterferenceNetwork"}
LEVELS = 6  # 100 % .. 50 % in steps of 10 %
TIMED = re.compile(r"tim(e|ed)[- ]?out|time limit|maximum (run ?)?time", re.I)


class Steps:
    """answers solves by (model, how many-eth solve of that model) and records what was asked"""

    def __init__(self, r, T, P, case, seed):
        self.r, self.T, self.P, self.seed = r, T, P, seed
        self.plan = {(k, n): a for k, n, a in case["plan"]}
        self.count = {}
        self.log = []   # (step key, answer)
        self.after_min_cost = None
        self.first_level = None

    def __call__(self, idx, p):
        name = p.name
        n = self.count.get(name, 0)
        self.count[name] = n + 1
        key = name
        if self.P.maximize_common_bandwidth and name in SERVE:
            if n == 0:
                key = name + ":demand"
            else:
                n -= 1
        a = self.plan.get((key, n), self.plan.get((key, -1), "optimal"))
        self.r.w.solver.rng = random.Random(f"{self.seed}/{key}/{n}")
        self.log.append((key, a))
        if key == "MinCostNetwork" and self.first_level is None:
            self.first_level = lowest_skip(self.T, self.P)
        if name not in ("MinCostNetwork", "POPProposalNetwork") and self.after_min_cost is None:
            self.after_min_cost = {k: s.status_type.name for k, s in self.T.sites.items()}
        return a

    def results(self):
        """[(key, answer as it came out)]: an optimal request on an infeasible model is a failure too"""
        out = []
        solves = self.r.w.solver.solves[self.base:]
        for (key, a), s in zip(self.log, solves):
            out.append((key, s.answer))
        return out


def failed(ans):
    return ans in FAIL or "/" in ans


def settings(P):
    return {k: repr(v) if not isinstance(v, (list, tuple)) else [repr(vars(x)) if hasattr(x, "__dict__") else repr(x) for x in v]
            for k, v in sorted(vars(P).items()) if k != "ignore_polarities"}


class Degrade(OptScenario):
    """run with failing steps, compared with a run in which the failing optional steps were not requested"""
    name = "failing-steps"
    shrink = ("edges", "plan")

    def gen(self, rng, faulty):
        net = gen_network(rng, fixed=rng.random() < 0.4)
        P = gen_params(rng)
        P["maximize_common_bandwidth"] = rng.random() < 0.15
        if rng.random() < 0.35:
            P["number_of_extra_pops"] = rng.choice([1, 2])
        if P["redundancy_level"] == "NONE" and not P["enable_legacy_redundancy_method"]:
            P["redundancy_level"] = rng.choice(["LOW", "MEDIUM", "HIGH"])
        if P["enable_legacy_redundancy_method"] and rng.random() < 0.6:
            P["budget"] = 300000.0
        plan = []
        if faulty or rng.random() < 0.7:
            for _ in range(rng.choice([1, 1, 2, 3])):
                u = rng.random()
                a = rng.choice(FAIL)
                if u < 0.3:
                    k = rng.choice(["RedundantNetwork", "MaxCoverageNetwork"]
                                   ) if rng.random() < 0.3 else "MaxCoverageNetwork" if P["enable_legacy_redundancy_method"] else "RedundantNetwork"
                    plan.append([k, rng.choice([0, 1]) if k == "RedundantNetwork" else 0, a])
                elif u < 0.45:
                    plan.append(["POPProposalNetwork", 0, a])
                elif u < 0.75:
                    m = rng.choice([1, 1, 2, 3, 4, 5, 6])
                    for n in range(m):
                        plan.append(["MinCostNetwork", n, rng.choice(FAIL)])
                elif u < 0.87:
                    plan.append(["MinInterferenceNetwork", 0, a])
                else:
                    plan.append([rng.choice(sorted(MANDATORY | OPTIONAL)), rng.choice([0, 0, 1]), rng.choice(["incumbent", "timeout_incumbent", "slop"])])
        seen, out = set(), []
        for k, n, a in plan:
            if (k, n) not in seen:
                seen.add((k, n))
                out.append([k, n, a])
        return {**net, "params": P, "plan": out, "debug": False}

    def once(self, case, r, params, plan, tag):
        T = build(case)
        P = make_params(params)
        st = Steps(r, T, P, {"plan": plan}, case["seed"])
        st.base = len(r.w.solver.solves)
        r.w.solver.plan = st
        before = settings(P)
        step, err = run_steps(r, T, P)
        after = settings(P)
        r.check(before == after, "settings-changed", lambda: f"{tag}: after {step or 'planning'} the caller's settings differ: {diff(before, after)}")
        check_internal(r, step, err)
        return T, P, st, step, err

    def run(self, case, r: Run):
        T, P, st, step, err = self.once(case, r, case["params"], case["plan"], "run")
        res = st.results()
        by = {}
        for k, a in res:
            by.setdefault(k, []).append(a)
        out = snap(T) if err is None else [step, type(err).__name__]
        mc = by.get("MinCostNetwork", [])
        # coverage is lowered one level per failure, never after a success
        # (an answer in which nothing flows is no answer; it can only happen with the common-bandwidth objective)
        for a in mc[:-1] if not P.maximize_common_bandwidth else ():
            r.check(failed(a), "re-solved-after-success", lambda: f"cost step solved {len(mc)} times with answers {mc}")
        if mc and step in (None, "optimize"):
            if not failed(mc[-1]):
                level = 1.0 - 0.1 * (len(mc) - 1 + (st.first_level or 0))
                r.note(f"coverage level {level:.1f}")
                if st.first_level is not None and st.after_min_cost is not None and not P.maximize_common_bandwidth:
                    tot = got = 0.0
                    for d in T.demand_sites.values():
                        w = (d.demand or 0) * d.num_sites
                        tot += w
                        if any(st.after_min_cost.get(s.site_id) in ACTIVE for s in d.connected_sites):
                            got += w
                    r.check(got >= level * tot - 1e-6, "coverage-below-level",
                            lambda: f"cost step accepted at {level:.1f} but only {got:.3f} of {tot:.3f} demand has an active site")
            elif err is not None:
                if st.first_level is not None:
                    r.check(len(mc) == LEVELS - st.first_level, "gave-up-early",
                            lambda: f"cost step failed after {len(mc)} of {LEVELS - st.first_level} possible coverage levels: {mc}")
            if failed(mc[-1]):
                r.check(err is not None and type(err).__name__ == "OptimizerException", "mandatory-failure-ignored",
                        lambda: f"every cost solve failed ({mc}) but planning ended with {err!r}")
                t = mc[-1] == "timeout_nosol" or mc[-1].endswith("/timelimit")
                r.check(bool(TIMED.search(str(err))) == t, "wrong-reason",
                        lambda: f"last cost answer {mc[-1]}, error: {str(err)[:120]}")
                r.note("cost step failed")
        mi = by.get("MinInterferenceNetwork", [])
        if mi and failed(mi[-1]):
            r.check(err is not None and type(err).__name__ == "OptimizerException", "mandatory-failure-ignored",
                    lambda: f"the interference solve failed ({mi}) but planning ended with {err!r}")
            t = mi[-1] == "timeout_nosol" or mi[-1].endswith("/timelimit")
            r.check(bool(TIMED.search(str(err))) == t, "wrong-reason", lambda: f"interference answer {mi[-1]}, error: {str(err)[:120]}")
            r.note("interference step failed")
        # the twin: failing optional steps never requested
        p2, plan2 = dict(case["params"]), [x for x in case["plan"]]
        dropped = []
        if any(failed(a) for a in by.get("POPProposalNetwork", [])):
            p2["number_of_extra_pops"] = 0
            dropped.append("POPProposalNetwork")
        red = by.get("RedundantNetwork", []) + by.get("MaxCoverageNetwork", [])
        if any(failed(a) for a in red):
            p2["enable_legacy_redundancy_method"] = False
            p2["redundancy_level"] = "NONE"
            dropped.append("redundancy")
        if dropped and step != "pre-check":
            if "POPProposalNetwork" in dropped:
                pops = [s for s in case["sites"] if s["t"] == "POP"]
                if not pops:
                    dropped = []
        if dropped:
            T2, P2, st2, step2, err2 = self.once(case, r, p2, plan2, "twin")
            if err is None or err2 is None:
                r.check((err is None) == (err2 is None), "optional-failure-fatal",
                        lambda: f"{dropped} failed: planning ended with {err!r}; not requesting them: {err2!r}")
                a, b = snap(T), snap(T2)
                for k in a:
                    r.check(a[k] == b[k], f"optional-failure-changed-plan:{k}",
                            lambda: f"{dropped} failed; {k} differ from a plan without them: {diff(a[k], b[k])}")
            else:
                r.check(type(err) is type(err2), "optional-failure-changed-error", lambda: f"{err!r} vs {err2!r}")
            r.note("optional step failed")
        # budget: extra coverage never spends more than the user allows
        if err is None and not dropped and P.enable_legacy_redundancy_method and by.get("MaxCoverageNetwork"):
            spent = capex(T, P)
            base = capex_sites(T, P, st.after_min_cost or {})
            r.check(spent <= max(P.budget, base) + 1e-6, "over-budget", lambda: f"plan costs {spent}, budget {P.budget}, minimum network {base}")
            r.note("budget checked")
        r.nontrivial = bool(dropped) or any(failed(a) for a in mc + mi)
        for k, a in res:
            r.state(k, a)
        r.state(res)
        r.see(res, out)


def lowest_skip(T, P):
    """how many coverage levels the POPs cannot carry; None when too close to tell"""
    ok = ACTIVE | {"CANDIDATE"}
    direct = {s.site_id for d in T.demand_sites.values() for s in d.connected_sites}
    cap = 0.0
    for s in T.sites.values():
        if s.site_type.name != "POP":
            continue
        best = {}
        for l in T.links.values():
            if l.tx_site is s and l.status_type.name in ok and l.rx_site.status_type.name in ok and s.status_type.name in ok and l.tx_sector is not None:
                best[l.tx_sector.sector_id] = max(best.get(l.tx_sector.sector_id, 0.0), l.capacity)
        if s.site_id in direct and s.status_type.name in ok:
            cap += P.pop_capacity
        else:
            cap += min(P.pop_capacity, sum(best.values()))
    want = sum((d.demand or 0) * d.num_sites for d in T.demand_sites.values()) / P.oversubscription
    n = 0
    for i in range(LEVELS):
        need = (1.0 - 0.1 * i) * want
        if abs(cap - need) < 1e-6:
            return None
        if cap < need:
            n += 1
    return n


def capex(T, P):
    site = {"POP": P.pop_site_capex, "DN": P.dn_site_capex, "CN": P.cn_site_capex}
    tot = 0.0
    for s in T.sites.values():
        if s.status_type.name != "PROPOSED":
            continue
        nodes = {q.node_id for q in T.sectors.values() if q.site is s and q.status_type.name in ACTIVE}
        tot += site[s.site_type.name] + s.device.node_capex * len(nodes)
    return tot


def capex_sites(T, P, status):
    """cost of the minimum network: every sector of its chosen sites (upper bound)"""
    site = {"POP": P.pop_site_capex, "DN": P.dn_site_capex, "CN": P.cn_site_capex}
    tot = 0.0
    for s in T.sites.values():
        if status.get(s.site_id) == "PROPOSED":
            tot += site[s.site_type.name] + s.device.node_capex * s.device.number_of_nodes_per_site
    return tot


register("C08", Degrade())
