"""C04: the network model against a reference model over random edit histories."""
from __future__ import annotations

from .. import gen
from ..scenario import Run, Scenario, register

ST = gen.STATUSES
ACTIVE = {"PROPOSED", "EXISTING"}
FROZEN = {"EXISTING", "UNAVAILABLE"}


def link_ok(st, a, b):
    """May a link have status st between sites of status a and b?"""
    s = {a, b}
    if st == "EXISTING" and s != {"EXISTING"}:
        return False
    if "UNAVAILABLE" in s and st != "UNAVAILABLE":
        return False
    if "UNREACHABLE" in s and st not in ("UNREACHABLE", "UNAVAILABLE"):
        return False
    if "CANDIDATE" in s and st in ACTIVE:
        return False
    return True


def sector_ok(st, site):
    if site in ACTIVE:
        return st in ("CANDIDATE", "PROPOSED", "EXISTING")
    return st == site


class EditHistory(Scenario):
    name = "edit_history"
    shrink = ("ops",)
    cpu_limit = 30.0

    def gen(self, rng, faulty):
        n = rng.randint(3, 8)
        sites = gen.gen_sites(rng, n, W=300, pops=rng.choice([1, 2]), cns=0.3, statuses=ST, zs=(10.0, 25.0, None))
        for s in sites:
            if s["t"] != "CN" and rng.random() < 0.5:
                s["dev"] = rng.choice(["DN1", "DN2", "DN4"])
            if rng.random() < 0.2:
                o = rng.choice(sites)
                if all(q is s or (q["x"], q["y"], q["t"]) != (o["x"], o["y"], s["t"]) for q in sites):
                    s.update(x=o["x"], y=o["y"], z=o["z"])
        ops = []
        kinds = ["add_site"] * 4 + ["add_link"] * 5 + ["add_sector"] * 4 + ["add_demand", "rm_demand", "sort", "attach"] + [
            "rm_site", "rm_link", "rm_sector", "site_status", "site_status", "link_status", "link_status", "sector_status",
            "add_link_ids", "bad"]
        for i in range(n):
            if rng.random() < 0.8:
                ops.append(["add_site", i, 0, "CANDIDATE", 0, 0, True])
        rng.shuffle(ops)
        for _ in range(rng.randint(8, 60)):
            k = rng.choice(kinds)
            i, j = rng.randrange(n), rng.randrange(n)
            st = rng.choice(ST)
            if k.startswith("add_link") and rng.random() < 0.7:
                st = gen.link_status(rng, sites[i]["st"], sites[j]["st"])
            ops.append([k, i, j, st, rng.randrange(3), rng.randrange(2), rng.random() < 0.8])
        return {"sites": sites, "ops": ops}

    def run(self, case, r: Run):
        from terragraph_planner.common.configuration.enums import LinkType, SiteType, StatusType
        from terragraph_planner.common.exceptions import PlannerException
        from terragraph_planner.common.topology_models.demand_site import DemandSite
        from terragraph_planner.common.topology_models.link import Link
        from terragraph_planner.common.topology_models.sector import Sector
        from terragraph_planner.common.topology_models.topology import Topology

        T = Topology()
        specs = case["sites"]
        n = len(specs)
        objs = [None] * n  # site objects, rebuilt each time a site is (re)added
        M = {"sites": {}, "links": {}, "sectors": {}, "demands": {}}
        rejected = 0
        applied = 0

        def site_of(i):
            if objs[i] is None:
                objs[i] = gen.make_site(specs[i])
            return objs[i]

        def attempt(what, fn, legal):
            nonlocal rejected, applied
            res, err = r.call(what, fn, allow=(PlannerException,))
            if legal:
                r.check(err is None, "legal-edit-rejected", lambda: f"{what}: {err!r}")
                applied += 1
            else:
                r.check(err is not None, "illegal-edit-accepted", lambda: what)
                rejected += 1
                r.w.fault("rejected_edit")
            return res, err is None

        for op in case["ops"]:
            k, i, j, st, q, pos, wl = op
            i, j = i % n, j % n
            si = site_of(i).site_id
            sj = site_of(j).site_id
            what = f"{k} {op[1:]}"
            if k == "add_site":
                _, ok = attempt(what, lambda: T.add_site(site_of(i)), si not in M["sites"])
                if ok:
                    M["sites"][si] = {"i": i, "st": site_of(i).status_type.name, "t": specs[i]["t"]}
            elif k == "rm_site":
                _, ok = attempt(what, lambda: T.remove_site(si), si in M["sites"])
                if ok:
                    del M["sites"][si]
                    objs[i] = None
                    for l in [x for x, v in M["links"].items() if si in v["ends"]]:
                        del M["links"][l]
                    gone = {x for x, v in M["sectors"].items() if v["site"] == si}
                    for x in gone:
                        del M["sectors"][x]
            elif k in ("add_link", "add_link_ids"):
                if i == j:
                    continue
                a, b = site_of(i), site_of(j)
                sa = [x for x, v in M["sectors"].items() if v["site"] == si]
                sb = [x for x, v in M["sectors"].items() if v["site"] == sj]
                secs = (sorted(sa)[q % len(sa)], sorted(sb)[q % len(sb)]) if sa and sb and wl and pos else None
                legal = (si in M["sites"] and sj in M["sites"] and specs[i]["t"] != "CN"
                         and link_ok(st, a.status_type.name, b.status_type.name))
                if k == "add_link_ids":
                    secs = None
                    fn = lambda: T.add_link_from_site_ids(si, sj, status_type=StatusType[st], is_wireless=wl)
                else:
                    fn = lambda: T.add_link(Link(
                        tx_site=a, rx_site=b, tx_sector=T.sectors[secs[0]] if secs else None,
                        rx_sector=T.sectors[secs[1]] if secs else None, status_type=StatusType[st], is_wireless=wl))
                _, ok = attempt(what, fn, legal)
                if ok:
                    M["links"][f"{si}-{sj}"] = {"ends": (si, sj), "st": st, "wl": wl, "sec": secs}
            elif k == "rm_link":
                lid = f"{si}-{sj}"
                _, ok = attempt(what, lambda: T.remove_link(lid), lid in M["links"])
                if ok:
                    del M["links"][lid]
            elif k == "add_sector":
                sst = site_of(i).status_type.name
                legal0 = sector_ok(st, sst)
                if not legal0 and wl:
                    st = sst if sst not in ACTIVE else "CANDIDATE"
                    legal0 = True
                sid = f"{si}-{q}-{pos}-{'CN' if specs[i]['t'] == 'CN' else 'DN'}"
                _, ok = attempt(what, lambda: T.add_sector(Sector(site_of(i), q, pos, 10.0 * q, StatusType[st])),
                                legal0 and si in M["sites"] and sid not in M["sectors"])
                if ok:
                    M["sectors"][sid] = {"site": si, "st": st}
            elif k == "rm_sector":
                own = sorted(x for x, v in M["sectors"].items() if v["site"] == si)
                sid = own[q % len(own)] if own else f"{si}-0-0-DN"
                _, ok = attempt(what, lambda: T.remove_sector(sid), sid in M["sectors"])
                if ok:
                    del M["sectors"][sid]
                    for v in M["links"].values():
                        if v["sec"] and sid in v["sec"]:
                            v["sec"] = None
            elif k in ("add_demand", "attach"):
                conn = [site_of(i)] + ([site_of(j)] if i != j else [])
                d = DemandSite(gen.loc(q * 50, pos * 50), num_sites=len(conn), demand=1.0 + q, connected_sites=conn)
                attempt(what, lambda: T.add_demand_site(d), True)
                M["demands"][d.demand_id] = [c.site_id for c in conn]
            elif k == "rm_demand":
                d = DemandSite(gen.loc(q * 50, pos * 50))
                _, ok = attempt(what, lambda: T.remove_demand_site(d.demand_id), d.demand_id in M["demands"])
                if ok:
                    del M["demands"][d.demand_id]
            elif k == "site_status":
                cur = site_of(i).status_type.name
                _, ok = attempt(what, lambda: setattr(site_of(i), "status_type", StatusType[st]),
                                not ({cur, st} & FROZEN))
                if ok and si in M["sites"]:
                    M["sites"][si]["st"] = st
            elif k == "link_status":
                lid = f"{si}-{sj}"
                if lid not in M["links"]:
                    continue
                cur = M["links"][lid]["st"]
                l = T.links[lid]
                legal = not ({cur, st} & FROZEN) and link_ok(st, l.tx_site.status_type.name, l.rx_site.status_type.name)
                _, ok = attempt(what, lambda: setattr(l, "status_type", StatusType[st]), legal)
                if ok:
                    M["links"][lid]["st"] = st
            elif k == "sector_status":
                own = sorted(x for x, v in M["sectors"].items() if v["site"] == si)
                if not own:
                    continue
                sid = own[q % len(own)]
                cur = M["sectors"][sid]["st"]
                legal = not ({cur, st} & FROZEN) and sector_ok(st, T.sectors[sid].site.status_type.name)
                _, ok = attempt(what, lambda: setattr(T.sectors[sid], "status_type", StatusType[st]), legal)
                if ok:
                    M["sectors"][sid]["st"] = st
            elif k == "sort":
                r.call("sort", T.sort)
                for part in (T.sites, T.links, T.sectors, T.demand_sites):
                    r.check(list(part) == sorted(part), "not-sorted", list(part))
                for d in T.demand_sites.values():
                    ids = [s.site_id for s in d.connected_sites]
                    r.check(ids == sorted(ids), "demand-not-sorted", ids)
            elif k == "bad":
                attempt("half a sector pair", lambda: Link(
                    tx_site=site_of(i), rx_site=site_of(j), tx_sector=Sector(
                        site_of(i), 0, 0, 0.0, StatusType[_first_ok(site_of(i).status_type.name)])), False)
            self.audit(r, T, M, StatusType, SiteType, LinkType)
            r.state(sorted(M["sites"]), sorted(M["links"]), sorted(M["sectors"]), len(M["demands"]))
        r.see(sorted(T.sites), sorted(T.links), sorted(T.sectors))
        r.nontrivial = applied >= 5 and rejected >= 1 and len(M["links"]) > 0
        r.note("applied", applied)
        r.note("rejected", rejected)

    def audit(self, r, T, M, StatusType, SiteType, LinkType):
        eq = lambda a, b, kind: r.check(a == b, kind, lambda: f"got {a!r} want {b!r}")
        eq(set(T.sites), set(M["sites"]), "site-set")
        eq(set(T.links), set(M["links"]), "link-set")
        eq(set(T.sectors), set(M["sectors"]), "sector-set")
        eq(set(T.demand_sites), set(M["demands"]), "demand-set")
        for x, v in M["sites"].items():
            eq(T.sites[x].status_type.name, v["st"], "site-status")
        for x, v in M["links"].items():
            l = T.links[x]
            eq((l.tx_site.site_id, l.rx_site.site_id), v["ends"], "link-ends")
            r.check(l.tx_site is T.sites[v["ends"][0]] and l.rx_site is T.sites[v["ends"][1]], "link-dangling",
                    "link refers to a site object that is not in the network")
            eq(l.status_type.name, v["st"], "link-status")
            eq(l.is_wireless, v["wl"], "link-kind")
            sec = (l.tx_sector.sector_id, l.rx_sector.sector_id) if l.tx_sector and l.rx_sector else None
            r.check((l.tx_sector is None) == (l.rx_sector is None), "half-sectored-link", x)
            # a removed site's sectors may still be named by no link
            eq(sec, tuple(v["sec"]) if v["sec"] else None, "link-sectors")
            if sec:
                r.check(all(q in T.sectors for q in sec), "link-names-removed-sector", f"{x} {sec}")
        for x, v in M["sectors"].items():
            eq(T.sectors[x].status_type.name, v["st"], "sector-status")
        own = {}
        for x, v in M["sectors"].items():
            own.setdefault(v["site"], set()).add(x)
        eq({k: set(v) for k, v in T.site_id_to_sector_ids.items() if v}, own, "sectors-by-site")
        fw, bw, sfw, sbw = {}, {}, {}, {}
        for x, v in M["links"].items():
            a, b = v["ends"]
            fw.setdefault(a, {})[b] = x
            bw.setdefault(b, {})[a] = x
            if v["sec"]:
                sfw.setdefault(v["sec"][0], {})[v["sec"][1]] = x
                sbw.setdefault(v["sec"][1], {})[v["sec"][0]] = x
        clean = lambda d: {k: dict(v) for k, v in d.items() if v}
        eq(clean(T.site_connectivity), fw, "connectivity")
        eq(clean(T.site_connectivity_reverse), bw, "reverse-connectivity")
        eq(clean(T.sector_connectivity), sfw, "sector-connectivity")
        eq(clean(T.sector_connectivity_reverse), sbw, "sector-reverse-connectivity")
        ids = lambda ss: sorted(s.site_id for s in ss)
        for x in M["sites"]:
            s = T.sites[x]
            eq(ids(T.get_successor_sites(s)), sorted(fw.get(x, {})), "successors")
            eq(ids(T.get_predecessor_sites(s)), sorted(bw.get(x, {})), "predecessors")
            eq(ids(T.get_wireless_successor_sites(s)),
               sorted(b for b, l in fw.get(x, {}).items() if M["links"][l]["wl"]), "wireless-successors")
            eq(ids(T.get_wireless_predecessor_sites(s)),
               sorted(b for b, l in bw.get(x, {}).items() if M["links"][l]["wl"]), "wireless-predecessors")
        for x, v in M["links"].items():
            a, b = v["ends"]
            r.check(T.get_link_by_site_ids(a, b) is T.links[x], "link-lookup", x)
            rv = T.get_reverse_link(T.links[x])
            eq(rv.link_id if rv else None, f"{b}-{a}" if f"{b}-{a}" in M["links"] else None, "reverse-link")
        groups = {}
        for x in M["sites"]:
            s = T.sites[x]
            groups.setdefault((s.longitude, s.latitude, s.altitude), []).append(x)
        eq(sorted(sorted(v) for v in T.get_colocated_sites().values()), sorted(sorted(v) for v in groups.values()), "colocated")
        for st in gen.STATUSES:
            f = {StatusType[st]}
            eq(T.get_site_ids(status_filter=f), {x for x, v in M["sites"].items() if v["st"] == st}, "sites-by-status")
            eq(T.get_link_site_id_pairs(status_filter=f), {v["ends"] for v in M["links"].values() if v["st"] == st},
               "links-by-status")
            want = {}
            for x, v in M["sectors"].items():
                if v["st"] == st:
                    want.setdefault(v["site"], set()).add(x)
            eq(T.get_sector_ids(f), want, "sectors-by-status")
        eq(T.get_site_ids(site_type_filter={SiteType.POP, SiteType.DN}),
           {x for x, v in M["sites"].items() if v["t"] != "CN"}, "sites-by-type")
        eq(T.get_link_site_id_pairs(link_type_filter={LinkType.ETHERNET}),
           {v["ends"] for v in M["links"].values() if not v["wl"]}, "links-by-type")
        eq(T.get_sectorless_links(), {v["ends"] for v in M["links"].values() if v["wl"] and not v["sec"]}, "sectorless")


def _first_ok(site_status):
    return "CANDIDATE" if site_status in ACTIVE else site_status


register("C04", EditHistory())
