"""JSON specifications of networks and the planner objects built from them."""
from __future__ import annotations

import math

EPSG = 32610
X0, Y0 = 550000, 4180000
STATUSES = ["PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE"]


def device(sku, dtype, capex=1500.0, nodes=1, sectors=None, **sp):
    from terragraph_planner.common.configuration.configs import DeviceData, SectorParams
    from terragraph_planner.common.configuration.enums import DeviceType

    p = SectorParams(**sp) if sp else SectorParams()
    kw = {}
    return DeviceData(
        device_sku=sku, device_type=DeviceType[dtype], sector_params=p, node_capex=capex,
        number_of_nodes_per_site=nodes, **kw,
    )


DEVICES = {
    "DN1": dict(dtype="DN", capex=1500.0, nodes=1),
    "DN2": dict(dtype="DN", capex=900.0, nodes=2, horizontal_scan_range=180),
    "DN4": dict(dtype="DN", capex=500.0, nodes=4, horizontal_scan_range=90),
    "DN3": dict(dtype="DN", capex=800.0, nodes=3, horizontal_scan_range=70),
    "DN22": dict(dtype="DN", capex=700.0, nodes=2, number_sectors_per_node=2, horizontal_scan_range=90),
    "DN23": dict(dtype="DN", capex=950.0, nodes=1, number_sectors_per_node=3, horizontal_scan_range=60),
    "CN1": dict(dtype="CN", capex=250.0, nodes=1),
}
# radios of shorter range, only used where a scenario asks for them
WEAK = {
    "DNW": dict(dtype="DN", capex=600.0, nodes=4, horizontal_scan_range=90, antenna_boresight_gain=24.0, maximum_tx_power=12.0),
    "CNW": dict(dtype="CN", capex=200.0, nodes=1, antenna_boresight_gain=22.0, maximum_tx_power=10.0),
}


def make_device(name):
    d = dict(DEVICES.get(name) or WEAK[name])
    return device(name, d.pop("dtype"), **d)


def loc(x, y, z=None):
    from terragraph_planner.common.geos import GeoLocation

    return GeoLocation(utm_x=X0 + x, utm_y=Y0 + y, utm_epsg=EPSG, altitude=z)


def loc_ll(lat, lon, z=None):
    from terragraph_planner.common.geos import GeoLocation

    return GeoLocation(latitude=lat, longitude=lon, altitude=z)


def make_site(s):
    """s: {t, x, y, z, st, dev?, b?, l?, n?, subs?}"""
    from terragraph_planner.common.configuration.enums import LocationType, SiteType, StatusType
    from terragraph_planner.common.topology_models.site import Site

    t = SiteType[s["t"]]
    dev = s.get("dev") or ("CN1" if s["t"] == "CN" else "DN1")
    l = s.get("l") or ("ROOFTOP" if s.get("b") is not None else "STREET_LEVEL")
    return Site(
        t, loc_ll(s["lat"], s["lon"], s.get("z")) if "lat" in s else loc(s["x"], s["y"], s.get("z")), make_device(dev),
        StatusType[s.get("st", "CANDIDATE")], LocationType[l],
        s.get("b"), s.get("n", ""), s.get("subs"),
    )


def make_topology(spec):
    """spec: {sites, links: [[i,j,status,wireless,conf]], sectors: [[i,node,pos,az,status]],
    demands: [[x,y,num,demand,[site idx]]]}; link sectors by index are not set here."""
    from terragraph_planner.common.configuration.enums import StatusType
    from terragraph_planner.common.topology_models.demand_site import DemandSite
    from terragraph_planner.common.topology_models.link import Link
    from terragraph_planner.common.topology_models.sector import Sector
    from terragraph_planner.common.topology_models.topology import Topology

    sites = [make_site(s) for s in spec["sites"]]
    links = [
        Link(sites[l[0]], sites[l[1]], status_type=StatusType[l[2]], is_wireless=bool(l[3]), confidence_level=l[4])
        for l in spec.get("links", [])
    ]
    sectors = [Sector(sites[q[0]], q[1], q[2], q[3], StatusType[q[4]]) for q in spec.get("sectors", [])]
    demands = [
        DemandSite(loc(d[0], d[1]), num_sites=d[2], demand=d[3], connected_sites=[sites[i] for i in d[4]])
        for d in spec.get("demands", [])
    ]
    t = Topology(sites=sites, demand_sites=demands, sectors=sectors, links=links)
    return t, sites


def gen_sites(rng, n, W=400, pops=1, cns=None, statuses=("CANDIDATE",), zs=(10.0,), pop_statuses=None):
    """n sites on distinct spots; first `pops` are POPs"""
    out, used = [], set()
    for i in range(n):
        while True:
            x, y = rng.randint(0, W), rng.randint(0, W)
            if all(abs(x - a) + abs(y - b) > 8 for a, b in used):
                break
        used.add((x, y))
        if i < pops:
            t = "POP"
        elif cns is not None and rng.random() < cns:
            t = "CN"
        else:
            t = "DN"
        out.append({"t": t, "x": x, "y": y, "z": rng.choice(zs),
                    "st": rng.choice(pop_statuses or statuses) if t == "POP" else rng.choice(statuses), "n": f"{t}{i}"})
    return out


def dist(a, b):
    return math.hypot(a["x"] - b["x"], a["y"] - b["y"])


def gen_links(rng, sites, maxd=220, p=0.8, conf=True):
    """symmetric backhaul links, one-way access links, statuses compatible with the sites'"""
    out = []
    for i in range(len(sites)):
        for j in range(i + 1, len(sites)):
            a, b = sites[i], sites[j]
            if a["t"] == "CN" and b["t"] == "CN" or a["t"] == b["t"] == "POP":
                continue
            if dist(a, b) > maxd or dist(a, b) < 1 or rng.random() > p:
                continue
            st = link_status(rng, a["st"], b["st"])
            c = round(rng.uniform(0.4, 1.0), 2) if conf else None
            if a["t"] != "CN":
                out.append([i, j, st, 1, c])
            if b["t"] != "CN":
                out.append([j, i, st, 1, c])
    return out


def link_status(rng, a, b):
    s = {a, b}
    if "UNAVAILABLE" in s:
        return "UNAVAILABLE"
    if "UNREACHABLE" in s:
        return "UNREACHABLE"
    if "CANDIDATE" in s:
        return "CANDIDATE" if rng.random() < 0.95 else "UNAVAILABLE"
    if s == {"EXISTING"}:
        return rng.choice(["EXISTING", "EXISTING", "CANDIDATE"])
    return rng.choice(["PROPOSED", "CANDIDATE"])
