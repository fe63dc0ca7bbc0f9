"""C03: candidate network generation from real input files, under worker schedules, worker failures and disk faults."""
from __future__ import annotations

import csv
import math
import os
import random
import zipfile
from xml.sax.saxutils import escape

from .. import gen, sim
from ..scenario import Run, Scenario, register
from . import opt
from .c10_read import MASK
from .c13_report import ERRS, KIND

R = 6371000.0
_T = {}


def ll(x, y):
    from pyproj import Transformer

    if "ll" not in _T:
        _T["ll"] = Transformer.from_crs(gen.EPSG, 4326, always_xy=True)
        _T["xy"] = Transformer.from_crs(4326, gen.EPSG, always_xy=True)
    return _T["ll"].transform(gen.X0 + x, gen.Y0 + y)


def xy(lon, lat):
    ll(0, 0)
    x, y = _T["xy"].transform(lon, lat)
    return x - gen.X0, y - gen.Y0


def ground(a, b):
    p, q = math.radians(a.latitude), math.radians(b.latitude)
    dl = math.radians(b.longitude - a.longitude)
    h = math.sin((q - p) / 2) ** 2 + math.cos(p) * math.cos(q) * math.sin(dl / 2) ** 2
    return 2 * R * math.asin(math.sqrt(h))


# ------------------------------------------------------------------ input files


def ring(pts):
    pts = list(pts) + [pts[0]]
    return " ".join(f"{x!r},{y!r},0" for x, y in (ll(*p) for p in pts))


def polygon(name, pts):
    return (f"<Placemark><name>{name}</name><Polygon><outerBoundaryIs><LinearRing><coordinates>{ring(pts)}"
            "</coordinates></LinearRing></outerBoundaryIs></Polygon></Placemark>\n")


def kml(path, body, rng=None):
    doc = f'<?xml version="1.0" encoding="UTF-8"?>\n<kml xmlns="http://www.opengis.net/kml/2.2"><Document><name>d</name>{body}</Document></kml>'
    if path.endswith("kmz"):
        with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr("doc.kml", doc)
    else:
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(doc)


SITE_FOLDERS = {"POP": ["POP", "Pop sites", "my pops"], "DN": ["DN", "candidate-dns"[10:], "DN sites"], "CN": ["CN", "cns", "Houses CN"]}


def write_sites_kml(path, case, rng):
    by = {}
    for s in case["sites"]:
        by.setdefault(s["t"], []).append(s)
    style = rng.choice(["schema", "data", "typed"])
    names = {"sku": rng.choice(["Device SKU", "sku", "DEVICE_SKU"]), "loc": rng.choice(["Location Type", "location_type"]),
             "n": rng.choice(["Number of Subscribers", "demand_points"])}
    ty = {"sku": "string", "loc": "string", "n": "int" if style == "typed" else "string"}
    body = ""
    if style != "data":
        body += '<Schema name="s" id="s">' + "".join(f'<SimpleField type="{ty[k]}" name="{v}"></SimpleField>' for k, v in names.items()) + "</Schema>"
    order = list(by)
    rng.shuffle(order)
    for t in order:
        body += f"<Folder><name>{rng.choice(SITE_FOLDERS[t])}</name>\n"
        for s in by[t]:
            lon, lat = ll(s["x"], s["y"])
            vals = {"sku": s["sku"] or "", "loc": s["loc"] or "", "n": "" if s["subs"] is None else str(s["subs"])}
            vals = {k: v for k, v in vals.items() if v or (style != "typed" and rng.random() < 0.5)}
            if style == "data":
                ext = "".join(f'<Data name="{names[k]}"><value>{escape(v)}</value></Data>' for k, v in vals.items())
            else:
                ext = '<SchemaData schemaUrl="#s">' + "".join(f'<SimpleData name="{names[k]}">{escape(v)}</SimpleData>' for k, v in vals.items()) + "</SchemaData>"
            mode = {"abs": "absolute", "rel": "relativeToGround", "no": "clampToGround"}[s["mode"]]
            if s["mode"] == "no" and rng.random() < 0.5:
                mt = ""
            else:
                mt = f"<altitudeMode>{mode}</altitudeMode>"
            z = "" if s["mode"] == "no" and rng.random() < 0.5 else f",{s['h']!r}"
            nm = f"<name>{escape(s['n'])}</name>" if s["n"] else ""
            body += f"<Placemark>{nm}<ExtendedData>{ext}</ExtendedData><Point>{mt}<coordinates>{lon!r},{lat!r}{z}</coordinates></Point></Placemark>\n"
        body += "</Folder>"
    if case["zones"]:
        body += "<Folder><name>Keep out</name>" + "".join(polygon(f"z{i}", z) for i, z in enumerate(case["zones"])) + "</Folder>"
    kml(path, body)


def write_sites_csv(path, case, rng):
    cols = {"lat": ["latitude", "Lat", "base_lat"], "lon": ["longitude", "LON", "base_lon"]}
    S = case["sites"]
    if any(s["t"] != "POP" for s in S) or rng.random() < 0.5:
        cols["t"] = ["type", "Site Type", "site_type"]
    if any(s["n"] for s in S):
        cols["n"] = ["name", "Site Name", "pole_name"]
    if any(s["sku"] for s in S):
        cols["sku"] = ["sku", "Device SKU", "device_sku"]
    if any(s["mode"] == "abs" for s in S):
        cols["alt"] = ["altitude", "Alt"]
    if any(s["mode"] == "rel" for s in S):
        cols["h"] = ["height", "height_m", "Height (m)"]
    if any(s["loc"] for s in S):
        cols["loc"] = ["location type", "location_type"]
    if any(s["subs"] is not None for s in S):
        cols["subs"] = ["number of subscribers", "demand_sites"]
    keys = list(cols)
    rng.shuffle(keys)
    with open(path, "w", newline="", encoding="utf-8") as fh:
        w = csv.writer(fh)
        w.writerow([rng.choice(cols[k]) for k in keys])
        for s in S:
            lon, lat = ll(s["x"], s["y"])
            row = {"lat": repr(lat), "lon": repr(lon), "t": s["t"], "n": s["n"], "sku": s["sku"] or "", "alt": s["h"] if s["mode"] == "abs" else "",
                   "h": s["h"] if s["mode"] == "rel" else "", "loc": s["loc"] or "", "subs": "" if s["subs"] is None else s["subs"]}
            w.writerow([row[k] for k in keys])


def write_raster(path, case, which):
    """a grid whose value at a point is that of the box over it; x, y in metres from the origin"""
    import numpy as np
    from osgeo import gdal, osr

    g = case["grid"]
    res, m = g["res"] if which != "dhm" else g.get("res2", g["res"]), 30
    nx = ny = int((case["W"] + 2 * m) / res)
    a = np.full((ny, nx), g["base"] if which != "dhm" else 0.0, dtype=np.float32)
    if which in ("dsm", "dhm"):
        for x0, y0, x1, y1, z in case["boxes"]:
            i0, i1 = int((x0 + m) / res), int((x1 + m) / res)
            j0, j1 = int((case["W"] + m - y1) / res), int((case["W"] + m - y0) / res)
            a[max(j0, 0):max(j1, 0), max(i0, 0):max(i1, 0)] += z
    for x0, y0, x1, y1, f in case["holes"]:
        if f == which:
            i0, i1 = max(int((x0 + m) / res), 0), max(int((x1 + m) / res), 0)
            j0, j1 = max(int((case["W"] + m - y1) / res), 0), max(int((case["W"] + m - y0) / res), 0)
            a[j0:j1, i0:i1] = -32768
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(gen.EPSG)
    out = []
    cuts = [0, *[int(nx * c) for c in (g["tiles"] if which == "dsm" else [])], nx]
    for k, (i, j) in enumerate(zip(cuts, cuts[1:])):
        q = path if len(cuts) == 2 else path.replace(".tif", f"{k}.tif")
        ds = gdal.GetDriverByName("GTiff").Create(q, j - i, ny, 1, gdal.GDT_Float32)
        ds.SetGeoTransform([gen.X0 - m + i * res, res, 0, gen.Y0 + case["W"] + m, 0, -res])
        ds.SetSpatialRef(sr)
        ds.GetRasterBand(1).SetNoDataValue(-32768)  # before the data: GDAL leaves out blocks of zeros
        ds.GetRasterBand(1).WriteArray(a[:, i:j])
        ds = None
        out.append(q)
    return out


def height_at(case, x, y):
    """what stands on the ground at a place; None near an edge"""
    d = 2.5 * max(case["grid"]["res"], case["grid"].get("res2", 0)) + 0.5
    h = 0.0
    for x0, y0, x1, y1, _ in case["holes"]:
        if x0 - d < x < x1 + d and y0 - d < y < y1 + d:
            return None
    for x0, y0, x1, y1, z in case["boxes"]:
        if x0 + d <= x <= x1 - d and y0 + d <= y <= y1 - d:
            h += z
        elif x0 - d < x < x1 + d and y0 - d < y < y1 + d:
            return None
    return h


class Candidates(Scenario):
    """the candidate network generated from files, against the rules of the documentation"""
    name = "candidates"
    shrink = ("sites", "zones", "boxes", "buildings", "holes")
    simplify = {"surface": None, "cpus": 1}

    def gen_region(self, rng):
        W = rng.choice([100, 150, 220, 300])
        c = [(0, 0), (0, W), (W, W), (W, 0)]
        cut = rng.choice([0, 0, W * 0.3])
        if cut:
            c = [(0, cut), (0, W), (W, W), (W, 0), (cut, 0)]
        return W, [[float(a), float(b)] for a, b in c]

    def gen(self, rng, faulty):
        W, region = self.gen_region(rng)
        devs = rng.choice([["DN1"], ["DN1", "DN4"], ["DN1", "CN1"], ["DN1", "DN2", "CN1"], ["CN1", "DN4"], ["DN1", "CN1", "DN4"],
                           ["DN1", "DNW"], ["DNW", "DN4", "CN1", "CNW"], ["CN1", "CNW", "DN1"]])
        cn = "CN1" in devs
        surface = rng.choice([None, None, "dsm", "dtm+dhm", "dsm+dtm", "dsm+dhm"])
        detect = rng.random() < 0.35 and cn
        fmt = rng.choice(["kml", "kml", "kmz", "csv", "csv", None if detect else "csv"])
        boxes, buildings = [], []
        used = []
        for _ in range(rng.randint(0, 5) if not detect else rng.randint(1, 4)):
            w, h = rng.randint(10, 24), rng.randint(8, 24)
            x, y = rng.randint(8, W - w - 8), rng.randint(8, W - h - 8)
            if any(x < u[2] + 6 and u[0] < x + w + 6 and y < u[3] + 6 and u[1] < y + h + 6 for u in used):
                continue
            used.append((x, y, x + w, y + h))
            boxes.append([x, y, x + w, y + h, float(rng.choice([1, 4, 9, 20]))])
            if detect:
                buildings.append([x, y, x + w, y + h])
                if rng.random() < 0.4:  # something on the roof
                    px, py = rng.randint(x + 2, x + w - 7), rng.randint(y + 1, y + h - 7)
                    boxes.append([px, py, px + 5, py + 5, 3.0])
        sites = []
        alt = rng.choice(["all", "none", "mixed"]) if surface else "none" if detect else rng.choice(["all", "none"])
        base = None
        n = rng.randint(2, 8)
        nm = rng.random() < 0.7
        for i in range(n if fmt else 0):
            t = rng.choice(["POP", "DN", "DN", "CN"] if cn else ["POP", "DN", "DN"])
            if sites and rng.random() < 0.12:
                x, y = sites[-1]["x"], sites[-1]["y"]
                if any((q["t"], q["x"], q["y"]) == (t, x, y) for q in sites):
                    continue
            else:
                x, y = rng.uniform(-W * 0.1, W * 1.1), rng.uniform(-W * 0.1, W * 1.1)
            mode = {"all": "abs", "none": "no"}.get(alt) or rng.choice(["abs", "rel", "no"])
            sku = None
            if rng.random() < 0.3:
                sku = rng.choice([d for d in devs if (d[:2] == "CN") == (t == "CN")] or [None])
                if sku and rng.random() < 0.3:
                    sku = sku.lower()
            sites.append({"t": t, "x": round(x, 3), "y": round(y, 3), "mode": mode, "h": round(rng.uniform(3, 25), 2), "sku": sku,
                          "loc": rng.choice([None, None, None, "ROOFTOP", "STREET_LEVEL"]), "n": f"N{i}" if nm else "",
                          "subs": rng.choice([None, None, 3])})
        if not detect and rng.random() < 0.4:
            net = opt.gen_network(rng, nmax=6)
            dn = [d for d in devs if d[:2] == "DN"]
            for s in net["sites"]:
                s["z"] = 10.0 if surface or alt == "all" else None
                s["dev"] = "CN1" if s["t"] == "CN" else rng.choice(dn)
            spots = set()
            net["sites"] = [s for s in net["sites"] if not (k := (s["t"], s["x"], s["y"], s["dev"])) in spots and not spots.add(k) or s["n"][-1] != "b"]
            net["edges"] = [e for e in net["edges"] if max(e[:2]) < len(net["sites"])]
            if cn or all(s["t"] != "CN" for s in net["sites"]):
                base = {"sites": net["sites"], "edges": net["edges"], "fmt": rng.choice(["kml", "kmz"])}
                base["statuses"] = base["fmt"] != "csv"
        zones = []
        if fmt in ("kml", "kmz"):
            for _ in range(rng.choice([0, 1, 2])):
                x, y = rng.uniform(W * 0.2, W * 0.7), rng.uniform(W * 0.2, W * 0.7)
                a = rng.uniform(0, 6.28)
                k = rng.choice([3, 4])
                q = rng.uniform(5, W * 0.14)
                zones.append([[x + q * math.cos(a + 6.2832 * j / k), y + q * math.sin(a + 6.2832 * j / k)] for j in range(k)])
        holes = []
        for _ in range(rng.choice([0, 0, 1, 2]) if surface else 0):
            x, y = rng.randint(-20, W - 10), rng.randint(-20, W - 10)
            if sites and rng.random() < 0.6:
                q = rng.choice(sites)
                x, y = int(q["x"]) - rng.randint(2, 20), int(q["y"]) - rng.randint(2, 20)
            holes.append([x, y, x + rng.randint(4, 60), y + rng.randint(4, 60), rng.choice(surface.split("+"))])
        grid = {"res": rng.choice([1, 1, 2]), "base": rng.choice([0.0, 100.0]), "tiles": rng.choice([[], [], [0.4], [0.3, 0.6]])}
        if surface == "dtm+dhm" and rng.random() < 0.3:
            grid["res2"] = rng.choice([1, 2, 3])
        case = {
            "W": W, "holes": holes, "region": region, "devs": devs, "surface": surface, "grid": grid,
            "boxes": boxes, "buildings": buildings, "bfmt": rng.choice(["kml", "kmz", "zip"]), "sites": sites, "fmt": fmt, "zones": zones, "base": base,
            "detect": {"dn_deployment": rng.random() < 0.6, "detect_highest": rng.random() < 0.5, "detect_centers": rng.random() < 0.5,
                       "detect_corners": rng.random() < 0.5, "max_corner_angle": rng.choice([None, None, 100, 60])},
            "los": {"maximum_los_distance": rng.choice([None, 60, 120, 200, 400]), "minimum_los_distance": rng.choice([5, 10, 25]),
                    "maximum_elevation_scan_angle": rng.choice([5, 25, 60]), "use_ellipsoidal_los_model": rng.random() < 0.3,
                    "los_confidence_threshold": rng.choice([0.4, 0.6, 1.0]), "mounting_height_above_rooftop": rng.choice([0.5, 1.5]),
                    "default_dn_height_on_pole": 5.0, "default_cn_height_on_pole": 4.0, "default_pop_height_on_pole": 7.0,
                    "num_processors": rng.choice([None, 1, 3])},
            "batch": rng.choice([1, 3, 10, 1000]), "cpus": rng.choice([1, 2, 4]), "bias": rng.choice([0.1, 0.5, 0.9]), "rf": rng.random() < (0.8 if {"DNW", "CNW"} & set(devs) else 0.3),
            "files": rng.randrange(1 << 30), "faults": [],
        }
        for _ in range(rng.randint(1, 3) if faulty else 0):
            if rng.random() < 0.4:
                case["faults"].append({"k": "worker", "task": rng.randrange(6), "what": rng.choice(["exception", "memory", "oserror", "unpicklable"])})
            else:
                m = rng.choice(["open", "read", "read", "openw", "write", "mkdir", "any"])
                case["faults"].append({"k": "disk", "mask": m, "nth": rng.randint(0, 4) if rng.random() < 0.5 else rng.randint(0, 40),
                                       "kind": rng.choice(["errno", "errno", "short", "torn"]) if m == "write" else "errno",
                                       "err": rng.choice(["EIO", "EACCES", "EMFILE"] if m == "open" else ["EIO", "ENOSPC", "EDQUOT"]),
                                       "sticky": int(rng.random() < 0.3)})
        return case

    # ---------------------------------------------------------------- inputs
    def inputs(self, case, r):
        from terragraph_planner.common.configuration.configs import GISDataParams, LOSParams, SiteDetectionParams
        from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file

        rng = random.Random(case["files"])
        d = os.path.join(r.w.scratch, "in")
        os.mkdir(d)
        p = lambda n: os.path.join(d, n)
        g = {"boundary_polygon_file_path": p("b." + rng.choice(["kml", "kmz"]))}
        kml(g["boundary_polygon_file_path"], polygon("region", case["region"]))
        if case["fmt"] and (case["sites"] or case["zones"]):
            g["site_file_path"] = p("s." + case["fmt"])
            if case["fmt"] == "csv":
                if case["sites"]:
                    write_sites_csv(g["site_file_path"], case, rng)
                else:
                    del g["site_file_path"]
            else:
                write_sites_kml(g["site_file_path"], case, rng)
        B = None
        if case["base"]:
            net = {"sites": [dict(s, st=s["st"] if case["base"]["statuses"] else "CANDIDATE") for s in case["base"]["sites"]],
                   "edges": [[*e[:2], e[2] if case["base"]["statuses"] else "CANDIDATE", *e[3:]] for e in case["base"]["edges"]]}
            B = opt.build(net)
            fmt = case["base"]["fmt"]
            if fmt == "csv":
                g["base_topology_file_path"] = p("t.zip")
                with open(p("sites.csv"), "w", newline="") as fh:
                    w = csv.writer(fh)
                    alt = any(s.altitude is not None for s in B.sites.values())
                    w.writerow(["name", "type", "lat", "lon", "sku"] + (["altitude"] if alt else []))
                    for s in B.sites.values():
                        w.writerow([s.name, s.site_type.name, repr(s.latitude), repr(s.longitude), s.device.device_sku] + ([s.altitude] if alt else []))
                with open(p("links.csv"), "w", newline="") as fh:
                    w = csv.writer(fh)
                    w.writerow(["tx_site", "rx_site"])
                    for l in B.links.values():
                        w.writerow([l.tx_site.name, l.rx_site.name])
                with zipfile.ZipFile(p("t.zip"), "w") as z:
                    z.write(p("sites.csv"), "sites.csv")
                    z.write(p("links.csv"), "links.csv")
            else:
                write_to_kml_file(B, p("t.kml"))
                g["base_topology_file_path"] = p("t." + fmt)
                if fmt == "kmz":
                    with zipfile.ZipFile(p("t.kmz"), "w") as z:
                        z.write(p("t.kml"), "doc.kml")
        if case["surface"]:
            for k in case["surface"].split("+"):
                t = write_raster(p(k + ".tif"), case, k)
                if k == "dsm":
                    rng.shuffle(t)
                    g["dsm_file_paths"] = t
                else:
                    g[k + "_file_path"] = p(k + ".tif")
        if case["buildings"]:
            path = g["building_outline_file_path"] = p("o." + case["bfmt"])
            qs = [[(a, b), (a, d2), (c, d2), (c, b)] for a, b, c, d2 in case["buildings"]]
            if case["bfmt"] == "zip":
                from osgeo import osr
                from shapely.geometry import Polygon
                from terragraph_planner.common.data_io.building_group_loader import BuildingGroupLoader
                from terragraph_planner.los.building import Building
                from terragraph_planner.los.building_group import BuildingGroup

                sr = osr.SpatialReference()
                sr.ImportFromEPSG(gen.EPSG)
                BuildingGroupLoader().write(path, BuildingGroup([Building(Polygon([(gen.X0 + x, gen.Y0 + y) for x, y in q])) for q in qs], sr))
            else:
                kml(path, "<Folder><name>houses</name>" + "".join(polygon(f"h{i}", q) for i, q in enumerate(qs)) + "</Folder>")
        devices = [gen.make_device(x) for x in case["devs"]]
        extra = {} if not case["rf"] else {"minimum_mcs_of_backhaul_links": 9, "minimum_mcs_of_access_links": 8, "maximum_eirp": 30.0}
        L = LOSParams(device_list=devices, site_detection=SiteDetectionParams(**case["detect"]), **case["los"], **extra)
        return GISDataParams(**g), L, B, devices

    # ---------------------------------------------------------------- oracle
    def expected_sites(self, case, r):
        """[(type, sku, x, y, altitude or None or "?", rooftop or None)]"""
        from shapely.geometry import Point, Polygon

        reg = Polygon(case["region"])
        L = case["los"]
        out = []
        for i, s in enumerate(case["sites"]):
            q = Point(s["x"], s["y"])
            if q.distance(reg.exterior) < 0.5:
                return None
            if not reg.contains(q):
                continue
            if s["sku"]:
                skus = [s["sku"].upper()]
            else:
                skus = [d for d in case["devs"] if (d[:2] == "CN") == (s["t"] == "CN")]
            loc = s["loc"] or ("UNKNOWN" if case["fmt"] == "csv" else "STREET_LEVEL")
            z = s["h"] if s["mode"] == "abs" else None
            if case["surface"]:
                h = height_at(case, s["x"], s["y"])
                if h is None:
                    z = z if z is not None else "?"  # near an edge or a void: anything the data contains
                    loc = loc if loc != "UNKNOWN" else "?"
                else:
                    if loc == "UNKNOWN" and case["surface"] != "dsm":
                        loc = "ROOFTOP" if h >= 2 else "STREET_LEVEL"
                    if z is None:
                        if s["mode"] == "rel":
                            z = case["grid"]["base"] + h + s["h"]
                        elif loc == "ROOFTOP":
                            z = case["grid"]["base"] + h + L["mounting_height_above_rooftop"]
                        else:
                            z = case["grid"]["base"] + h + L[f"default_{s['t'].lower()}_height_on_pole"]
            for k in skus:
                out.append((s["t"], k, s["x"], s["y"], z, loc, s))
        return out

    def check_sites(self, case, r, T, B, want):
        base = {}
        if B is not None:
            for s in B.sites.values():
                base[(s.site_type.name, s.device.device_sku, round(s.utm_x - gen.X0, 1), round(s.utm_y - gen.Y0, 1))] = s
        left = []
        seen_base = {}
        for s in T.sites.values():
            x, y = xy(s.longitude, s.latitude)
            k = (s.site_type.name, s.device.device_sku, round(x, 1), round(y, 1))
            m = [b for q, b in base.items() if q[:2] == k[:2] and abs(q[2] - x) < 0.11 and abs(q[3] - y) < 0.11]
            if m and m[0].name not in seen_base:
                b = m[0]
                seen_base[b.name] = s
                r.check(s.status_type == b.status_type and s.name == b.name and (b.altitude is None or s.altitude is not None and abs(s.altitude - b.altitude) < 1e-6), "base-site-changed",
                        lambda: f"{b.name}: {b.status_type.name} at {b.altitude}, became {s.name} {s.status_type.name} at {s.altitude}")
            else:
                left.append((s, x, y))
        r.check(len(seen_base) == len(base), "base-site-lost", lambda: f"{[b.name for b in base.values() if b.name not in seen_base]} of the base network are missing")
        new = []
        for t, k, x, y, z, loc, spec in want:
            m = [q for q in left if (q[0].site_type.name, q[0].device.device_sku) == (t, k) and abs(q[1] - x) < 0.02 and abs(q[2] - y) < 0.02 and q[0].building_id in (None, -1)]
            r.check(bool(m), "site-lost", lambda: f"no {t} with {k} at {x},{y}")
            if len(m) > 1:
                m = [q for q in m if z == "?" or (q[0].altitude is None) == (z is None) and (z is None or abs(q[0].altitude - z) < 0.02)] or m
            s = m[0][0]
            left.remove(m[0])
            if z == "?":
                lo, hi = case["grid"]["base"], case["grid"]["base"] + sum(b[4] for b in case["boxes"])
                lo += spec["h"] if spec["mode"] == "rel" else 0.5
                hi += spec["h"] if spec["mode"] == "rel" else 7.0
                r.check(s.altitude is not None and lo - 0.01 <= s.altitude <= hi + 0.01, "altitude", lambda: f"{spec}: altitude {s.altitude} not within {lo}..{hi}")
            else:
                r.check((z is None) == (s.altitude is None) and (z is None or abs(s.altitude - z) < 0.02), "altitude", lambda: f"{spec}: altitude {s.altitude}, not {z}")
            if loc != "?":
                r.check(s.location_type.name == loc, "location-type", lambda: f"{spec}: {s.location_type.name}, not {loc}")
            r.check(s.status_type.name == "CANDIDATE", "site-status", lambda: f"{spec}: {s.status_type}")
            r.check(not spec["n"] or s.name in (spec["n"], f"{spec['n']}_{k.lower()}"), "site-name", lambda: f"{spec['n']} became {s.name}")
            if t == "CN":
                r.check(s.number_of_subscribers == (spec["subs"] or 1), "subscribers", lambda: f"{spec}: {s.number_of_subscribers} subscribers")
            new.append(s)
        return seen_base, new, left

    def check_links(self, case, r, T, B, fresh, SE, L, GP, GK=None):
        """every permitted pair with a new end is linked, no other"""
        from shapely.geometry import LineString, Polygon
        from terragraph_planner.common.structs import CandidateLOS
        from terragraph_planner.los import core
        from terragraph_planner.los.helper import get_max_los_dist_for_device_pairs

        S = list(T.sites.values())
        isnew = {s.site_id for s in fresh}
        region = Polygon([(gen.X0 + x, gen.Y0 + y) for x, y in case["region"]])
        zones = [Polygon([(gen.X0 + x, gen.Y0 + y) for x, y in z]) for z in case["zones"]]
        unsure = [z for z in zones if not region.buffer(-0.5).contains(z)]  # zones that leave the region are ignored
        zones = [z for z in zones if region.buffer(-0.5).contains(z)]
        pairs = []
        for i in range(len(S)):
            for j in range(i + 1, len(S)):
                a, b = S[i], S[j]
                if a.site_id not in isnew and b.site_id not in isnew:
                    continue
                ts = {a.site_type.name, b.site_type.name}
                if ts == {"CN"} or ts == {"POP"}:
                    continue
                pairs.append((i, j) if b.site_type.name == "CN" else (j, i) if a.site_type.name == "CN" else (i, j))
        maxd, err = r.call("device ranges", get_max_los_dist_for_device_pairs, L.device_list, L.maximum_eirp, L.minimum_mcs_of_backhaul_links,
                           L.minimum_mcs_of_access_links, L.maximum_los_distance)
        lim = case["los"]["maximum_los_distance"]
        r.check(lim is None or max(maxd.values()) <= lim, "range-limit", lambda: f"device range {maxd} above the limit {lim}")
        self.check_ranges(r, L, maxd, lim)
        lo, el = case["los"]["minimum_los_distance"], case["los"]["maximum_elevation_scan_angle"]
        r.w.pool_mode, r.w.cpus, r.w.pool_faults = "inline", 1, {}
        sim.patch_everywhere("BATCH_SIZE", 10**6)
        ref, _ = r.call("compute_los", core.compute_los, S, [CandidateLOS(i, j, False) for i, j in pairs], SE, zones, max(maxd.values()), lo, el,
                        L.los_confidence_threshold, L.use_ellipsoidal_los_model, L.fresnel_radius, L.carrier_frequency, 1)
        seen = {(a, b): c for a, b, c in ref}
        got = {}
        for l in T.links.values():
            got[(l.tx_site.site_id, l.rx_site.site_id)] = l
        n = 0
        base = {}
        if B is not None:
            names = {s.name: s for s in B.sites.values()}
            for l in B.links.values():
                base[(l.tx_site.name, l.rx_site.name)] = l
        known = set()
        for i, j in pairs:
            a, b = S[i], S[j]
            bi = b.site_type.name != "CN"
            ab, ba = got.get((a.site_id, b.site_id)), got.get((b.site_id, a.site_id))
            known |= {(a.site_id, b.site_id), (b.site_id, a.site_id)}
            one = ab or ba
            what = f"{a.name} ({a.site_type.name}) - {b.name} ({b.site_type.name})"
            r.check((ab is None) == (ba is None) if bi else ba is None, "direction", lambda: f"{what}: forth {ab is not None}, back {ba is not None}")
            g = ground(a, b)
            both = a.altitude is not None and b.altitude is not None
            dz = abs(a.altitude - b.altitude) if both else 0.0
            d = math.hypot(g, dz)
            e = math.degrees(math.asin(min(1.0, dz / d))) if both and d > 0 else 0.0
            hi = maxd[(a.device.device_sku, b.device.device_sku)]
            line = LineString([(a.utm_x, a.utm_y), (b.utm_x, b.utm_y)])
            bad = None
            if g < 1e-6:
                bad = "same place"
            elif a.building_id is not None and a.building_id >= 0 and a.building_id == b.building_id:
                bad = "same building"
            elif d < lo * 0.999 or d > hi * 1.001:
                bad = f"distance {d} not in {lo}..{hi}"
            elif e > el * 1.001:
                bad = f"elevation angle {e}"
            elif any(z.buffer(-0.02).intersects(line) for z in zones if not z.buffer(-0.02).is_empty):
                bad = "exclusion zone"
            if bad:
                r.check(one is None, "forbidden-link", lambda: f"{what}: linked although: {bad}")
                continue
            if any(z.buffer(0.02).intersects(line) for z in unsure):
                continue
            sure = lo * 1.001 <= d <= hi * 0.999 and e <= el * 0.999 and not any(z.buffer(0.02).intersects(line) for z in zones)
            if not sure:
                continue
            c = seen.get((i, j))
            if SE is None:
                r.check(one is not None, "missing-link", lambda: f"{what}: not linked")
                r.check(one.confidence_level == 1.0, "confidence", lambda: f"{what}: confidence {one.confidence_level}")
            else:
                r.check((one is None) == (c is None), "link-differs", lambda: f"{what}: {'not linked' if one is None else 'linked'}, line of sight computed for the pair alone: {c}")
                if one is not None:
                    r.check(abs(one.confidence_level - c) < 1e-6, "confidence", lambda: f"{what}: confidence {one.confidence_level}, alone {c}")
            if one is not None:
                n += 1
                for x in filter(None, (ab, ba)):
                    r.check(x.is_wireless, "link-kind", lambda: f"{what}: not wireless")
                    st = {a.status_type.name, b.status_type.name}
                    ws = "UNAVAILABLE" if "UNAVAILABLE" in st else "UNREACHABLE" if "UNREACHABLE" in st else "CANDIDATE"
                    r.check(x.status_type.name == ws, "link-status", lambda: f"{what}: new link is {x.status_type.name}")
        # the base network's own links, and nothing else
        byid = {s.site_id: s for s in S}
        rest = {}
        for k, l in got.items():
            if k not in known:
                rest[(l.tx_site.name, l.rx_site.name)] = l
        extra = [k for k in rest if k not in base]
        r.check(not extra, "unexpected-link", lambda: f"{extra}")
        lost = [k for k in base if k not in rest]
        r.check(not lost, "base-link-lost", lambda: f"{lost}")
        for k, l in base.items():
            r.check(rest[k].status_type == l.status_type, "base-link-changed", lambda: f"{k}: {l.status_type.name} became {rest[k].status_type.name}")
        r.note("new_links", n)
        r.note("pairs", len(pairs))
        return n

    def check_ranges(self, r, L, maxd, lim):
        """the range of two devices is how far the better of their directions still carries data"""
        from terragraph_planner.common.rf.link_budget_calculator import fspl_based_estimation, get_max_tx_power

        def carries(tx, rx, d):
            lowest = L.minimum_mcs_of_access_links if rx.device_type.name == "CN" else L.minimum_mcs_of_backhaul_links
            rates = [m for m in rx.sector_params.mcs_map if lowest is None or m.mcs >= lowest]
            q = fspl_based_estimation(distance=d, max_tx_power=get_max_tx_power(tx.sector_params, L.maximum_eirp), tx_sector_params=tx.sector_params,
                                      rx_sector_params=rx.sector_params, mcs_snr_mbps_map=rates, tx_deviation=0.0, rx_deviation=0.0,
                                      tx_el_deviation=0.0, rx_el_deviation=0.0, tx_scan_pattern_data=None, rx_scan_pattern_data=None)
            return q.capacity > 0

        dev = {d.device_sku: d for d in L.device_list}
        for (a, b), hi in maxd.items():
            ways = [(dev[a], dev[b])] + ([(dev[b], dev[a])] if dev[b].device_type.name == "DN" else [])
            near, far = any(carries(x, y, hi - 2) for x, y in ways), any(carries(x, y, hi + 1) for x, y in ways)
            r.check(near and (not far or hi == lim), "device-range", lambda: f"{a} to {b}: range {hi} m, capacity at {hi - 2} m: {near}, at {hi + 1} m: {far}")

    def check_detected(self, case, r, T, left, fresh, SE, BG, L):
        from shapely.geometry import Point, Polygon, box

        region = Polygon(case["region"])
        dt = case["detect"]
        on = dt["detect_highest"] or dt["detect_centers"] or dt["detect_corners"]
        dns = [d for d in case["devs"] if d[:2] == "DN"]
        cns = [d for d in case["devs"] if d[:2] == "CN"]
        at = {}
        for s, x, y in left:
            h = [i for i, (a, b, c, d) in enumerate(case["buildings"]) if box(a, b, c, d).buffer(0.1).contains(Point(x, y))]
            r.check(len(h) == 1 and s.building_id is not None and s.building_id >= 0, "stray-site", lambda: f"{s.site_type.name} {s.device.device_sku} at {x:.2f},{y:.2f} is on no building")
            at.setdefault(h[0], {}).setdefault((round(s.latitude, 9), round(s.longitude, 9)), []).append(s)
            if SE is None:
                r.check(s.altitude is None, "altitude", lambda: f"detected site without surface data has altitude {s.altitude}")
            else:
                lo = case["grid"]["base"] + L.mounting_height_above_rooftop
                q = box(*case["buildings"][h[0]])
                z = [b[4] for b in case["boxes"] if box(*b[:4]).intersects(q)]
                if dt["detect_highest"] and not (dt["detect_centers"] or dt["detect_corners"]) and not case["holes"] and region.contains(q.buffer(1)):
                    lo += sum(z)
                r.check(lo - 0.01 <= s.altitude <= lo + sum(z) + 0.01, "altitude", lambda: f"detected site at {s.altitude}, roof at {case['grid']['base']} + {z}")
        if not on:
            r.check(not at, "stray-site", lambda: f"sites detected although detection is off: {at}")
            return
        for i, (a, b, c, d) in enumerate(case["buildings"]):
            spots = at.get(i, {})
            if not region.intersects(box(a, b, c, d).buffer(0.5)):
                r.check(not spots, "stray-site", lambda: f"building {i} is outside the region: {list(spots)}")
            if (c - a) * (d - b) < 60 or not region.contains(box(a, b, c, d).buffer(0.5)):
                continue
            C = {k: sorted(s.device.device_sku for s in v if s.site_type.name == "CN") for k, v in spots.items()}
            with_cn = [k for k, v in C.items() if v]
            r.check(len(with_cn) == 1 and C[with_cn[0]] == sorted(cns), "client-spot", lambda: f"building {i}: clients at {C}")
            D = {k: sorted(s.device.device_sku for s in v if s.site_type.name == "DN") for k, v in spots.items()}
            if dt["dn_deployment"]:
                r.check(D[with_cn[0]] == sorted(dns), "dn-spot", lambda: f"building {i}: client spot has {D[with_cn[0]]}")
            for k, v in D.items():
                r.check(v in ([], sorted(dns)), "dn-devices", lambda: f"building {i}: {v}")
        self.check_best(case, r, T, at, fresh, left, SE, BG, L)

    def check_best(self, case, r, T, at, fresh, left, SE, BG, L):
        """the client's spot of a building sees no fewer places than the other spots of the building"""
        from terragraph_planner.common.structs import CandidateLOS
        from terragraph_planner.los import core
        from terragraph_planner.los.helper import get_max_los_dist_for_device_pairs

        if case["zones"] or not BG.building_list:
            return
        spots, _ = r.call("detect_site_candidates", BG.detect_site_candidates, SE, L.mounting_height_above_rooftop, L.site_detection.max_corner_angle,
                          L.site_detection.detect_corners, L.site_detection.detect_centers, L.site_detection.detect_highest)
        mine = {id(q[0]) for q in left}
        S = [s for s in T.sites.values() if id(s) not in mine]
        n = len(S)
        S = S + spots
        pairs = [(i, j) for j in range(n, len(S)) for i in range(j) if not (i >= n and S[i].building_id == S[j].building_id)]
        maxd, _ = r.call("device ranges", get_max_los_dist_for_device_pairs, L.device_list, L.maximum_eirp, L.minimum_mcs_of_backhaul_links,
                         L.minimum_mcs_of_access_links, L.maximum_los_distance)
        r.w.pool_mode, r.w.cpus, r.w.pool_faults = "inline", 1, {}
        sim.patch_everywhere("BATCH_SIZE", 10**6)
        ref, _ = r.call("compute_los", core.compute_los, S, [CandidateLOS(i, j, False) for i, j in pairs], SE, [], max(maxd.values()), case["los"]["minimum_los_distance"],
                        case["los"]["maximum_elevation_scan_angle"], L.los_confidence_threshold, L.use_ellipsoidal_los_model, L.fresnel_radius, L.carrier_frequency, 1)
        sees = {}
        for i, j, _ in ref:
            sees.setdefault(i, set()).add(j)
            sees.setdefault(j, set()).add(i)
        by = {}
        for k in range(n, len(S)):
            by.setdefault(S[k].building_id, []).append(k)
        r.note("spots", len(spots))
        for b, ks in by.items():
            best = max(len(sees.get(k, ())) for k in ks)
            cn = [s for v in at.values() for q in v.values() for s in q if s.site_type.name == "CN" and s.building_id == b]
            if not cn:
                continue
            k = min(ks, key=lambda k: abs(S[k].latitude - cn[0].latitude) + abs(S[k].longitude - cn[0].longitude))
            # clients placed on other buildings before may have counted too
            got = len(sees.get(k, ())) + len({S[j].building_id for j in sees.get(k, ()) if j >= n})
            r.check(got >= best, "worse-spot", lambda: f"building {b}: the client is placed where {got} places are seen, another spot sees {best}")

    # ---------------------------------------------------------------- run
    def run(self, case, r: Run):
        from terragraph_planner.common.exceptions import PlannerException
        from terragraph_planner.common.utils import current_system_params
        from terragraph_planner.los import core

        w = r.w
        GP, L, B, devices = self.inputs(case, r)
        before = (repr(sorted(vars(GP).items())), opt_plain(L))
        out = os.path.join(w.scratch, "out")
        os.mkdir(out)
        current_system_params.output_dir = out

        used = []
        real = core.compute_los

        def watch(sites, links, surface, *a, **k):
            used.append(surface)
            return real(sites, links, surface, *a, **k)

        def schedule():
            w.cpus, w.pool_bias, w.pool_mode = case["cpus"], case["bias"], "inline"
            w.pool_tasks_run = 0
            sim.patch_everywhere("BATCH_SIZE", case["batch"])

        schedule()
        core.compute_los = watch
        try:
            T, err = r.call("generate_candidate_topology", core.generate_candidate_topology, L, GP, allow=(PlannerException,))
        finally:
            core.compute_los = real
        if err is not None:
            ok = self.may_refuse(case, str(err))
            r.check(ok, "refused", lambda: f"valid inputs are refused: {err}")
            r.note("refused")
            return
        r.check((repr(sorted(vars(GP).items())), opt_plain(L)) == before, "params-changed", "the caller's settings were modified")
        want = self.expected_sites(case, r)
        first = shape_of(T)
        if want is not None:
            base, new, left = self.check_sites(case, r, T, B, want)
            fresh = new + [q[0] for q in left]
            (_, SE, TE, BG), _ = r.call("load_gis_data", core.load_gis_data, GP)
            if case["holes"] and used:
                SE = used[0]  # places without data that were looked at are filled in
            if case["buildings"]:
                self.check_detected(case, r, T, left, fresh, SE, BG, L)
            else:
                r.check(not left, "stray-site", lambda: f"sites nobody asked for: {[(q[0].site_type.name, q[0].device.device_sku, q[1:]) for q in left]}")
            n = self.check_links(case, r, T, B, fresh, SE, L, GP)
            r.nontrivial = n > 0
            r.state(case["surface"], case["fmt"], bool(case["base"]), bool(case["buildings"]), len(case["zones"]), case["rf"], n > 0)
        # what was left on disk is the network returned
        self.check_dump(r, out, T, devices)
        # failures
        for f in case["faults"]:
            path = os.path.join(out, "output", "candidate_topology.kml")
            if os.path.exists(path):
                os.unlink(path)
            schedule()
            if f["k"] == "worker":
                w.pool_faults = {f["task"]: f["what"]}
                n = sum(w.faults.values())
                try:
                    U, e = core.generate_candidate_topology(L, GP), None
                except Exception as x:
                    U, e = None, x
                hit = sum(w.faults.values()) - n
                w.pool_faults = {}
            else:
                sim.DISK.arm(w.scratch, MASK[f["mask"]], f["nth"], KIND[f["kind"]], ERRS[f["err"]], f["sticky"])
                try:
                    U, e = core.generate_candidate_topology(L, GP), None
                except Exception as x:
                    U, e = None, x
                finally:
                    hit = sim.DISK.fired()
                    sim.DISK.disarm()
                if hit:
                    w.fault(f"disk_{f['mask']}_{f['kind']}" + ("" if f["kind"] == "short" else "_" + f["err"]), hit)
            r.check(e is None or hit, "spurious-failure", lambda: f"{f}: failed without a fault: {e!r}")
            if e is None:
                r.check(shape_of(U) == first, "partial-network", lambda: f"{f}: the failure gave another network without an error")
                self.check_dump(r, out, U, devices)
            r.nontrivial |= bool(hit)
            r.state(f["k"], f.get("mask"), f.get("task"), f.get("nth"), e is None)
            r.note("loud" if e is not None else "unharmed")
        if case["faults"]:
            schedule()
            U, _ = r.call("generate_candidate_topology after failures", core.generate_candidate_topology, L, GP)
            r.check(shape_of(U) == first, "residue", "the network generated after failures differs")
        r.see(str(first))

    def may_refuse(self, case, msg):
        if "Invalid max/min LOS distance" in msg:
            return True  # the radios do not reach the minimum distance
        if "no non-void point" in msg:
            return bool(case["holes"])
        return "only supported on GeoGrids with same metadata" in msg and case["grid"].get("res2", case["grid"]["res"]) != case["grid"]["res"]

    def check_dump(self, r, out, T, devices):
        from terragraph_planner.common.data_io.utils import extract_topology_from_file

        path = os.path.join(out, "output", "candidate_topology.kml")
        r.check(os.path.exists(path), "not-saved", "no candidate_topology.kml")
        U, err = r.call("read back", extract_topology_from_file, path, devices, None, allow=(Exception,))
        r.check(err is None and (len(U.sites), len(U.links)) == (len(T.sites), len(T.links)), "saved-differs",
                lambda: f"{err or (len(U.sites), len(U.links))} read back, {len(T.sites)} sites and {len(T.links)} links generated")


def shape_of(T):
    return (sorted((s.site_id, s.name, s.status_type.name, s.location_type.name) for s in T.sites.values()),
            sorted((l.tx_site.site_id, l.rx_site.site_id, l.status_type.name, round(l.confidence_level, 9) if l.confidence_level is not None else None)
                   for l in T.links.values()))


def opt_plain(L):
    from .c10_read import plain

    return plain(L)


register("C03", Candidates())
