"""C09: what is saved is what is read back, with failing disks, crashes and foreign locales."""
from __future__ import annotations

import builtins
import io
import os
import random
import zipfile

from .. import gen, sim
from ..scenario import Run, Scenario, register
from . import opt
from .c13_report import gen_disk_faults, with_fault

#: what a user may call a site
NAMES = ["A & B", "<x>", 'the "old" mill', "O'Neill", "żółw", "名前", "x  y", "12", "0.5", "None", "a,b", "N-->S", "tower/3", "&amp;", "]]>"]


def site_row(s):
    return (s.site_type.name, s.status_type.name, s.name, s.latitude, s.longitude, s.altitude, s.location_type.name,
            s.device.device_sku, s.number_of_subscribers)


def link_row(l, conf=True):
    c = l.confidence_level
    return (l.tx_site.name, l.rx_site.name, l.status_type.name, l.link_type.name)


def content(T):
    """what a network file carries"""
    return {
        "sites": sorted(map(site_row, T.sites.values()), key=repr),
        "links": sorted((link_row(l) for l in T.links.values()), key=repr),
        "demands": sorted((d.latitude, d.longitude) for d in T.demand_sites.values()),
    }


def diff(a, b):
    out = []
    for k in a:
        x, y = [v for v in a[k] if v not in b[k]], [v for v in b[k] if v not in a[k]]
        if x or y:
            out.append(f"{k}: saved {x[:3]} read {y[:3]}")
        elif len(a[k]) != len(b[k]):
            out.append(f"{k}: {len(a[k])} saved, {len(b[k])} read")
    return "; ".join(out)


def dress(net, case):
    """names, altitudes, location types and demands of the saved network"""
    rng = random.Random(case["dress"])
    names = NAMES[:]
    rng.shuffle(names)
    flat = rng.random() < 0.3
    for s in net["sites"]:
        if case["names"] == "odd" and names and rng.random() < 0.6:
            s["n"] = names.pop()
        elif case["names"] == "none":
            s["n"] = ""
        if flat:
            s["z"] = None
        elif rng.random() < 0.3:
            s["z"] = rng.choice([0.0, -3.25, 17.123456789, 1e-7])
        u = rng.random()
        if u < 0.3:
            s["b"] = rng.choice([-1, 0, 7])
            s["l"] = "ROOFTOP"
        elif u < 0.4:
            s["l"] = "UNKNOWN"
    return net


class foreign_host:
    """a host whose default text encoding is not UTF-8 (open() without an encoding uses it)"""

    def __init__(self, enc):
        self.enc = enc

    def __enter__(self):
        self.real = real = builtins.open
        enc = self.enc

        def opened(file, mode="r", buffering=-1, encoding=None, *a, **k):
            if "b" not in mode and encoding in (None, "locale"):
                encoding = enc
            return real(file, mode, buffering, encoding, *a, **k)

        if enc:
            builtins.open = io.open = opened
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.real


def devices(T):
    return [gen.make_device(d) for d in gen.DEVICES]


def in_child(f, root, fn):
    """run fn in a forked process on a failing disk (or dying at the fault).
    -> (None | "error" | "died", whether the fault happened)"""
    from .c13_report import ERRS, KIND, MASKS

    kind = (5 if f["kind"] == "torn" else 4) if f["crash"] else KIND[f["kind"]]
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            sim.DISK.arm(root, MASKS[f["mask"]], f["nth"], kind, ERRS[f["err"]], f["sticky"])
            fn()
            code = 0
        except BaseException:
            code = 2
        finally:
            n = sim.DISK.fired()
            os._exit(code + (10 if n else 0))
    _, st = os.waitpid(pid, 0)
    c = os.waitstatus_to_exitcode(st)
    if c == 77 or c < 0:
        return "died", True
    return {0: None, 2: "error"}[c % 10], c >= 10


class Saved(Scenario):
    weight = 1.0

    def network(self, case, r):
        """a network at the stage of its life the case asks for; None if planning it fails"""
        from terragraph_planner.common.exceptions import PlannerException
        from terragraph_planner.common.topology_models.demand_site import DemandSite
        from terragraph_planner.optimization import topology_operations as ops
        from terragraph_planner.optimization import topology_optimization as TO

        net = dress({"sites": [dict(s) for s in case["sites"]], "edges": case["edges"]}, case)
        if len({(s["x"], s["y"]) for s in net["sites"]}) < len(net["sites"]):
            seen = {}
            for s in net["sites"]:  # one height per spot
                s["z"] = seen.setdefault((s["x"], s["y"]), s.get("z"))
        T = opt.build(net)
        rng = random.Random(case["dress"] + "d")
        if case["demands"]:
            k = case["demands"]
            val = rng.choice([None, 0.0, "mixed"])
            for i in range(k):
                d = DemandSite(gen.loc(rng.uniform(-50, 300), rng.uniform(-50, 300)), num_sites=1,
                               demand=rng.choice([0.0, 0.025, 1.5]) if val == "mixed" else val,
                               connected_sites=[s for s in T.sites.values() if rng.random() < 0.2])
                T.demand_sites[d.demand_id] = d
        T.name = rng.choice([None, "plan", "North & South", "<1>"])
        if case["stage"] == "raw":
            return T
        P = opt.make_params(case["params"])
        opt.install_plan(r.w, case["plan"])
        _, err = r.call("prepare", TO.prepare_topology_for_optimization, T, P, allow=(PlannerException,))
        if err is None and case["stage"] == "marked":
            ops.mark_unreachable_components(T, case["params"]["maximum_number_hops"])
        elif err is None and case["stage"] == "planned":
            try:
                TO.optimize_topology(T, P)
            except Exception:
                return None
        return T if err is None else None

    def gen_net(self, rng):
        net = opt.gen_network(rng, nmax=8)
        # sites of one name are told apart by their device when read, which is not what is tested here
        return {**net, "params": opt.gen_params(rng), "plan": opt.gen_plan(rng, rng.random() < 0.3),
                "stage": rng.choice(["raw", "raw", "marked", "planned", "planned"]), "dress": str(rng.random()),
                "names": rng.choice(["plain", "odd", "odd", "none"]), "demands": rng.choice([0, 0, 3])}

    def load(self, r, path, T, what):
        from terragraph_planner.common.data_io.utils import extract_topology_from_file
        from terragraph_planner.common.exceptions import PlannerException

        return r.call(what, extract_topology_from_file, path, devices(T), None, allow=(PlannerException,))


class RoundTrip(Saved):
    """every network the planner can hold is read back as it was saved"""
    name = "save-and-read"
    shrink = ("edges",)
    simplify = {"names": "plain", "demands": 0, "stage": "raw", "via": "kml", "locale": None}

    def gen(self, rng, faulty):
        return {**self.gen_net(rng), "via": rng.choice(["kml", "kml", "kmz", "dump"]), "locale": rng.choice([None, "ascii", "cp1252"]) if faulty else None}

    def run(self, case, r: Run):
        from terragraph_planner.common.configuration.enums import OutputFile
        from terragraph_planner.common.data_io import topology_serializer as S
        from terragraph_planner.common.exceptions import PlannerException
        from terragraph_planner.common.utils import current_system_params

        T = self.network(case, r)
        if T is None:
            r.note("no plan")
            return
        before = opt.snap(T)
        want = content(T)
        path = os.path.join(r.w.scratch, "n.kml")
        if case["locale"]:
            r.w.fault("host_encoding_" + case["locale"])
        with foreign_host(case["locale"]):
            if case["via"] == "dump":
                current_system_params.output_dir = r.w.scratch
                r.call("dump_topology_to_kml", S.dump_topology_to_kml, T, OutputFile.CANDIDATE_TOPOLOGY)
                path = os.path.join(r.w.scratch, "output", "candidate_topology.kml")
            else:
                r.call("write_to_kml_file", S.write_to_kml_file, T, path)
        r.check(opt.snap(T) == before, "save-changed", lambda: "saving changed the network: " + opt.diff(before, opt.snap(T)))
        r.check(os.path.exists(path), "not-saved", lambda: f"{path} does not exist")
        if case["via"] == "kmz":
            with zipfile.ZipFile(path[:-1] + "z", "w") as z:
                z.write(path, random.Random(case["dress"]).choice(["doc.kml", "a/doc.KML"]))
            path = path[:-1] + "z"
        U, err = self.load(r, path, T, "read back")
        r.check(err is None, "unreadable", lambda: f"the planner's own file cannot be read: {err}")
        got = content(U)
        r.check(got == want, "changed", lambda: diff(want, got))
        for l in T.links.values():
            a, b = self.named(T, l.tx_site), self.named(U, l.tx_site)
            m = next(x for x in U.links.values() if (x.tx_site.name, x.rx_site.name) == (l.tx_site.name, l.rx_site.name))
            c, d = l.confidence_level, m.confidence_level
            rev = T.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
            cs = [x for x in {c, rev.confidence_level if rev else c}]
            r.check(any((x is None) == (d is None) and (x is None or abs(x - d) < 0.0501) for x in cs), "confidence",
                    lambda: f"{l.tx_site.name}->{l.rx_site.name}: confidence {c} read as {d}")
        r.nontrivial = bool(T.links)
        r.note(case["stage"])
        r.state(sorted({s.status_type.name for s in T.sites.values()}), sorted({(l.status_type.name, l.link_type.name) for l in T.links.values()}))
        r.see(str(sorted(want["sites"], key=repr)))

    def named(self, T, s):
        return next((x for x in T.sites.values() if x.name == s.name), None)


class SaveFaults(Saved):
    """saving on a disk that fails, or dying meanwhile"""
    name = "save-faults"
    shrink = ("faults", "edges")
    simplify = {"names": "plain", "demands": 0}

    def gen(self, rng, faulty):
        fs = []
        for _ in range(rng.randint(1, 4) if faulty else 0):
            f = gen_disk_faults(rng, ("open", "write", "write", "write", "close"))
            f["nth"] = rng.randint(0, 3)
            f["crash"] = int(rng.random() < 0.4)
            fs.append(f)
        net = self.gen_net(rng)
        net["stage"] = rng.choice(["raw", "marked"])
        return {**net, "faults": fs, "old": rng.random() < 0.5}

    def run(self, case, r: Run):
        from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file
        from terragraph_planner.common.exceptions import PlannerException
        from terragraph_planner.common.topology_models.topology import Topology

        T = self.network(case, r)
        if T is None:
            return
        root = os.path.join(r.w.scratch, "disk")
        os.mkdir(root)
        path = os.path.join(root, "n.kml")
        want = content(T)
        older = None
        if case["old"]:  # an earlier, smaller plan is being replaced
            keep = list(T.sites.values())[: max(1, len(T.sites) // 2)]
            O = Topology(sites=keep)
            older = content(O)
        for f in case["faults"]:
            if os.path.exists(path):
                os.unlink(path)
            if older:
                r.call("write_to_kml_file", write_to_kml_file, O, path)
            if f["crash"]:
                err, fired = in_child(f, root, lambda: write_to_kml_file(T, path))
                if fired:
                    r.w.fault("crash_" + f["mask"] + ("_torn" if f["kind"] == "torn" else ""))
            else:
                _, err, fired = with_fault(r, root, f, lambda: write_to_kml_file(T, path), "save", (OSError, PlannerException))
                r.check(err is None or fired, "save-error", lambda: f"saving failed without a fault: {err}")
            r.nontrivial |= bool(fired)
            if os.path.exists(path):
                U, bad = self.load(r, path, T, "read back")
                got = None if bad else content(U)
            else:
                bad, got = "no file", None
            if err is None:
                r.check(got == want, "partial-save", lambda: f"{f}: saving reported success, reading back: {bad or diff(want, got)}")
            else:
                r.check(got is None or got == want or got == older, "partial-file-accepted",
                        lambda: f"{f}: a partly written file is read as another network: {diff(want, got)}")
            r.state(f["mask"], f["nth"], f["kind"], f["crash"], bool(fired), got is None)
            # the next attempt succeeds
            r.call("save again", write_to_kml_file, T, path)
            U, bad = self.load(r, path, T, "read back")
            r.check(not bad and content(U) == want, "save-after-failure", lambda: f"after a failed attempt: {bad or diff(want, content(U))}")
        r.see(len(case["faults"]), len(want["sites"]))


register("C09", RoundTrip(), SaveFaults())


# ------------------------------------------------------- surfaces and outlines


def make_surface(spec):
    import numpy as np
    from osgeo import osr
    from terragraph_planner.common.structs import UTMBoundingBox
    from terragraph_planner.los.elevation import Elevation

    nx, ny, res = spec["nx"], spec["ny"], spec["res"]
    rng = np.random.default_rng(spec["seed"])
    m = rng.uniform(-20, 300, size=(ny, nx)).astype(np.float32)
    if spec["holes"]:
        m[rng.random((ny, nx)) < 0.1] = -32768
    if spec.get("flat"):  # at sea level, but for some rows
        m[rng.random(ny) < spec["flat"], :] = 0.0
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(gen.EPSG)
    x0, y1 = gen.X0, gen.Y0
    box = UTMBoundingBox(x0 + int(nx * res), y1, x0, y1 - int(ny * res))
    return Elevation(m, box, res, res, x0, y1, sr, None)


def make_outlines(spec):
    from osgeo import osr
    from shapely.geometry import Polygon
    from terragraph_planner.los.building import Building
    from terragraph_planner.los.building_group import BuildingGroup

    rng = random.Random(spec["seed"])
    out = []
    for i in range(spec["n"]):
        x, y, w, h = rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(0.001, 0.1), rng.uniform(0.001, 0.1)
        p = [(x, y), (x, y + h), (x + w, y + h), (x + w, y)]
        if rng.random() < 0.3:
            p.insert(2, (x + w / 2, y + 1.5 * h))
        out.append(Building(Polygon(p)))
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(4326)
    return BuildingGroup(out, sr)


def shape(p):
    if p.geom_type != "Polygon":
        return [p.wkt]
    pts = [(round(x, 9), round(y, 9)) for x, y in p.exterior.coords][:-1]
    i = pts.index(min(pts))
    a = pts[i:] + pts[:i]
    return min(a, [a[0]] + a[:0:-1])


def near(a, b):
    """two outlines up to the precision of numbers written as text"""
    if len(a) != len(b) or isinstance(a[0], str) or isinstance(b[0], str):
        return a == b
    return all(abs(p[0] - q[0]) < 3e-9 and abs(p[1] - q[1]) < 3e-9 for p, q in zip(a, b))


def same_outlines(a, b):
    if a is None or b is None or len(a) != len(b):
        return a is b
    if all(near(p, q) for p, q in zip(a, b)):
        return True
    left = list(b)  # rounding may change the order and the first point
    for p in a:
        i = next((i for i, q in enumerate(left) if near(p, q) or not isinstance(p[0], str) and not isinstance(q[0], str)
                  and any(near(p, v) for j in range(len(q)) for v in (q[j:] + q[:j], (q[j:] + q[:j])[::-1]))), None)
        if i is None:
            return False
        left.pop(i)
    return True


class Surfaces(Scenario):
    """surface rasters and building outlines written and read back"""
    name = "surfaces"
    shrink = ("faults",)
    weight = 0.6

    def gen(self, rng, faulty):
        fs = []
        for _ in range(rng.randint(1, 3) if faulty else 0):
            f = gen_disk_faults(rng, ("open", "write", "write", "write", "write", "close"))
            f["nth"] = rng.randint(0, 12)
            f["crash"] = int(rng.random() < 0.4)
            fs.append(f)
        what = rng.choice(["raster", "outlines"])
        return {"what": what, "faults": fs, "nx": rng.randint(2, 120), "ny": rng.randint(2, 120), "res": rng.choice([1, 1, 2, 5]),
                "n": rng.choice([0, 1, 3, 40, 400]), "holes": rng.random() < 0.3, "flat": rng.choice([0, 0, 0.5, 1])}

    def run(self, case, r: Run):
        from terragraph_planner.common.data_io.building_group_loader import BuildingGroupLoader
        from terragraph_planner.common.data_io.elevation_loader import ElevationLoader
        from terragraph_planner.common.exceptions import PlannerException

        spec = dict(case)
        spec["seed"] = int(sim.digest(case["seed"]), 16) % 2**32
        root = os.path.join(r.w.scratch, "disk")
        os.mkdir(root)
        if case["what"] == "raster":
            D = make_surface(spec)
            path = os.path.join(root, "s.tif")
            want = (D.data_matrix.tolist(), D.x_resolution, D.y_resolution, D.left_top_x, D.left_top_y, D.crs_epsg_code)

            def save():
                ElevationLoader().write(path, D)

            def load():
                E = ElevationLoader().read([path], gen.EPSG, D.utm_bounding_box)
                return (E.data_matrix.tolist(), E.x_resolution, E.y_resolution, E.left_top_x, E.left_top_y, E.crs_epsg_code)
        else:
            D = make_outlines(spec)
            path = os.path.join(root, "b.zip")
            want = sorted(shape(b.polygon) for b in D.building_list)

            def save():
                BuildingGroupLoader().write(path, D)

            def load():
                G = BuildingGroupLoader().read(path)
                return sorted(shape(b.polygon) for b in G.building_list)
        PE = (PlannerException,)
        same = same_outlines if case["what"] == "outlines" else (lambda a, b: a == b)
        r.call("save", save)
        got, err = r.call("load", load, allow=PE)
        r.check(err is None and same(got, want), "changed", lambda: f"{case['what']} read back differs: {err or (str(want)[:200], str(got)[:200])}")
        for f in case["faults"]:
            os.unlink(path)
            # in a process of its own: the raster library itself may die on a failing disk
            err, fired = in_child(f, r.w.scratch, save)
            if fired:
                r.w.fault(("crash_" if f["crash"] else "disk_") + f["mask"] + "_" + f["kind"])
            r.check(err != "error" or fired, "save-error", "saving failed without a fault")
            r.nontrivial |= bool(fired)
            got, bad = r.call("load", load, allow=PE) if os.path.exists(path) else (None, "no file")
            if err is None:
                r.check(same(got, want), "partial-save", lambda: f"{f}: saving {case['what']} reported success, reading back: {bad or 'differs'}")
            else:
                r.check(got is None or same(got, want), "partial-file-accepted", lambda: f"{f}: partly written {case['what']} accepted: {str(got)[:200]}")
            r.state(case["what"], f["mask"], f["nth"], f["kind"], f["crash"], bool(fired), got is None)
            r.call("save again", save)
            got, bad = r.call("load", load, allow=PE)
            r.check(same(got, want), "save-after-failure", lambda: f"after a failed attempt: {bad or 'differs'}")
        r.see(case["what"], len(want))


register("C09", Surfaces())
