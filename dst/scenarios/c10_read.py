"""C10: loading inputs from failing disks and damaged archives is all-or-nothing and leaves nothing behind."""
from __future__ import annotations

import csv
import gc
import json
import os
import pickle
import random
import shutil
import tempfile
import zipfile
from enum import Enum

from .. import gen, sim
from ..scenario import Run, Scenario, register
from . import opt
from .c09_files import Saved, content, make_outlines, make_surface, shape
from .c13_report import ERRS, KIND

MASK = {"open": 1, "read": 4, "openw": 2, "write": 8, "mkdir": 32, "any": 1 | 2 | 4 | 8 | 32}


def handles(root):
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if t.startswith(root):
            out.append(t)
    return sorted(out)


def attempt(f, root, fn):
    """fn in a forked process on the failing disk -> dict(state, value, fired, left, open)"""
    rp, wp = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            base = handles(root)
            if f:
                sim.DISK.arm(root, MASK[f["mask"]], f["nth"], KIND[f["kind"]], ERRS[f["err"]], f["sticky"])
            try:
                out = {"state": "ok", "value": fn()}
            except Exception as e:
                out = {"state": "error", "value": f"{type(e).__name__}: {e}"[:300]}
                e = None
            out["fired"] = sim.DISK.fired() if f else 0
            sim.DISK.disarm()
            gc.collect()
            out["left"] = sorted(os.listdir(tempfile.gettempdir()))
            out["open"] = [h for h in handles(root) if h not in base]
            os.close(rp)
            with os.fdopen(wp, "wb") as fh:
                pickle.dump(out, fh)
        finally:
            os._exit(0)
    os.close(wp)
    with os.fdopen(rp, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        return {"state": "died", "value": None, "fired": 1, "left": [], "open": []}
    return pickle.loads(data)


def plain(x, deep=0):
    if isinstance(x, Enum) or isinstance(x, type):
        return str(x)
    if type(x).__module__ == "builtins" and not isinstance(x, (list, tuple, dict, set, frozenset)):
        return repr(x)
    if isinstance(x, dict):
        return {str(k): plain(v, deep + 1) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted(str(plain(v, deep + 1)) for v in x)
    if isinstance(x, (list, tuple)):
        return [plain(v, deep + 1) for v in x]
    if hasattr(x, "__dict__") and deep < 5:
        return {k: plain(v, deep + 1) for k, v in vars(x).items()}
    return type(x).__name__


class Inputs(Saved):
    name = "read-inputs"
    shrink = ("faults", "edges")
    simplify = {"names": "plain", "demands": 0}

    FORMATS = ["kml", "kmz", "csvzip", "csvzip", "sites.csv", "sites.kml", "zones.kml", "zones.kmz", "shp", "shp", "outlines.kml", "tif", "tif",
               "antenna", "scan", "mcs", "config"]

    def gen(self, rng, faulty):
        fmt = rng.choice(self.FORMATS)
        net = self.gen_net(rng)
        net["stage"] = "raw"
        fs = []
        for _ in range(rng.randint(1, 4) if faulty else 0):
            arch = fmt in ("kmz", "csvzip", "zones.kmz", "shp")
            u = rng.random()
            if u < 0.55:
                m = rng.choice(["open", "read", "read", "read", "any"] + (["openw", "write", "mkdir"] if arch else []))
                fs.append({"k": "disk", "mask": m, "nth": rng.randint(0, 3) if rng.random() < 0.6 else rng.randint(0, 30),
                           "kind": "short" if m in ("read", "write") and rng.random() < 0.3 else "torn" if m == "write" and rng.random() < 0.3 else "errno",
                           "err": rng.choice(["EIO", "EACCES", "EMFILE"] if m != "write" else ["ENOSPC", "EIO"]), "sticky": int(rng.random() < 0.4)})
            elif u < 0.75:
                fs.append({"k": "truncate", "at": rng.random() if rng.random() < 0.8 else 1.0, "less": rng.randint(1, 40)})
            elif u < 0.85 and arch:
                fs.append({"k": "flip", "at": rng.random(), "bit": rng.randrange(8)})
            elif u < 0.95 and arch:
                fs.append({"k": rng.choice(["cut-member", "drop-member"]), "m": rng.randrange(8), "at": rng.random()})
            else:
                fs.append({"k": "missing", "m": rng.randrange(4)})
        return {**net, "fmt": fmt, "faults": fs, "nx": rng.randint(4, 60), "ny": rng.randint(4, 60), "res": 1, "holes": False,
                "n": rng.choice([1, 3, 40, 200]), "mac": rng.random() < 0.3, "tiles": rng.choice([1, 2]), "comp": rng.choice([None, "DEFLATE", "LZW"])}

    # -- writing the inputs (not the code under test unless noted)
    def make(self, case, r, d):
        """-> (files written, loader, expected number of elements or None)"""
        from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file

        fmt = case["fmt"]
        rng = random.Random(case["dress"])
        p = lambda n: os.path.join(d, n)
        spec = dict(case, seed=int(sim.digest(case["seed"]), 16) % 2**32)
        if fmt in ("kml", "kmz", "sites.kml", "csvzip", "sites.csv"):
            T = self.network(case, r)
            from terragraph_planner.common.data_io.input_sites_loader import InputSitesLoader
            from terragraph_planner.common.data_io.utils import extract_topology_from_file

            def load_topology(path):
                def load():
                    return content(extract_topology_from_file(path, [gen.make_device(x) for x in gen.DEVICES], None))
                return load

            def load_sites(path):
                def load():
                    S = InputSitesLoader([gen.make_device(x) for x in gen.DEVICES]).read_user_input(path, None, None)
                    return sorted(((s.name, s.site_type.name, s.latitude, s.longitude, s.altitude, s.device.device_sku) for s in S), key=repr)
                return load

            if fmt in ("kml", "kmz", "sites.kml"):
                write_to_kml_file(T, p("n.kml"))
                if fmt == "kmz":
                    with zipfile.ZipFile(p("n.kmz"), "w", zipfile.ZIP_DEFLATED) as z:
                        z.write(p("n.kml"), "doc.kml")
                        z.writestr("files/readme.txt", "x" * rng.randrange(500))
                    os.unlink(p("n.kml"))
                    return [p("n.kmz")], load_topology(p("n.kmz")), len(T.sites)
                return [p("n.kml")], (load_topology if fmt == "kml" else load_sites)(p("n.kml")), len(T.sites)
            for i, s in enumerate(T.sites.values()):
                s.name = f"S{i}"
            rows = [["Name", "Type", "Latitude", "Longitude", "Altitude", "Device SKU"]]
            rows += [[s.name, s.site_type.name, s.latitude, s.longitude, "" if s.altitude is None else s.altitude, s.device.device_sku]
                     for s in T.sites.values()]
            if any(x[4] == "" for x in rows):
                rows = [x[:4] + x[5:] for x in rows]
            style = rng.choice(["pair", "tx", "sites"])
            pairs = [(l.tx_site.name, l.rx_site.name) for l in T.links.values()]
            if style == "sites":
                pairs = sorted({tuple(sorted(x)) for x in pairs})
            links = {"pair": [["Sites"]] + [["-->".join(x)] for x in pairs], "tx": [["tx_site", "rx_site"]] + [list(x) for x in pairs],
                     "sites": [["site1", "site2"]] + [list(x) for x in pairs]}[style]
            if fmt == "sites.csv":
                with open(p("s.csv"), "w", newline="") as fh:
                    csv.writer(fh).writerows(rows)
                return [p("s.csv")], load_sites(p("s.csv")), len(T.sites)
            for n, t in (("sites.csv", rows), ("links.csv", links)):
                with open(p(n), "w", newline="") as fh:
                    csv.writer(fh).writerows(t)
            with zipfile.ZipFile(p("n.zip"), "w", zipfile.ZIP_DEFLATED if rng.random() < 0.7 else zipfile.ZIP_STORED) as z:
                z.write(p("sites.csv"), "sites.csv")
                z.write(p("links.csv"), "links.csv")
            os.unlink(p("sites.csv")), os.unlink(p("links.csv"))
            return [p("n.zip")], load_topology(p("n.zip")), len(T.sites)
        if fmt in ("zones.kml", "zones.kmz", "outlines.kml"):
            from terragraph_planner.common.data_io.building_group_loader import BuildingGroupLoader
            from terragraph_planner.common.data_io.kml_library import extract_polygons

            G = make_outlines(spec)
            body = "".join(
                "<Placemark><name>z</name><Polygon><outerBoundaryIs><LinearRing><coordinates>"
                + " ".join(f"{x!r},{y!r},0" for x, y in b.polygon.exterior.coords) + "</coordinates></LinearRing></outerBoundaryIs></Polygon></Placemark>\n"
                for b in G.building_list)
            doc = f'<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><Folder><name>f</name>{body}</Folder></Document></kml>'
            with open(p("z.kml"), "w") as fh:
                fh.write(doc)
            path = p("z.kml")
            if fmt == "zones.kmz":
                with zipfile.ZipFile(p("z.kmz"), "w", zipfile.ZIP_DEFLATED) as z:
                    z.write(path, "doc.kml")
                os.unlink(path)
                path = p("z.kmz")
            if fmt == "outlines.kml":
                return [path], lambda: sorted(shape(b.polygon) for b in BuildingGroupLoader().read(path).building_list), len(G.building_list)
            return [path], lambda: sorted(shape(q) for q in extract_polygons(path)), len(G.building_list)
        if fmt == "shp":
            from terragraph_planner.common.data_io.building_group_loader import BuildingGroupLoader

            G = make_outlines(spec)
            BuildingGroupLoader().write(p("b.zip"), G)
            if case["mac"]:
                with zipfile.ZipFile(p("b.zip"), "a") as z:
                    z.writestr("__MACOSX/", "")
                    z.writestr("__MACOSX/._buildings.shp", "mac")
            return [p("b.zip")], lambda: sorted(shape(b.polygon) for b in BuildingGroupLoader().read(p("b.zip")).building_list), len(G.building_list)
        if fmt == "tif":
            from osgeo import gdal
            from terragraph_planner.common.data_io.elevation_loader import ElevationLoader

            D = make_surface(spec)
            ElevationLoader().write(p("all.tif"), D)
            nx = case["nx"]
            parts = [(0, nx)] if case["tiles"] == 1 else [(0, nx // 2), (nx // 2, nx - nx // 2)]
            files = []
            for i, (a, w) in enumerate(parts):
                files.append(p(f"t{i}.tif"))
                gdal.Translate(files[-1], p("all.tif"), srcWin=[a, 0, w, case["ny"]], creationOptions=["COMPRESS=" + case["comp"]] if case["comp"] else [])
            os.unlink(p("all.tif"))

            def load():
                E = ElevationLoader().read(files, gen.EPSG, D.utm_bounding_box)
                return (E.data_matrix.tolist(), E.x_resolution, E.y_resolution, E.left_top_x, E.left_top_y)
            return files, load, None
        if fmt == "antenna":
            from terragraph_planner.common.data_io.csv_library import read_antenna_pattern_data

            with open(p("a.txt"), "w") as fh:
                for k in range(rng.choice([1, 2])):
                    fh.write(f"NAME, ant{k}\nHORIZONTAL, 360\n" + "".join(f"{i}, {rng.uniform(0, 40):.2f}\n" for i in range(360)))
                    fh.write("VERTICAL, 360\n" + "".join(f"{i}, {rng.uniform(0, 40):.2f}\n" for i in range(360)))
            return [p("a.txt")], lambda: read_antenna_pattern_data(p("a.txt")), None
        if fmt == "scan":
            from terragraph_planner.common.data_io.csv_library import read_scan_pattern_data

            cols = list(range(-30, 31, 5))
            with open(p("s.csv"), "w") as fh:
                fh.write("az," + ",".join(map(str, cols)) + "\n")
                for h in range(-45, 46):
                    fh.write(f"{h}," + ",".join(f"{rng.uniform(0, 30):.2f}" for _ in cols) + "\n")
            return [p("s.csv")], lambda: read_scan_pattern_data(p("s.csv")), None
        if fmt == "mcs":
            from terragraph_planner.common.configuration.configs import SectorParams
            from terragraph_planner.common.data_io.csv_library import read_mcs_snr_mbps_map_data

            with open(p("m.csv"), "w") as fh:
                fh.write("MCS,SNR,Mbps,tx_backoff\n")
                for i in range(13):
                    fh.write(f"{i},{i * 2 + 3},{i * 150 + 25},{i // 4}\n")
            return [p("m.csv")], lambda: [tuple(x) for x in read_mcs_snr_mbps_map_data(p("m.csv"), SectorParams())], None
        import yaml
        import terragraph_planner
        from terragraph_planner.common.configuration.constants import LINE_OF_SIGHT, OPTIMIZATION
        from terragraph_planner.common.configuration.utils import struct_objects_from_file

        with open(os.path.join(os.path.dirname(terragraph_planner.__file__), "data", "sample_plan", "config.yaml")) as fh:
            cfg = yaml.safe_load(fh)
        cfg["LINE_OF_SIGHT"].update(MAXIMUM_LOS_DISTANCE=rng.randint(100, 300), FRESNEL_RADIUS=rng.choice([0.5, 1.0]))
        cfg["RADIO"].update(RAIN_RATE=rng.randint(0, 60))
        ext = rng.choice(["yaml", "yml", "json"])
        with open(p("c." + ext), "w") as fh:
            (json if ext == "json" else yaml).dump(cfg, fh, indent=1)
        return [p("c." + ext)], lambda: [plain(struct_objects_from_file(k, p("c." + ext))) for k in (LINE_OF_SIGHT, OPTIMIZATION)], None

    #: damage a reader can recognise, by format (cutting plain text short leaves plain text)
    DAMAGE = {
        "kml": {"truncate", "missing"}, "sites.kml": {"truncate", "missing"}, "zones.kml": {"truncate", "missing"}, "outlines.kml": {"truncate", "missing"},
        "kmz": {"truncate", "flip", "missing", "cut-member", "drop-member"}, "zones.kmz": {"truncate", "flip", "missing", "cut-member", "drop-member"},
        "csvzip": {"truncate", "flip", "missing", "drop-member"}, "shp": {"truncate", "flip", "missing", "cut-member", "drop-member"},
        "tif": {"truncate", "missing"},
    }

    def damage(self, case, f, files, rng):
        """-> True if the files were damaged"""
        if f["k"] not in self.DAMAGE.get(case["fmt"], {"missing"}):
            return False
        path = files[f.get("m", 0) % len(files)] if f["k"] == "missing" else files[rng.randrange(len(files))]
        if f["k"] == "missing":
            os.unlink(path)
            return True
        with open(path, "rb") as fh:
            b = bytearray(fh.read())
        if f["k"] == "truncate":
            b = b[: int(len(b) * f["at"])] if f["at"] < 1 else b[: -f["less"]]
            if case["fmt"].endswith("kml") and b.endswith(b"</kml>"):
                return False
        elif f["k"] == "flip":
            b[int(len(b) * f["at"])] ^= 1 << f["bit"]
        else:
            with zipfile.ZipFile(path) as z:
                ms = [(i.filename, z.read(i)) for i in z.infolist() if not i.filename.startswith(("__MACOSX", "files/")) and not i.filename.endswith((".prj", ".dbf"))]
                rest = [(i.filename, z.read(i)) for i in z.infolist() if i.filename not in [m[0] for m in ms]]
            k = f["m"] % len(ms)
            n, data = ms[k]
            ms[k:k + 1] = [] if f["k"] == "drop-member" else [(n, data[: int(len(data) * f["at"])])]
            with zipfile.ZipFile(path, "w") as z:
                for n, data in ms + rest:
                    z.writestr(n, data)
            return True
        with open(path, "wb") as fh:
            fh.write(b)
        return True

    def run(self, case, r: Run):
        fmt = case["fmt"]
        root = r.w.scratch
        d = os.path.join(root, "in")
        os.mkdir(d)
        files, load, n = self.make(case, r, d)
        gc.collect()
        tmp = sorted(os.listdir(tempfile.gettempdir()))
        keep = {p: open(p, "rb").read() for p in files}
        a = attempt(None, root, load)
        r.check(a["state"] == "ok", "unreadable", lambda: f"{fmt}: intact input is rejected: {a['value']}")
        want = a["value"]
        if n is not None:
            k = len(want["sites"] if isinstance(want, dict) and "sites" in want else want)
            r.check(k == n, "incomplete", lambda: f"{fmt}: {n} elements in the input, {k} read")

        def clean(x, what, f={}):
            for y in set(os.listdir(tempfile.gettempdir())) - set(tmp):
                shutil.rmtree(os.path.join(tempfile.gettempdir(), y), ignore_errors=True)
            # failing opens may also keep a directory from being removed
            r.check(x["left"] == tmp or f.get("mask") in ("any", "open"), "debris", lambda: f"{fmt}: {what}: temporary files left behind: {[y for y in x['left'] if y not in tmp]}")
            r.check(not x["open"], "handles", lambda: f"{fmt}: {what}: still open: {[os.path.basename(y) for y in x['open']]}")

        clean(a, "intact input")
        for f in case["faults"]:
            for p, b in keep.items():
                with open(p, "wb") as fh:
                    fh.write(b)
            if f["k"] == "disk":
                x = attempt(f, root, load)
                hit = x["fired"]
                if hit:
                    r.w.fault(f"disk_{f['mask']}_{f['kind']}" + ("" if f["kind"] == "short" else "_" + f["err"]), hit)
                r.check(hit or x["state"] == "ok", "spurious-error", lambda: f"{fmt}: failed without a fault: {x['value']}")
            else:
                if not self.damage(case, f, files, random.Random(case["dress"])):
                    continue
                r.w.fault("input_" + f["k"])
                x, hit = attempt(None, root, load), 1
            r.nontrivial |= bool(hit)
            r.state(fmt, f["k"], f.get("mask"), f.get("nth"), f.get("kind"), x["state"], bool(hit))
            if x["state"] == "died":
                r.note("native library died")
                continue
            if x["state"] == "ok":
                r.check(x["value"] == want, "partial", lambda: f"{fmt}: {f}: read as something else: {self.brief(want)} became {self.brief(x['value'])}")
            clean(x, f"after {f} ({x['state']}: {x['value'] if x['state'] == 'error' else ''})", f)
            r.note("rejected" if x["state"] == "error" else "read completely")
        for p, b in keep.items():
            with open(p, "wb") as fh:
                fh.write(b)
        a = attempt(None, root, load)
        r.check(a["state"] == "ok" and a["value"] == want, "after-failure", lambda: f"{fmt}: intact input after failures: {a['state']}")
        r.see(fmt, self.brief(want))

    @staticmethod
    def brief(v):
        if isinstance(v, dict) and "sites" in v:
            return {k: len(x) for k, x in v.items()}
        if isinstance(v, (list, dict)):
            return f"{len(v)} elements " + sim.digest(repr(v))
        if isinstance(v, tuple):
            return f"raster {len(v[0])}x{len(v[0][0])} at {v[1:]} " + sim.digest(repr(v))
        return str(v)[:100]


register("C10", Inputs())
