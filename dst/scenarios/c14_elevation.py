"""C14: elevation inputs mean the same wherever, whenever and in whatever pieces they are read."""
from __future__ import annotations

import calendar
import math
import os
import random
import time as _time

from .. import gen, sim
from ..scenario import Run, Scenario, register
from .c03_candidates import kml, polygon
from .c10_read import MASK
from .c13_report import ERRS, KIND

VOID = -32768
DAY = 86400.0


def stamp(t):
    g = _time.gmtime(t)
    return "%04d:%02d:%02d %02d:%02d:%02d" % g[:6]


def field(case, which, x, y):
    """the elevation at a place, x and y in metres from the origin"""
    a = case["field"][which]
    return a[0] + a[1] * x + a[2] * y


def write_tif(path, t, case, which):
    """one file: a rectangle of the field with its voids"""
    import numpy as np
    from osgeo import gdal, osr

    res = case["res"][which]
    nx, ny = t["nx"], t["ny"]
    sr = osr.SpatialReference()
    types = {"float32": gdal.GDT_Float32, "int16": gdal.GDT_Int16, "byte": gdal.GDT_Byte, "float64": gdal.GDT_Float64}
    if t["crs"] == "utm":
        sr.ImportFromEPSG(gen.EPSG)
        gt = [gen.X0 + t["x"], res, 0, gen.Y0 + t["y"] + ny * res, 0, -res]
        xs = t["x"] + (np.arange(nx) + 0.5) * res
        ys = t["y"] + (ny - np.arange(ny) - 0.5) * res
        X, Y = np.meshgrid(xs, ys)
    else:
        from pyproj import Transformer

        e = 4326 if t["crs"] == "ll" else 32611
        sr.ImportFromEPSG(e)
        sr.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        T = Transformer.from_crs(gen.EPSG, e, always_xy=True)
        q = [T.transform(gen.X0 + i, gen.Y0 + j) for i in (t["x"], t["x"] + nx * res) for j in (t["y"], t["y"] + ny * res)]
        x0, x1, y0, y1 = min(a for a, _ in q), max(a for a, _ in q), min(b for _, b in q), max(b for _, b in q)
        mx, my = (111320 * math.cos(math.radians(y0)), 110900) if t["crs"] == "ll" else (1, 1)
        nx, ny = math.ceil((x1 - x0) * mx / res), math.ceil((y1 - y0) * my / res)
        gt = [x0, (x1 - x0) / nx, 0, y1, 0, -(y1 - y0) / ny]
        back = Transformer.from_crs(e, gen.EPSG, always_xy=True)
        U, V = np.meshgrid(x0 + (np.arange(nx) + 0.5) * gt[1], y1 + (np.arange(ny) + 0.5) * gt[5])
        X, Y = back.transform(U, V)
        X, Y = X - gen.X0, Y - gen.Y0
    a = field(case, which, X, Y)
    nodata = {"byte": 255, "int16": -9999}.get(t["type"], t["nodata"])
    for x0, y0, x1, y1 in case["voids"][which]:
        a[(X > x0) & (X < x1) & (Y > y0) & (Y < y1)] = nodata
    if t["type"] in ("int16", "byte"):
        a = np.rint(a)
    ds = gdal.GetDriverByName("GTiff").Create(path, nx, ny, t["bands"], types[t["type"]], options=t["opts"])
    ds.SetGeoTransform(gt)
    if t["crs"] != "none":
        ds.SetSpatialRef(sr)
    for b in range(t["bands"]):
        ds.GetRasterBand(b + 1).SetNoDataValue(nodata)
    for b in range(t["bands"]):
        ds.GetRasterBand(b + 1).WriteArray(a)
    if t["date"] is not None:
        ds.SetMetadataItem("TIFFTAG_DATETIME", t["date"])
    ds = None
    if t.get("keep"):
        with open(path, "r+b") as fh:
            fh.truncate(int(os.path.getsize(path) * t["keep"]))


class Elevations(Scenario):
    """elevation files read through the planner's loader at changing clock times"""
    name = "elevations"
    shrink = ("faults", "times")

    def gen(self, rng, faulty):
        W = rng.choice([20, 40, 60])
        src = rng.choice(["dsm", "dsm", "dsm", "dtm+dhm", "dsm+dhm", "dsm+dtm"]).split("+")
        now = calendar.timegm((rng.randint(2015, 2040), rng.randint(1, 12), rng.randint(1, 28), 12, 0, 0))
        exact = rng.random() < 0.6  # grids on whole metres, so every cell is known exactly
        res0 = rng.choice([1, 1, 2]) if exact else rng.choice([0.5, 1, 1.3, 2])
        M = 6 * 2
        case = {"W": W, "src": src, "now": now, "exact": exact, "res": {}, "field": {}, "voids": {}, "tiles": {}, "times": [], "faults": [],
                "tz": rng.choice(["UTC", "UTC", "America/Los_Angeles", "Asia/Tokyo"])}
        dated = rng.random() < 0.6
        for k in src:
            res = case["res"][k] = res0
            typ = rng.choice(["float32", "float32", "float64", "int16", "byte"])
            case["field"][k] = [rng.choice([0, 30, 150] if typ != "byte" else [40, 100]) if k != "dhm" else rng.choice([0, 100] if typ != "byte" else [20, 100]), rng.choice([0, 0.5, 0.9]), rng.choice([0, 0.2, 0.7])]
            case["voids"][k] = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                x, y = rng.randint(0, W), rng.randint(0, W)
                case["voids"][k].append([x, y, x + rng.randint(2, 20), y + rng.randint(2, 20)])
            lo = -M if rng.random() < 0.8 else rng.randint(-M, W // 2) // 2 * 2
            hi = W + M
            n = int((hi - lo) / res)
            crs = rng.choice(["ll", "z11"]) if not exact and rng.random() < 0.5 else "utm"
            off = 0.0 if exact else rng.choice([0, 0.25, 0.5])
            parts = [0, n]
            if k == "dsm":
                parts = sorted({0, n, *[rng.randint(1, n - 1) for _ in range(rng.choice([0, 0, 1, 2, 3]))]})
            T = []
            for i, j in zip(parts, parts[1:]):
                d = None
                if dated and rng.random() < 0.8:
                    q = rng.random()
                    d = stamp(now - rng.uniform(2, 7298) * DAY) if q < 0.85 else stamp(now + rng.uniform(2, 4000) * DAY) if q < 0.9 else \
                        stamp(now - rng.uniform(7302, 12000) * DAY) if q < 0.95 else rng.choice(["2020-01-01 00:00:00", "unknown", "*", "2021:13:01 00:00:00"])
                T.append({"x": lo + i * res + off, "y": -M + off, "nx": j - i, "ny": int((W + 2 * M) / res), "date": d, "crs": crs, "type": typ, "bands": 1,
                          "nodata": rng.choice([VOID, -9999.0, -3.4e38]), "opts": rng.choice([[], ["COMPRESS=LZW"], ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"]])})
            order = list(range(len(T)))
            rng.shuffle(order)
            case["tiles"][k] = [T[o] for o in order]
        if rng.random() < 0.12:
            t = rng.choice(case["tiles"][rng.choice(src)])
            q = rng.choice(["bands", "crs", "keep"])
            t[q] = {"bands": 2, "crs": "none", "keep": rng.choice([0.0, 0.01, 0.3, 0.9])}[q]
        for _ in range(rng.randint(0, 3)):
            case["times"].append(rng.choice([-1, 1]) * rng.choice([3, 400, 3000, 7500]) * DAY)
        for _ in range(rng.randint(1, 3) if faulty else 0):
            m = rng.choice(["open", "read", "read", "read"])
            case["faults"].append({"mask": m, "nth": rng.randint(0, 6) if rng.random() < 0.5 else rng.randint(0, 60), "kind": "errno",
                                   "err": rng.choice(["EIO", "EACCES", "EMFILE"] if m == "open" else ["EIO"]), "sticky": int(rng.random() < 0.3)})
        case["probe"] = rng.randrange(1 << 30)
        return case

    def run(self, case, r: Run):
        import numpy as np
        from terragraph_planner.common.configuration.configs import GISDataParams
        from terragraph_planner.common.exceptions import PlannerException
        from terragraph_planner.los import core

        w = r.w
        W = case["W"]
        d = os.path.join(w.scratch, "in")
        os.mkdir(d)
        os.environ["TZ"] = case["tz"]
        _time.tzset()
        try:
            kml(os.path.join(d, "b.kml"), polygon("b", [(0.2, 0.2), (0.2, W - 0.2), (W - 0.2, W - 0.2), (W - 0.2, 0.2)]))
            g = {"boundary_polygon_file_path": os.path.join(d, "b.kml")}
            for k in case["src"]:
                ps = []
                for i, t in enumerate(case["tiles"][k]):
                    ps.append(os.path.join(d, f"{k}{i}.tif"))
                    write_tif(ps[-1], t, case, k)
                if k == "dsm":
                    g["dsm_file_paths"] = ps
                else:
                    g[k + "_file_path"] = ps[0]
            GP = GISDataParams(**g)

            first = None
            w.clock.now = case["now"]
            for dt in [0.0, *case["times"], 0.0]:
                w.clock.now = case["now"] + dt
                v, err = r.call("load_gis_data", core.load_gis_data, GP, allow=(PlannerException,))
                why = self.refusal(case, w.clock.now)
                if why == "?":
                    r.note("date near a limit")
                elif why:
                    r.check(err is not None, "accepted", lambda: f"accepted although {why}")
                    r.note("refused")
                else:
                    if err is not None and "same metadata" in str(err) and not case["exact"]:
                        r.note("grids that do not match")
                        continue
                    r.check(err is None, "refused", lambda: f"valid elevation data refused: {err}")
                if err is None:
                    S, T = v[1], v[2]
                    if first is None:
                        first = (S.data_matrix.copy(), T.data_matrix.copy() if T is not None else None)
                        self.check_surface(case, r, S, T, GP)
                    else:
                        r.check(same(first, (S.data_matrix, T.data_matrix if T is not None else None)), "time-dependent", "the same files give another surface later")
                    r.nontrivial = True
            for f in case["faults"]:
                w.clock.now = case["now"]
                sim.DISK.arm(w.scratch, MASK[f["mask"]], f["nth"], KIND[f["kind"]], ERRS[f["err"]], f["sticky"])
                try:
                    v, e = core.load_gis_data(GP), None
                except Exception as x:
                    v, e = None, x
                finally:
                    hit = sim.DISK.fired()
                    sim.DISK.disarm()
                if hit:
                    w.fault(f"disk_{f['mask']}_{f['err']}", hit)
                if e is None:
                    r.check(first is not None and same(first, (v[1].data_matrix, v[2].data_matrix if v[2] is not None else None)), "partial-read",
                            lambda: f"{f}: the failing read gave another surface without an error")
                r.state(f["mask"], f["nth"], e is None, bool(hit))
            r.state(tuple(case["src"]), case["exact"], len(case["tiles"][case["src"][0]]), first is None)
            if first is not None:
                r.see(sim.digest(first[0].tolist()))
        finally:
            os.environ["TZ"] = "UTC"
            _time.tzset()

    def refusal(self, case, now):
        """why the files must be refused at this time"""
        unsure = False
        for k in case["src"]:
            for t in case["tiles"][k]:
                if t["bands"] != 1:
                    return f"{k} has {t['bands']} bands"
                if t["crs"] == "none":
                    return f"{k} has no coordinate system"
                if t.get("keep") is not None:
                    unsure = True  # what is missing may lie outside the area
                if t["date"] is None:
                    continue
                try:
                    at = calendar.timegm(_time.strptime(t["date"], "%Y:%m:%d %H:%M:%S"))
                except ValueError:
                    return f"{k} has the date {t['date']}"
                if abs(now - at) < 1.5 * DAY or abs(now - at - 7300 * DAY) < 1.5 * DAY:
                    unsure = True
                elif at > now:
                    return f"{k} is from the future ({t['date']})"
                elif now - at > 7300 * DAY:
                    return f"{k} is older than 20 years ({t['date']})"
        return "?" if unsure else None

    def expect(self, case, k, x, y, slack):
        """(lowest, highest value, surely void, maybe void) around a place"""
        res = case["res"][k]
        e = slack
        vals = [field(case, k, x + i * e, y + j * e) for i in (-1, 1) for j in (-1, 1)]
        T = case["tiles"][k]
        x0, x1 = min(t["x"] for t in T), max(t["x"] + t["nx"] * res for t in T)
        y0, y1 = T[0]["y"], T[0]["y"] + T[0]["ny"] * res
        inside = x0 < x < x1 and y0 < y < y1
        near = x0 - e < x < x1 + e and y0 - e < y < y1 + e
        deep = x0 + e < x < x1 - e and y0 + e < y < y1 - e
        V = case["voids"][k]
        void = any(a < x < c and b < y < d for a, b, c, d in V)
        deepvoid = any(a + e < x < c - e and b + e < y < d - e for a, b, c, d in V)
        nearvoid = any(a - e < x < c + e and b - e < y < d + e for a, b, c, d in V)
        rnd = 0.51 if T[0]["type"] in ("int16", "byte") else 0.001
        return min(vals) - rnd, max(vals) + rnd, deepvoid or not near and T[0]["crs"] == "utm", nearvoid or not deep, void or not inside

    def check_surface(self, case, r, S, T, GP):
        import numpy as np

        src = case["src"]
        W = case["W"]
        res = case["res"][src[0]]
        for E, which in ((S, "surface"), (T, "terrain")):
            # the formula of each
            if which == "surface":
                f = ["dsm"] if "dsm" in src else ["dtm", "dhm"]
                sign = [1, 1]
            else:
                f = ["dtm"] if "dtm" in src else ["dsm", "dhm"] if len(src) == 2 else None
                sign = [1, -1] if f and len(f) == 2 else [1]
            if f is None:
                r.check(E is None, "invented", f"{which} from {src}")
                continue
            r.check(E is not None, "lost", lambda: f"no {which} from {src}")
            ny, nx = E.data_matrix.shape if E.data_matrix.ndim == 2 else (0, 0)
            r.check(abs(nx * E.x_resolution - W) <= 2.1 * res and abs(ny * E.y_resolution - W) <= 2.1 * res, "extent", lambda: f"{which}: {E.data_matrix.shape} cells of {E.x_resolution} for {W} m")
            r.check(abs(E.left_top_x - gen.X0) <= 1.1 * res and abs(E.left_top_y - gen.Y0 - W) <= 1.1 * res, "extent", lambda: f"{which} starts at {E.left_top_x - gen.X0}, {E.left_top_y - gen.Y0}")
            slack = 1e-6 if case["exact"] else 1.6 * res
            n = 0
            for j in range(ny):
                for i in range(nx):
                    x = E.left_top_x - gen.X0 + (i + 0.5) * E.x_resolution
                    y = E.left_top_y - gen.Y0 - (j + 0.5) * E.y_resolution
                    lo = hi = 0.0
                    sure = maybe = False
                    for k, s in zip(f, sign):
                        a, b, v, m, _ = self.expect(case, k, x, y, slack)
                        lo, hi = (lo + a, hi + b) if s > 0 else (lo - b, hi - a)
                        sure, maybe = sure or v, maybe or m
                    z = float(E.data_matrix[j, i])
                    if z == VOID:
                        r.check(maybe, "lost-value", lambda: f"{which}: no value at {x},{y}, expected {lo}..{hi}")
                    else:
                        r.check(not sure and lo <= z <= hi, "wrong-value", lambda: f"{which}: {z} at {x},{y}, expected {'void' if sure else (lo, hi)}")
                        n += 1
            if not n:
                continue
            self.check_queries(case, r, E, which)
            # values at places, and places without a value
            rng = random.Random(case["probe"])
            known = E.data_matrix[E.data_matrix != VOID]
            a, b = float(known.min()), float(known.max())
            for _ in range(8):
                x, y = rng.uniform(0, W), rng.uniform(0, W)
                z, err = r.call("get_value", E.get_value, gen.X0 + x, gen.Y0 + y)
                lo = hi = 0.0
                maybe = False
                for k, s in zip(f, sign):
                    p, q, _, m, _ = self.expect(case, k, x, y, 2.1 * res)
                    lo, hi = (lo + p, hi + q) if s > 0 else (lo - q, hi - p)
                    maybe |= m
                r.check(a - 0.001 <= z <= b + 0.001, "invented-value", lambda: f"{which}: {z} at {x},{y}, data has {a}..{b}")
                r.check(maybe or lo <= z <= hi, "wrong-value-at", lambda: f"{which}: {z} at {x},{y}, expected {lo}..{hi}")


    def check_queries(self, case, r, E, which):
        """the answer for a place or an area does not depend on what was asked before"""
        import copy

        import numpy as np

        rng = random.Random(case["probe"] + 1)
        W = case["W"]
        pristine = E.data_matrix.copy()
        if not (pristine != VOID).any():
            return
        empty = np.argwhere(pristine == VOID)
        places = []
        for _ in range(rng.randint(4, 24)):
            if len(empty) and rng.random() < 0.7:  # several places around one node without a value
                j, i = (int(v) for v in rng.choice(list(empty[:4]) if rng.random() < 0.3 else empty))
                x, y = E.idx_to_utm(i, j)
                for _ in range(rng.randint(1, 3)):
                    places.append((x + rng.uniform(-0.49, 0.49) * E.x_resolution, y + rng.uniform(-0.49, 0.49) * E.y_resolution))
            else:
                places.append((gen.X0 + rng.uniform(-2, W + 2), gen.Y0 + rng.uniform(-2, W + 2)))
        rng.shuffle(places)

        def ask(order):
            F = copy.copy(E)
            F.data_matrix, F.elevation_kd_tree = pristine.copy(), None
            return {k: r.call("get_value", F.get_value, *places[k])[0] for k in order}, F

        a, F = ask(range(len(places)))
        b, _ = ask(reversed(range(len(places))))
        for k in sorted(a):
            r.check(a[k] == b[k], "query-order", lambda: f"{which}: {a[k]} or {b[k]} at {places[k][0] - gen.X0:.3f},{places[k][1] - gen.Y0:.3f}, depending on what was asked before")
        for _ in range(rng.randint(2, 8)):
            x = rng.choice([gen.X0, gen.X0 + W, gen.X0 + rng.uniform(0, W)]) + rng.uniform(-3, 3)
            y = rng.choice([gen.Y0, gen.Y0 + W, gen.Y0 + rng.uniform(0, W)]) + rng.uniform(-3, 3)
            q = (x, y, x + rng.uniform(0.3, 6), y + rng.uniform(0.3, 6))
            m, _ = r.call("get_value_matrix_within_bound", F.get_value_matrix_within_bound, *q)
            xs = [i for i in range(pristine.shape[1]) if q[0] <= E.left_top_x + i * E.x_resolution <= q[2]]
            ys = [j for j in range(pristine.shape[0]) if q[1] <= E.left_top_y - j * E.y_resolution <= q[3]]
            r.check(bool(xs and ys) <= (m.shape == (len(ys), len(xs))), "area-cells", lambda: f"{which}: {m.shape} values within {[round(v, 2) for v in q]} (from {gen.X0},{gen.Y0}), {len(ys)}x{len(xs)} nodes lie there")
            if xs and ys:
                r.check(all(m[j, i] in (pristine[v, u], F.data_matrix[v, u]) for j, v in enumerate(ys) for i, u in enumerate(xs)), "area-values", lambda: f"{which}: other values within {q}")
            else:
                r.check(m.shape == (1, 1), "area-cells", lambda: f"{which}: {m.shape} values where no node lies")


def same(a, b):
    import numpy as np

    return all((x is None) == (y is None) and (x is None or (x.shape == y.shape and np.array_equal(x, y))) for x, y in zip(a, b))


register("C14", Elevations())
