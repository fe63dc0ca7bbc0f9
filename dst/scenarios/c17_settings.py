"""C17: histories of configuration files, read from a disk that may fail, against an own table of the documented fields."""
from __future__ import annotations

import csv
import io
import json
import logging
import os
import random
import sys

from .. import gen, sim
from ..scenario import Run, Scenario, register
from .c10_read import MASK, handles
from .c13_report import ERRS, KIND

REQ = object()
NUL = None
B = (True, False)

# Written from data/template.yaml: field -> (default, values a user may give, values that must be refused)
SYSTEM = {
    "OUTPUT_DIR": ("./", ["./", "out", "b/c"], []), "DEBUG_MODE": (False, B, []),
    "LOGGER_LEVEL": ("INFO", ["NOTSET", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "error", "Debug"], ["LOUD"]),
    "LOG_FILE": (None, ["x.log", "y.log", "sub/z.log"], []), "LOG_TO_STDERR": (True, [False], []),
}
DATA = {
    "BOUNDARY_POLYGON_FILE_PATH": (REQ, ["boundary.kml", "in/b.KMZ", "a.b.kmz"], ["boundary.txt", "boundary"]),
    "DSM_FILE_PATHS": ([], [["dsm.tif"], ["a.tif", "b.tiff"], ["c.tif", None], [None, "d.tif"], [None], []], [["dsm.png"], ["a.tif", "b.kml"]]),
    "DTM_FILE_PATH": (None, ["dtm.tif"], ["dtm.asc"]), "DHM_FILE_PATH": (None, ["dhm.tif"], ["dhm.kml"]),
    "BUILDING_OUTLINE_FILE_PATH": (None, ["b.zip", "b.kml", "b.kmz"], ["b.shp"]),
    "SITE_FILE_PATH": (None, ["s.kml", "s.csv", "s.kmz"], ["s.zip"]),
    "BASE_TOPOLOGY_FILE_PATH": (None, ["t.kml", "t.kmz"], ["t.tif"]),
}
LOS = {
    "MOUNTING_HEIGHT_ABOVE_ROOFTOP": (1.5, [0, 1.5, 3], [-1]), "DEFAULT_POP_HEIGHT_ON_POLE": (5, [0, 2.5, 9], [-0.5]),
    "DEFAULT_DN_HEIGHT_ON_POLE": (5, [0, 2.5, 8], [-0.5]), "DEFAULT_CN_HEIGHT_ON_POLE": (5, [0, 2.5, 7], [-0.5]),
    "MAXIMUM_LOS_DISTANCE": (200, [101, 250, 1000], [5]), "MINIMUM_LOS_DISTANCE": (50, [5, 30, 100], [4, 3000]),
    "MAXIMUM_ELEVATION_SCAN_ANGLE": (25, [0, 30.5, 90], [-1, 91]),
    "MINIMUM_MCS_OF_BACKHAUL_LINKS": (None, [0, 5, 12], [-1]), "MINIMUM_MCS_OF_ACCESS_LINKS": (None, [0, 4, 9], [-2]),
    "USE_ELLIPSOIDAL_LOS_MODEL": (False, B, []), "FRESNEL_RADIUS": (1.0, [0.2, 2], [0, -1]),
    "LOS_CONFIDENCE_THRESHOLD": (0.8, [0, 0.35, 1], [-0.1, 1.01]), "NUM_PROCESSORS": (None, [1, 4], []),
}
DETECT = {
    "DN_DEPLOYMENT": (True, B, []), "DETECT_HIGHEST": (True, B, []), "DETECT_CENTERS": (False, B, []), "DETECT_CORNERS": (True, B, []),
    "MAX_CORNER_ANGLE": (None, [1, 60.5, 179], [0, 180, -3]),
}
RADIO = {
    "CARRIER_FREQUENCY": (60000.0, [58320, 62640.5], [0, -60000]), "NOISE_FIGURE": (7.0, [0, 5.5], [-1]),
    "THERMAL_NOISE_POWER": (-81.0, [-80, -74.5], []), "MAXIMUM_EIRP": (None, [40, 55.5], []),
    "RAIN_RATE": (30.0, [0, 12.5, 60], [-1]), "LINK_AVAILABILITY_PERCENTAGE": (99.9, [0, 95, 99.99, 100], [-1, 100.5]),
}
DEVICE = {
    "DEVICE_TYPE": ("DN", ["DN", "CN", "dn", "Cn"], ["AP"]), "NODE_CAPEX": (250.0, [0, 99.5], [-1]),
    "NUMBER_OF_NODES_PER_SITE": (None, [1, 2, 3], [0]),
}
SECTOR = {
    "HORIZONTAL_SCAN_RANGE": (70.0, [0, 45, 90], [-1, 361]), "NUMBER_SECTORS_PER_NODE": (1, [1, 2], [0]),
    "ANTENNA_BORESIGHT_GAIN": (30.0, [0, 24.5], [-1]), "MAXIMUM_TX_POWER": (16.0, [10, 13.5, 20], [-1]),
    "MINIMUM_TX_POWER": (None, [-5, 8, 9.5], [99]), "TX_DIVERSITY_GAIN": (0.0, [3], [-1]), "RX_DIVERSITY_GAIN": (0.0, [2.5], [-1]),
    "TX_MISCELLANEOUS_LOSS": (0.0, [1.5], [-1]), "RX_MISCELLANEOUS_LOSS": (0.0, [2], [-1]), "MINIMUM_MCS_LEVEL": (None, [0, 4, 7], [-1]),
}
FINANCIAL = {k: (v, [0, 1234.5, 9e6], [-1]) for k, v in
             {"CN_SITE_CAPEX": 1500.0, "DN_SITE_CAPEX": 1500.0, "POP_SITE_CAPEX": 1500.0, "BUDGET": 300000.0}.items()}
DIMENSION = {
    "ENABLE_CN_DEMAND": (True, B, []), "ENABLE_UNIFORM_DEMAND": (False, B, []), "ENABLE_MANUAL_DEMAND": (False, B, []),
    "DEMAND_SPACING": (0, [50, 120.5], []), "DEMAND_CONNECTION_RADIUS": (0, [30, 80.5], []), "DEMAND": (0.025, [0.5, 1], [0, -1]),
}
DESIGN = {
    "CANDIDATE_TOPOLOGY_FILE_PATH": (None, ["t.kml", "t.kmz", "t.zip"], ["t.csv"]),
    "POP_CAPACITY": (10.0, [0.5, 25], [0]), "NUMBER_OF_EXTRA_POPS": (0, [1, 3], [-1]), "DN_DN_SECTOR_LIMIT": (2, [1, 4], [0, 99]),
    "DN_TOTAL_SECTOR_LIMIT": (15, [5, 20], [0]), "MAXIMUM_NUMBER_HOPS": (15, [1, 6], [0]), "DIFF_SECTOR_ANGLE_LIMIT": (25.0, [0, 60, 180], [-1, 181]),
    "NEAR_FAR_LENGTH_RATIO": (3.0, [0.5, 5], [0]), "NEAR_FAR_ANGLE_LIMIT": (45.0, [0, 90, 180], [-1, 181]), "OVERSUBSCRIPTION": (1.0, [1, 4.5], [0.9]),
    "NUMBER_OF_CHANNELS": (1, [2, 4], [0]), "MAXIMIZE_COMMON_BANDWIDTH": (False, B, []), "ALWAYS_ACTIVE_POPS": (True, B, []),
    "ENABLE_LEGACY_REDUNDANCY_METHOD": (True, B, []), "REDUNDANCY_LEVEL": ("MEDIUM", ["NONE", "LOW", "MEDIUM", "HIGH", "None", "high"], ["VERY"]),
    "BACKHAUL_LINK_REDUNDANCY_RATIO": (0.2, [0, 0.55, 1], [-0.1, 1.1]), "NUM_THREADS": (None, [1, 8], [0, -1]),
    **{f"{k}_REL_STOP": (v, [0.01, -2, 0], []) for k, v in
       {"POP_PROPOSAL": -1, "MIN_COST": 0.05, "REDUNDANCY": 0.05, "MAX_COVERAGE": -1, "INTERFERENCE": -1}.items()},
    **{f"{k}_MAX_TIME": (15 if k == "DEMAND_SITE" else 60, [1, 7, 600], [0, -5]) for k in
       ("POP_PROPOSAL", "MIN_COST", "REDUNDANCY", "MAX_COVERAGE", "INTERFERENCE", "DEMAND_SITE", "AVAILABILITY")},
    "TOPOLOGY_ROUTING": (None, ["SHORTEST_PATH", "MCS_COST_PATH", "DPA_PATH", "dpa_path"], ["RANDOM"]),
    "AVAILABILITY_SIM_TIME": (100.0, [1, 2500.5], []), "AVAILABILITY_SEED": (0, [-1, 17], []),
}
TREE = {"SYSTEM": SYSTEM, "DATA": DATA, "LINE_OF_SIGHT": {**LOS, "SITE_DETECTION": DETECT}, "RADIO": {**RADIO, "DEVICE_LIST": None},
        "NETWORK_DESIGN": {**DESIGN, "FINANCIAL": FINANCIAL, "DIMENSIONING": DIMENSION}}
ENUM = {"LOGGER_LEVEL", "DEVICE_TYPE", "REDUNDANCY_LEVEL", "TOPOLOGY_ROUTING"}
MCS_COLS = ["mcs", "snr", "mbps", "tx_backoff"]


def pick(rng, table, p, nul=0.12):
    """fields in random order -> [key, value]; NUL stands for a blank field"""
    out = []
    for k, (d, good, bad) in table.items():
        if d is REQ or rng.random() < p:
            out.append([k, NUL if d is not REQ and rng.random() < nul else rng.choice(good)])
    rng.shuffle(out)
    return out


def val(fields, table, key):
    d = table[key][0]
    v = dict(fields or []).get(key)
    return d if v is None else v


class Settings(Scenario):
    name = "settings-history"
    shrink = ("steps", "docs")
    cpu_limit = 30.0

    # -- generation
    def gen_mcs(self, rng):
        n, rows, snr, mbps, off = rng.randint(1, 12), [], rng.choice([-2.0, 1.5, 3.0]), 0.0, 0
        lo = rng.choice([0, 2, 5])
        for i in range(n):
            rows.append([lo + i, round(snr, 2), mbps, off])
            snr += rng.choice([0.5, 1, 2.25])
            mbps += rng.choice([50, 135.5])
            off += rng.choice([0, 0, 1, 2])
        cols = MCS_COLS[:] if rng.random() < 0.7 else MCS_COLS[:3]
        rng.shuffle(cols)
        return {"rows": rows, "cols": cols, "case": rng.randrange(3)}

    def gen_device(self, rng, i):
        d = {"sku": f"Radio {i}", "f": pick(rng, DEVICE, 0.5), "s": None}
        if rng.random() < 0.85:
            d["s"] = pick(rng, SECTOR, rng.choice([0.2, 0.7]))
            d["blank"] = 0
            for k, p in (("mcs", 0.35), ("scan", 0.2), ("ant", 0.15)):
                if rng.random() < p:
                    d[k] = self.gen_mcs(rng) if k == "mcs" else {"seed": rng.randrange(1000), "sep": rng.choice(["\t", ",", " "]), "n": rng.choice([1, 2]),
                                                                    "gap": rng.randrange(3)}
        else:
            d["blank"] = rng.randrange(2)
        self.fit(d)
        return d

    def fit(self, d):
        """keep the device within the documented limits"""
        f, s = dict(d["f"]), dict(d["s"] or [])
        if (f.get("DEVICE_TYPE") or "DN").upper() == "CN" and f.get("NUMBER_OF_NODES_PER_SITE") not in (None, 1):
            f["NUMBER_OF_NODES_PER_SITE"] = 1
        nodes = self.nodes(list(f.items()))
        if nodes * (s.get("NUMBER_SECTORS_PER_NODE") or 1) * (70 if s.get("HORIZONTAL_SCAN_RANGE") is None else s["HORIZONTAL_SCAN_RANGE"]) > 360:
            if d["s"] is None:
                f["NUMBER_OF_NODES_PER_SITE"] = 1
            else:
                s["HORIZONTAL_SCAN_RANGE"] = 45
        if "mcs" in d and s.get("MINIMUM_MCS_LEVEL") is not None and d["mcs"]["rows"][-1][0] < s["MINIMUM_MCS_LEVEL"]:
            s["MINIMUM_MCS_LEVEL"] = d["mcs"]["rows"][-1][0]
        d["f"] = [list(x) for x in f.items()]
        if d["s"] is not None:
            d["s"] = [list(x) for x in s.items()]

    def nodes(self, f):
        n = dict(f).get("NUMBER_OF_NODES_PER_SITE")
        return n if n is not None else 1 if val(f, DEVICE, "DEVICE_TYPE").upper() == "CN" else 4

    def gen_doc(self, rng):
        p = rng.choice([0.1, 0.4, 0.9])
        doc = {"fmt": rng.choice(["yaml", "yaml", "yml", "json"]), "style": rng.randrange(1 << 30), "keys": rng.choice(["upper", "upper", "lower", "mixed"]),
               "pad": int(rng.random() < 0.2), "flow": rng.random() < 0.3, "name": rng.choice(["config", "plan.v2", "my plan", "old.json", "x.yaml"])}
        doc["SYSTEM"] = rng.choice([[], "blank", "no"]) if rng.random() < 0.3 else pick(rng, SYSTEM, p)
        data = pick(rng, DATA, p)
        if sum(1 for k, v in data if k in ("BUILDING_OUTLINE_FILE_PATH", "BASE_TOPOLOGY_FILE_PATH") and v) > 1:
            data = [x for x in data if x[0] != "BASE_TOPOLOGY_FILE_PATH"]
        doc["DATA"] = data
        doc["LOS"] = "blank" if rng.random() < 0.1 else pick(rng, LOS, p)
        doc["DETECT"] = rng.choice(["no", "blank"]) if rng.random() < 0.4 else pick(rng, DETECT, p)
        doc["RADIO"] = pick(rng, RADIO, p)
        doc["devices"] = [self.gen_device(rng, i) for i in range(rng.choice([1, 1, 2, 3]))]
        doc["DESIGN"] = pick(rng, DESIGN, p)
        doc["FINANCIAL"] = rng.choice(["no", "blank"]) if rng.random() < 0.3 else pick(rng, FINANCIAL, p)
        dim = "no" if rng.random() < 0.3 else pick(rng, DIMENSION, p)
        if dim != "no":
            g = {k: v for k, v in dim}
            if g.get("ENABLE_UNIFORM_DEMAND") and not g.get("DEMAND_SPACING"):
                g["DEMAND_SPACING"] = 50
            if (g.get("ENABLE_UNIFORM_DEMAND") or g.get("ENABLE_MANUAL_DEMAND")) and not g.get("DEMAND_CONNECTION_RADIUS"):
                g["DEMAND_CONNECTION_RADIUS"] = 30
            if g.get("ENABLE_CN_DEMAND") is False and not g.get("ENABLE_UNIFORM_DEMAND") and not g.get("ENABLE_MANUAL_DEMAND"):
                del g["ENABLE_CN_DEMAND"]
            dim = [list(x) for x in g.items()]
        doc["DIMENSION"] = dim
        if doc["DESIGN"] == [] and doc["FINANCIAL"] == "no" and dim == "no":
            doc["DESIGN"] = "blank"
        return doc

    def gen_bad(self, rng, doc):
        """one thing that must be refused -> [where, ...]; refused by the readers in 'who'"""
        u = rng.random()
        if u < 0.45:
            sec = rng.choice(["SYSTEM", "DATA", "LOS", "DETECT", "RADIO", "DESIGN", "DESIGN", "FINANCIAL", "DIMENSION", "DEVICE", "SECTOR"])
            t = TABLES[sec]
            k = rng.choice([k for k in t if t[k][2]])
            return ["value", sec, k, rng.choice(t[k][2]), rng.randrange(3)]
        if u < 0.7:
            return ["typo", rng.choice(["SYSTEM", "DATA", "LOS", "DETECT", "RADIO", "DESIGN", "FINANCIAL", "DIMENSION", "DEVICE", "SECTOR", "top"]),
                    rng.choice(["DEMANDS", "OUTPUT DIR", "MAX_LOS", "DEVICE-SKU", "NODES", "X"]), rng.randrange(3)]
        return [rng.choice(["same-sku", "no-sku", "no-device", "cn-nodes", "too-wide", "both", "no-boundary", "suffix", "missing", "no-demand", "spacing",
                            "mcs-order", "mcs-text", "scan-missing", "max-below-min"]), rng.randrange(3)]

    def gen(self, rng, faulty):
        docs = [self.gen_doc(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
        steps = []
        for _ in range(rng.randint(2, 8)):
            d = rng.randrange(len(docs))
            st = {"op": rng.choice(["SYSTEM", "DATA", "LINE_OF_SIGHT", "OPTIMIZATION", "OPTIMIZATION", "control", "control"]), "doc": d, "dir": rng.randrange(2)}
            u = rng.random()
            if u < 0.3:
                st["bad"] = self.gen_bad(rng, docs[d])
            elif faulty and u < 0.65:
                m = rng.choice(["open", "read", "read", "any", "openw", "write"])
                st["fault"] = {"mask": m, "nth": rng.randint(0, 4), "kind": "short" if m in ("read", "write") and rng.random() < 0.4 else "errno",
                               "err": rng.choice(["EIO", "EACCES", "EMFILE"]), "sticky": int(rng.random() < 0.5)}
            steps.append(st)
        direct = [[rng.choice(["LINE_OF_SIGHT", "OPTIMIZATION"]), rng.randint(1, 2),
                   [[k, rng.choice(RADIO[k][1])] for k in sorted(RADIO) if k != "MAXIMUM_EIRP" and rng.random() < 0.5]] for _ in range(rng.choice([0, 1, 2]))]
        return {"docs": docs, "steps": steps, "direct": direct}

    # -- settings made in code
    def direct(self, case, r):
        from terragraph_planner.common.configuration import configs as C
        from terragraph_planner.common.configuration.enums import DeviceType

        made = []
        for what, n, vals in case.get("direct", []):
            devs = [C.DeviceData(device_sku=f"d{i}", sector_params=C.SectorParams(), device_type=DeviceType.DN) for i in range(n)]
            cls = C.LOSParams if what == "LINE_OF_SIGHT" else C.OptimizerParams
            obj, err = r.call(what, lambda: cls(device_list=devs, **{k.lower(): v for k, v in vals}))
            if err is None:
                made.append((what, vals, obj))
        for what, vals, obj in made:
            for k in RADIO:
                if k == "MAXIMUM_EIRP":
                    continue
                for dev in obj.device_list:
                    got = getattr(dev.sector_params, k.lower())
                    r.check(got == val(vals, RADIO, k), "project-value", lambda: f"{what} made with {vals}: {k} of {dev.device_sku} is {got}")

    # -- writing a file
    def write(self, doc, d, bad):
        """-> path; every file the document names lies beside it"""
        import yaml

        os.makedirs(d, exist_ok=True)
        os.makedirs(os.path.join(d, "sub"), exist_ok=True)
        rng = random.Random(doc["style"])
        bad = bad or [""]

        def key(k):
            k = {"upper": k, "lower": k.lower(), "mixed": "".join(rng.choice([c.lower(), c.upper()]) for c in k)}[doc["keys"]]
            return rng.choice(["", " "]) + k + rng.choice(["", " ", "  "]) if doc["pad"] and rng.random() < 0.3 else k

        def fields(sec, extra=(), which=None):
            fs = doc[sec] if isinstance(sec, str) else sec[1]
            name = sec if isinstance(sec, str) else sec[0]
            mine = len(bad) > 1 and (name not in ("DEVICE", "SECTOR") or bad[-1] % len(doc["devices"]) == which)
            hit = bad[0] in ("value", "typo") and bad[1] == name and mine
            if fs in ("no", "blank", None) and not hit:
                return fs or "no"
            fs = [] if fs in ("no", "blank", None) else [list(x) for x in fs]
            if bad[0] == "value" and hit:
                fs = [x for x in fs if x[0] != bad[2]] + [[bad[2], bad[3]]]
            if bad[0] == "typo" and hit:
                fs.append([bad[2], 1])
            fs += [list(x) for x in extra]
            rng.shuffle(fs)
            return {key(k): path(k, v) for k, v in fs}

        def path(k, v):
            return os.path.join(d, v) if k == "LOG_FILE" and v is not None else v

        devices = []
        for i, dev in enumerate(doc["devices"]):
            me = bad[0] not in ("value", "typo") and bad[-1] % len(doc["devices"]) == i if len(bad) > 1 else False
            files = {}
            for k, n in (("mcs", "MCS_MAP_FILE_PATH"), ("scan", "SCAN_PATTERN_FILE_PATH"), ("ant", "ANTENNA_PATTERN_FILE_PATH")):
                if k in dev or (me and bad[0].startswith(k + "-")):
                    files[n] = os.path.join(d, f"{k}{i}.{'txt' if k == 'ant' else 'csv'}")
                    getattr(self, "write_" + k)(files[n], dev.get(k) or {"rows": [[0, 1, 0, 0], [1, 2, 5, 0]], "cols": MCS_COLS, "case": 0},
                                                bad[0] if me else "")
            s = fields(("SECTOR", dev["s"]), list(files.items()), i) if dev["s"] is not None or files else fields(("SECTOR", None), (), i)
            if s == "no" and files:
                s = {key(k): v for k, v in files.items()}
            df = [list(x) for x in dev["f"]]
            if me and bad[0] == "cn-nodes":
                df = [["DEVICE_TYPE", "CN"], ["NUMBER_OF_NODES_PER_SITE", 2]]
            if me and bad[0] == "too-wide":
                df, s = [["NUMBER_OF_NODES_PER_SITE", 5]], {"HORIZONTAL_SCAN_RANGE": 90}
            x = fields(("DEVICE", df), [] if me and bad[0] == "no-sku" else [["DEVICE_SKU", dev["sku"]]], i)
            if s != "no" or dev.get("blank"):
                x[key("SECTOR_PARAMS")] = None if s == "no" else s
            devices.append(x)
        if bad[0] == "same-sku":
            devices.append({"DEVICE_SKU": doc["devices"][0]["sku"].upper()})
        if bad[0] == "no-device":
            devices = [] if bad[-1] else None
        radio = fields("RADIO")
        radio[key("DEVICE_LIST")] = devices
        los, det = fields("LOS"), fields("DETECT")
        if bad[0] == "max-below-min":
            los = {"MAXIMUM_LOS_DISTANCE": 40, "MINIMUM_LOS_DISTANCE": 60}
        if det != "no":
            los = {} if los in ("no", "blank") else los
            los[key("SITE_DETECTION")] = None if det == "blank" else det
        des, fin, dim = fields("DESIGN"), fields("FINANCIAL"), fields("DIMENSION")
        if bad[0] == "no-demand":
            dim = {"ENABLE_CN_DEMAND": False, "ENABLE_UNIFORM_DEMAND": False}
        if bad[0] == "spacing":
            dim = {"ENABLE_UNIFORM_DEMAND": True, "DEMAND_CONNECTION_RADIUS": 10 * bad[-1], "DEMAND_SPACING": 0 if bad[-1] else 20}
        for n, x in (("FINANCIAL", fin), ("DIMENSIONING", dim)):
            if x != "no":
                des = {} if des in ("no", "blank") else des
                des[key(n)] = None if x == "blank" else x
        data = fields("DATA")
        if bad[0] == "no-boundary":
            data = {k: v for k, v in data.items() if "BOUNDARY" not in k.upper()}
        if bad[0] == "both":
            data.update({"BUILDING_OUTLINE_FILE_PATH": "o.kml", "BASE_TOPOLOGY_FILE_PATH": "t.kml"})
            data = {k: v for k, v in data.items() if k in ("BUILDING_OUTLINE_FILE_PATH", "BASE_TOPOLOGY_FILE_PATH")
                    or k.strip().upper() not in ("BUILDING_OUTLINE_FILE_PATH", "BASE_TOPOLOGY_FILE_PATH")}
        tree = {}
        for n, x in (("SYSTEM", fields("SYSTEM")), ("DATA", data), ("LINE_OF_SIGHT", los), ("RADIO", radio), ("NETWORK_DESIGN", des)):
            if x != "no":
                tree[key(n)] = None if x == "blank" else x
        if bad[0] == "typo" and bad[1] == "top":
            tree[bad[2]] = {}
        items = list(tree.items())
        rng.shuffle(items)
        tree = dict(items)
        p = os.path.join(d, doc["name"] + "." + ("txt" if bad[0] == "suffix" else doc["fmt"]))
        if bad[0] == "missing":
            return p
        with open(p, "w") as fh:
            if doc["fmt"] == "json":
                json.dump(tree, fh, indent=rng.choice([None, 2]))
            else:
                t = yaml.safe_dump(tree, sort_keys=False, default_flow_style=True if doc["flow"] else False, width=100000)
                if not doc["flow"]:
                    t = "".join(rng.choice(["", "", "", "# note\n", "\n"]) + x for x in t.splitlines(True))
                    t = t.replace(": null\n", rng.choice([": null\n", ":\n", ": ~\n"]))
                fh.write(t)
        return p

    def write_mcs(self, p, m, bad):
        cols = m["cols"]
        name = {0: lambda c: c, 1: lambda c: c.upper(), 2: lambda c: " " + c.title()}[m["case"]]
        rows = [[r[MCS_COLS.index(c)] for c in cols] for r in m["rows"]]
        if bad == "mcs-order":
            down = MCS_COLS[m["case"]]  # this column goes down as the others go up
            rows = [[(9 - a if c == down else 2 * a if c != "tx_backoff" else 0) for c in cols] for a in (1, 2, 3)]
        if bad == "mcs-text":
            rows = [["seven" for _ in cols]]
        with open(p, "w", newline="") as fh:
            csv.writer(fh).writerows([[name(c) for c in cols]] + rows)

    def scan(self, m):
        rng = random.Random(m["seed"])
        cols = [float(x) for x in range(-10, 11, 10)]
        return {float(h): {v: round(rng.uniform(0, 30), 3) for v in cols} for h in range(-30, 31, 10)}

    def write_scan(self, p, m, bad):
        if bad == "scan-missing":
            return
        S = self.scan(m)
        with open(p, "w", newline="") as fh:
            csv.writer(fh).writerows([[""] + [f"{v:g}" for v in S[0.0]]] + [[f"{h:g}"] + list(row.values()) for h, row in S.items()])

    def ant(self, m):
        rng = random.Random(m["seed"])
        return {f"Horn{m['seed']}-{i}": [[round(rng.uniform(0.1, 40), 3) for _ in range(360)] for _ in range(2)] for i in range(m["n"])}

    def write_ant(self, p, m, bad):
        rows = []
        for n, (h, v) in self.ant(m).items():
            rows += [["NAME", n], ["MAKE", "x"], ["FREQUENCY", "60000"]]
            if m["gap"] == 1 and m["sep"] != " ":
                rows.append(["", ""])
            rows += [["HORIZONTAL", "360"]] + [[i, x] for i, x in enumerate(h)]
            if m["gap"] == 2 and m["sep"] != " ":
                rows.append(["", ""])
            rows += [["VERTICAL", "360"]] + [[i, x] for i, x in enumerate(v)]
        with open(p, "w") as fh:
            fh.write("".join(m["sep"].join(map(str, x)) + "\n" for x in rows))

    # -- what a document means
    def model(self, doc, what, d):
        get = lambda sec, t: {k.lower(): val(doc[sec] if isinstance(doc[sec], list) else [], t, k) for k in t}
        if what in ("SYSTEM", "control"):
            out = get("SYSTEM", SYSTEM)
            if out["log_file"] is not None:
                out["log_file"] = os.path.join(d, out["log_file"])
            return out
        if what == "DATA":
            out = get("DATA", DATA)
            out["dsm_file_paths"] = [x for x in out["dsm_file_paths"] if x is not None]
            return out
        radio = get("RADIO", RADIO)
        out = dict(radio, **(get("LOS", LOS) if what == "LINE_OF_SIGHT" else {**get("DESIGN", DESIGN), **get("FINANCIAL", FINANCIAL), **get("DIMENSION", DIMENSION)}))
        if what == "LINE_OF_SIGHT":
            out["site_detection"] = get("DETECT", DETECT)
        out["device_list"] = []
        for dev in doc["devices"]:
            s = {k.lower(): val(dev["s"], SECTOR, k) for k in SECTOR}
            s.update({k: radio[k] for k in ("carrier_frequency", "thermal_noise_power", "noise_figure", "rain_rate", "link_availability_percentage")})
            m = dev.get("mcs")
            if m:
                s["mcs_map"] = [(r[0], r[1], r[2], r[3] if "tx_backoff" in m["cols"] else 0) for r in m["rows"]]
                s["mcs_map"] = [r for r in s["mcs_map"]
                                if (s["minimum_mcs_level"] is None or r[0] >= s["minimum_mcs_level"])
                                and (s["minimum_tx_power"] is None or s["maximum_tx_power"] - r[3] >= s["minimum_tx_power"])]
            else:
                s["mcs_map"] = [(3, 3, 0, 0), (4, 4.5, 67.5, 0), (5, 5, 115, 0), (6, 5.5, 260, 0), (7, 7.5, 452.5, 0), (8, 9, 645, 0), (9, 12, 741.25, 0),
                                (10, 14, 1030, 2), (11, 16, 1415, 4), (12, 18, 1800, 6)]
            s["scan_pattern_data"] = self.scan(dev["scan"]) if "scan" in dev else None
            s["antenna_pattern_data"] = {n.lower(): [[-x for x in h], [-x for x in v]] for n, (h, v) in self.ant(dev["ant"]).items()} if "ant" in dev else None
            out["device_list"].append({"device_sku": dev["sku"], "node_capex": val(dev["f"], DEVICE, "NODE_CAPEX"), "number_of_nodes_per_site": self.nodes(dev["f"]),
                                       "device_type": val(dev["f"], DEVICE, "DEVICE_TYPE"), "sector_params": s})
        return out

    def same(self, want, obj, at=""):
        """first difference between the meaning of a document and what was loaded, or None"""
        if isinstance(want, dict) and not isinstance(obj, dict):
            for k, v in want.items():
                if not hasattr(obj, k):
                    return f"{at}{k} is missing"
                g = getattr(obj, k)
                if k.upper() in ENUM:
                    g = None if g is None else getattr(g, "name", repr(g))
                    v = None if v is None else v.upper()
                diff = self.same(v, g, f"{at}{k}.")
                if diff:
                    return diff
            return None
        if isinstance(want, (list, tuple)) and want and isinstance(want[0], (dict, tuple)):
            if obj is None or len(obj) != len(want):
                return f"{at} {obj!r} instead of {want!r}"
            if isinstance(want[0], dict):
                return next((x for x in (self.same(a, b, f"{at}{i}.") for i, (a, b) in enumerate(zip(want, obj))) if x), None)
            got = sorted((m.mcs, m.snr, m.mbps, m.tx_backoff) for m in obj)
            return None if got == sorted(want) else f"{at} {got} instead of {sorted(want)}"
        if isinstance(want, bool) or want is None:
            return None if obj is want else f"{at[:-1]} is {obj!r} instead of {want!r}"
        if isinstance(want, (list, tuple)):
            return None if list(obj) == list(want) else f"{at[:-1]} is {obj!r} instead of {want!r}"
        return None if obj == want else f"{at[:-1]} is {str(obj)[:200]} instead of {str(want)[:200]}"

    def refuses(self, bad, what):
        """must reading `what` from the damaged document fail?"""
        if bad is None:
            return False
        if bad[0] in ("typo", "suffix", "missing"):
            return True
        needs = {"SYSTEM": {"SYSTEM", "control"}, "DATA": {"DATA"}, "LOS": {"LINE_OF_SIGHT"}, "DETECT": {"LINE_OF_SIGHT"},
                 "RADIO": {"LINE_OF_SIGHT", "OPTIMIZATION"}, "DEVICE": {"LINE_OF_SIGHT", "OPTIMIZATION"}, "SECTOR": {"LINE_OF_SIGHT", "OPTIMIZATION"},
                 "DESIGN": {"OPTIMIZATION"}, "FINANCIAL": {"OPTIMIZATION"}, "DIMENSION": {"OPTIMIZATION"}}
        if bad[0] == "value":
            return what in needs[bad[1]]
        return what in {"both": needs["DATA"], "no-boundary": needs["DATA"], "no-demand": needs["DESIGN"], "spacing": needs["DESIGN"],
                        "max-below-min": needs["LOS"]}.get(bad[0], needs["RADIO"])

    # -- the run
    def run(self, case, r: Run):
        from terragraph_planner.common import utils as U
        from terragraph_planner.common.configuration.utils import struct_objects_from_file

        w = r.w
        self.direct(case, r)
        root = logging.getLogger()
        used = []  # somebody else may know the handlers too
        keep = (root.level, list(root.handlers))
        cur = U.current_system_params
        fields = ("output_dir", "debug_mode", "logger_level", "log_file", "log_to_stderr")
        snap = lambda: tuple(getattr(cur, k) for k in fields) + (root.level,)
        logs, token = set(), 0
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            for h in list(root.handlers):
                root.removeHandler(h)
            root.setLevel(logging.WARNING)
            log = shown = None
            for i, st in enumerate(case["steps"]):
                doc = case["docs"][st["doc"] % len(case["docs"])]
                bad, f, what = st.get("bad"), st.get("fault"), st["op"]
                d = os.path.join(w.scratch, f"s{st['dir']}")
                for n in os.listdir(d) if os.path.isdir(d) else ():  # the next file may lie at the same place
                    if not n.endswith(".log") and n != "sub":
                        os.unlink(os.path.join(d, n))
                p = self.write(doc, d, bad)
                want = self.model(doc, what, d)
                before = snap()
                used += root.handlers
                if f:
                    sim.DISK.arm(w.scratch, MASK[f["mask"]], f["nth"], KIND[f["kind"]], ERRS[f["err"]], f["sticky"])
                e = obj = None
                try:
                    if what == "control":
                        U.set_system_control_with_config_file(p)
                        obj = cur
                    else:
                        obj = struct_objects_from_file(what, p)
                except Exception as x:
                    e = x
                finally:
                    hit = sim.DISK.fired() if f else 0
                    sim.DISK.disarm()
                if hit:
                    w.fault(f"disk_{f['mask']}_{f['kind']}" + ("" if f["kind"] == "short" else "_" + f["err"]), hit)
                must = self.refuses(bad, what)
                if bad:
                    r.note("bad-" + bad[0])
                r.see(what, e is None)
                r.state(what, doc["fmt"], doc["keys"], doc["pad"], bad and tuple(map(str, bad[:3])), f and (f["mask"], f["nth"], hit), e is None)
                if e is None:
                    r.check(not must, "accepted", lambda: f"step {i}: {what} accepted a file with {bad}")
                    diff = self.same(want, obj)
                    r.check(diff is None, "settings", lambda: f"step {i}: {what} read from {os.path.basename(p)}: {diff}")
                else:
                    r.check(must or hit or bad, "refused", lambda: f"step {i}: {what} refused a valid file: {type(e).__name__}: {e}")
                    r.check(must or hit, "refused-other", lambda: f"step {i}: {what} refused over a mistake of another reader {bad}: {type(e).__name__}: {e}")
                if what == "control" and e is None:
                    log, shown = cur.log_file, cur.log_to_stderr
                    r.check(root.level == cur.logger_level.value, "log-level", lambda: f"step {i}: log level {root.level} instead of {cur.logger_level}")
                else:
                    r.check(snap() == before, "changed", lambda: f"step {i}: {what} ({'failed' if e else 'read only'}) changed the settings in force: {before} -> {snap()}")
                if log:
                    logs.add(log)
                r.check(handles(w.scratch) == ([os.path.realpath(log)] if log else []), "open-files",
                        lambda: f"step {i}: open files {handles(w.scratch)}, the log file in force is {log}")
                # messages go to the log file in force and no other
                token += 1
                logging.disable(logging.NOTSET)
                root.critical("token-%d.", token)
                logging.disable(logging.CRITICAL)
                for q in sorted(logs):
                    with open(q) as fh:
                        n = fh.read().count(f"token-{token}.")
                    r.check(n == (q == log), "log", lambda: f"step {i}: message found {n} times in {os.path.basename(q)}, the log file in force is {log}")
                if shown or (shown is False and log):
                    r.check((f"token-{token}." in sys.stderr.getvalue()) == shown, "stderr", lambda: f"step {i}: LOG_TO_STDERR is {shown} but messages do otherwise")
                r.nontrivial |= len(case["steps"]) > 1 and (bad is not None or hit > 0 or i > 0)
                e = obj = None
        finally:
            sys.stderr = err
            for h in list(root.handlers):
                root.removeHandler(h)
                if h not in keep[1]:
                    h.close()
            root.setLevel(keep[0])
            for h in keep[1]:
                root.addHandler(h)


TABLES = {"SYSTEM": SYSTEM, "DATA": DATA, "LOS": LOS, "DETECT": DETECT, "RADIO": RADIO, "DESIGN": DESIGN, "FINANCIAL": FINANCIAL, "DIMENSION": DIMENSION,
          "DEVICE": DEVICE, "SECTOR": SECTOR}
register("C17", Settings())
