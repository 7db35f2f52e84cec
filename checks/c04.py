"""C04 configuration: files, defaults, bounds, round trip, equality, tables."""
import copy
import csv
import json
import os

import yaml

from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.configuration.configs import (
    DeviceData, GISDataParams, LOSParams, OptimizerParams, SectorParams,
    SiteDetectionParams, SystemParams,
)
from terragraph_planner.common.configuration.constants import (
    DATA, LINE_OF_SIGHT, OPTIMIZATION, SYSTEM,
)
from terragraph_planner.common.configuration.enums import (
    LoggerLevel, RedundancyLevel, TopologyRouting,
)
from terragraph_planner.common.configuration.utils import (
    struct_objects_from_file,
)
from terragraph_planner.common.constants import DEFAULT_MCS_SNR_MBPS_MAP
from terragraph_planner.common.exceptions import (
    ConfigException, PlannerException,
)

check = Check(
    "C04",
    rule="random configuration files (YAML/JSON, any key case, omitted/null "
         "fields) compared field by field with the written values and the "
         "documented defaults; one-field mutations for equality; values on "
         "both sides of every documented bound; random radio tables; "
         "non-trivial = distinct set of given fields and values",
    assumptions=["lists of devices and of surface files are unordered for "
                 "equality; a refusal may be any planner error"],
)

# name -> (default, generator of a valid value)
U = lambda a, b: (lambda r: round(r.uniform(a, b), 3))  # noqa
I = lambda a, b: (lambda r: r.randint(a, b))  # noqa
Bo = lambda r: r.random() < .5  # noqa
SECTOR = {
    "antenna_boresight_gain": (30.0, U(0, 60)),
    "maximum_tx_power": (16.0, U(10, 40)),
    "number_sectors_per_node": (1, I(1, 3)),
    "horizontal_scan_range": (70.0, U(0, 30)),
    "tx_diversity_gain": (0.0, U(0, 5)),
    "rx_diversity_gain": (0.0, U(0, 5)),
    "tx_miscellaneous_loss": (0.0, U(0, 5)),
    "rx_miscellaneous_loss": (0.0, U(0, 5)),
    "minimum_mcs_level": (None, I(0, 9)),
    "minimum_tx_power": (None, U(-10, 10)),
}
PROJECT = {
    "carrier_frequency": (60000.0, U(1000, 80000)),
    "thermal_noise_power": (-81.0, U(-100, -50)),
    "noise_figure": (7.0, U(0, 15)),
    "rain_rate": (30.0, U(0, 100)),
    "link_availability_percentage": (99.9, U(0, 100)),
}
LOS = {
    "minimum_mcs_of_backhaul_links": (None, I(0, 12)),
    "minimum_mcs_of_access_links": (None, I(0, 12)),
    "maximum_los_distance": (200, I(120, 900)),
    "minimum_los_distance": (50, I(5, 119)),
    "maximum_elevation_scan_angle": (25, U(0, 90)),
    "mounting_height_above_rooftop": (1.5, U(0, 9)),
    "default_dn_height_on_pole": (5.0, U(0, 9)),
    "default_cn_height_on_pole": (5.0, U(0, 9)),
    "default_pop_height_on_pole": (5.0, U(0, 9)),
    "use_ellipsoidal_los_model": (False, Bo),
    "fresnel_radius": (1.0, U(.01, 5)),
    "los_confidence_threshold": (0.8, U(0, 1)),
    "num_processors": (None, I(1, 8)),
}
DETECT = {
    "dn_deployment": (True, Bo), "detect_highest": (True, Bo),
    "detect_centers": (False, Bo), "detect_corners": (True, Bo),
    "max_corner_angle": (None, U(1, 179)),
}
FIN = {
    "pop_site_capex": (1500.0, U(0, 9000)),
    "cn_site_capex": (1500.0, U(0, 9000)),
    "dn_site_capex": (1500.0, U(0, 9000)),
    "budget": (300000.0, U(0, 1e6)),
}
DIM = {
    "enable_uniform_demand": (False, Bo),
    "enable_manual_demand": (False, Bo),
    "demand_spacing": (0.0, U(1, 90)),
    "demand_connection_radius": (0.0, U(1, 90)),
    "demand": (0.025, U(.001, 2)),
}
OPT = {
    "pop_capacity": (10.0, U(.1, 40)),
    "oversubscription": (1.0, U(1, 30)),
    "number_of_extra_pops": (0, I(0, 5)),
    "dn_dn_sector_limit": (2, I(1, 5)),
    "dn_total_sector_limit": (15, I(5, 20)),
    "maximum_number_hops": (15, I(1, 30)),
    "diff_sector_angle_limit": (25.0, U(0, 180)),
    "near_far_length_ratio": (3.0, U(.1, 9)),
    "near_far_angle_limit": (45.0, U(0, 180)),
    "number_of_channels": (1, I(1, 4)),
    "maximize_common_bandwidth": (False, Bo),
    "always_active_pops": (True, Bo),
    "enable_legacy_redundancy_method": (True, Bo),
    "redundancy_level": (RedundancyLevel.MEDIUM,
                         lambda r: r.choice(list(RedundancyLevel))),
    "backhaul_link_redundancy_ratio": (0.2, U(0, 1)),
    "num_threads": (None, I(1, 16)),
    "min_cost_rel_stop": (0.05, U(-1, 1)),
    "min_cost_max_time": (60, I(1, 90)),
    "redundancy_rel_stop": (0.05, U(-1, 1)),
    "redundancy_max_time": (60, I(1, 90)),
    "max_coverage_rel_stop": (-1, U(-1, 1)),
    "max_coverage_max_time": (60, I(1, 90)),
    "interference_rel_stop": (-1, U(-1, 1)),
    "interference_max_time": (60, I(1, 90)),
    "pop_proposal_rel_stop": (-1, U(-1, 1)),
    "pop_proposal_max_time": (60, I(1, 90)),
    "demand_site_max_time": (15, I(1, 90)),
    "topology_routing": (None, lambda r: r.choice(list(TopologyRouting))),
    "availability_sim_time": (100.0, U(1, 900)),
    "availability_seed": (0, I(-3, 99)),
    "availability_max_time": (60, I(1, 90)),
    "candidate_topology_file_path": (
        None, lambda r: r.choice(["a.kml", "b/t.KMZ", "c.zip"])),
}
SYS = {
    "output_dir": ("./", lambda r: r.choice(["/tmp/x", "out"])),
    "debug_mode": (False, Bo),
    "logger_level": (LoggerLevel.INFO,
                     lambda r: r.choice(list(LoggerLevel))),
    "log_file": (None, lambda r: r.choice(["l.txt", "x/y.log"])),
    "log_to_stderr": (True, Bo),
}
GIS = {
    "building_outline_file_path": (
        None, lambda r: r.choice(["b.zip", "b.kml", "b.KMZ"])),
    "dtm_file_path": (None, lambda r: r.choice(["t.tif", "T.TIF"])),
    "dhm_file_path": (None, lambda r: r.choice(["h.tif", "x.y.tif"])),
    "site_file_path": (
        None, lambda r: r.choice(["s.csv", "s.kml", "s.kmz", "S.CSV"])),
}


def pick(table, rng, p=.5):
    """A random subset of fields with valid values."""
    return {k: g(rng) for k, (_, g) in table.items() if rng.random() < p}


def want(table, given):
    return {k: given[k] if given.get(k) is not None else d
            for k, (d, _) in table.items()}


def case(key, rng):
    k = rng.random()
    if k < .6:
        return key.upper()
    if k < .8:
        return key.lower()
    return "".join(c.upper() if rng.random() < .5 else c.lower() for c in key)


def text(v, rng):
    if hasattr(v, "to_string"):
        n = v.to_string()
        return rng.choice([n, n.lower(), n.capitalize()])
    return v


def section(given, table, rng):
    out = {}
    for k, v in given.items():
        out[case(k, rng)] = text(v, rng)
    for k in table:
        if k not in given and rng.random() < .15:
            out[case(k, rng)] = None
    items = list(out.items())
    rng.shuffle(items)
    return dict(items)


def gen_devices(rng):
    devs = []
    for i in range(rng.randint(1, 3)):
        dt = rng.choice([DeviceType.DN, DeviceType.CN, None])
        sp = pick(SECTOR, rng, .4)
        d = {"device_sku": rng.choice(["Dev", "X ", "sku-"]) + str(i)}
        if dt is not None:
            d["device_type"] = dt
        if rng.random() < .5:
            d["node_capex"] = round(rng.uniform(0, 900), 2)
        if rng.random() < .4:
            d["number_of_nodes_per_site"] = \
                1 if dt == DeviceType.CN else rng.randint(1, 4)
        n = d.get("number_of_nodes_per_site") or (
            1 if dt == DeviceType.CN else 4)
        s = sp.get("number_sectors_per_node", 1)
        if sp.get("horizontal_scan_range", 70.0) * n * s > 360:
            sp["horizontal_scan_range"] = round(rng.uniform(0, 360 / n / s)
                                                - .001, 3)
            sp["horizontal_scan_range"] = max(0.0, sp["horizontal_scan_range"])
        devs.append((d, sp))
    return devs


def check_devices(ctx, got, devs, project):
    ctx.check_that(len(got) == len(devs), "device-count", len(got))
    for g, (d, sp) in zip(got, devs):
        exp = {
            "device_sku": d["device_sku"],
            "device_type": d.get("device_type") or DeviceType.DN,
            "node_capex": d.get("node_capex", 250.0),
        }
        exp["number_of_nodes_per_site"] = \
            d.get("number_of_nodes_per_site") or (
                1 if exp["device_type"] == DeviceType.CN else 4)
        for k, v in exp.items():
            ctx.check_that(getattr(g, k) == v, f"device-{k}",
                           (k, getattr(g, k), v))
        for k, v in {**want(SECTOR, sp), **want(PROJECT, project)}.items():
            ctx.check_that(getattr(g.sector_params, k) == v, f"sector-{k}",
                           (k, getattr(g.sector_params, k), v))


def gen_file(rng):
    project = pick(PROJECT, rng)
    radio = dict(project)
    eirp = rng.choice([None, None, 40.5, 0.09])
    if eirp is not None:
        radio["maximum_eirp"] = eirp
    devs = gen_devices(rng)
    doc_radio = section(radio, PROJECT, rng)
    dl = []
    for d, sp in devs:
        e = section(d, {"node_capex": 1}, rng)
        s = section(sp, SECTOR, rng)
        if s or rng.random() < .5:
            e[case("sector_params", rng)] = s
        dl.append(e)
    doc_radio[case("device_list", rng)] = dl
    los, det = pick(LOS, rng), pick(DETECT, rng)
    doc_los = section(los, LOS, rng)
    if det or rng.random() < .5:
        doc_los[case("site_detection", rng)] = section(det, DETECT, rng)
    fin, dim, opt = pick(FIN, rng), pick(DIM, rng), pick(OPT, rng)
    if dim.get("enable_uniform_demand"):
        dim.setdefault("demand_spacing", 11.5)
    if dim.get("enable_uniform_demand") or dim.get("enable_manual_demand"):
        dim.setdefault("demand_connection_radius", 12.5)
        if rng.random() < .5:
            dim["enable_cn_demand"] = Bo(rng)
    nd = section(opt, OPT, rng)
    nd[case("financial", rng)] = section(fin, FIN, rng)
    nd[case("dimensioning", rng)] = section(dim, DIM, rng)
    sysp = pick(SYS, rng)
    gis = pick(GIS, rng)
    gis["boundary_polygon_file_path"] = rng.choice(["b.kml", "c.kmz"])
    dsm = None
    if rng.random() < .6:
        dsm = [rng.choice(["a.tif", "b.tiff", "c.TIF"])
               for _ in range(rng.randint(1, 3))]
        gis["dsm_file_paths"] = dsm
    if "building_outline_file_path" not in gis and rng.random() < .5:
        gis["base_topology_file_path"] = rng.choice(["t.kml", "t.kmz"])
    doc = {"SYSTEM": section(sysp, SYS, rng), "DATA": section(gis, GIS, rng),
           "LINE_OF_SIGHT": doc_los, "RADIO": doc_radio, "NETWORK_DESIGN": nd}
    return doc, dict(project=project, eirp=eirp, devs=devs, los=los, det=det,
                     fin=fin, dim=dim, opt=opt, sys=sysp, gis=gis, dsm=dsm)


def write(doc, ctx, rng, name="c"):
    if rng.random() < .3:
        p = os.path.join(ctx.scratch, name + ".json")
        with open(p, "w") as f:
            json.dump(doc, f)
    else:
        p = os.path.join(ctx.scratch, name + rng.choice([".yml", ".yaml"]))
        with open(p, "w") as f:
            yaml.safe_dump(doc, f, sort_keys=False)
    return p


@check.part(quick=250, thorough=6000, share=2, need={"files": 60})
def files(ctx, rng):
    doc, w = gen_file(rng)
    p = write(doc, ctx, rng)
    ctx.count("files")
    C = ctx.check_that
    if rng.random() < .1:
        doc2 = {k: v for k, v in doc.items() if k != "SYSTEM"}
        s = struct_objects_from_file(SYSTEM, write(doc2, ctx, rng, "nosys"))
        w["sys"] = {}
    else:
        s = struct_objects_from_file(SYSTEM, p)
    for k, v in want(SYS, w["sys"]).items():
        C(getattr(s, k) == v, f"system-{k}", (getattr(s, k), v))
    g = struct_objects_from_file(DATA, p)
    for k, v in want(GIS, w["gis"]).items():
        C(getattr(g, k) == v, f"data-{k}", (getattr(g, k), v))
    C(g.boundary_polygon_file_path == w["gis"]["boundary_polygon_file_path"],
      "data-boundary", "")
    C(list(g.dsm_file_paths) == list(w["dsm"] or []), "data-dsm",
      (g.dsm_file_paths, w["dsm"]))
    C(g.base_topology_file_path == w["gis"].get("base_topology_file_path"),
      "data-base", "")
    los = struct_objects_from_file(LINE_OF_SIGHT, p)
    for k, v in {**want(LOS, w["los"]), **want(PROJECT, w["project"])}.items():
        C(getattr(los, k) == v, f"los-{k}", (getattr(los, k), v))
    for k, v in want(DETECT, w["det"]).items():
        C(getattr(los.site_detection, k) == v, f"detection-{k}",
          (getattr(los.site_detection, k), v))
    C(los.maximum_eirp == w["eirp"], "los-eirp", los.maximum_eirp)
    check_devices(ctx, los.device_list, w["devs"], w["project"])
    opt = struct_objects_from_file(OPTIMIZATION, p)
    for tab, giv in ((OPT, w["opt"]), (FIN, w["fin"]), (DIM, w["dim"]),
                     (PROJECT, w["project"])):
        for k, v in want(tab, giv).items():
            C(getattr(opt, k) == v, f"optimizer-{k}", (getattr(opt, k), v))
    C(opt.enable_cn_demand == w["dim"].get("enable_cn_demand", True),
      "optimizer-enable_cn_demand", opt.enable_cn_demand)
    C(opt.maximum_eirp == w["eirp"], "optimizer-eirp", opt.maximum_eirp)
    check_devices(ctx, opt.device_list, w["devs"], w["project"])
    ctx.nontrivial(sorted(w["los"]), sorted(w["opt"]), sorted(w["gis"]),
                   len(w["devs"]))
    ctx.sample(doc)
    # loading twice gives equal objects
    for name, obj in ((SYSTEM, s), (DATA, g), (LINE_OF_SIGHT, los),
                      (OPTIMIZATION, opt)):
        if name == SYSTEM and not w["sys"]:
            continue
        C(struct_objects_from_file(name, p) == obj, "load-twice", name)
    # an unknown field anywhere is refused whatever is asked for
    bad = copy.deepcopy(doc)
    spots = [bad, bad["SYSTEM"], bad["DATA"], bad["LINE_OF_SIGHT"],
             bad["RADIO"], bad["NETWORK_DESIGN"]]
    for d in list(spots):
        for v in d.values():
            if isinstance(v, dict) and d is not bad:
                spots.append(v)
            if isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        spots.append(x)
                        spots += [y for y in x.values()
                                  if isinstance(y, dict)]
    rng.choice(spots)[rng.choice(["BUDGETT", "DEMANDS", "x", "RAIN RATE"])] = 1
    bp = write(bad, ctx, rng, "bad")
    for name in (SYSTEM, DATA, LINE_OF_SIGHT, OPTIMIZATION):
        ctx.expect_raises(ConfigException,
                          lambda: struct_objects_from_file(name, bp),
                          "unknown-field-accepted", bad)
    # a needed section that is missing is refused
    need = {DATA: "DATA", OPTIMIZATION: rng.choice(
        ["RADIO", "NETWORK_DESIGN"]), LINE_OF_SIGHT: "LINE_OF_SIGHT"}
    for name, sec in need.items():
        d2 = {k: v for k, v in doc.items() if k != sec}
        p2 = write(d2, ctx, rng, "miss")
        ctx.expect_raises(ConfigException,
                          lambda: struct_objects_from_file(name, p2),
                          "missing-section-accepted", (name, sec))
    ctx.expect_raises(ConfigException, lambda: struct_objects_from_file(
        DATA, p + ".none.yaml"), "missing-file-accepted")
    q = os.path.join(ctx.scratch, "c.txt")
    with open(q, "w") as f:
        json.dump(doc, f)
    ctx.expect_raises(ConfigException, lambda: struct_objects_from_file(
        DATA, q), "wrong-extension-accepted")


def devices_of(rng, n=None, write_tables=None):
    out = []
    for i in range(n or rng.randint(1, 3)):
        sp = pick(SECTOR, rng, .4)
        sp["horizontal_scan_range"] = round(rng.uniform(0, 28), 2)
        if write_tables and rng.random() < .6:
            sp.update(write_tables(rng, i))
            sp.pop("minimum_mcs_level", None)
            sp.pop("minimum_tx_power", None)
        kw = {}
        if rng.random() < .5:
            kw["node_capex"] = rng.uniform(0, 900)
        out.append(DeviceData(f"dev{i}", SectorParams(**sp), device_type=rng.
                              choice([DeviceType.DN, DeviceType.CN]), **kw))
    rng.shuffle(out)
    return out


def tables_writer(ctx):
    def wr(rng, i):
        out = {}
        base = os.path.join(ctx.scratch, f"t{rng.getrandbits(40)}")
        if rng.random() < .6:
            write_pln(base + ".txt", gen_pln(rng))
            out["antenna_pattern_file_path"] = base + ".txt"
        if rng.random() < .6:
            write_scan(base + ".csv", gen_scan(rng))
            out["scan_pattern_file_path"] = base + ".csv"
        if rng.random() < .6:
            rows = gen_mcs(rng)
            write_mcs(base + "m.csv", rows, rng)
            out["mcs_map_file_path"] = base + "m.csv"
        return out
    return wr


def make(kind, rng, ctx):
    tw = tables_writer(ctx) if rng.random() < .3 else None
    if kind == "los":
        kw = {**pick(LOS, rng), **pick(PROJECT, rng)}
        kw["site_detection"] = SiteDetectionParams(**pick(DETECT, rng))
        return LOSParams(device_list=devices_of(rng, None, tw), **kw), kw, \
            {**LOS, **PROJECT}
    if kind == "opt":
        kw = {**pick(OPT, rng), **pick(FIN, rng), **pick(PROJECT, rng)}
        dim = pick(DIM, rng)
        dim.setdefault("demand_spacing", 5.0)
        dim.setdefault("demand_connection_radius", 5.0)
        kw.update(dim)
        return OptimizerParams(device_list=devices_of(rng, None, tw), **kw), \
            kw, {**OPT, **FIN, **PROJECT, **{k: v for k, v in DIM.items()
                                             if k.startswith("demand")}}
    if kind == "sys":
        kw = pick(SYS, rng)
        return SystemParams(**kw), kw, SYS
    if kind == "gis":
        kw = pick(GIS, rng)
        kw["boundary_polygon_file_path"] = "b.kml"
        kw["dsm_file_paths"] = [f"d{i}.tif" for i in range(rng.randint(0, 3))]
        return GISDataParams(**kw), kw, GIS
    if kind == "det":
        kw = pick(DETECT, rng)
        return SiteDetectionParams(**kw), kw, DETECT
    if kind == "dev":
        d = devices_of(rng, 1, tw)[0]
        return d, {}, {"node_capex": (0, U(1000, 2000))}
    kw = {**pick(SECTOR, rng), **pick(PROJECT, rng)}
    return SectorParams(**kw), kw, {**SECTOR, **PROJECT}


def snap(o):
    """Deep plain view of a configuration object."""
    if hasattr(o, "to_string"):
        return o.to_string()
    if hasattr(o, "__dict__"):
        return {k: snap(v) for k, v in vars(o).items()}
    if isinstance(o, tuple):
        return tuple(snap(x) for x in o)
    if isinstance(o, list):
        return [snap(x) for x in o]
    if isinstance(o, dict):
        return {k: snap(v) for k, v in o.items()}
    return o


@check.part(quick=600, thorough=15000, share=2,
            need={"round_trips": 100, "mutations": 100})
def round_trip_and_equality(ctx, rng):
    kind = rng.choice(["los", "opt", "opt", "sys", "gis", "det", "dev", "sec"])
    o, kw, table = make(kind, rng, ctx)
    cls = type(o)
    before = snap(o)
    d = o.to_dict()
    for name, dd in (("dict", d), ("json", json.loads(json.dumps(d))),
                     ("yaml", yaml.safe_load(yaml.safe_dump(d)))):
        b = cls.from_dict(copy.deepcopy(dd))
        ctx.count("round_trips")
        ctx.check_that(snap(b) == before, "round-trip-values",
                       lambda: f"{kind} {name}: {diff(before, snap(b))}")
        ctx.check_that(b == o and o == b and not (b != o), "round-trip-equal",
                       (kind, name))
    ctx.check_that(snap(o) == before, "changed-by-serialising", kind)
    # equality against an object that differs in exactly one value
    c = copy.deepcopy(o)
    ctx.check_that(c == o and o == c, "copy-equal", kind)
    spots = [(c, k, g) for k, (_, g) in table.items()]
    for dev in getattr(c, "device_list", []):
        spots += [(dev.sector_params, k, g) for k, (_, g) in SECTOR.items()]
        spots.append((dev, "node_capex", U(0, 5000)))
        spots.append((dev, "device_sku", lambda r: "zz"))
        spots.append((dev, "device_type", lambda r: r.choice(
            list(DeviceType))))
    if kind == "dev":
        spots += [(c.sector_params, k, g) for k, (_, g) in SECTOR.items()]
    if kind == "los":
        spots += [(c.site_detection, k, g) for k, (_, g) in DETECT.items()]
    for _ in range(3):
        obj, k, g = rng.choice(spots)
        old = getattr(obj, k)
        new = g(rng)
        for _ in range(20):
            if new != old:
                break
            new = g(rng)
        if new == old:
            continue
        setattr(obj, k, new)
        ctx.count("mutations")
        ctx.check_that(c != o and o != c and not (c == o) and not (o == c),
                       "unequal-compare-equal", (kind, k, old, new))
        setattr(obj, k, old)
        ctx.check_that(c == o, "equality-after-restore", (kind, k))
        ctx.nontrivial(kind, k)
    if kind in ("los", "opt"):
        snap_c = snap(c)
        ctx.check_that(snap(o) == before and snap_c == before,
                       "changed-by-comparing",
                       lambda: f"{kind} {diff(before, snap(o))}")
        c.device_list = list(reversed(c.device_list))
        ctx.check_that(c == o, "device-order-in-equality", kind)
        c.device_list = c.device_list[:-1]
        ctx.check_that(c != o and o != c, "fewer-devices-equal", kind)
    if kind == "gis" and c.dsm_file_paths:
        c.dsm_file_paths = c.dsm_file_paths[:-1]
        ctx.check_that(c != o and o != c, "fewer-files-equal", kind)
    ctx.check_that((o == 3) is False and o != "x" and o is not None,
                   "foreign-equality", kind)
    ctx.sample({"kind": kind, "fields": sorted(kw)})


def diff(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {a!r} -> {b!r}"
    if isinstance(a, dict):
        for k in set(a) | set(b):
            if a.get(k) != b.get(k):
                return diff(a.get(k), b.get(k), f"{path}.{k}")
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}[{i}]")
    return f"{path}: {str(a)[:200]} -> {str(b)[:200]}"


DEVS = lambda: [dn_device("B1")]  # noqa
E = 1e-6
# class, field, valid edge values, invalid values, extra arguments
RULES = [
    (SectorParams, "antenna_boresight_gain", [0, 3.5], [-E, -5], {}),
    (SectorParams, "maximum_tx_power", [0, 3.5], [-E, -5], {}),
    (SectorParams, "number_sectors_per_node", [1, 2], [0, -1], {}),
    (SectorParams, "horizontal_scan_range", [0, 360, 90], [-E, 360 + E], {}),
    (SectorParams, "carrier_frequency", [E, 6e4], [0, -1], {}),
    (SectorParams, "noise_figure", [0, 3], [-E], {}),
    (SectorParams, "rain_rate", [0, 3], [-E], {}),
    (SectorParams, "link_availability_percentage", [0, 100, 50],
     [-E, 100 + E], {}),
    (SectorParams, "tx_diversity_gain", [0, 3], [-E], {}),
    (SectorParams, "rx_diversity_gain", [0, 3], [-E], {}),
    (SectorParams, "tx_miscellaneous_loss", [0, 3], [-E], {}),
    (SectorParams, "rx_miscellaneous_loss", [0, 3], [-E], {}),
    (SectorParams, "minimum_mcs_level", [None, 0, 3], [-1], {}),
    (SectorParams, "minimum_tx_power", [None, 16.0, -40], [16.0 + E], {}),
    (DeviceData, "device_sku", ["a"], [""], {"sector_params": SectorParams()}),
    (DeviceData, "node_capex", [0, 1.5], [-E],
     {"device_sku": "a", "sector_params": SectorParams()}),
    (DeviceData, "number_of_nodes_per_site", [None, 1, 5], [0, 6],
     {"device_sku": "a", "sector_params": SectorParams()}),
    (DeviceData, "number_of_nodes_per_site", [None, 1], [0, 2],
     {"device_sku": "a", "sector_params": SectorParams(),
      "device_type": DeviceType.CN}),
    (DeviceData, "sector_params",
     [SectorParams(horizontal_scan_range=90),
      SectorParams(horizontal_scan_range=45, number_sectors_per_node=2)],
     [SectorParams(horizontal_scan_range=90.001),
      SectorParams(horizontal_scan_range=45.001, number_sectors_per_node=2)],
     {"device_sku": "a"}),
    (SiteDetectionParams, "max_corner_angle", [None, E, 179.9],
     [0, 180, -1, 200], {}),
    (LOSParams, "device_list", [DEVS()], [[]], {}),
    (LOSParams, "minimum_mcs_of_backhaul_links", [None, 0], [-1], "devs"),
    (LOSParams, "minimum_mcs_of_access_links", [None, 0], [-1], "devs"),
    (LOSParams, "minimum_los_distance", [5, 199], [4, 200, 201, -1], "devs"),
    (LOSParams, "maximum_los_distance", [None, 51], [50, 49], "devs"),
    (LOSParams, "maximum_elevation_scan_angle", [0, 90], [-E, 90 + E], "devs"),
    (LOSParams, "mounting_height_above_rooftop", [0, 3], [-E], "devs"),
    (LOSParams, "default_dn_height_on_pole", [0, 3], [-E], "devs"),
    (LOSParams, "default_cn_height_on_pole", [0, 3], [-E], "devs"),
    (LOSParams, "default_pop_height_on_pole", [0, 3], [-E], "devs"),
    (LOSParams, "fresnel_radius", [E, 3], [0, -1], "devs"),
    (LOSParams, "los_confidence_threshold", [0, 1], [-E, 1 + E], "devs"),
    (OptimizerParams, "device_list", [DEVS()], [[]], {}),
    (OptimizerParams, "pop_site_capex", [0, 3], [-E], "devs"),
    (OptimizerParams, "cn_site_capex", [0, 3], [-E], "devs"),
    (OptimizerParams, "dn_site_capex", [0, 3], [-E], "devs"),
    (OptimizerParams, "budget", [0, 3], [-E], "devs"),
    (OptimizerParams, "pop_capacity", [E, 3], [0, -E], "devs"),
    (OptimizerParams, "oversubscription", [1, 3], [1 - E, 0, -1], "devs"),
    (OptimizerParams, "number_of_extra_pops", [0, 3], [-1], "devs"),
    (OptimizerParams, "demand", [E, 3], [0, -E], "devs"),
    (OptimizerParams, "dn_dn_sector_limit", [1, 15], [0, 16, -1], "devs"),
    (OptimizerParams, "dn_total_sector_limit", [2, 20], [1, 0], "devs"),
    (OptimizerParams, "maximum_number_hops", [1, 20], [0, -1], "devs"),
    (OptimizerParams, "diff_sector_angle_limit", [0, 180], [-E, 180 + E],
     "devs"),
    (OptimizerParams, "near_far_length_ratio", [E, 20], [0, -1], "devs"),
    (OptimizerParams, "near_far_angle_limit", [0, 180], [-E, 180 + E], "devs"),
    (OptimizerParams, "number_of_channels", [1, 3], [0, -1], "devs"),
    (OptimizerParams, "backhaul_link_redundancy_ratio", [0, 1], [-E, 1 + E],
     "devs"),
    (OptimizerParams, "num_threads", [None, 1], [0, -1], "devs"),
    (OptimizerParams, "min_cost_max_time", [1], [0, -1], "devs"),
    (OptimizerParams, "redundancy_max_time", [1], [0, -1], "devs"),
    (OptimizerParams, "interference_max_time", [1], [0, -1], "devs"),
    (OptimizerParams, "pop_proposal_max_time", [1], [0, -1], "devs"),
    (OptimizerParams, "demand_site_max_time", [1], [0, -1], "devs"),
    (OptimizerParams, "availability_max_time", [1], [0, -1], "devs"),
    (OptimizerParams, "candidate_topology_file_path",
     [None, "a.kml", "a.KMZ", "a.zip"], ["a.csv", "kmlx", "a.kml.txt"],
     "devs"),
    (OptimizerParams, "enable_cn_demand", [True], [False], "devs"),
    (OptimizerParams, "enable_uniform_demand", [False], [True], "devs"),
    (OptimizerParams, "enable_manual_demand", [False], [True], "devs"),
    (OptimizerParams, "demand_spacing", [1], [0, -1],
     {"enable_uniform_demand": True, "demand_connection_radius": 1.0,
      "device_list": DEVS()}),
    (OptimizerParams, "demand_connection_radius", [1], [0, -1],
     {"enable_uniform_demand": True, "demand_spacing": 1.0,
      "device_list": DEVS()}),
    (OptimizerParams, "demand_connection_radius", [1], [0, -1],
     {"enable_manual_demand": True, "device_list": DEVS()}),
    (GISDataParams, "boundary_polygon_file_path", ["b.kml", "B.KMZ"],
     ["b.tif", "b", "b.zip"], {}),
    (GISDataParams, "building_outline_file_path", [None, "b.zip", "b.kmz"],
     ["b.csv", "b.shp"], {"boundary_polygon_file_path": "b.kml"}),
    (GISDataParams, "building_outline_file_path", [None],
     ["b.zip"], {"boundary_polygon_file_path": "b.kml",
                 "base_topology_file_path": "t.kml"}),
    (GISDataParams, "dsm_file_paths", [None, [], [None], ["a.tif", "b.tiff"]],
     [["a.png"], ["a.tif", "b.kml"]], {"boundary_polygon_file_path": "b.kml"}),
    (GISDataParams, "dtm_file_path", [None, "a.tif"], ["a.csv"],
     {"boundary_polygon_file_path": "b.kml"}),
    (GISDataParams, "dhm_file_path", [None, "a.tif"], ["a.csv"],
     {"boundary_polygon_file_path": "b.kml"}),
    (GISDataParams, "site_file_path", [None, "a.csv", "a.kml", "a.kmz"],
     ["a.zip", "a.tif"], {"boundary_polygon_file_path": "b.kml"}),
    (GISDataParams, "base_topology_file_path", [None, "a.kml", "a.kmz"],
     ["a.tif"], {"boundary_polygon_file_path": "b.kml"}),
]


@check.part(once=True)
def bounds(ctx, rng):
    for cls, field, good, bad, extra in RULES:
        if extra == "devs":
            extra = {"device_list": DEVS()}
        for v in good:
            try:
                o = cls(**{**extra, field: v})
            except PlannerException as e:
                ctx.violate(f"valid-{field}-refused", (cls.__name__, v, e))
                continue
            got = getattr(o, field)
            if field == "dsm_file_paths":
                v = [x for x in (v or []) if x]
            if field == "number_of_nodes_per_site" and v is None:
                v = 1 if extra.get("device_type") == DeviceType.CN else 4
            ctx.check_that(got == v, f"{field}-stored", (v, got))
        for v in bad:
            ctx.expect_raises(PlannerException,
                              lambda: cls(**{**extra, field: v}),
                              f"invalid-{field}-accepted", (cls.__name__, v))
            if field not in ("device_list", "sector_params") and \
                    "device_list" not in extra and \
                    "sector_params" not in extra:
                ctx.expect_raises(
                    PlannerException,
                    lambda: cls.from_dict({**extra, field: v}),
                    f"invalid-{field}-accepted", (cls.__name__, v, "dict"))
        ctx.nontrivial(cls.__name__, field)
    for a, b in (("Dev", "dEV"), ("A", "A")):
        for cls in (LOSParams, OptimizerParams):
            ctx.expect_raises(
                PlannerException,
                lambda: cls([dn_device(a), dn_device("mid"), dn_device(b)]),
                "duplicate-device-accepted", (a, b))
            cls([dn_device(a), dn_device(b + "x")])
    # project level radio values reach every device
    ds = [dn_device("p"), cn_device("q")]
    for cls in (LOSParams, OptimizerParams):
        cls(ds, carrier_frequency=5e4, thermal_noise_power=-70.0,
            noise_figure=3.0, rain_rate=11.0, link_availability_percentage=77)
        for x in ds:
            s = x.sector_params
            ctx.check_that((s.carrier_frequency, s.thermal_noise_power,
                            s.noise_figure, s.rain_rate,
                            s.link_availability_percentage) ==
                           (5e4, -70.0, 3.0, 11.0, 77), "project-level-value",
                           vars(s))
    ctx.sample(f"{len(RULES)} bound rules")


# radio tables -----------------------------------------------------------
def gen_pln(rng):
    out = {}
    for i in range(rng.randint(1, 3)):
        out[f"PAT {i}{rng.randint(0, 99)}"] = (
            [round(rng.uniform(0, 60), 2) for _ in range(360)],
            [round(rng.uniform(0, 60), 2) for _ in range(360)])
    return out


DEFAULT_ROWS = [tuple(r) for r in DEFAULT_MCS_SNR_MBPS_MAP]


def pln_rows(pats):
    rows = []
    for name, (az, el) in pats.items():
        rows += [("NAME", name.replace(' ', '_')), ("FREQUENCY", 60000),
                 ("GAIN", 30), ("HORIZONTAL", 360)]
        rows += list(enumerate(az)) + [("VERTICAL", 360)]
        rows += list(enumerate(el))
    return rows


def write_rows(path, rows, sep="\t"):
    with open(path, "w") as f:
        for a, b in rows:
            f.write(f"{a}{sep}{b}\n")


def write_pln(path, pats, sep="\t", rng=None):
    rows = pln_rows(pats)
    if rng and rng.random() < .5:
        for _ in range(rng.randint(1, 4)):      # rows left blank
            rows.insert(rng.randint(0, len(rows)), ("", ""))
    write_rows(path, rows, sep)


def gen_scan(rng):
    hs = sorted(rng.sample(range(-90, 91), rng.randint(1, 6)))
    vs = sorted(rng.sample(range(-45, 46), rng.randint(1, 6)))
    return {float(h): {float(v): round(rng.uniform(-9, 30), 2) for v in vs}
            for h in hs}


def write_scan(path, tab):
    vs = list(next(iter(tab.values())))
    with open(path, "w") as f:
        f.write("," + ",".join(str(v) for v in vs) + "\n")
        for h, row in tab.items():
            f.write(f"{h}," + ",".join(str(row[v]) for v in vs) + "\n")


def gen_mcs(rng):
    n = rng.randint(1, 10)
    snr, mb, bo = rng.uniform(-2, 5), 0.0, 0.0
    rows = []
    m = rng.randint(0, 4)
    for _ in range(n):
        rows.append((m, round(snr, 2), round(mb, 2), round(bo, 1)))
        m += rng.randint(1, 2)
        snr += rng.uniform(.3, 3)
        mb += rng.uniform(10, 300)
        bo += rng.choice([0, 0, 1.0, 2.0])
    return rows


def write_mcs(path, rows, rng):
    heads = ["mcs", "snr", "mbps", "tx_backoff"]
    cols = [0, 1, 2, 3]
    if all(r[3] == 0 for r in rows) and rng.random() < .5:
        cols = [0, 1, 2]
    rng.shuffle(cols)
    pre = rng.choice(["", "", "the ", " "])
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow([pre + (heads[c].upper() if rng.random() < .3 else
                           heads[c]) for c in cols]
                   if 3 in cols or pre == "" else [heads[c] for c in cols])
        for r in rows:
            w.writerow([r[c] for c in cols])


@check.part(quick=240, thorough=5000, share=1.5,
            need={"tables": 100, "default_tables": 30, "nothing_left": 5,
                  "patterns": 60})
def radio_tables(ctx, rng):
    base = os.path.join(ctx.scratch, "x")
    rows = gen_mcs(rng)
    minm = rng.choice([None, None, rows[0][0], rows[-1][0],
                       rows[len(rows) // 2][0]])
    mint = rng.choice([None, None, 16.0 - rows[len(rows) // 2][3], 15.5, 16.0])
    write_mcs(base + ".csv", rows, rng)
    if rng.random() < .4:       # the table used when no file is given
        rows, path = [tuple(r) for r in DEFAULT_MCS_SNR_MBPS_MAP], None
        minm = rng.choice([None, *range(1, rows[-1][0] + 2)])
        mint = rng.choice([None, None, 16.0 - rng.choice(rows)[3], 16.0])
        ctx.count("default_tables", int(minm is not None))
    else:
        path = base + ".csv"
    want_rows = [r for r in rows if (minm is None or r[0] >= minm) and
                 (mint is None or 16.0 - r[3] >= mint)]
    par = dict(mcs_map_file_path=path, minimum_mcs_level=minm,
               minimum_tx_power=mint, maximum_tx_power=16.0)
    if want_rows:
        sp = SectorParams(**par)
        ctx.check_that(
            [tuple(x) for x in sp.mcs_map] == want_rows, "mcs-table",
            lambda: f"{[tuple(x) for x in sp.mcs_map]} vs {want_rows}")
    else:
        ctx.expect_raises(PlannerException, lambda: SectorParams(**par),
                          "table-with-nothing-left-accepted", par)
        ctx.count("nothing_left")
    ctx.check_that([tuple(r) for r in DEFAULT_MCS_SNR_MBPS_MAP] == DEFAULT_ROWS,
                   "default-table-modified", "")
    ctx.count("tables")
    if path is None:
        rows = gen_mcs(rng)
        write_mcs(base + ".csv", rows, rng)
    # a table whose columns do not grow together is refused
    if len(rows) > 2:
        i, j = rng.sample(range(len(rows)), 2)
        bad = [list(r) for r in rows]
        c = rng.choice([0, 1, 2])
        bad[i][c], bad[j][c] = bad[j][c], bad[i][c]
        write_mcs(base + "b.csv", bad, rng)
        ctx.expect_raises(PlannerException, lambda: SectorParams(
            mcs_map_file_path=base + "b.csv"), "unordered-mcs-accepted", bad)
    bad = [list(r) for r in rows]
    bad[rng.randrange(len(bad))][rng.choice([0, 1, 2])] = "x"
    write_mcs(base + "c.csv", bad, rng)
    ctx.expect_raises(PlannerException, lambda: SectorParams(
        mcs_map_file_path=base + "c.csv"), "bad-mcs-accepted", bad)
    ctx.expect_raises(PlannerException, lambda: SectorParams(
        mcs_map_file_path=base + ".csv", minimum_mcs_level=rows[-1][0] + 1),
        "min-mcs-above-table-accepted", rows)
    tab = gen_scan(rng)
    write_scan(base + "s.csv", tab)
    sp = SectorParams(scan_pattern_file_path=base + "s.csv")
    ctx.check_that(sp.scan_pattern_data == tab, "scan-table",
                   lambda: diff(tab, sp.scan_pattern_data))
    if sum(len(r) for r in tab.values()) > 1:
        h = rng.choice(list(tab))
        v = rng.choice(list(tab[h]))
        for bad in ("", "x"):
            hurt = {k: dict(r) for k, r in tab.items()}
            hurt[h][v] = bad
            write_scan(base + "t.csv", hurt)
            ctx.expect_raises(PlannerException, lambda: SectorParams(
                scan_pattern_file_path=base + "t.csv"),
                "bad-scan-accepted", (bad, h, v))
        with open(base + "s.csv") as f:
            lines = f.read().splitlines()
        i = rng.randrange(1, len(lines))
        twice = lines[:i] + [lines[i]] + lines[i:]
        with open(base + "t.csv", "w") as f:
            f.write("\n".join(twice) + "\n")
        ctx.expect_raises(PlannerException, lambda: SectorParams(
            scan_pattern_file_path=base + "t.csv"),
            "repeated-angle-accepted", lines[i])
    if rng.random() < .5:
        pats = gen_pln(rng)
        write_pln(base + ".txt", pats, rng.choice(["\t", ","]), rng)
        sp = SectorParams(antenna_pattern_file_path=base + ".txt")
        got = sp.antenna_pattern_data
        exp = {k: [[-x for x in az], [-x for x in el]]
               for k, (az, el) in pats.items()}
        ctx.check_that(sorted(map(str, got.values())) ==
                       sorted(map(str, exp.values())) and
                       len(got) == len(exp),
                       "antenna-table", lambda: f"{list(got)} vs {list(exp)}")
        ctx.count("patterns")
        rows = pln_rows(pats)
        i = rng.choice([j for j, r in enumerate(rows) if
                        isinstance(r[0], int)])
        what = rng.choice(["no_loss", "text", "missing", "short", "HORIZONTAL",
                           "VERTICAL"])
        if what in ("no_loss", "text"):
            rows[i] = (rows[i][0], "x" if what == "text" else "")
        elif what == "missing":
            del rows[i]
        elif what == "short":
            del rows[-rng.randint(1, 361):]
        else:
            k = rng.choice([j for j, r in enumerate(rows) if r[0] == what])
            del rows[k]
        write_rows(base + "u.txt", rows, rng.choice(["\t", ","]))
        ctx.expect_raises(PlannerException, lambda: SectorParams(
            antenna_pattern_file_path=base + "u.txt"),
            "bad-antenna-pattern-accepted", what)
    for k in ("antenna_pattern_file_path", "scan_pattern_file_path",
              "mcs_map_file_path"):
        ctx.expect_raises(PlannerException, lambda: SectorParams(
            **{k: base + ".absent"}), "absent-table-accepted", k)
    ctx.nontrivial(len(rows), minm, mint, len(tab))
    ctx.sample({"mcs": rows, "scan": len(tab)})


if __name__ == "__main__":
    check.run()
