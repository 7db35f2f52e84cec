"""C30: same input, same result, in any process and listed in any order."""
import csv
import json
import math
import os
import random
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

import yaml

import c10
import c29
import gis
from tg import *  # noqa
from vmon import Check, Skip

from terragraph_planner.common.configuration.configs import (
    GISDataParams, LOSParams, SiteDetectionParams,
)
from terragraph_planner.common.data_io.topology_serializer import (
    write_to_kml_file,
)
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.los.core import generate_candidate_topology
from terragraph_planner.optimization import topology_optimization as to

SEEDS = ("1", "4242")


def snapshot(t):
    """Everything a user can read from a topology, by element."""
    out = {}
    for k, s in t.sites.items():
        out[f"site {k}"] = [
            s.site_type.name, s.status_type.name, s.polarity.name,
            s.location_type.name, s.device.device_sku, s.name, s.latitude,
            s.longitude, s.altitude, s.building_id, s.number_of_subscribers]
    for k, x in t.sectors.items():
        out[f"sector {k}"] = [
            x.site.site_id, x.node_id, x.position_in_node, x.ant_azimuth,
            x.status_type.name, x.channel]
    for k, l in t.links.items():
        out[f"link {k}"] = [
            l.link_type.name, l.status_type.name, l.confidence_level,
            l.tx_sector and l.tx_sector.sector_id,
            l.rx_sector and l.rx_sector.sector_id, l.is_redundant,
            l.mcs_level, l.capacity, l.rsl_dbm, l.sinr_dbm, l.tx_power,
            l.utilization]
    for k, d in t.demand_sites.items():
        out[f"demand {k}"] = [d.demand, d.num_sites] + sorted(
            s.site_id for s in d.connected_sites)
    return out


def number(x):
    try:
        return float(x)
    except ValueError:
        return x


def files(root):
    """Tables the program wrote, their rows in any order."""
    out = {}
    for base, _, names in os.walk(root):
        for n in names:
            if n.endswith(".csv"):
                with open(os.path.join(base, n), newline="") as f:
                    rows = list(csv.reader(f))
                for r in rows:
                    key = "file %s %s" % (n, [
                        x for x in r if not isinstance(number(x), float)])
                    while key in out:
                        key += "'"
                    out[key] = [number(x) for x in r]
            elif n.endswith(".yaml"):
                with open(os.path.join(base, n)) as f:
                    flat(yaml.safe_load(f), n, out)
    return out


def flat(x, key, out):
    if isinstance(x, dict):
        for k in x:
            flat(x[k], f"{key} {k}", out)
    else:
        out[f"file {key}"] = x if isinstance(x, list) else [x]


def fresh(scratch):
    d = os.path.join(scratch, "run")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    current_system_params.output_dir = d
    current_system_params.debug_mode = False
    return d


def plan(t, p, scratch):
    d = fresh(scratch)
    try:
        to.optimize_and_report_topology(t, p)
    except PlannerException as e:
        return {"refused": [str(e)]}
    return {**snapshot(t), **files(d)}


# ----------------------------------------------- stages a process repeats
def stage_plan(seed, scratch):
    t, p = c29.world(random.Random(seed))
    before = snapshot(t)
    return {"input": [json.dumps(before, sort_keys=True)],
            **plan(t, p, scratch)}


def area(rng, scratch):
    """Input files of a line-of-sight run, as rows and placemarks."""
    x, y, epsg = c10.study_area(rng)
    size = rng.randint(120, 200)
    devs = [dn_device("DN0"), dn_device("DN1"), cn_device("CN0")]

    class C:
        pass
    C.scratch = scratch
    dsm = [c10.surface_files(C, rng, x, y, epsg, size)] \
        if rng.random() < .7 else None
    kml = c10.area_kml(C, x, y, epsg, size)

    def spot():
        return c10.ll(x + rng.uniform(2, size - 2),
                      y - rng.uniform(2, size - 2), epsg)
    rows = []
    for i in range(rng.randint(2, 9)):
        t = rng.choice(["DN", "DN", "CN", "POP"])
        la, lo = spot()
        rows.append([repr(la), repr(lo), round(rng.uniform(103, 125), 2),
                     f"s{i}", t, "CN0" if t == "CN" else rng.choice(
                         ["DN0", "DN1"]), rng.choice(["", "STREET_LEVEL"])])
    base = None
    if rng.random() < .6:
        b = Topology()
        for i in range(rng.randint(2, 4)):
            la, lo = spot()
            t = rng.choice([DN, CN, POP])
            b.add_site(make_site_ll(
                t, la, lo, devs[2] if t == CN else devs[0],
                status=rng.choice([EXISTING, CANDIDATE]),
                alt=round(rng.uniform(103, 125), 2), name=f"b{i}"))
        for s in b.sites.values():
            for r in b.sites.values():
                if s is not r and (s.site_type, r.site_type) in c10.RADIO:
                    b.add_link(Link(s, r, status_type=CANDIDATE,
                                    is_wireless=True, confidence_level=.5))
        base = b
    boxes = []
    for i in range(rng.choice([0, 0, 1, 3, 4])):
        bx, by = x + 10 + rng.uniform(0, size - 50), \
            y - 10 - rng.uniform(0, size - 50)
        w, h = rng.uniform(9, 25), rng.uniform(9, 25)
        if all(abs(bx - q[0]) > 40 or abs(by - q[1]) > 40 for q in boxes):
            boxes.append((bx, by, w, h))
    outlines = [gis.kml_polygon(f"b{i}", [c10.ll(*p, epsg)[::-1] for p in (
        (bx, by), (bx + w, by), (bx + w, by - h), (bx, by - h))])
        for i, (bx, by, w, h) in enumerate(boxes)]
    kw = dict(
        minimum_los_distance=5, maximum_los_distance=rng.choice([80, 200]),
        maximum_elevation_scan_angle=rng.choice([20.0, 60.0]),
        use_ellipsoidal_los_model=rng.random() < .4,
        los_confidence_threshold=rng.choice([1.0, .5]))
    if outlines:
        kw["site_detection"] = SiteDetectionParams(
            dn_deployment=rng.random() < .6,
            detect_highest=rng.random() < .6, detect_centers=True,
            detect_corners=rng.random() < .6)
    return dsm, kml, rows, base, outlines, devs, kw


def placemark_order(path, rng):
    """Shuffles the placemarks of every folder of a file."""
    tree = ET.parse(path)
    for f in tree.getroot().iter():
        marks = [e for e in f if e.tag.endswith("Placemark")]
        where = [i for i, e in enumerate(f) if e in marks]
        rng.shuffle(marks)
        for i, m in zip(where, marks):
            f[i] = m
    tree.write(path)


def surveyed(files_, scratch, cpus, rng=None):
    """The candidate network of the input files."""
    dsm, kml, rows, base, outlines, devs, kw = files_
    rows, outlines = list(rows), list(outlines)
    sp, base_path, bp = (os.path.join(scratch, n) for n in (
        "sites.csv", "base.kml", "bld.kml"))
    if base is not None:
        write_to_kml_file(base, base_path)
    if rng is not None:
        rng.shuffle(rows)
        if base is not None:
            placemark_order(base_path, rng)
    with open(sp, "w", newline="") as f:
        csv.writer(f).writerows([[
            "latitude", "longitude", "altitude", "name", "site type",
            "device sku", "location type"]] + rows)
    if outlines:
        gis.write_kml(bp, gis.kml_folder("buildings", "".join(outlines)))
    current_system_params.output_dir = scratch
    try:
        t = generate_candidate_topology(
            LOSParams(device_list=devs, num_processors=cpus, **kw),
            GISDataParams(
                boundary_polygon_file_path=kml, dsm_file_paths=dsm,
                site_file_path=sp,
                base_topology_file_path=base_path if base else None,
                building_outline_file_path=bp if outlines else None))
    except PlannerException as e:
        return {"refused": [str(e)]}
    out = {}

    def key(s):
        return (s.site_type.name, s.device.device_sku, round(s.latitude, 8),
                round(s.longitude, 8), round(s.altitude, 4))
    for s in t.sites.values():
        out[f"site {key(s)}"] = [
            s.status_type.name, s.location_type.name, s.building_id,
            s.name if outlines == [] else None]
    for k in t.links.values():
        out[f"link {key(k.tx_site)} {key(k.rx_site)}"] = [
            k.link_type.name, k.status_type.name, k.confidence_level,
            k.distance]
    return out


def stage_survey(seed, scratch):
    f = area(random.Random(seed), scratch)
    return {"input": [json.dumps([f[2], f[4]])],
            **surveyed(f, scratch, 1)}


STAGES = {"plan": stage_plan, "survey": stage_survey}


def serve():
    import logging
    import tempfile
    logging.disable(50)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        stage, seed = json.loads(line)
        with tempfile.TemporaryDirectory() as d:
            out.write(json.dumps(STAGES[stage](seed, d)) + "\n")
            out.flush()


_servers = {}


def elsewhere(hashseed, stage, seed):
    """The stage's result in a process with another hash seed."""
    key = (os.getpid(), hashseed)
    if key not in _servers:
        _servers[key] = subprocess.Popen(
            [sys.executable, os.path.abspath(__file__), "--serve"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
            stderr=subprocess.DEVNULL,
            env=dict(os.environ, PYTHONHASHSEED=hashseed))
    s = _servers[key]
    s.stdin.write(json.dumps([stage, seed]) + "\n")
    s.stdin.flush()
    return json.loads(s.stdout.readline())


check = Check(
    "C30",
    rule="the same input planned and surveyed in processes with three hash "
         "seeds, and with its elements, rows and placemarks listed in other "
         "orders, by one process or two; every site, sector, link, demand "
         "site and table compared; non-trivial = distinct inputs",
    assumptions=["numbers agree up to rounding (1e-6)",
                 "candidate networks with detected buildings and the sector "
                 "layout of a preparation may depend on listing order where "
                 "several are equally good"],
    workers=6)


def same(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return math.isclose(x, y, rel_tol=1e-6, abs_tol=1e-6) or (
            math.isnan(x) and math.isnan(y))
    return x == y


def differ(a, b):
    """Elements with other values; numbers up to rounding."""
    out = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x is None or y is None or len(x) != len(y) or not all(
                map(same, x, y)):
            out.append(f"{k}: {x} / {y}")
    return out


def twice(ctx, stage, seed):
    here = STAGES[stage](seed, ctx.scratch)
    for h in SEEDS:
        there = elsewhere(h, stage, seed)
        if there["input"] != here["input"]:
            raise RuntimeError("the generator depends on the hash seed")
        bad = differ(here, there)
        ctx.check_that(not bad, stage + "-depends-on-hash-seed",
                       lambda: "\n".join(bad[:12]))
    ctx.nontrivial(stage, seed)
    return here


@check.part(quick=24, thorough=3000, share=2, need={"planned": 6})
def plan_in_processes(ctx, rng):
    here = twice(ctx, "plan", rng.getrandbits(60))
    ctx.count("planned", "refused" not in here)


@check.part(quick=50, thorough=2000, share=2, need={"linked": 10})
def survey_in_processes(ctx, rng):
    here = twice(ctx, "survey", rng.getrandbits(60))
    ctx.count("linked", any(k.startswith("link") for k in here))


@check.part(quick=120, thorough=4000, share=2, need={"linked": 25})
def survey_in_any_order(ctx, rng):
    """Rows and placemarks in another order, one process or two."""
    dsm, kml, rows, base, _, devs, kw = area(rng, ctx.scratch)
    kw.pop("site_detection", None)
    f = dsm, kml, rows, base, [], devs, kw
    ref = surveyed(f, ctx.scratch, 1)
    for cpus in (1, 2):
        bad = differ(ref, surveyed(f, ctx.scratch, cpus, rng))
        ctx.check_that(not bad, "survey-depends-on-order",
                       lambda: "\n".join(bad[:12]))
    n = sum(k.startswith("link") for k in ref)
    ctx.count("linked", n > 0)
    ctx.nontrivial(len(rows), n, base is not None, dsm is not None)


@check.part(quick=60, thorough=3000, share=2, need={"planned": 12})
def plan_in_any_order(ctx, rng):
    """The prepared network with its elements listed in another order."""
    seed = rng.getrandbits(60)
    ref = None
    for i in range(3):
        t, p = c29.world(random.Random(seed))
        try:
            to.pre_opt_check(t, p)
            to.prepare_topology_for_optimization(t, p)
        except PlannerException:
            return
        if i:
            t = listed(t, rng)
        d = fresh(ctx.scratch)
        try:
            to.optimize_topology(t, p)
            to.analyze_with_dump(t, p)
            got = {**snapshot(t), **files(d)}
        except PlannerException as e:
            got = {"refused": [str(e)]}
        if ref is None:
            ref = got
            continue
        bad = differ(ref, got)
        ctx.check_that(not bad, "plan-depends-on-order",
                       lambda: "\n".join(bad[:12]))
    ctx.count("planned", "refused" not in ref)
    ctx.nontrivial(seed)


def listed(t, rng):
    """The same network with everything listed in another order."""
    n = Topology()

    def any_order(d):
        x = list(d.values())
        rng.shuffle(x)
        return x
    for s in any_order(t.sites):
        n.add_site(s)
    for x in any_order(t.sectors):
        n.add_sector(x)
    for l in any_order(t.links):
        n.add_link(l)
    for d in any_order(t.demand_sites):
        rng.shuffle(d.connected_sites)
        n.add_demand_site(d)
    return n


if __name__ == "__main__":
    if "--serve" in sys.argv:
        serve()
    else:
        check.run()
