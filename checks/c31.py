"""C31: planning from a configuration file."""
import contextlib
import csv
import io
import json
import logging
import os
import random
import re
import shutil

import yaml

import c10
import c29
import gis
from c30 import area, differ, files, snapshot
from tg import *  # noqa
from vmon import Check, Skip

import terragraph_planner as tgp
from terragraph_planner.common.configuration.configs import (
    GISDataParams, LOSParams, SiteDetectionParams,
)
from terragraph_planner.common.data_io.topology_serializer import (
    write_to_kml_file,
)
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.utils import current_system_params

check = Check(
    "C31",
    rule="random study areas and candidate networks are planned twice: from "
         "a configuration file (YAML or JSON, keys in any case, defaults "
         "left out at random) and by passing the same values to the "
         "functions; every element, table, file and log line compared; "
         "non-trivial = distinct configurations",
    assumptions=["scipy's HiGHS stands in for the commercial solver",
                 "numbers agree up to rounding (1e-6)"])

FINANCIAL = ["cn_site_capex", "dn_site_capex", "pop_site_capex", "budget"]
DIMENSIONING = ["enable_cn_demand", "enable_uniform_demand",
                "enable_manual_demand", "demand_spacing",
                "demand_connection_radius", "demand"]
DESIGN = ["pop_capacity", "number_of_extra_pops", "dn_dn_sector_limit",
          "maximum_number_hops", "oversubscription", "number_of_channels",
          "maximize_common_bandwidth", "always_active_pops",
          "enable_legacy_redundancy_method", "redundancy_level",
          "backhaul_link_redundancy_ratio", "min_cost_rel_stop",
          "redundancy_rel_stop", "topology_routing", "availability_sim_time"]
PROJECT = {"carrier_frequency": 60000.0, "thermal_noise_power": -81.0,
           "noise_figure": 7.0, "rain_rate": 30.0,
           "link_availability_percentage": 99.9, "maximum_eirp": None}
LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40,
          "CRITICAL": 50, "NOTSET": 0}


def spell(rng, key):
    return key.upper() if rng.random() < .7 else rng.choice(
        [key, key.title()])


def plain(v):
    return v.name if hasattr(v, "name") else v


def dressed(rng, values):
    items = [(spell(rng, k), v) for k, v in values.items()]
    rng.shuffle(items)
    return dict(items)


def write(ctx, rng, doc, name="config"):
    path = os.path.join(ctx.scratch, name + rng.choice(
        [".yaml", ".yml", ".json"]))
    with open(path, "w") as f:
        if path.endswith(".json"):
            json.dump(doc, f)
        else:
            yaml.safe_dump(doc, f, sort_keys=False)
    return path


def gear(spec):
    """Devices of their own for every run."""
    return [dn_device(sku, nodes=n, sectors=s, scan=w, capex=c)
            if n else cn_device(sku, scan=w, capex=c)
            for sku, n, s, w, c in spec]


def radio_section(rng, spec, radio):
    rows = []
    for sku, n, s, w, c in spec:
        d = {"device_sku": sku, "device_type": "DN" if n else "CN",
             "node_capex": c, "number_of_nodes_per_site": n or 1}
        d = dressed(rng, d)
        d[spell(rng, "sector_params")] = dressed(rng, {
            "horizontal_scan_range": w, "number_sectors_per_node": s})
        rows.append(d)
    out = dressed(rng, {k: v for k, v in radio.items()
                        if v != PROJECT[k] or rng.random() < .3})
    out[spell(rng, "device_list")] = rows
    return out


def radio_of(rng):
    r = dict(PROJECT)
    if rng.random() < .4:
        r["rain_rate"] = rng.choice([0.0, 60.0])
    if rng.random() < .3:
        r["maximum_eirp"] = rng.choice([43.0, 38.0])
    if rng.random() < .3:
        r["carrier_frequency"] = rng.choice([58320.0, 64800.0])
    if rng.random() < .2:
        r["noise_figure"] = 5.0
    return r


def design_section(rng, kw):
    def part(keys):
        return dressed(rng, {k: plain(kw[k]) for k in keys if k in kw})
    out = part(DESIGN)
    for name, keys in (("financial", FINANCIAL),
                       ("dimensioning", DIMENSIONING)):
        p = part(keys)
        if p:
            out[spell(rng, name)] = p
    if "candidate_topology_file_path" in kw:
        out["CANDIDATE_TOPOLOGY_FILE_PATH"] = kw[
            "candidate_topology_file_path"]
    return out


class Stage:
    """Runs with an output folder, a working folder and clean logging."""

    def __init__(self, ctx, name):
        self.out = os.path.join(ctx.scratch, name, "out")
        self.cwd = os.path.join(ctx.scratch, name, "cwd")
        shutil.rmtree(os.path.join(ctx.scratch, name), ignore_errors=True)
        os.makedirs(self.out)
        os.makedirs(self.cwd)

    def __enter__(self):
        root = logging.getLogger()
        self.old = (os.getcwd(), root.level, list(root.handlers),
                    root.manager.disable, dict(vars(current_system_params)))
        os.chdir(self.cwd)
        return self

    def __exit__(self, *a):
        cwd, level, handlers, disable, params = self.old
        os.chdir(cwd)
        root = logging.getLogger()
        for h in list(root.handlers):
            root.removeHandler(h)
            h.close()
        for h in handlers:
            root.addHandler(h)
        root.setLevel(level)
        logging.disable(disable)
        vars(current_system_params).update(params)


def attempt(fn):
    try:
        return fn(), None
    except PlannerException as e:
        return None, str(e)


def listing(d):
    return sorted(os.path.relpath(os.path.join(b, n), d)
                  for b, _, ns in os.walk(d) for n in ns)


def compare(ctx, one, two, dirs, what, mech):
    (t, e), (u, g) = one, two
    ctx.check_that(e == g, mech + "-refusal", lambda: f"{e}\n{g}\n{what()}")
    if t is None or u is None:
        ctx.count("refused by both", t is u)
        return
    bad = differ(snapshot(t), snapshot(u))
    ctx.check_that(not bad, mech + "-network",
                   lambda: "\n".join(bad[:8] + [what()]))
    bad = differ(*map(files, dirs))
    ctx.check_that(not bad, mech + "-tables",
                   lambda: "\n".join(bad[:8] + [what()]))


def system_of(rng, stage, debug):
    s = {}
    if rng.random() < .2:
        where = stage.cwd            # the default
        if rng.random() < .5:
            s["output_dir"] = "./"
    else:
        where = stage.out
        s["output_dir"] = stage.out + rng.choice(["", "/"])
    if debug or rng.random() < .3:
        s["debug_mode"] = debug
    s["logger_level"] = rng.choice(["ERROR", "CRITICAL", "INFO"])
    s["log_to_stderr"] = False
    return s, where


def check_places(ctx, stage, where, debug, want, what):
    other = stage.out if where == stage.cwd else stage.cwd
    ctx.check_that(not listing(other), "file-elsewhere",
                   lambda: f"{listing(other)}\n{what()}")
    got = listing(where)
    for n in want:
        ctx.check_that(os.path.join("output", n) in got, "missing-file",
                       lambda: f"{n} {got}\n{what()}")
    odd = [n for n in got if not n.startswith(("output/", "debug/"))]
    ctx.check_that(not odd, "misplaced-file", lambda: f"{odd}\n{what()}")
    dbg = {re.sub(r"_\d+\.", ".", n[6:]) for n in got
           if n.startswith("debug/")}
    if not debug:
        ctx.check_that(not dbg, "unasked-debug-files",
                       lambda: f"{dbg}\n{what()}")
    return dbg


# ------------------------------------------------------- network design
PLAN_FILES = ["site.csv", "link.csv", "sector.csv", "metrics.yaml",
              "reporting_topology.kml"]


@check.part(quick=70, thorough=2500, share=2,
            need={"planned": 6, "debug": 3})
def design(ctx, rng):
    """A plan of the candidate network the file names."""
    t, p = c29.world(rng)
    path = os.path.join(ctx.scratch, "candidate.kml")
    write_to_kml_file(t, path)
    spec = [(d.device_sku, d.number_of_nodes_per_site
             if d.device_type == DeviceType.DN else 0,
             d.sector_params.number_sectors_per_node,
             d.sector_params.horizontal_scan_range, d.node_capex)
            for d in p.device_list]
    default = OptimizerParams(device_list=gear(spec))
    kw = {k: getattr(p, k) for k in FINANCIAL + DIMENSIONING + DESIGN
          if getattr(p, k) != getattr(default, k) or rng.random() < .2}
    for k in FINANCIAL:
        if rng.random() < .3:
            kw[k] = getattr(p, k) * rng.choice([.5, 2])
    kw["candidate_topology_file_path"] = path
    radio = radio_of(rng)
    debug = rng.random() < .5
    st = Stage(ctx, "file")
    sysd, where = system_of(rng, st, debug)
    doc = {"SYSTEM": dressed(rng, sysd),
           "RADIO": radio_section(rng, spec, radio),
           "NETWORK_DESIGN": design_section(rng, kw)}
    conf = write(ctx, rng, doc)
    with open(path) as f:
        before = f.read()
    what = lambda: json.dumps(doc)[:1500]  # noqa
    with st:
        one = attempt(lambda:
                      tgp.optimize_and_report_topology_with_config_file(conf))
    direct = Stage(ctx, "direct")
    with direct:
        current_system_params.output_dir = direct.out
        current_system_params.debug_mode = False

        def run():
            dv = gear(spec)
            q = OptimizerParams(device_list=dv, **kw, **radio)
            u = extract_topology_from_file(path, dv, None)
            tgp.optimize_and_report_topology(u, q)
            return u
        two = attempt(run)
    compare(ctx, one, two, (where, direct.out), what, "design")
    with open(path) as f:
        ctx.check_that(f.read() == before, "input-changed", what)
    ctx.nontrivial(json.dumps(doc)[-400:])
    if one[0] is None:
        return
    ctx.count("planned")
    ctx.check_that(set(s.name for s in t.sites.values())
                   <= set(s.name for s in one[0].sites.values()),
                   "sites-of-the-file", what)
    got = check_places(ctx, st, where, debug, PLAN_FILES, what)
    if debug:
        ctx.count("debug")
        need = {"prepared_topology.kml", "min_cost_topology.kml",
                "min_interference_topology.kml", "optimized_topology.kml",
                "cost_optimization.lp", "interference_optimization.lp",
                "max_coverage_topology.kml"
                if kw.get("enable_legacy_redundancy_method",
                          default.enable_legacy_redundancy_method)
                else "redundant_topology.kml"}
        ctx.check_that(need <= got, "debug-files",
                       lambda: f"{need - got}\n{what()}")


# ---------------------------------------------------------- line of sight
def los_config(ctx, rng):
    dsm, kml, rows, base, outlines, devs, kw = area(rng, ctx.scratch)
    sp, base_path, bp = (os.path.join(ctx.scratch, n) for n in (
        "sites.csv", "base.kml", "bld.kml"))
    with open(sp, "w", newline="") as f:
        csv.writer(f).writerows([[
            "latitude", "longitude", "altitude", "name", "site type",
            "device sku", "location type"]] + rows)
    data = {"boundary_polygon_file_path": kml, "site_file_path": sp}
    if dsm:
        data["dsm_file_paths"] = dsm
    if base is not None and not outlines:
        write_to_kml_file(base, base_path)
        data["base_topology_file_path"] = base_path
    if outlines:
        gis.write_kml(bp, gis.kml_folder("buildings", "".join(outlines)))
        data["building_outline_file_path"] = bp
    kw = dict(kw, num_processors=1)
    if rng.random() < .3:
        kw["minimum_mcs_of_backhaul_links"] = rng.choice([3, 9])
    if rng.random() < .4:
        kw["fresnel_radius"] = rng.choice([.5, 2.0])
    spec = [("DN0", 4, 1, 70.0, 250.0), ("DN1", 4, 1, 90.0, 400.0),
            ("CN0", 0, 1, 70.0, 150.0)]
    radio = radio_of(rng)
    section = dict(kw)
    det = section.pop("site_detection", None)
    section = dressed(rng, section)
    if det is not None:
        section[spell(rng, "site_detection")] = dressed(rng, {
            k: getattr(det, k) for k in (
                "dn_deployment", "detect_highest", "detect_centers",
                "detect_corners")})
    doc = {"DATA": dressed(rng, data), "LINE_OF_SIGHT": section,
           "RADIO": radio_section(rng, spec, radio)}
    lists = {"detect": det and {k: getattr(det, k) for k in vars(det)}}

    def survey():
        k2 = dict(kw)
        if det is not None:
            k2["site_detection"] = SiteDetectionParams(**{
                k: v for k, v in lists["detect"].items()
                if k in ("dn_deployment", "detect_highest", "detect_centers",
                         "detect_corners", "max_corner_angle")})
        return tgp.generate_candidate_topology(
            LOSParams(device_list=gear(spec), **k2, **radio),
            GISDataParams(**data))
    return doc, survey, spec, radio


@check.part(quick=60, thorough=3000, share=1.2, need={"surveyed": 15})
def line_of_sight(ctx, rng):
    """The candidate network of the input files the file names."""
    doc, survey, _, _ = los_config(ctx, rng)
    st = Stage(ctx, "file")
    debug = rng.random() < .3
    sysd, where = system_of(rng, st, debug)
    if sysd or rng.random() < .5:
        doc["SYSTEM"] = dressed(rng, sysd)
    conf = write(ctx, rng, doc)
    what = lambda: json.dumps(doc)[:1500]  # noqa
    with st:
        one = attempt(lambda:
                      tgp.generate_candidate_topology_with_config_file(conf))
    direct = Stage(ctx, "direct")
    with direct:
        current_system_params.output_dir = direct.out
        current_system_params.debug_mode = False
        two = attempt(survey)
    compare(ctx, one, two, (where, direct.out), what, "los")
    ctx.nontrivial(json.dumps(doc)[-400:])
    if one[0] is not None:
        ctx.count("surveyed")
        check_places(ctx, st, where, debug, ["candidate_topology.kml"], what)


@check.part(quick=24, thorough=1200, share=1, need={"whole runs": 4})
def both(ctx, rng):
    """Without a candidate network the one found by line of sight counts."""
    doc, survey, spec, radio = los_config(ctx, rng)
    kw = dict(budget=rng.choice([3e5, 9000.0]),
              number_of_extra_pops=rng.choice([0, 1, 1]),
              number_of_channels=rng.choice([1, 2]),
              demand=rng.choice([.025, .1]),
              availability_sim_time=0,
              min_cost_rel_stop=-1, redundancy_rel_stop=-1)
    st = Stage(ctx, "file")
    debug = rng.random() < .3
    sysd, where = system_of(rng, st, debug)
    doc["SYSTEM"] = dressed(rng, sysd)
    doc["NETWORK_DESIGN"] = design_section(rng, kw)
    conf = write(ctx, rng, doc)
    what = lambda: json.dumps(doc)[:1500]  # noqa
    with st:
        one = attempt(lambda:
                      tgp.optimize_and_report_topology_with_config_file(conf))
    direct = Stage(ctx, "direct")
    with direct:
        current_system_params.output_dir = direct.out
        current_system_params.debug_mode = False

        def run():
            t = survey()
            q = OptimizerParams(device_list=gear(spec), **kw, **radio)
            tgp.optimize_and_report_topology(t, q)
            return t
        two = attempt(run)
    compare(ctx, one, two, (where, direct.out), what, "whole")
    ctx.nontrivial(json.dumps(doc)[-400:])
    if one[0] is not None:
        ctx.count("whole runs")
        check_places(ctx, st, where, debug,
                     PLAN_FILES + ["candidate_topology.kml"], what)


# ---------------------------------------------------------------- logging
@check.part(quick=60, thorough=2000, share=.6,
            need={"log files": 30, "stderr": 30, "below the level": 60})
def logs(ctx, rng):
    """Messages go where, and only from the level, the last run's file says."""
    lat, lon = rng.uniform(-60, 60), rng.uniform(-170, 170)
    kml = os.path.join(ctx.scratch, "area.kml")
    gis.write_kml(kml, gis.kml_folder("area", gis.kml_polygon("a", [
        (lon + dx, lat + dy) for dx, dy in (
            (0, 0), (.002, 0), (.002, .002), (0, .002))])))
    sites = os.path.join(ctx.scratch, "sites.csv")
    with open(sites, "w", newline="") as f:
        csv.writer(f).writerows(
            [["latitude", "longitude", "altitude", "name", "site type"]] +
            [[lat + .0005 * i, lon + .0007, 20, f"s{i}",
              "POP" if i == 1 else "DN"] for i in (1, 2, 3)])
    st = Stage(ctx, "logs")
    with st:
        logging.disable(logging.NOTSET)
        done = []
        for n in range(rng.randint(1, 3)):
            level = rng.choice(list(LEVELS))
            log = os.path.join(ctx.scratch, f"log{n}.txt") \
                if rng.random() < .7 else None
            if log and os.path.exists(log):
                os.remove(log)
            err = rng.random() < .6
            sysd = {"output_dir": st.out}
            if level != "INFO" or rng.random() < .5:
                sysd["logger_level"] = level
            if log:
                sysd["log_file"] = log
            if not err or rng.random() < .5:
                sysd["log_to_stderr"] = err
            conf = write(ctx, rng, {
                "SYSTEM": dressed(rng, sysd),
                "DATA": {"BOUNDARY_POLYGON_FILE_PATH": kml,
                         "SITE_FILE_PATH": sites},
                "LINE_OF_SIGHT": {"NUM_PROCESSORS": 1,
                                  "MINIMUM_LOS_DISTANCE": 5},
                "RADIO": radio_section(rng, [("D", 4, 1, 70.0, 1.0)],
                                       dict(PROJECT))}, f"conf{n}")
            seen = io.StringIO()
            with contextlib.redirect_stderr(seen):
                tgp.generate_candidate_topology_with_config_file(conf)
                marks = {}
                who = logging.getLogger(rng.choice(
                    ["terragraph_planner.los.core", "terragraph_planner",
                     "somebody.else"]))
                for name, no in LEVELS.items():
                    if no:
                        marks[name] = f"mark-{n}-{name}-{rng.random()}"
                        who.log(no, marks[name])
            what = lambda: f"{sysd} {seen.getvalue()[:300]}"  # noqa
            # earlier runs' files are left alone
            for p in done:
                text = p and open(p).read()
                ctx.check_that(not any(m in (text or "")
                                       for m in marks.values()),
                               "old-log-still-written", what)
            outs = []
            if err or log:
                # with no destination at all Python itself prints warnings
                outs.append(("stderr", seen.getvalue(), err))
            if log:
                ctx.check_that(os.path.exists(log), "no-log-file", what)
                outs.append(("file", open(log).read(), True))
            for where, text, used in outs:
                for name, m in marks.items():
                    k = text.count(m)
                    need = int(used and LEVELS[name] >= LEVELS[level])
                    ctx.count("below the level",
                              used and LEVELS[name] < LEVELS[level])
                    ctx.check_that(k == need, "message-" + where,
                                   lambda: f"{name} {k} times\n{what()}")
                    if need:
                        line = next(x for x in text.splitlines() if m in x)
                        ctx.check_that(name in line.split(m)[0],
                                       "message-level",
                                       lambda: f"{line}\n{what()}")
                if used and LEVELS[level] <= 20:
                    ctx.check_that("candidate_topology" in text,
                                   "run-not-logged", what)
            ctx.count("log files", bool(log))
            ctx.count("stderr", err)
            done.append(log)
            ctx.nontrivial(level, bool(log), err, n)


if __name__ == "__main__":
    check.run()
