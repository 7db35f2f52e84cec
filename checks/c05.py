"""C05 input sites: every row inside the boundary is loaded once, as written."""
import csv
import math
import os
from functools import partial

import numpy as np
from shapely.geometry import Polygon

import gis
from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.data_io.input_sites_loader import (
    InputSitesLoader,
)
from terragraph_planner.common.data_io.kml_library import (
    extract_boundary_polygon, extract_polygons,
)
from terragraph_planner.common.exceptions import (
    DataException, PlannerException,
)
from terragraph_planner.los.helper import (
    get_exclusion_zones, infer_input_site_location,
)

check = Check(
    "C05",
    rule="random site tables written as CSV, KML and KMZ (all documented "
         "column/field names, any case, blank cells, DMS coordinates, status "
         "and type folders) and read back with and without boundary and "
         "terrain; non-trivial = distinct (format, terrain, number of kept, "
         "dropped and duplicated rows)",
    assumptions=["points closer than 1e-7 degrees to the boundary and within "
                 "10% of a raster cell border are not generated"],
)

NAMES = {
    "latitude": ["base_lat", "latitude", "lat"],
    "longitude": ["base_lon", "longitude", "lon"],
    "altitude": ["altitude", "alt"],
    "height": ["height", "install_height", "site_height", "height_m",
               "height(m)", "height (m)"],
    "name": ["name", "site_name", "site name", "pole_name"],
    "type": ["type", "site_type", "site type"],
    "sku": ["sku", "device_sku", "device sku"],
    "subs": ["number_of_demand_points", "number of demand points",
             "num_demand_points", "number_of_subscribers", "number_of_demand_sites",
             "number of subscribers", "number of demand sites",
             "num_demand_sites", "demand_points", "demand points",
             "demand_sites", "demand sites"],
    "loc": ["location type", "location_type"],
    "building": ["building id", "building_id"],
}
HEIGHTS = {POP: 5.5, DN: 4.25, CN: 3.75}
ROOF = 1.75


def mixed(s, rng):
    k = rng.random()
    return s if k < .5 else s.upper() if k < .7 else s.title() if k < .85 \
        else " " + s + " "


def world(rng):
    zone = rng.choice([32601, 32612, 32631, 32660, 32717, 32733, 32760])
    lat = rng.uniform(.01, 70) * (1 if zone < 32700 else -1)
    lon = (zone % 100) * 6 - 183 + rng.uniform(-2.98, 2.98)
    g = GeoLocation(latitude=lat, longitude=lon)
    x0, y0 = g.utm_x, g.utm_y
    res = rng.choice([1.0, 2.5, 7.0])
    return zone, x0, y0, res


def gen_devices(rng):
    dn = [dn_device("Dn%d" % i) for i in range(rng.randint(1, 3))]
    cn = [cn_device("cN%d x" % i) for i in range(rng.randint(0, 2))]
    ds = dn + cn
    rng.shuffle(ds)
    return ds


def gen_rows(rng, zone, x0, y0, res, devices, n_cells, named):
    rows = []
    used = set()
    for i in range(rng.randint(2, 9)):
        st = rng.choice([CN, DN, POP])
        while True:
            c = (rng.randrange(n_cells), rng.randrange(n_cells))
            if c not in used:
                used.add(c)
                break
        x = x0 + (c[0] + rng.uniform(-.4, .4)) * res
        y = y0 - (c[1] + rng.uniform(-.4, .4)) * res
        g = GeoLocation(utm_x=x, utm_y=y, utm_epsg=zone)
        fit = [d for d in devices if (d.device_type == DeviceType.CN) ==
               (st == CN)]
        sku = None
        if fit and rng.random() < .5:
            sku = rng.choice(fit).device_sku
        if sku is None and not fit and rng.random() < .5:
            st, fit = DN, [d for d in devices
                           if d.device_type == DeviceType.DN]
        mode = rng.choice(["none", "none", "abs", "height", "both"])
        nm = None
        if named and rng.random() < .75:
            nm = rng.choice(["Site ", "p-", "é&<'", "X/y "]) + "abc"[i % 3] + \
                str(i)
        rows.append({
            "type": st, "cell": c, "lat": float(g.latitude),
            "lon": float(g.longitude), "devices": fit, "sku": sku,
            "alt": rng.choice([0.0, round(rng.uniform(-50, 900), 2),
                               round(rng.uniform(-50, 900), 2)])
            if mode in ("abs", "both") else None,
            "height": rng.choice([0.0, round(rng.uniform(0, 40), 2),
                                  round(rng.uniform(0, 40), 2)])
            if mode in ("height", "both") else None,
            "name": nm,
            "subs": rng.randint(1, 9) if st == CN and rng.random() < .5
            else None,
            "loc": rng.choice([None, None, "ROOFTOP", "street_level",
                               "Unknown", "garage"]),
            "building": rng.choice([None, None, 0, 3, 12]),
            "status": CANDIDATE,
        })
    if rng.random() < .3 and rows:
        o = rng.choice(rows)
        rows.append(dict(o, dup=o))
    return rows


def clash(rng, rows):
    """A second row of a name, alike except for its altitude or place."""
    o = rng.choice([r for r in rows if r["name"] is not None] or [None])
    if o is None or not o["devices"]:
        return None
    how = rng.choice(["alt", "zero", "near"])
    d = dict(o)
    if how == "near":
        d["lat"] = o["lat"] + rng.choice([1e-7, 1e-5])
    elif how == "zero":
        o["alt"], d["alt"] = rng.sample([None, 0.0], 2)
    else:
        d["alt"] = (o["alt"] or 0) + rng.choice([.01, 1, 50])
    rows.insert(rng.randrange(len(rows) + 1), d)
    return how


def dms(v, neg, pos):
    d = neg if v < 0 else pos
    v = abs(v)
    if (v * 1e6) % 1 < .4:
        return f"{v!r}° {d}"
    deg = int(v)
    m = int((v - deg) * 60)
    s = (v - deg - m / 60) * 3600
    return f"{deg}°{m}'{s:.9f}\"{d}"


def write_csv(path, rows, rng):
    cols = ["latitude", "longitude"]
    for k, f in (("altitude", "alt"), ("height", "height"), ("name", "name"),
                 ("sku", "sku"), ("subs", "subs"), ("loc", "loc"),
                 ("building", "building")):
        if any(r[f] is not None for r in rows) or rng.random() < .2:
            cols.append(k)
    if any(r["type"] != POP for r in rows) or rng.random() < .5:
        cols.append("type")
    cols += ["note"] if rng.random() < .3 else []
    rng.shuffle(cols)
    as_dms = rng.random() < .25
    tol = 1e-9
    with open(path, "w", newline="", encoding=rng.choice(
            ["utf-8", "utf-8-sig"])) as f:
        w = csv.writer(f)
        w.writerow([mixed(rng.choice(NAMES.get(c, [c])), rng) for c in cols])
        for r in rows:
            out = []
            for c in cols:
                v = {"latitude": r["lat"], "longitude": r["lon"],
                     "altitude": r["alt"], "height": r["height"],
                     "name": r["name"], "sku": r["sku"], "subs": r["subs"],
                     "loc": r["loc"], "building": r["building"],
                     "note": "x"}.get(c)
                if c == "type":
                    t = r["type"].name
                    v = rng.choice([t, t.lower(), t + " site", " " + t])\
                        if rng.random() < .5 else t
                    v = v.strip()
                if c == "sku" and v is not None:
                    v = rng.choice([v, v.upper(), v.lower()])
                if as_dms and c == "latitude":
                    v = dms(v, "S", "N")
                if as_dms and c == "longitude":
                    v = dms(v, "W", "E")
                out.append("" if v is None else v)
            w.writerow(out)
    return 1e-8 if as_dms else tol


def write_kml(path, rows, rng):
    """Also decides the status of each row (by folder)."""
    groups = {}
    with_status = rng.random() < .5
    for r in rows:
        if with_status:
            r["status"] = r["dup"]["status"] if r.get("dup") else \
                rng.choice(ALL_STATUS)
        groups.setdefault((r["status"], r["type"]), []).append(r)
    order = list(groups)
    rng.shuffle(order)
    order.sort(key=lambda k: k[0].value)
    if rng.random() < .5:
        order.reverse()
    body, cur, acc = "", None, ""
    sku_f, loc_f = rng.choice(NAMES["sku"]), rng.choice(NAMES["loc"])
    bld_f = rng.choice(NAMES["building"])
    subs_f = mixed(rng.choice(NAMES["subs"]), rng).strip()
    for k in order + [None]:
        if k is None or (cur is not None and k[0] != cur):
            body += gis.kml_folder(
                rng.choice(["", "the "]) +
                rng.choice([cur.name, cur.name.lower()]), acc) \
                if with_status else acc
            acc = ""
        if k is None:
            break
        cur = k[0]
        pts = ""
        for r in groups[k]:
            fields = {}
            if r["sku"]:
                fields[sku_f] = \
                    rng.choice([r["sku"], r["sku"].upper()])
            if r["subs"]:
                fields[subs_f] = r["subs"]
            if r["loc"]:
                fields[loc_f] = r["loc"]
            if r["building"] is not None:
                fields[bld_f] = r["building"]
            mode, z = None, None
            if r["alt"] is not None:
                mode, z = "absolute", r["alt"]
            elif r["height"] is not None:
                mode, z = "relativeToGround", r["height"]
            elif rng.random() < .4:
                mode, z = rng.choice([None, "clampToGround"]), 77.5
            pts += gis.kml_point(r["name"], r["lat"], r["lon"], z, mode,
                                 fields)
        t = k[1].name
        acc += gis.kml_folder(
            rng.choice([t, t.lower(), t + " Sites", "my " + t]), pts)
    gis.write_kml(path, body)


def expected(rows, kml, poly, surf, terr, cells, infer=True):
    """The sites the file stands for, or None when it must be refused."""
    out, seen = [], set()
    by_name = {}
    for r in rows:
        if poly is not None and not gis.inside(poly, r["lon"], r["lat"]):
            continue
        loc = (r["loc"] or "").upper()
        loc = LocationType[loc] if loc in LocationType.__members__ else (
            LocationType.STREET_LEVEL if kml else LocationType.UNKNOWN)
        alt = r["alt"]
        s = surf[r["cell"]] if surf is not None else None
        if s is not None:
            if loc == LocationType.UNKNOWN and terr is not None:
                loc = LocationType.ROOFTOP if s - terr[r["cell"]] >= 2 \
                    else LocationType.STREET_LEVEL
            if alt is None:
                alt = s + (r["height"] if r["height"] is not None
                           and not (kml and r["alt"] is not None)
                           else ROOF if loc == LocationType.ROOFTOP
                           else HEIGHTS[r["type"]])
        devs = [d for d in r["devices"] if r["sku"] is None or
                d.device_sku == r["sku"]]
        for d in devs:
            key = (r["cell"], r["type"], d.device_sku, r["name"])
            if key in seen:
                continue
            seen.add(key)
            by_name.setdefault(r["name"], []).append(d.device_sku)
            out.append({
                "type": r["type"], "lat": r["lat"], "lon": r["lon"],
                "alt": alt, "loc": loc, "sku": d.device_sku,
                "building": None if loc != LocationType.ROOFTOP else
                -1 if infer or r["building"] is None else r["building"],
                "status": r["status"], "name": r["name"],
                "subs": (r["subs"] or 1) if r["type"] == CN else 0})
    for o in out:
        if o["name"] is not None and len(by_name[o["name"]]) > 1:
            o["name"] += "_" + o["sku"].casefold()
    return out


def compare(ctx, got, want, tol):
    ctx.check_that(len(got) == len(want), "site-count",
                   lambda: f"{len(got)} sites, expected {len(want)}: "
                   f"{[(s.name, s.site_type.name) for s in got]}")
    left = list(got)
    for w in want:
        m = [s for s in left if s.site_type == w["type"] and
             abs(s.latitude - w["lat"]) < tol and
             abs(s.longitude - w["lon"]) < tol and
             s.device.device_sku == w["sku"]]
        if not ctx.check_that(len(m) == 1, "site-missing-or-repeated",
                              lambda: f"{w}: {len(m)}"):
            continue
        s = m[0]
        left.remove(s)
        ctx.close(s.altitude, w["alt"], "altitude", w, abs_tol=1e-3)
        for f, v in (("loc", s.location_type), ("building", s.building_id),
                     ("status", s.status_type),
                     ("subs", s.number_of_subscribers)):
            ctx.check_that(v == w[f], f"site-{f}",
                           lambda: f"{f} {v!r} expected {w[f]!r} in {w}")
        nm = w["name"] if w["name"] is not None else s.site_id
        ctx.check_that(s.name == nm, "site-name",
                       lambda: f"{s.name!r} expected {nm!r}")
    ctx.check_that(not left, "extra-sites",
                   lambda: str([(s.name, s.site_type.name) for s in left]))
    for s in got:
        ctx.check_that(got.get_site_by_id(s.site_id) is s, "lookup-by-id", "")
        ctx.check_that(got.get_site_by_name(s.name) is s or
                       s.name == s.site_id, "lookup-by-name", s.name)
    ctx.check_that(len({s.name for s in got}) == len(got), "name-clash",
                   lambda: str([s.name for s in got]))
    ctx.check_that(got.site_list == [s for s in got] ==
                   [got[i] for i in range(len(got))], "list-views", "")


@check.part(quick=1200, thorough=15000, share=3,
            need={"sites": 500, "dropped": 40, "terrain": 100, "kml": 100,
                  "csv": 100})
def load(ctx, rng):
    zone, x0, y0, res = world(rng)
    n = 12
    devices = gen_devices(rng)
    rows = gen_rows(rng, zone, x0, y0, res, devices, n, rng.random() < .8)
    nr = np.random.RandomState(rng.getrandbits(32))
    surf = terr = None
    S = T = None
    if rng.random() < .6:
        t = nr.uniform(-20, 300, (n, n)).round(2)
        add = nr.choice([0, 1.5, 1.75, 2.25, 9.0], (n, n))
        S = gis.elevation(t + add, x0, y0, res, zone)
        surf = {(i, j): float(S.data_matrix[j, i])
                for i in range(n) for j in range(n)}
        if rng.random() < .6:
            T = gis.elevation(t, x0, y0, res, zone)
            terr = {(i, j): float(T.data_matrix[j, i])
                    for i in range(n) for j in range(n)}
        ctx.count("terrain")
    infer = partial(
        infer_input_site_location, surface_elevation=S, terrain_elevation=T,
        mounting_height_above_rooftop=ROOF,
        default_pop_height_on_pole=HEIGHTS[POP],
        default_dn_height_on_pole=HEIGHTS[DN],
        default_cn_height_on_pole=HEIGHTS[CN])
    use_infer = S is not None or rng.random() < .5
    poly = None
    if rng.random() < .6:
        lats = [r["lat"] for r in rows]
        lons = [r["lon"] for r in rows]
        w = max(max(lons) - min(lons), max(lats) - min(lats)) + 1e-6
        poly = gis.star(rng, (max(lons) + min(lons)) / 2 +
                        rng.uniform(-.3, .3) * w,
                        (max(lats) + min(lats)) / 2, w * .25, w * .8)
        rows = [r for r in rows
                if gis.edge_dist(poly, r["lon"], r["lat"]) > 1e-7]
    if not rows:
        return
    ext = rng.choice(["csv", "CSV", "kml", "kmz", "KML"])
    path = os.path.join(ctx.scratch, "sites." + ext)
    kml = ext.lower() != "csv"
    tol = 1e-9
    if kml:
        write_kml(path, rows, rng)
        ctx.count("kml")
    else:
        tol = write_csv(path, rows, rng)
        ctx.count("csv")
    want = expected(rows, kml, poly, surf, terr, n, use_infer)
    loader = InputSitesLoader(devices)
    got = loader.read_user_input(
        path, None if poly is None else Polygon(poly),
        infer if use_infer else None)
    compare(ctx, got, want, tol)
    kept = {(w["lat"], w["lon"]) for w in want}
    dropped = sum((r["lat"], r["lon"]) not in kept for r in rows)
    ctx.count("sites", len(want))
    ctx.count("dropped", dropped)
    if rng.random() < .3:  # adding the same sites again changes nothing
        n0 = len(got)
        again = loader.read_user_input(
            path, None if poly is None else Polygon(poly),
            infer if use_infer else None)
        if all(s.name == s.site_id for s in got) or \
                not any(r["name"] for r in rows):
            got = got + again
            ctx.check_that(len(got) == n0, "sum-repeats-sites", n0)
    ctx.nontrivial(ext, S is None, T is None, len(want), dropped,
                   len(rows))
    ctx.sample({"format": ext, "rows": len(rows), "sites": len(want),
                "dropped": dropped})


@check.part(quick=600, thorough=6000, need={"refused": 150})
def refusals(ctx, rng):
    zone, x0, y0, res = world(rng)
    devices = [dn_device("Aa"), dn_device("b"), cn_device("C")]
    rows = gen_rows(rng, zone, x0, y0, res, devices, 12, False)
    rows = [r for r in rows if not r.get("dup")]
    for i, r in enumerate(rows):
        r["name"] = f"n{i}"
    kind = rng.choice(["sku", "name", "type", "column", "twice", "dms",
                       "device-type", "range", "clash", "almost", "ok"])
    ext = rng.choice(["csv", "kml"])
    path = os.path.join(ctx.scratch, "s." + ext)
    a, b = rng.sample(rows, 2)
    if kind == "sku":
        a["sku"] = "nope"
    elif kind == "name":
        a["type"] = b["type"] = POP
        a["sku"] = b["sku"] = None if rng.random() < .5 else "b"
        a["name"] = b["name"]
        a["subs"] = b["subs"] = None
    elif kind == "clash":  # a name equal to an extended one
        a["type"] = b["type"] = POP
        a["sku"] = None
        b["sku"] = "b"
        b["name"] = a["name"] + "_" + rng.choice(["aa", "b"])
    elif kind == "device-type":
        a["type"], a["sku"] = rng.choice([(POP, "C"), (CN, "b")])
    elif kind == "range":
        a["lat"] = 90.5
    elif kind == "almost" and clash(rng, rows) is None:
        return
    if ext == "kml" and kind not in ("type", "column", "twice", "dms"):
        write_kml(path, rows, rng)
    else:
        ext = "csv"
        path = os.path.join(ctx.scratch, "s.csv")
        write_csv(path, rows, rng)
        with open(path, encoding="utf-8-sig", newline="") as f:
            t = list(csv.reader(f))
        head = [h.strip().casefold() for h in t[0]]
        if kind == "type":
            if not any(h in NAMES["type"] for h in head):
                return
            c = next(i for i, h in enumerate(head) if h in NAMES["type"])
            t[rng.randrange(1, len(t))][c] = rng.choice(["RN", "relay", "5"])
        if kind == "column":
            k = rng.choice(["latitude", "longitude"])
            c = next(i for i, h in enumerate(head) if h in NAMES[k])
            t = [r[:c] + r[c + 1:] for r in t]
        if kind == "twice":
            k = rng.choice(["latitude", "longitude", "name"])
            c = [i for i, h in enumerate(head) if h in NAMES[k]]
            if not c:
                return
            o = [x for x in NAMES[k] if x != head[c[0]]]
            t = [r + [r[c[0]]] for r in t]
            t[0] = t[0][:-1] + [rng.choice(o)]
        if kind == "dms":
            c = next(i for i, h in enumerate(head) if h in NAMES["latitude"])
            t[1][c] = rng.choice(["abc", "12 X", "1°2' N", "10°x'3\"N"])
        with open(path, "w", newline="") as f:
            csv.writer(f).writerows(t)
    loader = InputSitesLoader(devices)

    def go():
        return loader.read_user_input(path, None, None)

    if kind == "ok":
        go()
        return
    ctx.expect_raises(PlannerException, go, f"accepted-{kind}", ext)
    ctx.count("refused")
    ctx.nontrivial(kind, ext)
    ctx.sample({"kind": kind, "format": ext})


@check.part(quick=360, thorough=4000, need={"polygons": 100})
def boundaries(ctx, rng):
    """Boundary and exclusion polygons are read as drawn."""
    cx, cy = rng.uniform(-170, 170), rng.uniform(-70, 70)
    polys = [gis.star(rng, cx, cy, .5, .9)]
    zones = []
    for _ in range(rng.randint(0, 4)):
        x, y = cx + rng.uniform(-1, 1), cy + rng.uniform(-1, 1)
        zones.append([gis.star(rng, x, y, .02, .05)])
        if rng.random() < .3:       # with an opening in its middle
            zones[-1].append(gis.star(rng, x, y, .002, .008, 12))
    ext = rng.choice(["kml", "kmz"])
    p = os.path.join(ctx.scratch, "b." + ext)
    q = os.path.join(ctx.scratch, "z." + ext)
    gis.write_kml(p, gis.kml_folder("x", gis.kml_polygon("b", polys[0])))
    pts = gis.kml_folder("POP", gis.kml_point("s", cy, cx))
    gis.write_kml(q, pts + gis.kml_folder("zones", gis.kml_shapes(
        rng, "z", zones)))
    zones = [Polygon(z[0], z[1:]) for z in zones]
    if not all(z.is_valid for z in zones):
        return
    got, epsg = extract_boundary_polygon(p)
    ctx.check_that(got.symmetric_difference(Polygon(polys[0])).area < 1e-9,
                   "boundary-shape", "")
    c = Polygon(polys[0]).centroid
    ctx.check_that(epsg == (32600 if c.y >= 0 else 32700) +
                   int((c.x + 180) // 6) + 1, "boundary-zone", epsg)
    found = extract_polygons(q)
    ctx.check_that(len(found) == len(zones) and all(
        any(f.symmetric_difference(z).area < 1e-9 for f in found)
        for z in zones), "zone-shapes", (len(found), len(zones)))
    kept = get_exclusion_zones(q, got)
    want = [z for z in zones if Polygon(polys[0]).contains(z)]
    ctx.check_that(len(kept) == len(want) and all(
        any(f.symmetric_difference(z).area < 1e-9 for f in kept)
        for z in want), "zones-within-boundary", (len(kept), len(want)))
    ctx.check_that(get_exclusion_zones(None, got) == [] and
                   get_exclusion_zones("x.csv", got) == [], "no-zones", "")
    gis.write_kml(p, gis.kml_folder("x", "".join(
        gis.kml_polygon("b", z) for z in polys + polys)))
    ctx.expect_raises(DataException, lambda: extract_boundary_polygon(p),
                      "two-boundaries-accepted")
    ctx.count("polygons", 1 + len(zones))
    ctx.nontrivial(len(zones), len(want), ext, epsg)


@check.part(once=True)
def status_folder_ends(ctx, rng):
    """A type folder outside any status folder is a candidate folder."""
    p = os.path.join(ctx.scratch, "s.kml")
    gis.write_kml(p, gis.kml_folder("EXISTING", gis.kml_folder(
        "DN", gis.kml_point("a", 10.0, 10.0))) + gis.kml_folder(
        "POP", gis.kml_point("b", 10.1, 10.0)))
    got = InputSitesLoader([dn_device()]).read_user_input(p, None, None)
    by = {s.name: s.status_type for s in got}
    ctx.check_that(by["a"] == EXISTING, "site-status", by)
    ctx.check_that(by["b"] == CANDIDATE, "status-carried-over", by)


@check.part(once=True)
def numeric_names(ctx, rng):
    """Names made of digits only are names all the same."""
    p = os.path.join(ctx.scratch, "s.csv")
    with open(p, "w") as f:
        f.write("name,lat,lon\n01,10.5,20\n1,10.6,20\n")
    try:
        got = InputSitesLoader([dn_device()]).read_user_input(p, None, None)
        names = sorted(s.name for s in got)
    except PlannerException as e:
        names = str(e)
    ctx.check_that(names == ["01", "1"], "numeric-name-rewritten", names)


if __name__ == "__main__":
    check.run()
