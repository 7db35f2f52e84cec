"""C11 buildings: outlines from files, detected rooftop sites, height maps."""
import os
import zipfile

import numpy as np
from osgeo import ogr
from shapely import ops
from shapely.geometry import GeometryCollection, MultiPolygon, Point, Polygon
from shapely.prepared import prep

import gis
from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.configuration.configs import GISDataParams
from terragraph_planner.common.data_io.building_group_loader import (
    BuildingGroupLoader,
)
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.geos import TransformerLib
from terragraph_planner.los.building import Building
from terragraph_planner.los.building_group import BuildingGroup
from terragraph_planner.los.core import load_gis_data

check = Check(
    "C11",
    rule="random building outlines (rectangles, L and U shapes, stars, "
         "courtyards, tiny and self-crossing shapes), surfaces and boundaries "
         "through file loading, clipping, site detection and height maps; "
         "non-trivial = distinct (shape, vertices, surface, settings)",
    assumptions=["corner angles within 0.02 degrees of a limit and areas "
                 "within 1 m2 of the minimum may go either way",
                 "the surface covers the buildings"],
    workers=6,
)


def shape(rng, cx, cy):
    """(outer ring, holes, kind) in metres around a centre."""
    kind = rng.choice(["box", "box", "L", "U", "star", "court", "tiny",
                       "many", "sliver"])
    w, h = rng.uniform(9, 40), rng.uniform(9, 40)
    holes = []
    if kind in ("box", "court"):
        if kind == "court":
            w, h = w + 12, h + 12
        r = [(0, 0), (w, 0), (w, h), (0, h)]
        if kind == "court":
            a, b = rng.uniform(.25, .45), rng.uniform(.55, .75)
            holes = [[(a * w, a * h), (b * w, a * h), (b * w, b * h),
                      (a * w, b * h)]]
    elif kind == "L":
        a, b = w * rng.uniform(.2, .7), h * rng.uniform(.2, .7)
        r = [(0, 0), (w, 0), (w, b), (a, b), (a, h), (0, h)]
    elif kind == "U":
        a, b, c = w * .3, w * .7, h * rng.uniform(.15, .5)
        r = [(0, 0), (w, 0), (w, h), (b, h), (b, c), (a, c), (a, h), (0, h)]
    elif kind == "star":
        r = gis.star(rng, 0, 0, 6, 30, rng.randint(5, 12))
    elif kind == "many":
        n = rng.randint(10, 24)
        r = [(14 * math.cos(6.283 * k / n), 10 * math.sin(6.283 * k / n))
             for k in range(n)]
    elif kind == "sliver" and rng.random() < .5:    # much less than its hull
        a, b, t = rng.uniform(9, 16), rng.uniform(9, 16), rng.uniform(.5, 1.9)
        r = [(0, 0), (a, 0), (a, t), (t, t), (t, b), (0, b)]
    elif kind == "sliver":
        r = [(0, 0), (60, 0), (60, rng.uniform(.5, 3))]
    else:
        w, h = rng.uniform(2, 9), rng.uniform(2, 9)
        r = [(0, 0), (w, 0), (w, h), (0, h)]
    t = rng.uniform(0, 6.283)
    c, s = math.cos(t), math.sin(t)

    def put(ring):
        return [(cx + x * c - y * s, cy + x * s + y * c) for x, y in ring]
    r = put(r)
    if rng.random() < .5:
        r.reverse()
    k = rng.randrange(len(r))
    return r[k:] + r[:k], [put(q) for q in holes], kind


def zone(rng):
    epsg = rng.choice([32631, 32610, 32733, 32755])
    y = rng.uniform(1e6, 5e6)
    return rng.uniform(3e5, 7e5), 1e7 - y if epsg > 32700 else y, epsg


def corner_angles(ring):
    n = len(ring)
    out = []
    for i in range(n):
        (x0, y0), (x1, y1), (x2, y2) = ring[i], ring[i - 1], ring[(i + 1) % n]
        a = math.atan2(y1 - y0, x1 - x0) - math.atan2(y2 - y0, x2 - x0)
        a = abs((math.degrees(a) + 180) % 360 - 180)
        out.append(a)
    return out


@check.part(quick=1300, thorough=40000, share=3,
            need={"buildings": 400, "centers": 400, "highest": 400,
                  "corners": 900, "no_surface": 20, "tall_edge": 150,
                  "highest_fallback": 8, "center_moved": 50})
def detection(ctx, rng):
    """Sites detected on random buildings, each kind alone and together."""
    x, y, epsg = zone(rng)
    x, y = round(x), round(y)
    polys, kinds = [], []
    for i in range(rng.randint(1, 4)):
        for _ in range(20):
            r, hs, k = shape(rng, x + 60 + 110 * i + rng.uniform(0, 9),
                             y + 60 + rng.uniform(0, 9))
            p = Polygon(r, hs)
            if p.is_valid and p.area > 1:
                polys.append((r, hs, p))
                kinds.append(k)
                break
    order = list(range(len(polys)))
    rng.shuffle(order)
    polys = [polys[i] for i in order]
    res = rng.choice([.5, 1, 1, 1, 2, 2, 5, 20])
    surface, m = None, None
    left, top = x - 40 + rng.random() * res, y + 160 + rng.random() * res
    if rng.random() < .85:
        nx, ny = int((110 * len(polys) + 140) / res) + 4, int(260 / res) + 4
        nr = np.random.RandomState(rng.getrandbits(32))
        m = (nr.randint(0, 4, (ny, nx)) * rng.choice([0, 0, .4, 1.5]) +
             rng.choice([100, 100, 0, -6, -15])).astype(np.float32)
        for _, _, p in polys:       # roofs
            a0, b0, a1, b1 = p.bounds
            i0, i1 = int((a0 - left) / res), int((a1 - left) / res) + 1
            j0, j1 = int((top - b1) / res), int((top - b0) / res) + 1
            m[max(j0, 0):j1, max(i0, 0):i1] += rng.choice([0, 1.8, 2.3, 6, 15])
        for _ in range(rng.randint(0, 4)):      # chimneys
            m[rng.randrange(ny), rng.randrange(nx)] += rng.uniform(3, 20)
        surface = gis.elevation(m.copy(), left, top, res, epsg)
    else:
        ctx.count("no_surface")
    mount = rng.choice([0.0, 1.5, 3.25])
    max_angle = rng.choice([None, None, 91.0, 120.0, 60.0, 20.0, 179.0])
    group = BuildingGroup([Building(p) for _, _, p in polys],
                          gis.srs(epsg))

    def run(corners, center, highest):
        out = [[] for _ in polys]
        for s in group.detect_site_candidates(
                surface, mount, max_angle, corners, center, highest):
            g = GeoLocation(latitude=s.latitude, longitude=s.longitude)
            ctx.check_that(g.utm_epsg == epsg and s.site_type == DN,
                           "site-kind", "")
            ctx.check_that((s.altitude is None) == (surface is None),
                           "altitude-presence", s.altitude)
            out[s.building_id].append((g.utm_x, g.utm_y, s.altitude))
        return out

    def cell(px, py, eps=1e-4):
        """Values of the cells nearest to a point."""
        r = set()
        for dx in (-eps, eps):
            for dy in (-eps, eps):
                i = math.floor((px + dx - left) / res + .5)
                j = math.floor((top - py - dy) / res + .5)
                r.add(float(m[j, i]))
        return r

    def alt_ok(got, wants, mech, det):
        if surface is None:
            return
        ctx.check_that(any(abs(got - w - mount) < 1e-3 for w in wants), mech,
                       lambda: (got, sorted(wants)[:5], mount, det))

    def is_center(s, r, p):
        """The centroid when it is on the building, else a point on it."""
        q = p.centroid
        d = p.exterior.distance(q) if not p.interiors else min(
            [p.exterior.distance(q)] + [i.distance(q) for i in p.interiors])
        at = math.hypot(s[0] - q.x, s[1] - q.y) < 1e-3
        if d < 1e-3:
            return at or p.distance(Point(s[0], s[1])) < 1e-3
        if p.contains(q):
            return at
        ctx.count("center_moved")
        return p.distance(Point(s[0], s[1])) < 1e-3
    sep = {}
    for name, flags in (("corners", (True, False, False)),
                        ("center", (False, True, False)),
                        ("highest", (False, False, True))):
        sep[name] = run(*flags)
    for b, (r, hs, p) in enumerate(polys):
        ctx.count("buildings")
        # centre
        c = sep["center"][b]
        if ctx.check_that(len(c) == 1, "one-center", c):
            ctx.check_that(is_center(c[0], r, p), "center-place",
                           lambda: (c[0], p.wkt))
            if m is not None:
                alt_ok(c[0][2], cell(*c[0][:2]), "center-altitude", c[0])
            ctx.count("centers")
        # highest
        g = sep["highest"][b]
        if ctx.check_that(len(g) == 1, "one-highest", (len(g), surface)):
            ctx.count("highest")
            if m is None:
                ctx.check_that(is_center(g[0], r, p), "highest-no-surface", g)
            else:
                a0, b0, a1, b1 = p.bounds
                sure, maybe = {}, {}
                small = prep(p.buffer(-1e-3, 1))
                large = prep(p.buffer(1e-3, 1))
                for i in range(math.ceil((a0 - left) / res - .01),
                               math.floor((a1 - left) / res + .01) + 1):
                    for j in range(math.ceil((top - b1) / res - .01),
                                   math.floor((top - b0) / res + .01) + 1):
                        at = (left + i * res, top - j * res)
                        q = Point(*at)
                        if small.contains(q):
                            sure[at] = float(m[j, i])
                        elif large.contains(q):
                            maybe[at] = float(m[j, i])
                if not sure and not maybe:
                    ctx.count("highest_fallback")
                    ctx.check_that(is_center(g[0], r, p), "highest-fallback",
                                   g)
                    alt_ok(g[0][2], cell(*g[0][:2]), "highest-altitude", g)
                elif sure:
                    top_z = max(sure.values())
                    alt_ok(g[0][2], {top_z} | {
                        z for z in maybe.values() if z >= top_z},
                        "highest-altitude", lambda: g)
                    ctx.check_that(any(
                        math.hypot(g[0][0] - k[0], g[0][1] - k[1]) < 1e-2
                        and abs(v + mount - g[0][2]) < 1e-3
                        for k, v in [*sure.items(), *maybe.items()]),
                        "highest-place", lambda: (g, p.wkt))
        # corners
        ang = corner_angles(r)
        sure = [v for v, a in zip(r, ang) if max_angle is None or (
            30.02 < a < max_angle - .02)]
        may = [v for v, a in zip(r, ang) if max_angle is None or (
            29.98 < a < max_angle + .02)]
        k = sep["corners"][b]
        lo, hi = min(3, max(len(sure), 1)), min(3, max(len(may), 1))
        ctx.check_that(lo <= len(k) <= hi, "corner-number",
                       lambda: (len(k), lo, hi, max_angle))
        used = set()
        for s in k:
            ctx.count("corners")
            near = min(range(len(r)), key=lambda i: math.hypot(
                r[i][0] - s[0], r[i][1] - s[1]))
            v = r[near]
            ctx.check_that(math.hypot(v[0] - s[0], v[1] - s[1]) < 1e-2,
                           "corner-place", lambda: (s, r))
            ctx.check_that(v in may or (not sure), "corner-angle",
                           lambda: (s, ang[near], max_angle))
            ctx.check_that(near not in used, "corner-twice", near)
            used.add(near)
            if m is None:
                continue
            # the cells whose centre is within one metre
            i0 = math.ceil((v[0] - 1 - left) / res - 1e-6)
            i1 = math.floor((v[0] + 1 - left) / res + 1e-6)
            j0 = math.ceil((top - v[1] - 1) / res - 1e-6)
            j1 = math.floor((top - v[1] + 1) / res + 1e-6)
            box = m[j0:j1 + 1, i0:i1 + 1]
            edges, clear = set(), False
            for j in range(box.shape[0]):
                for i in range(box.shape[1]):
                    for dj in (-1, 0, 1):
                        for di in (-1, 0, 1):
                            jj, ii = j + dj, i + di
                            if 0 <= jj < box.shape[0] and \
                                    0 <= ii < box.shape[1]:
                                step = float(box[j, i]) - float(box[jj, ii])
                                if step > 2 - 1e-4:
                                    edges.add(float(box[j, i]))
                                if step > 2 + 1e-4:
                                    clear = True
            if clear:
                ctx.count("tall_edge")
                alt_ok(s[2], edges, "corner-altitude-at-wall", s)
            else:
                alt_ok(s[2], edges | cell(*v), "corner-altitude", s)
    pick = [rng.random() < .6 for _ in range(3)]
    if sum(pick) >= 2:
        together = run(*pick)
        for b in range(len(polys)):
            want = []
            for on, name in zip(pick, ("corners", "center", "highest")):
                if on:
                    want += sep[name][b]
            if surface is None and pick[1] and pick[2]:
                want = [w for i, w in enumerate(want) if w not in want[:i]]
            ctx.check_that(sorted(set(together[b]), key=str) ==
                           sorted(set(want), key=str) and
                           len(together[b]) <= len(want), "kinds-together",
                           lambda: (together[b], want))
    ctx.nontrivial(tuple(kinds), len(polys[0][0]), res, max_angle, mount,
                   surface is None)


def to_epsg(rings, src, dst):
    t = TransformerLib.get_tranformer(src, dst)
    return [[t.transform(*p) for p in r] for r in rings]


def ogr_polygon(rings, z=None):
    g = ogr.Geometry(ogr.wkbPolygon25D if z is not None else ogr.wkbPolygon)
    for r in rings:
        o = ogr.Geometry(ogr.wkbLinearRing)
        for p in list(r) + [r[0]]:
            if z is not None:
                o.AddPoint(p[0], p[1], z)
            else:
                o.AddPoint_2D(p[0], p[1])
        g.AddGeometry(o)
    return g


def write_shp(ctx, path, shapes, epsg, z=None, mac=False, extra=None,
              drop=(), folder="", multi=False, prj=True, gtype=None):
    """A zipped shapefile of shapes given as rings."""
    d = os.path.join(ctx.scratch, f"shp{len(os.listdir(ctx.scratch))}")
    os.mkdir(d)
    drv = ogr.GetDriverByName("ESRI Shapefile")
    ds = drv.CreateDataSource(os.path.join(d, "b.shp"))
    lay = ds.CreateLayer("b", gis.srs(epsg) if prj else None, gtype or (
        ogr.wkbPolygon if z is None else ogr.wkbPolygon25D))
    for rings in shapes:
        f = ogr.Feature(lay.GetLayerDefn())
        g = ogr_polygon(rings, z) if gtype is None else \
            ogr.CreateGeometryFromWkt(f"POINT({rings[0][0][0]} "
                                      f"{rings[0][0][1]})")
        if multi:
            mg = ogr.Geometry(ogr.wkbMultiPolygon)
            mg.AddGeometry(g)
            far = [[(q[0] + 1e-3, q[1] + 1e-3) for q in rings[0]]]
            mg.AddGeometry(ogr_polygon(far))
            g = mg
        f.SetGeometry(g)
        lay.CreateFeature(f)
        f = None
    lay = ds = None
    with zipfile.ZipFile(path, "w") as zf:
        if mac:
            zf.writestr("__MACOSX/", "")
            zf.writestr("__MACOSX/._b.shp", b"junk")
        if folder:
            zf.writestr(folder, "")
        for f in sorted(os.listdir(d)):
            if f.rsplit(".", 1)[1] in drop:
                continue
            zf.write(os.path.join(d, f), folder + f)
            if extra:
                zf.write(os.path.join(d, f), extra + f[1:])


def parts(g):
    if isinstance(g, Polygon):
        return [g] if not g.is_empty else []
    if isinstance(g, (MultiPolygon, GeometryCollection)):
        return [q for h in g.geoms for q in parts(h)]
    return []


def ring_kml(ctx, ring_ll, name="area.kml"):
    p = os.path.join(ctx.scratch, name)
    gis.write_kml(p, gis.kml_folder("area", gis.kml_polygon("a", ring_ll)))
    return p


def same_polygons(ctx, got, want, mech):
    ctx.check_that(len(got) == len(want), f"{mech}-number",
                   lambda: (len(got), len(want)))
    left = list(got)
    for w in want:
        best = min(left, key=lambda q: q.centroid.distance(w.centroid),
                   default=None)
        if best is None:
            return
        left.remove(best)
        ctx.check_that(best.symmetric_difference(w).area <
                       .05 + .002 * w.length, f"{mech}-shape",
                       lambda: (best.wkt[:300], w.wkt[:300]))


@check.part(quick=450, thorough=8000, share=3,
            need={"outlines": 500, "clipped": 60, "dropped": 100,
                  "courtyards": 40, "shp": 40, "kml": 30, "mac": 5,
                  "flat_3d": 5})
def files(ctx, rng):
    """Outlines read from files and clipped to the boundary."""
    x, y, epsg = zone(rng)
    size = rng.uniform(150, 400)
    if rng.random() < .5:
        area = [(x, y), (x + size, y), (x + size, y + size), (x, y + size)]
    else:
        area = gis.star(rng, x + size / 2, y + size / 2, size * .35,
                        size * .6, rng.randint(4, 9))
    zone_poly = Polygon(area)
    if not zone_poly.is_valid:
        area = [(x, y), (x + size, y), (x + size, y + size), (x, y + size)]
        zone_poly = Polygon(area)
    (ring_ll,) = to_epsg([area], epsg, 4326)
    shapes, want = [], []
    for i in range(rng.randint(1, 14)):
        r, hs, kind = shape(rng, x + rng.uniform(-.15, 1.15) * size,
                            y + rng.uniform(-.15, 1.15) * size)
        if rng.random() < .06:
            r = [r[0], r[2], r[1], *r[3:]]      # crosses itself, mostly
            hs = []
        p = Polygon(r, hs)
        if p.is_valid:
            cut = parts(p.intersection(zone_poly))
            if any(abs(q.area - 50) < 1 for q in cut):
                continue
            if p.boundary.distance(zone_poly.boundary) < .02 and not \
                    p.boundary.intersects(zone_poly.boundary):
                continue
            if hs:
                ctx.count("courtyards")
            ok = [q for q in cut if q.area > 50]
            if len(ok) == 1 and ok[0].area < p.area - 1 or len(ok) > 1:
                ctx.count("clipped")
            want += ok
            ctx.count("dropped", int(not ok))
        else:
            ctx.count("dropped")
        shapes.append([r] + hs)
        ctx.count("outlines")
    if not shapes:
        return
    kind = rng.choice(["kml", "kmz", "shp", "shp", "shp"])
    if kind == "shp":
        crs = rng.choice([epsg, 4326, 3857])
        z = rng.choice([None, None, 12.0])
        mac = rng.random() < .25
        p = os.path.join(ctx.scratch, "b.zip")
        write_shp(ctx, p, [to_epsg(s, epsg, crs) for s in shapes], crs, z,
                  mac)
        ctx.count("shp")
        ctx.count("mac", int(mac))
        ctx.count("flat_3d", int(z is not None))
    else:
        p = os.path.join(ctx.scratch, "b." + kind)
        gis.write_kml(p, gis.kml_folder("b", gis.kml_shapes(
            rng, "b", [to_epsg(s, epsg, 4326) for s in shapes])))
        ctx.count("kml")
    poly, _, _, group = load_gis_data(GISDataParams(
        boundary_polygon_file_path=ring_kml(ctx, ring_ll),
        building_outline_file_path=p))
    code = group.crs_epsg_code
    ctx.check_that(code == epsg or abs(x - 5e5) > 1.9e5, "utm-zone", code)
    if code != epsg:        # the area's centre is in the next zone
        t = TransformerLib.get_tranformer(epsg, code)
        want = [ops.transform(t.transform, q) for q in want]
    ctx.check_that(group.building_count == len(group.building_polygons),
                   "count", "")
    if any(abs(q.area - 50) < 1 for q in want):
        return
    same_polygons(ctx, group.building_polygons, want, "loaded")
    if rng.random() < .5 and group.building_count:
        # written and read again
        w = BuildingGroupLoader()
        q = os.path.join(ctx.scratch, "again.zip")
        w.write(q, group)
        again = w.read(q)
        ctx.check_that(again.crs_epsg_code == code, "rewritten-crs", "")
        same_polygons(ctx, again.building_polygons, group.building_polygons,
                      "rewritten")
    ctx.nontrivial(kind, len(shapes), len(want), len(area))


@check.part(quick=200, thorough=4000, need={"kept": 200})
def touching(ctx, rng):
    """A building that meets the boundary in an area and in a line."""
    la, lo = rng.uniform(-60, 60), rng.uniform(-5, 5) + 6 * rng.randint(
        -25, 25) + 3
    lo, la = round(lo * 512) / 512, round(la * 512) / 512
    u = 2.0 ** -12          # some 25 metres, exact in binary

    def at(*pts):
        return [(lo + a * u, la + b * u) for a, b in pts]
    area = Polygon(at((0, 0), (16, 0), (16, 16), (0, 16)))
    k = rng.randint(2, 12)
    one = rng.randint(1, 2)
    # a comb: one tooth reaches inside, the other only up to the boundary
    comb = [(-3, k), (one, k), (one, k + 1), (-1, k + 1), (-1, k + 2), (0, k + 2),
            (0, k + 3), (-3, k + 3)]
    if rng.random() < .5:
        comb = [(b, a) for a, b in comb]
    p = Polygon(at(*comb))
    g = BuildingGroup([Building(p)], gis.srs(4326))
    epsg = GeoLocation(latitude=la, longitude=lo + u).utm_epsg
    g.preprocess(area, epsg, None)
    t = TransformerLib.get_tranformer(4326, epsg)
    want = [ops.transform(t.transform, q)
            for q in parts(p.intersection(area))]
    same_polygons(ctx, g.building_polygons, [q for q in want if q.area > 50],
                  "touching")
    ctx.count("kept", len(want))
    ctx.nontrivial(round(la), round(lo), k)


@check.part(quick=120, thorough=2500, need={"cells_in": 300,
                                            "cells_out": 5000})
def height_map(ctx, rng):
    """Buildings turned into a raster of heights."""
    x, y, epsg = zone(rng)
    x, y = round(x), round(y)
    res = rng.choice([.5, 1, 2])
    n = int(160 / res)
    dtm = gis.elevation(np.zeros((n, n)), x, y, res, epsg)
    polys = []
    for _ in range(rng.randint(1, 3)):
        r, _, kind = shape(rng, x + rng.uniform(40, 120),
                           y - rng.uniform(40, 120))
        p = Polygon(r)
        if p.is_valid:
            polys.append(p)
    h = rng.choice([3.0, 7.5, 12.25])
    d = BuildingGroup([Building(p) for p in polys], gis.srs(epsg)).to_dhm(
        dtm, h)
    ctx.check_that((d.x_size, d.y_size, d.x_resolution, d.left_top_x,
                    d.left_top_y) == (n, n, res, x, y), "height-map-grid", "")
    for _ in range(400):
        i, j = rng.randrange(n), rng.randrange(n)
        q = Point(x + i * res, y - j * res)
        v = d.get_value(q.x, q.y)
        near = min((p.boundary.distance(q) for p in polys), default=99)
        if near < 1.6 * res:
            continue
        hit = any(p.contains(q) for p in polys)
        ctx.close(v, h if hit else 0.0, "height-map-value", abs_tol=1e-3)
        ctx.count("cells_in" if hit else "cells_out")
    ctx.nontrivial(res, h, len(polys))


@check.part(once=True)
def refusals(ctx, rng):
    """Files that break the documented rules are refused."""
    x, y, epsg = 500000.0, 4000000.0, 32631
    (ring,) = to_epsg([[(x, y), (x + 200, y), (x + 200, y + 200),
                        (x, y + 200)]], epsg, 4326)
    area = ring_kml(ctx, ring)
    s = [to_epsg([[(x + 20, y + 20), (x + 50, y + 20), (x + 50, y + 60),
                   (x + 20, y + 60)]], epsg, 4326)]

    def load(p):
        return load_gis_data(GISDataParams(
            boundary_polygon_file_path=area, building_outline_file_path=p))
    cases = {
        "good": {}, "two-shapefiles": dict(extra="c"),
        "no-shapefile": dict(drop=("shp",)),
        "in-folder": dict(folder="data/"), "multipolygon": dict(multi=True),
        "points": dict(gtype=ogr.wkbPoint), "no-crs": dict(prj=False)}
    for name, kw in cases.items():
        p = os.path.join(ctx.scratch, name + ".zip")
        write_shp(ctx, p, s, 4326, **kw)
        if name == "good":
            ctx.check_that(load(p)[3].building_count == 1, "good", "")
        else:
            ctx.expect_raises(PlannerException, lambda: load(p),
                              "refused-" + name)
    p = os.path.join(ctx.scratch, "b.txt")
    open(p, "w").close()
    ctx.expect_raises(PlannerException, lambda: load(p), "refused-text")


if __name__ == "__main__":
    check.run()
