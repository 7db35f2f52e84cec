"""C07 terrain: grids are loaded, merged, cropped and looked up truthfully."""
import os
from datetime import datetime, timedelta

import numpy as np
from pyproj import Transformer

import gis
from gis import NODATA
from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.configuration.configs import GISDataParams
from terragraph_planner.common.data_io.elevation_loader import ElevationLoader
from terragraph_planner.common.exceptions import DataException
from terragraph_planner.common.structs import UTMBoundingBox
from terragraph_planner.los.core import load_gis_data

check = Check(
    "C07",
    rule="random grids (voids, non-square cells, any origin) looked up at "
         "random points and boxes, and random GeoTIFFs (tiles, void values, "
         "UTM and lat/lon) loaded, cropped and combined by the real loader; "
         "non-trivial = distinct (kind, size, resolution, voids, size of the "
         "answer)",
    assumptions=["points within 1e-6 of a cell border are not looked up",
                 "rasters are north-up, as documented"],
)


def gen_grid(rng, voids=None, res=None, nmax=14):
    nr = np.random.RandomState(rng.getrandbits(32))
    w, h = rng.randint(1, nmax), rng.randint(1, nmax)
    m = nr.uniform(-50, 500, (h, w)).astype(np.float32)
    if rng.random() < .3:
        m = np.round(m)
    k = rng.choice([0, 0, .2, .9]) if voids is None else voids
    m[nr.rand(h, w) < k] = NODATA
    res = res or rng.choice([.5, 1.0, 1.0, 2.0, 7.5, 30.0])
    ry = res if rng.random() < .6 else rng.choice([.5, 1.0, 3.0, 12.0])
    left = rng.uniform(200000, 800000)
    top = rng.uniform(1000, 9e6)
    if rng.random() < .5:
        left, top = float(int(left)), float(int(top))
    return gis.elevation(m, left, top, res, 32631, ry), m.copy()


def idx(e, m, x, y):
    """Index of the nearest cell, or None when too close to a border."""
    fx = (x - e.left_top_x) / e.x_resolution
    fy = (e.left_top_y - y) / e.y_resolution
    for f in (fx, fy):
        if abs(f - math.floor(f) - .5) < 1e-6:
            return None
    i = math.floor(fx + .5)
    j = math.floor(fy + .5)
    return min(max(i, 0), m.shape[1] - 1), min(max(j, 0), m.shape[0] - 1)


def void_values(e, m, i, j):
    """All values a void cell may take: nearest valid, or the mean."""
    jj, ii = np.nonzero(m != NODATA)
    if len(jj) == 0:
        return None
    d = np.hypot((ii - i) * e.x_resolution, (jj - j) * e.y_resolution)
    if abs(d.min() - 50) < 1e-6:
        return "edge"
    if d.min() > 50:
        return [float(m[jj, ii].mean(dtype=np.float64))]
    k = d <= d.min() + 1e-6
    return [float(v) for v in m[jj[k], ii[k]]]


def gen_point(rng, e, m):
    w, h = m.shape[1] * e.x_resolution, m.shape[0] * e.y_resolution
    return (e.left_top_x + rng.uniform(-.7, 1.3) * w,
            e.left_top_y - rng.uniform(-.7, 1.3) * h)


@check.part(quick=2000, thorough=40000, share=3,
            need={"lookups": 5000, "void_lookups": 200, "outside": 500})
def lookups(ctx, rng):
    e, m = gen_grid(rng)
    pts = [gen_point(rng, e, m) for _ in range(20)]
    first = {}
    n_void = 0
    for x, y in pts + rng.sample(pts, 8):
        k = idx(e, m, x, y)
        if k is None:
            continue
        v = m[k[1], k[0]]
        if v != NODATA:
            got = e.get_value(x, y)
            ctx.check_that(got == v, "cell-value",
                           lambda: (x, y, k, got, v))
        else:
            want = void_values(e, m, *k)
            if want is None:
                ctx.expect_raises(DataException, lambda: e.get_value(x, y),
                                  "all-void-grid")
                continue
            if want == "edge":
                continue
            got = e.get_value(x, y)
            n_void += 1
            ctx.check_that(any(abs(got - q) <= 1e-4 * max(1, abs(q))
                               for q in want), "void-value",
                           lambda: (x, y, k, got, want))
        ctx.check_that(first.setdefault(k, got) == got, "lookup-changed",
                       lambda: (k, first[k], got))
        ctx.count("lookups")
        ctx.check_that(e.utm_to_idx(x, y) == k, "index", lambda: (k, x, y))
        cx, cy = e.idx_to_utm(*k)
        ctx.close(cx, e.left_top_x + k[0] * e.x_resolution, "center-x")
        ctx.close(cy, e.left_top_y - k[1] * e.y_resolution, "center-y")
        if abs(cx - x) > e.x_resolution or abs(cy - y) > e.y_resolution:
            ctx.count("outside")
    ctx.count("void_lookups", n_void)
    # valid cells are never altered by looking others up
    ok = m != NODATA
    ctx.check_that((e.data_matrix[ok] == m[ok]).all(), "grid-altered", "")
    ctx.nontrivial(m.shape, e.x_resolution, e.y_resolution, n_void)
    ctx.sample({"shape": m.shape, "res": (e.x_resolution, e.y_resolution),
                "void_lookups": n_void})


@check.part(quick=1500, thorough=40000, share=2,
            need={"boxes": 400, "cells": 2000})
def boxes(ctx, rng):
    e, m = gen_grid(rng, voids=rng.choice([0, 0, .2]))
    if (m == NODATA).all():
        return
    h, w = m.shape
    b = e.utm_bounding_box
    for _ in range(3):
        (x1, y1), (x2, y2) = gen_point(rng, e, m), gen_point(rng, e, m)
        # obstruction cells: every cell the box, cut to the bounds, touches
        keep = rng.random() < .5
        tx = rng.uniform(min(x1, x2), max(x1, x2))

        def flt(x, y):
            return keep or x < tx
        cl = [min(max(x1, b.min_utm_x), b.max_utm_x),
              min(max(x2, b.min_utm_x), b.max_utm_x),
              min(max(y1, b.min_utm_y), b.max_utm_y),
              min(max(y2, b.min_utm_y), b.max_utm_y)]
        lo = idx(e, m, min(cl[:2]), max(cl[2:]))
        hi = idx(e, m, max(cl[:2]), min(cl[2:]))
        if lo is not None and hi is not None:
            got = e.get_all_obstructions(x1, y1, x2, y2, flt)
            want = []
            for j in range(lo[1], hi[1] + 1):
                for i in range(lo[0], hi[0] + 1):
                    x, y = e.idx_to_utm(i, j)
                    if flt(x, y):
                        want.append((x, y, e.data_matrix[j, i]))
            ctx.check_that(
                sorted(map(tuple, got)) == sorted(want), "obstruction-cells",
                lambda: (x1, y1, x2, y2, len(got), len(want)))
            ctx.count("boxes")
            ctx.count("cells", len(want))
        # centers within a box
        bx1, bx2 = sorted((x1, x2))
        by1, by2 = sorted((y1, y2))
        xs = [i for i in range(w)
              if bx1 <= e.left_top_x + i * e.x_resolution <= bx2]
        ys = [j for j in range(h)
              if by1 <= e.left_top_y - j * e.y_resolution <= by2]
        mat = e.get_value_matrix_within_bound(bx1, by1, bx2, by2)
        k = idx(e, m, bx1, by1)
        if xs and ys:
            want = e.data_matrix[ys[0]:ys[-1] + 1, xs[0]:xs[-1] + 1]
            ctx.check_that(mat.shape == want.shape and (mat == want).all(),
                           "matrix-within-bound",
                           lambda: (mat.shape, want.shape))
        elif k is not None:
            ctx.check_that(
                mat.shape == (1, 1) and mat[0, 0] == e.get_value(bx1, by1),
                "matrix-outside", lambda: mat.shape)
        lst = e.get_value_list_within_bound(bx1, by1, bx2, by2)
        inside = [p for p in lst if
                  e.left_top_x - .4 * e.x_resolution <= p.x <=
                  e.left_top_x + (w - .6) * e.x_resolution and
                  e.left_top_y + .4 * e.y_resolution >= p.y >=
                  e.left_top_y - (h - .6) * e.y_resolution]
        want = {(i, j): e.get_value(*e.idx_to_utm(i, j))
                for i in xs for j in ys}
        got = {idx(e, m, p.x, p.y): p.z for p in inside}
        ctx.check_that(got == want and len(inside) == len(want),
                       "list-within-bound",
                       lambda: (len(got), len(inside), len(want)))
        ctx.check_that(all(bx1 - 1e-6 <= p.x <= bx2 + 1e-6 and
                           by1 - 1e-6 <= p.y <= by2 + 1e-6 for p in lst),
                       "list-beyond-bound", len(lst))
        ctx.nontrivial(m.shape, len(want), lo, hi)
    # the whole grid as a list
    if e.x_resolution >= .5 and e.y_resolution >= .5:
        got = {idx(e, m, x, y): z for x, y, z in e.get_data_as_list()}
        want = {(i, j): e.data_matrix[j, i] for i in range(w)
                for j in range(h) if e.data_matrix[j, i] != NODATA}
        ctx.check_that(got == want, "data-as-list", (len(got), len(want)))


@check.part(quick=800, thorough=20000, need={"resampled": 150, "combined": 80})
def algebra(ctx, rng):
    e, m = gen_grid(rng, voids=0)
    ref = gis.elevation(m, e.left_top_x, e.left_top_y, e.x_resolution, 32631,
                        e.y_resolution)
    rx, ry = rng.choice([.5, 1.0, 2.0, 3.0, 10.0]), rng.choice([1.0, 2.0, 5.0])
    if rng.random() < .15:
        rx, ry = e.x_resolution, e.y_resolution
    b = e.utm_bounding_box
    e.set_resolution(rx, ry)
    ctx.check_that((e.x_resolution, e.y_resolution) == (rx, ry) and
                   (e.left_top_x, e.left_top_y) ==
                   (ref.left_top_x, ref.left_top_y), "resampled-frame", "")
    if (rx, ry) == (ref.x_resolution, ref.y_resolution):
        ctx.check_that((e.data_matrix == m).all(), "same-resolution", "")
    else:
        for n, r, ext in (
                (e.x_size, rx, b.max_utm_x - ref.left_top_x),
                (e.y_size, ry, ref.left_top_y - b.min_utm_y)):
            ctx.check_that(
                (n - .5) * r >= ext - 1e-6 and (n - 1.5) * r < ext + 1e-6,
                "resampled-size", (n, r, ext))
        for _ in range(15):
            i, j = rng.randrange(e.x_size), rng.randrange(e.y_size)
            k = idx(ref, m, ref.left_top_x + i * rx, ref.left_top_y - j * ry)
            if k:
                ctx.check_that(e.data_matrix[j, i] == m[k[1], k[0]],
                               "resampled-value", lambda: (i, j, k))
        ctx.count("resampled")
    # sums and differences
    a, ma = gen_grid(rng)
    nr = np.random.RandomState(rng.getrandbits(32))
    mb = nr.uniform(-5, 60, ma.shape).astype(np.float32)
    mb[nr.rand(*ma.shape) < rng.choice([0, .3])] = NODATA
    bad = rng.choice([None] * 5 + ["shift", "res", "epsg", "size"])
    mc = mb[:-1] if bad == "size" and mb.shape[0] > 1 else mb
    if bad == "size" and mb.shape[0] == 1:
        bad = None
    o = gis.elevation(
        mc, a.left_top_x + (1 if bad == "shift" else 0), a.left_top_y,
        a.x_resolution + (1 if bad == "res" else 0),
        32632 if bad == "epsg" else 32631, a.y_resolution)
    for op, f in (("+", lambda: a + o), ("-", lambda: a - o)):
        if bad:
            ctx.expect_raises(DataException, f, f"combined-{bad}")
            continue
        r = f()
        known = (ma != NODATA) & (mb != NODATA)
        want = ma + mb if op == "+" else ma - mb
        ctx.check_that((r.data_matrix[known] == want[known]).all(),
                       "combined-value", op)
        ctx.check_that((r.data_matrix[~known] == NODATA).all(),
                       "combined-void", lambda: r.data_matrix[~known][:3])
        ctx.check_that((r.left_top_x, r.left_top_y, r.x_resolution,
                        r.y_resolution, r.crs_epsg_code) ==
                       (a.left_top_x, a.left_top_y, a.x_resolution,
                        a.y_resolution, 32631), "combined-frame", op)
        ctx.count("combined")
    ctx.check_that((a.data_matrix == ma).all() and
                   (o.data_matrix == mc).all(), "operand-changed", "")
    ctx.nontrivial(m.shape, rx, ry, bad)


def source(rng, res=None, size=None):
    """A random raster of record: (matrix, left, top, res, epsg)."""
    nr = np.random.RandomState(rng.getrandbits(32))
    epsg = rng.choice([32601, 32631, 32660, 32717, 32756])
    res = res or rng.choice([.5, 1.0, 2.0, 5.0])
    n = size or rng.randint(20, 60)
    left = rng.randint(320000, 680000) + rng.choice([0, 0, .25])
    top = rng.randint(1000000, 4900000)
    if epsg > 32700:
        top = 10000000 - top
    m = nr.uniform(-20, 400, (n, n)).astype(np.float32)
    m[nr.rand(n, n) < rng.choice([0, .1])] = NODATA
    return m, left, top, res, epsg


def crop_box(rng, m, left, top, res, over=0.0):
    n = m.shape[0] * res
    x = sorted(left + rng.uniform(-over, 1 + over) * n for _ in range(2))
    y = sorted(top - rng.uniform(-over, 1 + over) * n for _ in range(2))
    return UTMBoundingBox(math.ceil(x[1] + 3 * res), math.ceil(y[1]
                          + 3 * res), math.floor(x[0]), math.floor(y[0]))


def check_loaded(ctx, e, m, left, top, res, box, tag):
    """Every cell of e is the source cell at its place."""
    ctx.check_that(e.x_resolution == res and e.y_resolution == res,
                   f"{tag}-resolution", (e.x_resolution, res))
    fi, fj = (e.left_top_x - left) / res, (top - e.left_top_y) / res
    i0, j0 = round(fi), round(fj)
    if not ctx.check_that(abs(fi - i0) < 1e-3 and abs(fj - j0) < 1e-3,
                          f"{tag}-not-aligned", (fi, fj)):
        return
    big = np.full(e.data_matrix.shape, NODATA, np.float32)
    h, w = m.shape
    for j in range(big.shape[0]):
        sj = j + j0
        if 0 <= sj < h:
            lo, hi = max(0, -i0), min(big.shape[1], w - i0)
            if lo < hi:
                big[j, lo:hi] = m[sj, lo + i0:hi + i0]
    ctx.check_that((big == e.data_matrix).all(), f"{tag}-values",
                   lambda: (int((big != e.data_matrix).sum()), big.shape))
    # it covers the asked box up to one cell
    for got, want in ((e.left_top_x, box.min_utm_x),
                      (e.left_top_y, box.max_utm_y),
                      (e.left_top_x + e.x_size * res, box.max_utm_x),
                      (e.left_top_y - e.y_size * res, box.min_utm_y)):
        ctx.check_that(abs(got - want) <= 2 * res + 1, f"{tag}-extent",
                       (got, want, res))
    ctx.count("loaded_cells", int((big != NODATA).sum()))


@check.part(quick=500, thorough=12000, share=2,
            need={"loaded_cells": 5000, "tiles": 30})
def loading(ctx, rng):
    m, left, top, res, epsg = source(rng)
    n = m.shape[0]
    files = []
    fill = rng.choice([NODATA, -9999.0, None])
    parts = [(0, n, 0, n)]
    if rng.random() < .6:
        c, d = rng.randint(3, n - 3), rng.randint(3, n - 3)
        o = rng.choice([0, 0, 2])
        parts = [(0, d + o, 0, n), (d, n, 0, c + o), (d, n, c, n)]
        rng.shuffle(parts)
        ctx.count("tiles")
    if fill is None:
        m = np.where(m == NODATA, 7.0, m).astype(np.float32)
    for k, (j1, j2, i1, i2) in enumerate(parts):
        p = os.path.join(ctx.scratch, f"t{k}.tif")
        t = m[j1:j2, i1:i2].copy()
        if fill is not None:
            t[t == NODATA] = fill
        gis.write_geotiff(p, t, left + i1 * res, top - j1 * res, res, epsg,
                          nodata=fill)
        files.append(p)
    box = crop_box(rng, m, left, top, res, rng.choice([0, 0, .2]))
    ld = ElevationLoader()
    e = ld.read(files, epsg, box)
    check_loaded(ctx, e, m, left, top, res, box, "loaded")
    ctx.check_that(e.crs_epsg_code == epsg and e.utm_bounding_box == box,
                   "loaded-frame", e.crs_epsg_code)
    ctx.check_that(ld.errors == [], "loader-errors", str(ld.errors))
    # written and read again
    p = os.path.join(ctx.scratch, "w.tif")
    ld.write(p, e)
    f = ElevationLoader().read([p], epsg, box)
    ctx.check_that(f.data_matrix.shape == e.data_matrix.shape and
                   (f.data_matrix == e.data_matrix).all() and
                   abs(f.left_top_x - e.left_top_x) < 1e-3 and
                   abs(f.left_top_y - e.left_top_y) < 1e-3,
                   "write-read", (f.data_matrix.shape, e.data_matrix.shape))
    ctx.nontrivial(m.shape, res, len(files), e.data_matrix.shape)
    ctx.sample({"cells": m.size, "files": len(files),
                "loaded": e.data_matrix.shape})


@check.part(quick=80, thorough=2000, need={"warped": 500})
def lat_lon_source(ctx, rng):
    """A raster in degrees is brought to UTM without moving its values."""
    lat, lon = rng.uniform(-60, 60), rng.uniform(-170, 170)
    g = GeoLocation(latitude=lat, longitude=lon)
    r = 2.0 / M_PER_DEG
    n = 80
    kx, ky = rng.uniform(.5, 2) / r, rng.uniform(-2, 2) / r

    def val(la, lo):
        return 100 + kx * (lo - lon) + ky * (la - lat)
    left, top = lon - n / 2 * r, lat + n / 2 * r
    m = np.array([[val(top - (j + .5) * r, left + (i + .5) * r)
                   for i in range(n)] for j in range(n)])
    p = os.path.join(ctx.scratch, "l.tif")
    gis.write_geotiff(p, m, left, top, r, 4326)
    k = math.cos(math.radians(lat))
    box = UTMBoundingBox(int(g.utm_x + 50 * k), int(g.utm_y + 50),
                         int(g.utm_x - 50 * k), int(g.utm_y - 50))
    e = ElevationLoader().read([p], g.utm_epsg, box)
    tr = Transformer.from_crs(g.utm_epsg, 4326, always_xy=True)
    for _ in range(60):
        i, j = rng.randrange(e.x_size), rng.randrange(e.y_size)
        x = e.left_top_x + (i + .5) * e.x_resolution
        y = e.left_top_y - (j + .5) * e.y_resolution
        lo, la = tr.transform(x, y)
        want = val(la, lo)
        tol = (abs(kx) + abs(ky)) * r * .75 + 1e-3
        ctx.check_that(abs(e.data_matrix[j, i] - want) <= tol,
                       "warped-value", lambda: (
                           i, j, float(e.data_matrix[j, i]), want, tol))
        ctx.count("warped")
    ctx.nontrivial(round(lat), round(lon))


def boundary(ctx, rng, left, top, size, epsg):
    ring = []
    x1, y1 = left + rng.uniform(.1, .3) * size, top - rng.uniform(.1, .3) * size
    x2, y2 = left + rng.uniform(.7, .9) * size, top - rng.uniform(.7, .9) * size
    for x, y in ((x1, y1), (x2, y1), (x2, y2), (x1, y2)):
        g = GeoLocation(utm_x=x, utm_y=y, utm_epsg=epsg)
        ring.append((g.longitude, g.latitude))
    p = os.path.join(ctx.scratch, "b.kml")
    gis.write_kml(p, gis.kml_folder("x", gis.kml_polygon("b", ring)))
    xs, ys = (x1, x2), (y1, y2)
    return p, (min(xs), max(xs), min(ys), max(ys))


@check.part(quick=250, thorough=6000, share=1.5, need={"combinations": 50})
def combination(ctx, rng):
    """Surface, terrain and height rasters given in any combination."""
    s, left, top, res, epsg = source(rng, size=rng.randint(40, 60))
    nr = np.random.RandomState(rng.getrandbits(32))
    hgt = nr.uniform(0, 30, s.shape).astype(np.float32)
    hgt[nr.rand(*s.shape) < rng.choice([0, .2])] = NODATA
    ter = nr.uniform(0, 90, s.shape).astype(np.float32)
    ter[nr.rand(*s.shape) < rng.choice([0, .2])] = NODATA
    have = rng.choice(["s", "t", "st", "th", "sh", "sth", "h", ""])
    paths = {}
    for k, m in (("s", s), ("t", ter), ("h", hgt)):
        if k in have:
            paths[k] = os.path.join(ctx.scratch, k + ".tif")
            gis.write_geotiff(paths[k], m, left, top, res, epsg)
    zone = ((left - 500000) / 1000, epsg)
    b, (x1, x2, y1, y2) = boundary(ctx, rng, left, top, s.shape[0] * res,
                                   epsg)
    box = UTMBoundingBox(math.ceil(x2), math.ceil(y2), math.floor(x1),
                         math.floor(y1))
    poly, S, T, B = load_gis_data(GISDataParams(
        boundary_polygon_file_path=b,
        dsm_file_paths=[paths["s"]] if "s" in paths else [],
        dtm_file_path=paths.get("t"), dhm_file_path=paths.get("h")))
    ctx.check_that(B is None, "buildings-from-nowhere", "")

    def vsum(a, b, sign):
        v = a + sign * b
        return np.where((a == NODATA) | (b == NODATA), NODATA, v)\
            .astype(np.float32)
    want_s = s if "s" in have else vsum(ter, hgt, 1) \
        if "t" in have and "h" in have else None
    want_t = ter if "t" in have else vsum(s, hgt, -1) \
        if "s" in have and "h" in have else None
    for got, want, tag in ((S, want_s, "surface"), (T, want_t, "terrain")):
        ctx.check_that((got is None) == (want is None), f"{tag}-presence",
                       (have, got is None))
        if got is not None and want is not None:
            # the box may move by one metre through the lat/lon round trip
            check_loaded(ctx, got, want, left, top, res,
                         got.utm_bounding_box, tag)
            ctx.check_that(all(abs(p - q) <= 1 for p, q in zip(
                got.utm_bounding_box, box)), "bounding-box",
                (got.utm_bounding_box, box))
    ctx.count("combinations")
    ctx.nontrivial(have, s.shape, res, zone)


@check.part(quick=120, thorough=2000, need={"refused": 15, "accepted": 15})
def rules(ctx, rng):
    """Collection time and cell size rules of GeoTIFF files."""
    date, ok = None, True
    now = datetime.now()
    kind = rng.choice(["none", "recent", "old", "future", "bad", "small",
                       "large"])
    res = 1.0
    if kind == "recent":
        date = (now - timedelta(days=rng.randint(2, 365 * 20 - 10))).strftime(
            "%Y:%m:%d %H:%M:%S")
    elif kind == "old":
        date = (now - timedelta(days=rng.randint(365 * 20 + 3, 12000))
                ).strftime("%Y:%m:%d %H:%M:%S")
        ok = False
    elif kind == "future":
        date = (now + timedelta(days=rng.randint(2, 900))).strftime(
            "%Y:%m:%d %H:%M:%S")
        ok = False
    elif kind == "bad":
        date, ok = rng.choice(["yesterday", "2015-01-01 00:00:00"]), False
    elif kind == "small":
        res, ok = rng.choice([.05, .14]), False
    elif kind == "large":
        res, ok = rng.choice([35.5, 60.0]), False
    elif rng.random() < .5:
        res = rng.choice([.2, 30.0, 35.0])
    p = os.path.join(ctx.scratch, "d.tif")
    m = np.ones((30, 30))
    gis.write_geotiff(p, m, 500000, 4000000, res, 32631, date=date)
    ld = ElevationLoader()
    n = int(res * 20) + 1
    e = ld.read([p], 32631, UTMBoundingBox(500000 + n, 4000000,
                                           500000, 4000000 - n))
    ctx.check_that((len(ld.errors) == 0) == ok, "rule-" + kind,
                   lambda: (date, res, [str(x) for x in ld.errors]))
    ctx.check_that(e.collection_time == date, "collection-time", date)
    b, _ = boundary(ctx, rng, 500000, 4000000, res * 30, 32631)

    def go():
        return load_gis_data(GISDataParams(boundary_polygon_file_path=b,
                                           dsm_file_paths=[p]))
    if ok:
        go()
        ctx.count("accepted")
    else:
        ctx.expect_raises(DataException, go, "plan-accepted-" + kind)
        ctx.count("refused")
    ctx.nontrivial(kind, date, res)


@check.part(once=True)
def cell_of_a_point(ctx, rng):
    """A loaded raster gives a point the value of the cell it is in."""
    p = os.path.join(ctx.scratch, "a.tif")
    m = np.arange(400.0).reshape(20, 20)
    gis.write_geotiff(p, m, 500000, 4000020, 1.0, 32631)
    e = ElevationLoader().read([p], 32631, UTMBoundingBox(
        500020, 4000020, 500000, 4000000))
    ctx.check_that(e.get_value(500003.25, 4000012.75) == m[7, 3],
                   "value-in-cell", "")
    ctx.check_that(e.get_value(500003.75, 4000012.25) == m[7, 3],
                   "half-cell-shift",
                   (e.get_value(500003.75, 4000012.25), m[7, 3]))


@check.part(once=True)
def two_resolutions(ctx, rng):
    """Terrain and height rasters of different resolutions."""
    paths = []
    for k, r in enumerate((2.0, 1.0)):
        p = os.path.join(ctx.scratch, f"{k}.tif")
        n = int(200 / r)
        gis.write_geotiff(p, np.full((n, n), 3.0 + k), 500000, 4000200, r,
                          32631)
        paths.append(p)
    b, _ = boundary(ctx, rng, 500000, 4000200, 200, 32631)
    try:
        _, S, _, _ = load_gis_data(GISDataParams(
            boundary_polygon_file_path=b, dtm_file_path=paths[0],
            dhm_file_path=paths[1]))
        ok = S.x_resolution == 1.0 and (S.data_matrix == 7.0).all()
        msg = "wrong sum"
    except DataException as x:
        ok, msg = False, str(x)
    ctx.check_that(ok, "dtm-dhm-resolutions", msg)


if __name__ == "__main__":
    check.run()
