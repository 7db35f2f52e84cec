"""C03 geodesy: projection, distances, bearings, angles, geohash."""
import math

from vmon import Check
from tg import *  # noqa
from tg import bearing, circ_diff, sphere_distance
from terragraph_planner.common import geos
from terragraph_planner.common.exceptions import (
    GeoSystemException, PlannerException,
)

check = Check(
    "C03",
    rule="random and edge coordinates (every zone, both hemispheres, equator, "
         "zone borders, antimeridian, near poles) against an independent "
         "transverse Mercator series and vector geometry; non-trivial = "
         "distinct (zone, hemisphere, latitude band, kind)",
    assumptions=["UTM zones are the regular six-degree ones; the planner's "
                 "distances are spherical with radius 6371 km"],
)


# Krueger series, WGS84, order 6: independent of pyproj
A, F = 6378137.0, 1 / 298.257223563
N = F / (2 - F)
RECT = A / (1 + N) * (1 + N**2 / 4 + N**4 / 64 + N**6 / 256)
ALPHA = [
    N / 2 - 2 * N**2 / 3 + 5 * N**3 / 16 + 41 * N**4 / 180 - 127 * N**5 / 288
    + 7891 * N**6 / 37800,
    13 * N**2 / 48 - 3 * N**3 / 5 + 557 * N**4 / 1440 + 281 * N**5 / 630
    - 1983433 * N**6 / 1935360,
    61 * N**3 / 240 - 103 * N**4 / 140 + 15061 * N**5 / 26880
    + 167603 * N**6 / 181440,
    49561 * N**4 / 161280 - 179 * N**5 / 168 + 6601661 * N**6 / 7257600,
    34729 * N**5 / 80640 - 3418889 * N**6 / 1995840,
    212378941 * N**6 / 319334400,
]
E = math.sqrt(F * (2 - F))


def utm(lat, lon, zone, south):
    phi = math.radians(lat)
    lam = math.radians((lon - (zone * 6 - 183) + 180) % 360 - 180)
    s = math.sin(phi)
    tau = math.sinh(math.atanh(s) - E * math.atanh(E * s))
    xi = math.atan2(tau, math.cos(lam))
    eta = math.asinh(math.sin(lam) / math.hypot(tau, math.cos(lam)))
    x, y = eta, xi
    for j, a in enumerate(ALPHA, 1):
        x += a * math.cos(2 * j * xi) * math.sinh(2 * j * eta)
        y += a * math.sin(2 * j * xi) * math.cosh(2 * j * eta)
    return (500000 + 0.9996 * RECT * x,
            0.9996 * RECT * y + (10000000 if south else 0))


def rand_ll(rng):
    k = rng.random()
    if k < .25:
        lon = rng.choice(range(-180, 181, 6)) + rng.choice(
            [0, 0, 1e-7, -1e-7, 1e-4])
        lon = min(180.0, max(-180.0, lon))
    else:
        lon = rng.uniform(-180, 180)
    k = rng.random()
    if k < .1:
        lat = rng.choice([0.0, -1e-7, 1e-7, -0.0])
    elif k < .2:
        lat = rng.choice([-1, 1]) * rng.uniform(75, 84)
    else:
        lat = rng.uniform(-80, 80)
    return lat, lon


@check.part(quick=7500, thorough=60000, share=2, need={"points": 500})
def projection(ctx, rng):
    lat, lon = rand_ll(rng)
    alt = rng.choice([None, rng.uniform(-100, 3000)])
    g = geos.GeoLocation(latitude=lat, longitude=lon, altitude=alt)
    zone = int((lon + 180) // 6) % 60 + 1
    south = lat < 0
    epsg = (32700 if south else 32600) + zone
    ctx.count("points")
    ctx.nontrivial(zone, south, int(lat // 4))
    ctx.check_that(g.utm_epsg == epsg, "utm-zone", (lat, lon, g.utm_epsg))
    ctx.check_that(geos.lat_lon_to_utm_epsg(lat, lon) == epsg, "utm-zone",
                   (lat, lon))
    x, y = utm(lat, lon, zone, south)
    ctx.close(g.utm_x, x, "utm-x", (lat, lon), 0, 1e-3)
    ctx.close(g.utm_y, y, "utm-y", (lat, lon), 0, 1e-3)
    ctx.check_that((g.latitude, g.longitude, g.altitude) == (lat, lon, alt),
                   "location-changed", (lat, lon))
    b = geos.GeoLocation(utm_x=g.utm_x, utm_y=g.utm_y, utm_epsg=g.utm_epsg,
                         altitude=alt)
    order = [lambda: b.longitude, lambda: b.latitude, lambda: b.utm_x]
    rng.shuffle(order)
    for o in order:
        o()
    ctx.close(b.latitude, lat, "round-trip-lat", (lat, lon), 0, 1e-8)
    d = abs(b.longitude - lon)
    ctx.close(min(d, 360 - d) * math.cos(math.radians(lat)), 0.0,
              "round-trip-lon", (lat, lon), 0, 1e-8)
    ctx.check_that((b.utm_x, b.utm_y, b.utm_epsg, b.altitude) ==
                   (g.utm_x, g.utm_y, epsg, alt), "location-changed",
                   "utm side")
    # a UTM position anywhere in a zone maps to the position that projects
    # back onto it
    z2, s2 = rng.randint(1, 60), rng.random() < .5
    ux = rng.uniform(170000, 830000)
    uy = rng.uniform(1e6, 9.9e6) if s2 else rng.uniform(0, 9.3e6)
    c = geos.GeoLocation(utm_x=ux, utm_y=uy,
                         utm_epsg=(32700 if s2 else 32600) + z2)
    px, py = utm(c.latitude, c.longitude, z2, s2)
    ctx.close(px, ux, "utm-to-lat-lon", (z2, s2, ux, uy), 0, 1e-3)
    ctx.close(py, uy, "utm-to-lat-lon", (z2, s2, ux, uy), 0, 1e-3)
    # copies
    na = rng.uniform(0, 100)
    for src in (g, b, c):
        cp = src.copy(altitude=na)
        ctx.check_that(cp.altitude == na and src.altitude in (alt, None),
                       "copy-altitude", (lat, lon))
        ctx.close(cp.latitude, src.latitude, "copy-lat", "", 0, 1e-10)
        ctx.close(cp.longitude, src.longitude, "copy-lon", "", 0, 1e-10)
        same = src.copy()
        ctx.check_that(same.altitude == src.altitude, "copy-altitude", "same")
        ctx.close(same.latitude, src.latitude, "copy-lat", "", 0, 1e-10)
        none = cp.copy(altitude=None)
        ctx.check_that(none.altitude is None, "copy-altitude", "to none")
    cp = g.copy(latitude=lat / 2, longitude=lon / 2)
    ctx.check_that((cp.latitude, cp.longitude, cp.altitude) ==
                   (lat / 2, lon / 2, alt), "copy-lat-lon", "")
    x2, y2 = utm(lat / 2, lon / 2, int((lon / 2 + 180) // 6) % 60 + 1, south)
    ctx.close(cp.utm_x, x2, "copy-lat-lon", "projection", 0, 1e-3)
    ctx.sample({"lat": lat, "lon": lon, "epsg": epsg, "x": x, "y": y})


@check.part(quick=1000, thorough=4000, share=.5, need={"rejected": 100})
def rejection(ctx, rng):
    big = rng.uniform(1e-6, 200)
    s = rng.choice([-1, 1])
    bad = [
        dict(latitude=s * (90 + big), longitude=rng.uniform(-180, 180)),
        dict(latitude=rng.uniform(-90, 90), longitude=s * (180 + big)),
        dict(latitude=1.0), dict(longitude=1.0), dict(),
        dict(utm_x=1.0, utm_y=1.0), dict(utm_x=1.0, utm_epsg=32631),
        dict(utm_x=1.0, utm_y=1.0, utm_epsg=rng.choice(
            [32600, 32661, 32700, 32761, 4326, 0, -32631, 32690])),
    ]
    for kw in bad:
        ctx.expect_raises(GeoSystemException, lambda: geos.GeoLocation(**kw),
                          "bad-location-accepted", kw)
        ctx.count("rejected")
    for e in (32601, 32660, 32701, 32760):
        geos.GeoLocation(utm_x=5e5, utm_y=5e6, utm_epsg=e)
    for lat, lon in ((90, 180), (-90, -180), (90, -180), (0, 0)):
        g = geos.GeoLocation(latitude=lat, longitude=lon)
        ctx.check_that((g.latitude, g.longitude) == (lat, lon), "edge-location",
                       (lat, lon))
        geos.lat_lon_to_geo_hash(lat, lon)
    for lat, lon in ((90 + big, 0), (-90 - big, 0), (0, 180 + big),
                     (0, -180 - big)):
        ctx.expect_raises(PlannerException,
                          lambda: geos.lat_lon_to_geo_hash(lat, lon),
                          "bad-geohash-accepted", (lat, lon))
    ctx.nontrivial(int(big))


@check.part(quick=7500, thorough=50000, share=1, need={"pairs": 500})
def distances(ctx, rng):
    lat, lon = rand_ll(rng)
    # near or far
    if rng.random() < .6:
        lat2 = lat + rng.uniform(-1, 1) * 10 ** rng.uniform(-5, -1)
        lon2 = lon + rng.uniform(-1, 1) * 10 ** rng.uniform(-5, -1)
    else:
        lat2, lon2 = rand_ll(rng)
    lat2 = min(89.0, max(-89.0, lat2))
    ctx.count("pairs")
    ref = sphere_distance(lat, lon, lat2, lon2)
    d = geos.haversine_distance(lon, lat, lon2, lat2)
    ctx.close(d, ref, "distance", (lat, lon, lat2, lon2), 1e-6, 1e-4)
    ctx.close(geos.haversine_distance(lon2, lat2, lon, lat), d,
              "distance-symmetry", (lat, lon), 1e-9, 1e-6)
    ctx.nontrivial(int(lat // 6), int(lon // 12), int(math.log10(ref + 1e-9)))
    if ref > 0.5 and ref < 1.9e7:
        b = float(geos.bearing_in_degrees(lon, lat, lon2, lat2))
        ctx.check_that(0 <= b <= 360, "bearing-range", b)
        ctx.check_that(circ_diff(b, bearing(lat, lon, lat2, lon2)) <
                       max(1e-5, 1e-3 / ref), "bearing",
                       (lat, lon, lat2, lon2, b,
                        bearing(lat, lon, lat2, lon2)))
        # going there by bearing and distance arrives there
        p_lon, p_lat = geos.translate_point(lon, lat, b, float(d))
        ctx.close(sphere_distance(p_lat, p_lon, lat2, lon2), 0,
                  "translate", (lat, lon, lat2, lon2), 0,
                  max(1e-3, 1e-6 * ref))
    sp = rng.uniform(1, 2000)
    dx, dy = geos.grid_deltas(lon, lat, sp)
    ctx.close(sphere_distance(lat, lon, lat, lon + float(dx)), sp, "grid-east",
              (lat, lon, sp), 2e-3, 1e-3)
    if lat + float(dy) < 90:
        ctx.close(sphere_distance(lat, lon, lat + float(dy), lon), sp,
                  "grid-north", (lat, lon, sp), 1e-6, 1e-3)
    ctx.check_that(dx > 0 and dy > 0, "grid-sign", (dx, dy))
    ctx.sample({"a": (lat, lon), "b": (lat2, lon2), "m": ref})


@check.part(quick=7500, thorough=50000, share=1, need={"angles": 500})
def angles(ctx, rng):
    ctx.count("angles")
    ed = [0, 90, 180, 270, 359.999999, 1e-9, 179.9999, 180.0001, 360.0]
    a = rng.choice([rng.uniform(0, 360), rng.choice(ed)])
    b = rng.choice([rng.uniform(0, 360), rng.choice(ed), a])
    r = geos.angle_delta(a, b)
    ctx.check_that(-180 < r <= 180, "angle-range", (a, b, r))
    ctx.check_that(circ_diff(r, a - b) < 1e-9, "angle-difference", (a, b, r))
    back = geos.angle_delta(b, a)
    ctx.check_that(abs(back + r) < 1e-9 or (back == r == 180),
                   "angle-antisymmetry", (a, b, r, back))
    ctx.check_that(circ_diff(geos.angle_delta(a, b + 180),
                             geos.angle_delta(a + 180, b)) < 1e-9
                   or a + 180 - b > 539, "angle-shift", (a, b))
    # planar angle at a vertex
    x0, y0 = rng.uniform(0, 1e3) + 4e5, rng.uniform(0, 1e3) + 5e6
    t1, t2 = rng.uniform(0, 360), rng.uniform(0, 360)
    if rng.random() < .2:
        t2 = t1 + rng.choice([0, 180, 90, -90])
    l1, l2 = 10 ** rng.uniform(0, 3), 10 ** rng.uniform(0, 3)
    p1 = (x0 + l1 * math.sin(math.radians(t1)),
          y0 + l1 * math.cos(math.radians(t1)))
    p2 = (x0 + l2 * math.sin(math.radians(t2)),
          y0 + l2 * math.cos(math.radians(t2)))
    got = float(geos.law_of_cosines_utm(x0, y0, *p1, *p2))
    ctx.close(got, circ_diff(t1, t2), "planar-angle", (t1, t2, l1, l2), 0,
              2e-3)
    lat, lon = rng.uniform(-60, 60), rng.uniform(-179, 179)

    def off(t, d):
        q = geos.translate_point(lon, lat, t, d)
        return float(q[1]), float(q[0])
    q1, q2 = off(t1, l1 + 20), off(t2, l2 + 20)
    ang, ratio = geos.law_of_cosines_spherical(lat, lon, *q1, *q2)
    ctx.close(float(ang), circ_diff(t1, t2), "spherical-angle",
              (t1, t2, l1, l2, lat, lon), 0, .05)
    ctx.close(float(ratio), max(l1 + 20, l2 + 20) / min(l1 + 20, l2 + 20),
              "length-ratio", (l1, l2), 1e-4)
    ctx.nontrivial(int(t1 // 20), int(t2 // 20), int(lat // 20))


@check.part(quick=3000, thorough=20000, share=1, need={"hashes": 200})
def geohash(ctx, rng):
    lat, lon = rand_ll(rng)
    if rng.random() < .1:
        lat, lon = rng.choice([(90.0, 180.0), (-90.0, -180.0), (0.0, 0.0)])
    h = geos.lat_lon_to_geo_hash(lat, lon)
    ctx.count("hashes")
    ctx.check_that(len(h) == 10 and all(
        c in "0123456789abcdefghijklmnopqrstuv" for c in h), "geohash-text", h)
    lo_lat, hi_lat, lo_lon, hi_lon = -90.0, 90.0, -180.0, 180.0
    even = True
    for c in h:
        v = int(c, 32)
        for k in (4, 3, 2, 1, 0):
            bit = v >> k & 1
            if even:
                mid = (lo_lon + hi_lon) / 2
                lo_lon, hi_lon = (mid, hi_lon) if bit else (lo_lon, mid)
            else:
                mid = (lo_lat + hi_lat) / 2
                lo_lat, hi_lat = (mid, hi_lat) if bit else (lo_lat, mid)
            even = not even
    ctx.check_that(lo_lat <= lat <= hi_lat and lo_lon <= lon <= hi_lon,
                   "geohash-cell", (lat, lon, h))
    ctx.check_that(lat < hi_lat or hi_lat == 90, "geohash-half-open", (lat, h))
    ctx.check_that(lon < hi_lon or hi_lon == 180, "geohash-half-open",
                   (lon, h))
    # another point of the same cell has the same hash
    f, g = rng.random() * .98 + .01, rng.random() * .98 + .01
    ctx.check_that(geos.lat_lon_to_geo_hash(
        lo_lat + f * (hi_lat - lo_lat), lo_lon + g * (hi_lon - lo_lon)) == h,
        "geohash-cell-constant", (lat, lon))
    ctx.nontrivial(h[:3])
    ctx.sample({"lat": lat, "lon": lon, "hash": h})


@check.part(quick=4000, thorough=20000, share=1, need={"links": 300})
def link_geometry(ctx, rng):
    """Length, azimuths and elevation of a link between two sites."""
    lat, lon = rng.uniform(-70, 70), rng.uniform(-179.9, 179.9)
    d = 10 ** rng.uniform(0.5, 3)
    br = rng.choice([rng.uniform(0, 360), 0, 90, 180, 270])
    q = geos.translate_point(lon, lat, br, d)
    a1 = rng.choice([0.0, None, rng.uniform(-50, 900)])
    a2 = rng.choice([0.0, None, rng.uniform(-50, 900)])
    dev = dn_device()
    s1 = make_site_ll(DN, lat, lon, dev, alt=a1)
    s2 = make_site_ll(DN, float(q[1]), float(q[0]), dev, alt=a2)
    if rng.random() < .3:
        s1 = make_site(DN, s1.utm_x, s1.utm_y, dev, alt=a1, epsg=s1.utm_epsg)
        s2 = make_site(DN, s2.utm_x, s2.utm_y, dev, alt=a2, epsg=s2.utm_epsg)
    az1, az2 = rng.uniform(0, 360), rng.uniform(0, 360)
    c1, c2 = Sector(s1, 0, 0, az1), Sector(s2, 0, 0, az2)
    wl = rng.random() < .8
    k = Link(s1, s2, c1, c2, is_wireless=wl)
    r = Link(s2, s1, c2, c1, is_wireless=wl)
    ctx.count("links")
    dh = (a2 - a1) if a1 is not None and a2 is not None else 0.0
    dist = math.hypot(d, dh)
    ctx.close(k.distance, dist, "link-length", (lat, lon, d, dh), 1e-6, 1e-4)
    ctx.close(r.distance, k.distance, "link-length-symmetry", d, 1e-9)
    ctx.check_that(k.distance >= d * (1 - 1e-6) - 1e-4,
                   "link-shorter-than-map", d)
    tol = max(1e-4, .02 / d)
    ctx.check_that(circ_diff(k.tx_beam_azimuth, br) < tol and
                   0 <= k.tx_beam_azimuth <= 360, "tx-azimuth",
                   (k.tx_beam_azimuth, br))
    ctx.check_that(circ_diff(k.rx_beam_azimuth, br + 180) < tol and
                   0 <= k.rx_beam_azimuth <= 360, "rx-azimuth",
                   (k.rx_beam_azimuth, br))
    ctx.close(k.el_dev, math.degrees(math.atan2(dh, d)), "elevation-angle",
              (d, dh), 1e-5, 1e-3)
    ctx.close(r.el_dev, -k.el_dev, "elevation-antisymmetry", (d, dh), 1e-6,
              1e-6)
    if wl:
        for dv, want in ((k.tx_dev, br - az1), (k.rx_dev, br + 180 - az2)):
            ctx.check_that(-180 < dv <= 180 and circ_diff(dv, want) < tol,
                           "deviation", (dv, want))
    else:
        ctx.check_that(k.tx_dev is None and k.rx_dev is None,
                       "wired-deviation", "")
    ctx.check_that(k.link_id != r.link_id and k.link_hash == r.link_hash and
                   k.sorted_site_ids == r.sorted_site_ids ==
                   tuple(sorted([s1.site_id, s2.site_id])), "link-identity",
                   k.link_id)
    # two masts on one roof, and a CN that listens
    near = GeoLocation(utm_x=s1.utm_x + rng.uniform(.1, .9), utm_y=s1.utm_y,
                       utm_epsg=s1.utm_epsg)
    up = rng.choice([-1, 1]) * rng.uniform(.1, .4)
    m1, m3 = [make_site_ll(ty, p.latitude, p.longitude, dv, alt=z)
              for ty, p, dv, z in ((DN, s1, dev, 9.0),
                                   (CN, near, cn_device(), 9.0 + up))]
    c1, c3 = Sector(m1, 0, 0, az1), Sector(m3, 0, 0, az2)
    w = Link(m1, m3, c1, c3, is_wireless=True)
    flat = sphere_distance(m1.latitude, m1.longitude, m3.latitude,
                           m3.longitude)
    ctx.close(w.distance, math.hypot(flat, up), "short-link", flat, 1e-6,
              1e-4)
    ctx.close(w.el_dev, math.degrees(math.atan2(up, flat)), "short-elevation",
              (flat, up), 1e-3, 1e-2)
    to = bearing(m1.latitude, m1.longitude, m3.latitude, m3.longitude)
    for dv, want in ((w.tx_dev, to - az1), (w.rx_dev, to + 180 - az2)):
        ctx.check_that(dv is not None and circ_diff(dv, want) < .1,
                       "access-deviation", (dv, want))
    ctx.nontrivial(int(br // 10), int(dh // 100), int(lat // 20))


if __name__ == "__main__":
    check.run()
