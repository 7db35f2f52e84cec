"""C08 line of sight: confidence follows the geometry of the obstructions."""
import numpy as np
from shapely.geometry import Polygon

import gis
from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.topology_models.site import LOSSite
from terragraph_planner.los.cylindrical_los_validator import (
    CylindricalLOSValidator,
)
from terragraph_planner.los.ellipsoidal_los_validator import (
    EllipsoidalLOSValidator,
)
from terragraph_planner.los.fresnel_zone import FresnelZone

check = Check(
    "C08",
    rule="random surfaces (flat, rough, single walls and poles near the "
         "axis) between random antenna pairs, judged by an independent "
         "column-to-axis computation; non-trivial = distinct (model, "
         "direction octant, steepness, threshold, confidence band)",
    assumptions=["cells within 1e-6 of the edge of the zone may count or not",
                 "altitudes of both ends are known when a surface is given"],
)

UNK, ROOF = LocationType.UNKNOWN.value, LocationType.ROOFTOP.value
STREET = LocationType.STREET_LEVEL.value
C_LIGHT = 299792458.0


def scene(rng, steep=None):
    """(elevation, matrix, site a, site b)"""
    nr = np.random.RandomState(rng.getrandbits(32))
    res = rng.choice([.5, 1.0, 1.0, 1.0, 2.0, 3.0])
    ry = res if rng.random() < .8 else rng.choice([1.0, 2.0])
    n = int(rng.uniform(40, 110) / res)
    h = int(rng.uniform(40, 110) / ry)
    left, top = rng.uniform(3e5, 7e5), rng.uniform(1e6, 8e6)
    if rng.random() < .5:
        left, top = round(left), round(top)
    # two ends, mostly inside, at times outside the grid
    while True:
        m = .25 if rng.random() < .2 else -.05
        p = [(left + rng.uniform(-m, 1 + m) * n * res,
              top - rng.uniform(-m, 1 + m) * h * ry) for _ in range(2)]
        kind = rng.random()
        if kind < .1:
            p[1] = (p[0][0], p[1][1])
        elif kind < .2:
            p[1] = (p[1][0], p[0][1])
        elif kind < .3:
            p = [(left + round((x - left) / res) * res,
                  top - round((top - y) / ry) * ry) for x, y in p]
        d = math.dist(*p)
        if d > 3:
            break
    base = rng.uniform(-10, 50)
    steep = rng.random() < .3 if steep is None else steep
    dz = rng.uniform(-2, 2) * d if steep else rng.uniform(-.1, .1) * d
    z0 = base + rng.uniform(5, 15)
    if dz < 0:
        z0 -= dz
    mat = np.full((h, n), base, np.float64) + nr.uniform(0, 3, (h, n))
    jj, ii = np.mgrid[0:h, 0:n]
    xs, ys = left + ii * res, top - jj * ry
    (ax, ay), (bx, by) = p
    s = ((xs - ax) * (bx - ax) + (ys - ay) * (by - ay)) / d ** 2
    perp = np.abs((xs - ax) * (by - ay) - (ys - ay) * (bx - ax)) / d
    axis_z = z0 + s * dz
    # things standing near the axis
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        near = np.argwhere((perp < rng.choice([1, 3, 8])) & (s > -.1) &
                           (s < 1.1))
        if len(near) == 0:
            break
        j, i = near[rng.randrange(len(near))]
        mat[j, i] = axis_z[j, i] + rng.choice(
            [rng.uniform(-6, 2), rng.uniform(-2, .5), rng.uniform(0, 30)])
    if rng.random() < .35:   # ground that follows the axis
        mat = np.minimum(mat + 1e9, axis_z - rng.uniform(.2, 12) -
                         nr.uniform(0, rng.choice([.01, 1]), (h, n)))
    mat = mat.astype(np.float32)
    e = gis.elevation(mat, left, top, res, 32631, ry)
    a = LOSSite(ax, ay, z0, UNK, None)
    b = LOSSite(bx, by, z0 + dz, UNK, None)
    return e, mat.copy(), a, b


def frame(e, m, a, b):
    """Per cell: (share along the axis, sideways distance, height)."""
    h, w = m.shape
    jj, ii = np.mgrid[0:h, 0:w]
    xs = e.left_top_x + ii * e.x_resolution - a.utm_x
    ys = e.left_top_y - jj * e.y_resolution - a.utm_y
    bx, by = b.utm_x - a.utm_x, b.utm_y - a.utm_y
    d = math.hypot(bx, by)
    u = np.array([bx, by]) / d
    along = xs * u[0] + ys * u[1]
    side = np.abs(xs * u[1] - ys * u[0])
    return along, side, m.astype(np.float64), d, b.altitude - a.altitude


def cylinder_bounds(e, m, a, b, radius):
    """(lowest, highest) admissible distance of the nearest obstruction."""
    along, side, z, d, dz = frame(e, m, a, b)
    L = math.hypot(d, dz)
    # the point of each column nearest to the axis: its top, or the height
    # where the common perpendicular meets it
    hz = np.minimum(z - a.altitude, along / d * dz)
    foot = (along * d + hz * dz) / L / L
    off = np.abs(along * dz - hz * d) / L
    dist = np.sqrt(side ** 2 + off ** 2)
    eps = 1e-6
    out = []
    for s in (eps, -eps):
        k = (side <= radius - s) & (along >= s) & (along <= d - s) & \
            (foot >= s) & (foot <= 1 - s)
        out.append(float(dist[k].min()) if k.any() else math.inf)
    sure, most = out
    return most, sure


def zone_bounds(e, m, a, b, mhz):
    """The same for the ellipsoid model: smallest clear Fresnel radius."""
    along, side, z, d, dz = frame(e, m, a, b)
    L = math.hypot(d, dz)
    R = .5 * math.sqrt(C_LIGHT * L / (mhz * 1e6))
    c, s = d / L, dz / L
    hx = along - d / 2
    hz = z - (a.altitude + dz / 2)
    # 2-D ellipse when the top reaches the plane through the axis, else the
    # ellipsoid through the top
    with np.errstate(all="ignore"):
        r2 = side ** 2 / (1 - (2 * hx / d) ** 2)
        t = hx * c + hz * s
        o = -hx * s + hz * c
        r3 = (side ** 2 + o ** 2) / (1 - (2 * t / L) ** 2)
        top = hz - hx * dz / d
        sq = np.where(top >= 0, r2, np.where(np.abs(t) < L / 2, r3, np.inf))
        sq = np.where(top >= 0, r2, sq)
        rad = np.sqrt(np.maximum(sq, 0))
    # a cell centred on an antenna is no obstruction
    own = (np.abs(np.abs(hx) - d / 2) < 1e-6) & (side < 1e-6)
    out = []
    for w in (1e-6, -1e-6):
        # inside the outline of the outer zone
        k = (np.abs(hx) < d / 2 - w) & \
            ((2 * hx / d) ** 2 + side ** 2 / R ** 2 <= 1 - w)
        k &= np.isfinite(rad) & ~own
        out.append(float(rad[k].min()) if k.any() else math.inf)
    sure, most = out
    return most, sure, R


def judge(ctx, got, lo, hi, radius, thr, tag, info):
    """got must be the confidence for some distance in [lo, hi]."""
    tol = 1e-6 + 1e-6 * radius
    ok = False
    if hi >= thr * radius - tol and \
            min(lo, radius) - tol <= got * radius <= \
            min(hi, radius) + tol and \
            got >= thr - 1e-6:
        ok = True
    if lo <= thr * radius + tol and got == 0:
        ok = True
    ctx.check_that(ok, tag, lambda: (got, lo / radius, hi / radius, thr,
                                     info()))


def band(v):
    return 0 if v == 0 else 2 if v == 1 else 1


def octant(a, b):
    return int(math.degrees(math.atan2(b.utm_y - a.utm_y,
                                       b.utm_x - a.utm_x)) // 45)


def thresholds(rng, share=None):
    """A threshold, at times just below or above the share that is clear."""
    if share is not None and 0 < share < 1 and rng.random() < .6:
        return min(1.0, share * (1 + rng.choice([-1, 1, 1]) * rng.choice(
            [1e-4, 1e-3, .01, .05])))
    return rng.choice([1.0, 1.0, 0.0, .5, round(rng.random(), 2),
                       rng.random()])


def radius_beside(rng, e, m, a, b):
    """A radius that just reaches past the nearest column above the axis."""
    along, side, z, d, dz = frame(e, m, a, b)
    k = (along > 0) & (along < d) & (side > .2) & \
        (z > a.altitude + along / d * dz)
    if not k.any():
        return None
    return float(side[k].min()) / rng.uniform(.7, 1.02)


@check.part(quick=4000, thorough=120000, share=3,
            need={"partial": 100, "blocked": 200, "clear": 200})
def cylinder(ctx, rng):
    e, m, a, b = scene(rng)
    radius = rng.choice([.5, 1.0, 1.1, 2.0, 4.0, 8.0])
    if rng.random() < .3:
        radius = radius_beside(rng, e, m, a, b) or radius
    lo, hi = cylinder_bounds(e, m, a, b, radius)
    thr = thresholds(rng, lo / radius)
    v = CylindricalLOSValidator(e, 1e4, .5, 90, radius, [], thr)
    got = v.compute_confidence(a, b)
    judge(ctx, got, lo, hi, radius, thr, "cylinder-confidence",
          lambda: (a, b, radius))
    ctx.count({0: "blocked", 1: "partial", 2: "clear"}[band(got)])
    ctx.nontrivial("cyl", octant(a, b), round(math.atan2(
        abs(a.altitude - b.altitude), math.hypot(
            a.utm_x - b.utm_x, a.utm_y - b.utm_y)) * 4), round(thr, 1),
        round(got, 1), round(radius))
    ctx.sample({"a": a, "b": b, "radius": radius, "thr": thr,
                "confidence": got})


def below_steep_link(rng):
    """Columns whose tops are inside the zone of a steep link."""
    e, m, a, b = scene(rng, steep=True)
    mhz = rng.choice([5000, 2400, 400])
    along, side, z, d, dz = frame(e, m, a, b)
    L = math.hypot(d, dz)
    R = .5 * math.sqrt(C_LIGHT * L / (mhz * 1e6))
    m = np.full_like(m, min(a.altitude, b.altitude) - 4 * R - 50)
    k = np.argwhere((side < R) & (along > 0) & (along < d))
    for _ in range(rng.choice([1, 1, 2, 5]) if len(k) else 0):
        j, i = k[rng.randrange(len(k))]
        m[j, i] = a.altitude + along[j, i] / d * dz - \
            rng.random() * R * L / d
    g = gis.elevation(m, e.left_top_x, e.left_top_y, e.x_resolution, 32631,
                      e.y_resolution)
    return g, m.copy(), a, b, mhz


@check.part(quick=4000, thorough=120000, share=3,
            need={"partial": 60, "blocked": 200, "clear": 200})
def ellipsoid(ctx, rng):
    e, m, a, b = scene(rng)
    # low frequencies give wide zones, so that many cells matter
    mhz = rng.choice([60000, 60000, 5000, 2400, 400, 100])
    if rng.random() < .2:
        e, m, a, b, mhz = below_steep_link(rng)
    lo, hi, R = zone_bounds(e, m, a, b, mhz)
    thr = thresholds(rng, lo / R)
    v = EllipsoidalLOSValidator(e, 1e4, .5, 90, mhz, [], thr)
    got = v.compute_confidence(a, b)
    ctx.close(FresnelZone(a, b, mhz, thr).fresnel_radius, R, "fresnel-radius",
              rel=1e-9)
    judge(ctx, got, lo, hi, R, thr, "ellipsoid-confidence",
          lambda: (a, b, mhz))
    ctx.count({0: "blocked", 1: "partial", 2: "clear"}[band(got)])
    ctx.nontrivial("ell", octant(a, b), mhz, round(thr, 1), round(got, 1))


@check.part(quick=800, thorough=25000, share=2,
            need={"raised": 500, "outside": 500})
def monotone(ctx, rng):
    """Either end first; more obstruction; obstruction elsewhere."""
    e, m, a, b = scene(rng, steep=False)
    thr = thresholds(rng)
    ell = rng.random() < .5
    radius, mhz = rng.choice([.5, 1.0, 3.0]), rng.choice([60000, 2400, 400])

    def conf(mat, a=a, b=b, thr=thr, dx=0.0):
        g = gis.elevation(mat, e.left_top_x + dx, e.left_top_y,
                          e.x_resolution, 32631, e.y_resolution)
        a = a._replace(utm_x=a.utm_x + dx)
        b = b._replace(utm_x=b.utm_x + dx)
        v = EllipsoidalLOSValidator(g, 1e4, .5, 90, mhz, [], thr) if ell \
            else CylindricalLOSValidator(g, 1e4, .5, 90, radius, [], thr)
        return v.compute_confidence(a, b)
    c0 = conf(m.copy())
    along, side, z, d, dz = frame(e, m, a, b)
    R = .5 * math.sqrt(C_LIGHT * math.hypot(d, dz) / (mhz * 1e6)) if ell \
        else radius
    lo, hi, _ = zone_bounds(e, m, a, b, mhz) if ell else \
        cylinder_bounds(e, m, a, b, radius) + (0,)
    edge = min(hi, R) - min(lo, R) > 1e-9 or abs(lo - thr * R) < 1e-6
    if not edge:
        ctx.close(conf(m.copy(), b, a), c0, "ends-swapped", abs_tol=1e-6)
        ctx.close(conf(m.copy(), dx=64.0), c0, "moved-scene", abs_tol=1e-5)
    # a lower demand on the clear share never loses the line of sight
    c1 = conf(m.copy(), thr=thr * rng.random())
    ctx.check_that(c1 >= c0 - 1e-9, "lower-threshold", (c1, c0, thr))
    if c0 > 0:
        ctx.close(c1, c0, "threshold-changes-confidence", abs_tol=1e-9)
    for _ in range(4):
        up = m.copy()
        k = np.argwhere((side < R * 1.2) & (along > 0) & (along < d))
        if len(k) == 0:
            break
        j, i = k[rng.randrange(len(k))]
        up[j, i] += rng.choice([.3, 1.0, 5.0, 100.0])
        c = conf(up)
        # near the ends of a sloping ellipsoid the outline used for high
        # obstructions is an approximation
        tol = .02 if ell else 1e-6
        ctx.check_that(c <= c0 + tol, "raised-obstruction",
                       lambda: (c, c0, j, i, thr, ell))
        ctx.count("raised")
    far = (side > R + 1e-6) | (along < -1e-6) | (along > d + 1e-6)
    out = m.copy()
    out[far] += np.float32(rng.choice([1000.0, -1000.0, 3.0]))
    ctx.close(conf(out), c0, "obstruction-outside", abs_tol=1e-6)
    ctx.count("outside", int(far.sum()))
    # everything cleared
    low = np.full_like(m, min(a.altitude, b.altitude) - 3 * R - 50)
    ctx.check_that(conf(low) == 1.0, "clear-path", "")
    # a wall across
    k = (np.abs(along - d * rng.uniform(.3, .7)) <=
         1.5 * max(e.x_resolution, e.y_resolution)) & \
        (side <= R + 2 * max(e.x_resolution, e.y_resolution))
    wall = low.copy()
    wall[k] = max(a.altitude, b.altitude) + 100
    lo, hi, _ = zone_bounds(e, wall, a, b, mhz) if ell else \
        cylinder_bounds(e, wall, a, b, radius) + (0,)
    if hi < thr * R - 1e-6:
        ctx.check_that(conf(wall) == 0.0, "wall-across", (thr, ell))
        ctx.count("walls")
    ctx.nontrivial(ell, octant(a, b), round(thr, 1), round(c0, 1))


def seg_hits(p, q, ring):
    """Does the closed segment meet the closed simple polygon? None: too
    close to call."""
    def orient(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

    def seg_dist(p, a, b):
        dx, dy = b[0] - a[0], b[1] - a[1]
        t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / (dx * dx + dy * dy)
        t = min(1, max(0, t))
        return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)
    edges = list(zip(ring, ring[1:] + ring[:1]))
    if any(seg_dist(v, p, q) < 1e-6 for v in ring) or \
            any(seg_dist(x, *s) < 1e-6 for x in (p, q) for s in edges):
        return None
    for a, b in edges:
        if (orient(p, q, a) > 0) != (orient(p, q, b) > 0) and \
                (orient(a, b, p) > 0) != (orient(a, b, q) > 0):
            return True
    return gis.inside(ring, *p)


@check.part(quick=2500, thorough=60000, share=2,
            need={"ok": 300, "short": 50, "long": 50, "steep": 50,
                  "zone": 50, "building": 30, "spot": 20})
def rules(ctx, rng):
    """Length, elevation, building and exclusion zone rules."""
    x, y = rng.uniform(3e5, 7e5), rng.uniform(1e6, 8e6)
    d = rng.uniform(.5, 300)
    az = rng.uniform(0, 2 * math.pi)
    el = rng.choice([0, rng.uniform(-10, 10), rng.uniform(-89, 89)])
    dx, dy = d * math.cos(az), d * math.sin(az)
    dz = d * math.tan(math.radians(el))
    if abs(dz) > 500:
        dz = math.copysign(500, dz)
    if rng.random() < .05:
        dx = dy = 0.0
    alts = rng.choice([(10.0, 10.0 + dz)] * 6 +
                      [(None, None), (None, 5.0), (5.0, None)])
    loc = [rng.choice([UNK, ROOF, ROOF, STREET]) for _ in range(2)]
    # what stands on the street is not on a building, whatever it carries
    bld = [None if k == UNK else rng.choice([-1, 0, 1, 7]) for k in loc]
    a = LOSSite(x, y, alts[0], loc[0], bld[0])
    b = LOSSite(x + dx, y + dy, alts[1], loc[1], bld[1])
    flat = math.hypot(b.utm_x - a.utm_x, b.utm_y - a.utm_y)
    dz = 0 if None in alts else alts[1] - alts[0]
    L = math.hypot(flat, dz)
    lo, hi = rng.choice([(.1, 1e3), (20, 200), (.1, 100), (100, 1e3)])
    mel = rng.choice([90, 25, 65, 0, rng.uniform(0, 90)])
    zones = []
    if rng.random() < .4:
        for _ in range(rng.randint(1, 2)):
            zones.append(gis.star(
                rng, x + dx * rng.uniform(-.2, 1.2) + rng.uniform(-30, 30),
                y + dy * rng.uniform(-.2, 1.2) + rng.uniform(-30, 30),
                rng.uniform(2, 10), rng.uniform(10, 60), rng.randint(3, 9)))
    why = []
    if flat == 0:
        why.append("spot")
    if loc[0] == loc[1] == ROOF and bld[0] == bld[1] != -1:
        why.append("building")
    if L < lo:
        why.append("short")
    if L > hi:
        why.append("long")
    if L > 0 and math.degrees(math.asin(min(1, abs(dz) / L))) > mel:
        why.append("steep")
    unclear = min(abs(L - lo), abs(L - hi)) < 1e-6 or (
        L > 0 and abs(math.degrees(math.asin(min(1, abs(dz) / L))) - mel)
        < 1e-6 and mel not in (0, 90))
    for z in zones:
        hit = seg_hits((a.utm_x, a.utm_y), (b.utm_x, b.utm_y), list(z)) \
            if flat else False
        if hit is None:
            unclear = True
        elif hit:
            why.append("zone")
    if unclear:
        return
    polys = [Polygon(z) for z in zones]
    thr = thresholds(rng)
    vs = [CylindricalLOSValidator(None, hi, lo, mel, 1.0, polys, thr),
          EllipsoidalLOSValidator(None, hi, lo, mel, 60000, polys, thr)]
    if None not in alts:
        g = gis.elevation(np.full((5, 5), -2000, np.float32), x, y, 1.0,
                          32631)
        vs += [CylindricalLOSValidator(g, hi, lo, mel, 1.0, polys, thr),
               EllipsoidalLOSValidator(g, hi, lo, mel, 60000, polys, thr)]
    for v in vs:
        for p, q in ((a, b), (b, a)):
            got = v.compute_confidence(p, q)
            ctx.check_that(got == (0.0 if why else 1.0), "rule-" + (
                why[0] if why else "none"), lambda: (got, why, a, b, lo, hi,
                                                     mel))
    ctx.count(why[0] if why else "ok")
    ctx.nontrivial(tuple(sorted(set(why))), lo, hi, round(mel), len(zones))


@check.part(once=True)
def bad_parameters(ctx, rng):
    for cls in (CylindricalLOSValidator, EllipsoidalLOSValidator):
        for a in ((0, 10, 25, .5), (-1, 10, 25, .5), (10, 10, 25, .5),
                  (20, 10, 25, .5), (1, 10, -1, .5), (1, 10, 91, .5),
                  (1, 10, 25, -.1), (1, 10, 25, 1.1)):
            lo, hi, el, thr = a
            ctx.expect_raises(PlannerException, lambda: cls(
                None, hi, lo, el, 1.0, [], thr), "bad-parameter", a)
        cls(None, 10, 1, 0, 1.0, [], 0.0)
        cls(None, 10, 1, 90, 1.0, [], 1.0)


if __name__ == "__main__":
    check.run()
