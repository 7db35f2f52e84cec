"""C15 demand: every demand model, point by point."""
from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.topology_demand import (
    add_demand_to_topology,
)

check = Check(
    "C15",
    rule="random sites (colocated, same roof, near the antimeridian, all "
         "statuses) with every mixture of the CN, uniform and manual demand "
         "models; the demand sites are compared with a separately computed "
         "list of points and connections; non-trivial = distinct (models, "
         "sites, spacing, radius)",
    assumptions=["sites within 80 degrees of latitude and 5 of longitude",
                 "distances within 1 mm of the radius may go either way",
                 "alternative CNs at one position have equal subscribers"],
    workers=6,
)
R = 6371000.0
DEV = dn_device("any")


def scene(rng, uniform):
    """Sites around a point, some sharing position or building."""
    mode = rng.random()
    lat0 = rng.uniform(-70, 70)
    lon0 = rng.uniform(-179, 179)
    span = rng.choice([60.0, 200.0, 600.0])
    m_lat = span / R * 180 / math.pi
    if mode < .12:
        lon0 = rng.choice([180.0, -180.0])
    elif mode < .3:      # close to the antimeridian, on one side
        side = rng.choice([1, -1])
        lon0 = side * (180.0 - m_lat / math.cos(math.radians(lat0)) * 1.02
                       - rng.choice([0, rng.uniform(0, .002)]))
    m_lon = m_lat / math.cos(math.radians(lat0))
    dd = [dn_device("D0"), dn_device("D1", nodes=2)]
    cc = [cn_device("C0"), cn_device("C1")]
    sites, where, subs = [], [], {}
    n = rng.randint(1, 10)
    for i in range(n):
        ty = rng.choice([CN, CN, DN, DN, POP])
        st = rng.choice(ALL_STATUS) if rng.random() < .5 else CANDIDATE
        if where and rng.random() < .35:
            la, lo, alt = rng.choice(where)
            if rng.random() < .3:
                alt = alt + rng.choice([1.0, -2.0])
        else:
            la = lat0 + rng.uniform(-1, 1) * m_lat
            lo = lon0 + rng.uniform(-1, 1) * m_lon
            lo = (lo + 180) % 360 - 180 if abs(lo) > 180 else lo
            alt = rng.choice([0.0, 5.5, 20.0])
        where.append((la, lo, alt))
        roof = rng.random() < .5
        b = rng.choice([-1, -1, 0, 0, 1, 2]) if roof else None
        if ty == CN and (la, lo) not in subs:
            subs[la, lo] = rng.choice([None, 1, 2, 5])
        sub = subs[la, lo] if ty == CN else rng.choice([None, 3])
        sites.append(make_site_ll(
            ty, la, lo, rng.choice(cc if ty == CN else dd), st, alt,
            sid=f"s{i:02d}", subs=sub, building=b,
            loc=LocationType.ROOFTOP if roof else rng.choice(
                [LocationType.UNKNOWN, LocationType.STREET_LEVEL])))
    return sites, lat0, lon0, span, m_lat, m_lon


def grid_points(sites, spacing):
    """The uniform grid: one spacing beyond the bounding box all round."""
    lons = [s.longitude for s in sites]
    if any(x >= 175 for x in lons) and any(x <= -175 for x in lons):
        lons = [x + 360 if x < 0 else x for x in lons]
    lats = [s.latitude for s in sites]
    d = spacing / R
    dy = math.degrees(d)
    dx = math.degrees(math.atan(math.tan(d) /
                                math.cos(math.radians(min(lats)))))
    w, e = min(lons) - dx, max(lons) + dx
    s, n = min(lats) - dy, max(lats) + dy
    pts, edge = [], []
    i = 0
    while w + i * dx <= e + 1e-9:
        j = 0
        while s + j * dy <= n + 1e-9:
            p = (s + j * dy, (w + i * dx + 180) % 360 - 180)
            close = abs(w + i * dx - e) < 1e-9 or abs(s + j * dy - n) < 1e-9
            (edge if close else pts).append(p)
            j += 1
        i += 1
    return pts, edge


def near(p, sites, radius, slack):
    return {s.site_id for s in sites
            if sphere_distance(p[0], p[1], s.latitude, s.longitude)
            <= radius + slack}


def partners(sites):
    """CN -> DN/POP sites at the same point or on the same building."""
    out = {}
    for c in sites:
        if c.site_type != CN:
            continue
        for d in sites:
            if d.site_type == CN:
                continue
            same = (c.latitude, c.longitude, c.altitude) == \
                (d.latitude, d.longitude, d.altitude)
            roof = LocationType.ROOFTOP
            both = c.location_type == roof == d.location_type and \
                c.building_id == d.building_id and c.building_id >= 0
            if same or both:
                out.setdefault(c.site_id, set()).add(d.site_id)
    return out


def with_partners(ids, part):
    out = set(ids)
    for i in ids:
        out |= part.get(i, set())
    return out


def rest(t):
    return (
        {k: (id(s), s.site_type, s.status_type, s.latitude, s.longitude,
             s.altitude, s.name, s.building_id, s.number_of_subscribers)
         for k, s in t.sites.items()},
        {k: (id(l), l.status_type, l.tx_site.site_id, l.rx_site.site_id)
         for k, l in t.links.items()},
        {k: (id(s), s.status_type, s.ant_azimuth)
         for k, s in t.sectors.items()})


def spots(t):
    return {k: (d.latitude, d.longitude, d.demand, d.num_sites,
                sorted(s.site_id for s in d.connected_sites))
            for k, d in t.demand_sites.items()}


def build(sites, manual, links):
    t = Topology(sites=sites)
    by = {s.site_id: s for s in sites}
    for a, b in links:
        ok = [st for st in (CANDIDATE, UNAVAILABLE, UNREACHABLE)
              if link_status_ok(by[a].status_type, by[b].status_type, st)]
        if ok:
            t.add_link(Link(by[a], by[b], status_type=ok[0]))
    for la, lo, n, dem, conn in manual:
        t.add_demand_site(DemandSite(
            GeoLocation(latitude=la, longitude=lo), num_sites=n, demand=dem,
            connected_sites=[by[c] for c in conn]))
    return t


@check.part(quick=8000, thorough=160000, share=.8,
            need={"uniform points": 2000, "cn points": 500,
                  "manual points": 300, "no demand refused": 20,
                  "shared": 200, "antimeridian": 50})
def models(ctx, rng):
    """Which demand sites there are, what they ask and whom they reach."""
    uniform, manual_on = rng.random() < .5, rng.random() < .4
    cn_on = rng.random() < .6 or not (uniform or manual_on)
    sites, lat0, lon0, span, m_lat, m_lon = scene(rng, uniform)
    spacing = span * rng.choice([.2, .35, .5, 1.0, 2.5])
    radius = spacing * rng.choice([.3, .7, 1.0, 2.0, 4.0])
    dem = rng.choice([.025, 1.0, .3])
    manual = []
    taken = {(s.latitude, s.longitude) for s in sites}
    for _ in range(rng.randint(0, 4)):
        la = lat0 + rng.uniform(-1.5, 1.5) * m_lat
        lo = lon0 + rng.uniform(-1.5, 1.5) * m_lon
        lo = (lo + 180) % 360 - 180 if abs(lo) > 180 else lo
        if (la, lo) in taken:
            continue
        manual.append((la, lo, rng.choice([1, 1, 2]),
                       rng.choice([None, 5.0]),
                       [s.site_id for s in rng.sample(
                           sites, rng.randint(0, min(2, len(sites))))]))
    links = []
    dist = [s for s in sites if s.site_type != CN]
    for a in dist:
        for b in sites:
            if a is not b and rng.random() < .2 and sphere_distance(
                    a.latitude, a.longitude, b.latitude, b.longitude) > 11:
                links.append((a.site_id, b.site_id))
    t = build(sites, manual, links)
    kw = dict(device_list=[DEV], enable_cn_demand=cn_on,
              enable_uniform_demand=uniform, enable_manual_demand=manual_on,
              demand=dem)
    if uniform or rng.random() < .5:
        kw["demand_spacing"] = spacing
    if uniform or manual_on:
        kw["demand_connection_radius"] = radius
    p = OptimizerParams(**kw)
    inst = (f"models={[k for k, v in kw.items() if v is True]} "
            f"spacing={spacing} radius={radius} manual={manual} sites="
            f"{[(s.site_id, s.site_type.name, s.latitude, s.longitude, s.altitude, s.building_id) for s in sites]}")
    before = rest(t)
    # expected: (lat, lon) -> (number, surely connected, perhaps connected)
    part = partners(sites)
    want, maybe = {}, {}
    if manual_on:
        for la, lo, n, _, _ in manual:
            want[la, lo] = (n, near((la, lo), sites, radius, -1e-3),
                            near((la, lo), sites, radius, 1e-3), "manual")
    if uniform:
        pts, edge = grid_points(sites, spacing)
        for q in pts + edge:
            lo_, hi_ = (near(q, sites, radius, -1e-3),
                        near(q, sites, radius, 1e-3))
            if not hi_:
                continue
            target = want if lo_ and q not in edge else maybe
            target[q] = (1, lo_, hi_, "uniform")
    if cn_on:
        for s in sites:
            if s.site_type == CN:
                k = (s.latitude, s.longitude)
                all_ = {x.site_id for x in sites if x.site_type == CN and
                        (x.latitude, x.longitude) == k}
                want[k] = (s.number_of_subscribers, all_, all_, "cn")
    if not want and not maybe:
        ctx.expect_raises(OptimizerException,
                          lambda: add_demand_to_topology(t, p),
                          "no-demand-accepted")
        ctx.count("no demand refused")
        ctx.check_that(rest(t) == before, "changed-topology", inst)
        return
    try:
        add_demand_to_topology(t, p)
    except OptimizerException:
        ctx.check_that(not want, "refused", inst)
        return
    ctx.check_that(rest(t) == before, "changed-topology", inst)
    if any(abs(s.longitude) > 179.9 for s in sites) and uniform:
        ctx.count("antimeridian")

    def key(la, lo):
        return (round(la, 7), round(lo % 360, 7) % 360)

    idx = {}
    for src in (maybe, want):
        for q, v in src.items():
            for a in (-1, 0, 1):
                for b in (-1, 0, 1):
                    idx.setdefault((round(round(q[0], 7) + a * 1e-7, 7),
                                    round((round(q[1] % 360, 7)
                                           + b * 1e-7) % 360, 7)),
                                   []).append((q, v, src is want))
    seen = []
    for d in t.demand_sites.values():
        hits = idx.get(key(d.latitude, d.longitude), [])
        exact = [h for h in hits if h[0] == (d.latitude, d.longitude)]
        free = [h for h in hits if h[0] not in seen]
        hit = (exact or free or hits or [None])[0]
        ctx.check_that(hit is not None, "demand-site-without-reason",
                       f"{d.latitude},{d.longitude} {inst}")
        if hit is None:
            continue
        q, (n, lo_, hi_, kind), _ = hit
        seen.append(q)
        ctx.count(kind + " points")
        ctx.check_that(d.demand == dem, "demand", f"{d.demand} {q} {inst}")
        ctx.check_that(d.num_sites == n, "number-of-demand-sites",
                       f"{kind} {q}: {d.num_sites} instead of {n} {inst}")
        ids = [s.site_id for s in d.connected_sites]
        ctx.check_that(len(ids) == len(set(ids)), "connected-twice",
                       f"{ids} {inst}")
        ctx.check_that(all(t.sites.get(s.site_id) is s
                           for s in d.connected_sites), "foreign-site", inst)
        ctx.check_that(
            with_partners(lo_, part) <= set(ids) <= with_partners(hi_, part),
            "connections",
            f"{kind} {q}: {sorted(ids)} instead of "
            f"{sorted(with_partners(lo_, part))} {inst}")
        if with_partners(lo_, part) > set(lo_):
            ctx.count("shared")
    ctx.check_that(len(seen) == len(set(seen)), "demand-site-doubled", inst)
    cns = [q for q, v in want.items() if v[3] == "cn"]
    for q, v in want.items():
        if q not in seen and v[3] == "uniform" and any(
                abs(q[0] - c[0]) < 1e-9 and abs(q[1] - c[1]) < 1e-9
                for c in cns):
            ctx.violate("uniform-point-at-cn-replaced", f"{q} {inst}")
            continue
        ctx.check_that(q in seen, "demand-site-missing",
                       f"{v[3]} {q} -> {sorted(v[1])} {inst}")
    # the same in any order of the sites, and when added again
    if rng.random() < .5:
        a = spots(t)
        if not manual_on:
            add_demand_to_topology(t, p)
            ctx.check_that(spots(t) == a, "second-time-differs", inst)
        other = sites[:]
        rng.shuffle(other)
        t2 = build(other, manual, links)
        add_demand_to_topology(t2, p)
        ctx.check_that(spots(t2) == a, "depends-on-order", inst)
    ctx.nontrivial(uniform, manual_on, cn_on, len(sites), round(spacing, 1),
                   round(radius, 1), round(lat0, 3), len(t.demand_sites))


@check.part(quick=96, thorough=600, share=.1, need={"both": 10})
def manual_point_at_a_cn(ctx, rng):
    """A demand point given exactly at a CN stays beside the CN's own."""
    la, lo = rng.uniform(-60, 60), rng.uniform(-170, 170)
    c = make_site_ll(CN, la, lo, cn_device(), sid="cn")
    d = make_site_ll(DN, la + 2e-4, lo, dn_device(), sid="dn")
    t = build([c, d], [(la, lo, 1, None, [])], [])
    p = OptimizerParams(device_list=[DEV], enable_cn_demand=True,
                        enable_manual_demand=True, demand=.5,
                        demand_connection_radius=100.0)
    add_demand_to_topology(t, p)
    tot = sum(x.demand * x.num_sites for x in t.demand_sites.values())
    ids = {s.site_id for x in t.demand_sites.values()
           for s in x.connected_sites}
    ctx.count("both")
    ctx.check_that(abs(tot - 1.0) < 1e-9 and ids == {"cn", "dn"},
                   "manual-point-at-cn-replaced",
                   f"demand {tot} reaching {sorted(ids)} at {la},{lo}")
    ctx.nontrivial("at cn", round(la, 2))


@check.part(quick=960, thorough=12000, share=.1, need={"regular": 30})
def grid_regular(ctx, rng):
    """Neighbouring uniform points are one spacing apart; box is filled."""
    sites, lat0, lon0, span, m_lat, m_lon = scene(rng, True)
    spacing = span * rng.choice([.3, .5, .8])
    p = OptimizerParams(device_list=[DEV], enable_cn_demand=False,
                        enable_uniform_demand=True, demand=.5,
                        demand_spacing=spacing,
                        demand_connection_radius=span * 20)
    t = build(sites, [], [])
    add_demand_to_topology(t, p)
    pts = [(d.latitude, d.longitude) for d in t.demand_sites.values()]
    inst = f"spacing={spacing} sites={[(s.latitude, s.longitude) for s in sites]}"
    # every point of the bounding box lies within half a cell of a point
    for _ in range(20):
        a, b = rng.choice(sites), rng.choice(sites)
        dl = ((b.longitude - a.longitude + 180) % 360) - 180
        la = rng.uniform(min(a.latitude, b.latitude),
                         max(a.latitude, b.latitude))
        lo = a.longitude + rng.random() * dl
        d = min(sphere_distance(la, lo, q[0], q[1]) for q in pts)
        ctx.check_that(d <= spacing * .73, "hole-in-grid",
                       f"{la},{lo} is {d} m from the grid, {inst}")
    for q in rng.sample(pts, min(10, len(pts))):
        ds = sorted(sphere_distance(q[0], q[1], r[0], r[1])
                    for r in pts if r != q)
        ctx.check_that(ds and abs(ds[0] - spacing) < .02 * spacing,
                       "spacing", f"{ds[:1]} {inst}")
    ctx.count("regular")
    ctx.nontrivial("grid", round(lat0, 3), round(spacing, 1), len(pts))


if __name__ == "__main__":
    check.run()
