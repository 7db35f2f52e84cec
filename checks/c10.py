"""C10 candidate topology: exactly the links and sites the inputs justify."""
import csv
import os
from collections import defaultdict

import numpy as np

import gis
from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.configuration.configs import (
    GISDataParams, LOSParams, SiteDetectionParams,
)
from terragraph_planner.common.data_io.topology_serializer import (
    write_to_kml_file,
)
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.structs import ValidLOS
from terragraph_planner.common.topology_models.site import (
    DetectedSite, LOSSite,
)
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.los.core import (
    build_candidate_topology, generate_candidate_topology, load_gis_data,
)
from terragraph_planner.los.cylindrical_los_validator import (
    CylindricalLOSValidator,
)
from terragraph_planner.los.ellipsoidal_los_validator import (
    EllipsoidalLOSValidator,
)
from terragraph_planner.los.helper import (
    get_los_topology, get_max_los_dist_for_device_pairs,
)

check = Check(
    "C10",
    rule="random sites, buildings, base networks, surfaces and LOS results "
         "turned into candidate topologies by the real code, in memory and "
         "from files; non-trivial = distinct (sites, buildings, links, "
         "statuses, detection settings)",
    assumptions=["study areas do not cross the border of a UTM zone "
                 "(recorded finding)",
                 "pairs within rounding of a limit may be linked or not"],
    workers=6,
)

RADIO = {(DN, DN), (POP, DN), (DN, POP), (DN, CN), (POP, CN)}


def skey(s):
    return (s.site_type.name, round(s.latitude, 9), round(s.longitude, 9),
            None if s.altitude is None else round(s.altitude, 6),
            s.device.device_sku)


def snap(t):
    return ({skey(s): (s.status_type, s.name, s.location_type, s.building_id)
             for s in t.sites.values()},
            {(skey(k.tx_site), skey(k.rx_site)):
             (k.status_type, k.is_wireless, k.confidence_level)
             for k in t.links.values()})


def link_geometry(a, b):
    d = sphere_distance(a.latitude, a.longitude, b.latitude, b.longitude)
    if a.altitude is None or b.altitude is None:
        return d, 0.0
    dz = b.altitude - a.altitude
    return math.hypot(d, dz), math.degrees(math.atan2(dz, d)) if d else 90.0


def want_status(a, b):
    """Status of a new link, None when no status is legal."""
    ends = {a.status_type, b.status_type}
    if UNAVAILABLE in ends:
        return None if UNREACHABLE in ends else UNAVAILABLE
    return UNREACHABLE if UNREACHABLE in ends else CANDIDATE


def admits(a, b, lo, hi, el):
    """True / False / None (too close to a limit)."""
    d, e = link_geometry(a, b)
    if abs(d - lo) < 1e-3 or abs(d - hi) < 1e-3 or abs(abs(e) - el) < 1e-3:
        return None
    return lo <= d <= hi and abs(e) <= el


@check.part(quick=3000, thorough=120000, share=2,
            need={"links": 3000, "base_links_kept": 100, "buildings": 200,
                  "additional": 40, "two_devices": 30})
def assembly(ctx, rng):
    """Sites and LOS results to topology, with and without detection."""
    detect = rng.random() < .6
    dns = [dn_device(f"DN{i}") for i in range(rng.choice([1, 1, 2, 3]))]
    cns = [cn_device(f"CN{i}") for i in range(rng.choice([1, 1, 2]))]
    devs = dns + cns
    rng.shuffle(devs)
    if len(devs) > 2:
        ctx.count("two_devices")
    spot = [0]

    def place():
        spot[0] += 1
        k = spot[0]
        return (5e5 + 37 * (k % 7) + rng.uniform(0, 9),
                4e6 + 41 * (k // 7) + rng.uniform(0, 9), rng.uniform(0, 20))
    sites = []
    for i in range(rng.randint(1, 6)):
        t = rng.choice([DN, CN, POP])
        x, y, z = place()
        loc = rng.choice([LocationType.UNKNOWN, LocationType.ROOFTOP])
        sites.append(make_site(
            t, x, y, rng.choice(cns if t == CN else dns), alt=z,
            status=rng.choice([CANDIDATE] * 4 + [
                EXISTING, UNAVAILABLE, PROPOSED, UNREACHABLE]),
            name=f"in{i}", loc=loc,
            building=rng.choice([-1, 0, 2]) if loc == LocationType.ROOFTOP
            else None))
    if detect:
        most = rng.choice([5, 5, 9])
        for b in rng.sample(range(most + 1), rng.randint(0, most)):
            for _ in range(rng.randint(1, 4)):
                x, y, z = place()
                g = GeoLocation(utm_x=x, utm_y=y, utm_epsg=EPSG, altitude=z)
                sites.append(DetectedSite(DN, GeoLocation(
                    latitude=g.latitude, longitude=g.longitude, altitude=z),
                    b))
    n_new = len(sites)
    base = Topology()
    if rng.random() < .5:
        bs = []
        for i in range(rng.choice([1, 2, 3, 4, 5, 8])):
            t = rng.choice([DN, CN, POP])
            x, y, z = place()
            bs.append(make_site(t, x, y, rng.choice(cns if t == CN else dns),
                                alt=z, status=rng.choice(
                                    [EXISTING] * 3 + ALL_STATUS),
                                name=f"base{i}"))
        # an input site that is in the base network already
        if rng.random() < .3:
            s = rng.choice(sites[:1])
            bs.append(Site(s.site_type, s.location, s.device, EXISTING,
                           s.location_type, s.building_id, "same", None))
        for s in bs:
            base.add_site(s)
        for a in bs:
            for b in bs:
                if (a.site_type, b.site_type) in RADIO and a is not b and \
                        rng.random() < .5:
                    ok = [x for x in ALL_STATUS if link_status_ok(
                        a.status_type, b.status_type, x)]
                    if ok:
                        base.add_link(Link(
                            a, b, status_type=rng.choice(ok), is_wireless=True,
                            confidence_level=.25))
        sites += bs
    before = snap(base)
    n = len(sites)
    # LOS results
    los = []
    dens = rng.choice([.1, .3, .7])
    layer = None
    if rng.random() < .5:
        # rows of sites, each in sight of the next rows only
        rows = rng.randint(2, 6)
        layer = [rng.choice([0, 0, 1, rows]) if s.site_type == POP
                 else rng.randint(1, rows) for s in sites]
        for b in {s.building_id for s in sites
                  if isinstance(s, DetectedSite)} if rng.random() < .5 else ():
            row = rng.randint(1, rows)
            for i, s in enumerate(sites):
                if isinstance(s, DetectedSite) and s.building_id == b:
                    layer[i] = row
        dens = rng.choice([.3, .6, .9])
    for i in range(n_new):
        for j in range(i + 1, n):
            a, b = sites[i], sites[j]
            if layer and not 0 < abs(layer[i] - layer[j]) < 2 \
                    and rng.random() > .03:
                continue
            if rng.random() > dens or \
                    (a.latitude, a.longitude) == (b.latitude, b.longitude):
                continue
            if isinstance(a, DetectedSite) and isinstance(b, DetectedSite) \
                    and a.building_id == b.building_id:
                continue
            c = round(rng.uniform(.5, 1), 3)
            if (a.site_type, b.site_type) in RADIO:
                los.append(ValidLOS(i, j, c))
            if (b.site_type, a.site_type) in RADIO:
                los.append(ValidLOS(j, i, c))
    rng.shuffle(los)
    # all detected sites of a building may become CNs, so LOS is symmetric
    dist = {(a.device_sku, b.device_sku): rng.choice([60, 150, 400])
            for a in dns for b in devs}
    lo, el = rng.choice([5, 5, 60]), rng.choice([90, 25, 5])
    dn_dep = rng.random() < .5
    params = LOSParams(
        device_list=devs, minimum_los_distance=lo,
        maximum_elevation_scan_angle=el, maximum_los_distance=None,
        site_detection=SiteDetectionParams(dn_deployment=dn_dep))
    given = list(sites)
    topo = build_candidate_topology(params, base, list(sites), los, dist,
                                    detect)
    got_sites, got_links = snap(topo)
    base_s, base_l = before
    for k, v in base_s.items():
        ctx.check_that(got_sites.get(k) == v, "base-site-changed",
                       lambda: (k, v, got_sites.get(k)))
    for k, v in base_l.items():
        ctx.check_that(got_links.get(k) == v, "base-link-changed",
                       lambda: (k, v, got_links.get(k)))
        ctx.count("base_links_kept")
    for s in given[:n_new]:
        if not isinstance(s, DetectedSite):
            ctx.check_that(
                skey(s) in base_s or got_sites.get(skey(s)) == (
                    s.status_type, s.name, s.location_type, s.building_id),
                "input-site-changed", lambda: skey(s))
    # which detected sites were taken
    out, into = defaultdict(set), defaultdict(set)
    conf = {}
    for t, r, c in los:
        out[t].add(r)
        into[r].add(t)
        conf[(t, r)] = c
    by_b = defaultdict(list)
    for i, s in enumerate(given):
        if isinstance(s, DetectedSite):
            by_b[s.building_id].append(i)

    def at(s, t, sku):
        return (t.name, round(s.latitude, 9), round(s.longitude, 9),
                round(s.altitude, 6), sku)
    members = {}          # topology key -> [(los index, is CN twin)]
    for i, s in enumerate(given):
        if not isinstance(s, DetectedSite):
            members.setdefault(skey(s), []).append((i, False))
    taken_dn, n_add = set(), 0
    for b, idx in by_b.items():
        dn_here = [i for i in idx
                   if at(given[i], DN, dns[0].device_sku) in got_sites]
        cn_here = [i for i in idx
                   if at(given[i], CN, cns[0].device_sku) in got_sites]
        ctx.count("buildings")
        if not ctx.check_that(len(cn_here) == 1, "one-cn-per-building",
                              lambda: (b, idx, cn_here)):
            return
        most = max(len(out[i]) for i in idx)
        ctx.check_that(len(out[cn_here[0]]) == most, "best-site-of-building",
                       lambda: (cn_here, [len(out[i]) for i in idx]))
        if dn_dep:
            ctx.check_that(cn_here[0] in dn_here, "dn-at-best-site", b)
        n_add += len(dn_here) - dn_dep
        taken_dn |= set(dn_here)
        for i in dn_here:
            for d in dns:
                members.setdefault(at(given[i], DN, d.device_sku), []).append(
                    (i, False))
        for d in cns:
            members.setdefault(at(given[cn_here[0]], CN, d.device_sku),
                               []).append((cn_here[0], True))
    ctx.check_that(set(got_sites) == set(members) | set(base_s),
                   "sites", lambda: (set(got_sites) ^ set(members)))
    info = {}
    for k, m in members.items():
        for i, twin in m:
            if isinstance(given[i], DetectedSite):
                g = got_sites.get(k)
                ctx.check_that(g is not None and (g[0], g[2], g[3]) == (
                    CANDIDATE, LocationType.ROOFTOP, given[i].building_id),
                    "detected-site", lambda: (k, g))
    for s in topo.sites.values():
        info[skey(s)] = s
    # links: every LOS between taken sites, within the limits
    may = defaultdict(list)
    for a, ma in members.items():
        for b, mb in members.items():
            for i, tw in ma:
                if tw:
                    continue
                for j, tw2 in mb:
                    if a == b or (i, j) not in conf:
                        continue
                    may[(a, b)].append(conf[(i, j)])
    for (a, b), cs in may.items():
        if (a, b) in base_l:
            continue
        if (info[a].site_type, info[b].site_type) not in RADIO:
            continue
        ok = admits(info[a], info[b], lo, dist[(a[4], b[4])], el)
        st = want_status(info[a], info[b])
        if ok is None:
            continue
        if not ok or st is None:
            ctx.check_that((a, b) not in got_links, "link-beyond-limits",
                           lambda: (a, b))
        else:
            v = got_links.get((a, b))
            ctx.check_that(v is not None, "link-missing", lambda: (a, b))
            ctx.check_that(v is None or (
                v[0] == st and v[1] and v[2] in cs), "link-attributes",
                lambda: (v, st, cs))
            ctx.count("links")
    ctx.check_that(set(got_links) <= set(may) | set(base_l), "link-unjustified",
                   lambda: list(set(got_links) - set(may) - set(base_l))[:2])
    # additional DNs serve CNs that were cut off
    if detect:
        picks = {i for k, m in members.items() for i, tw in m if not tw and (
            i not in taken_dn)}
        best_dn = set()
        for b, idx in by_b.items():
            best = [i for i in idx if at(given[i], CN, cns[0].device_sku)
                    in got_sites][0]
            if dn_dep:
                best_dn.add(best)
        picks |= best_dn
        extra = taken_dn - best_dn
        # a CN twin hears what the site at its place hears
        twin = {idx_cn: next(i for i in by_b[b] if at(
            given[i], CN, cns[0].device_sku) in got_sites)
            for b in by_b for idx_cn in [("cn", b)]}

        def reach(nodes):
            seen = {i for i in nodes
                    if given[i].site_type == POP}
            todo = list(seen)
            while todo:
                i = todo.pop()
                for j in out[i]:
                    if j in nodes and j not in seen:
                        seen.add(j)
                        todo.append(j)
            return seen
        def src(c):
            return into[twin[c]] if isinstance(c, tuple) else into[c]

        def cn_ok(r, c):
            return bool(src(c) & r)
        r0, r1 = reach(picks), reach(picks | extra)
        all_cn = list(twin) + [i for i in picks if given[i].site_type == CN]
        cut = [c for c in all_cn if not cn_ok(r0, c)]
        for x in extra:
            ctx.count("additional")
            ctx.check_that(x in r1, "additional-dn-unconnected", x)
        # in some order each of them serves a CN cut off until then
        left = set(extra)
        while left:
            for x in left:
                r = reach(picks | (left - {x}))
                if any(x in src(c) and not cn_ok(r, c) for c in cut):
                    left.discard(x)
                    break
            else:
                ctx.violate("additional-dn-useless", left)
                break
        # chains of up to three added sites
        deep = {}
        for depth in (1, 2, 3):
            r = reach(picks | set(deep))
            for x in extra:
                if x not in deep and into[x] & r:
                    deep[x] = depth
        for c in cut:
            for x in src(c):
                if not isinstance(given[x], DetectedSite) or x in picks:
                    continue
                d = next((k for k in (1, 2, 3) if into[x] & reach(
                    picks | {e for e in deep if deep[e] < k})), 9)
                if d <= 3:
                    ctx.check_that(cn_ok(r1, c), "cn-left-unconnected",
                                   lambda: (c, src(c)))
                    ctx.count(f"served_at_depth_{d}")
    ctx.nontrivial(n_new, len(by_b), len(base_l), len(got_links), n_add,
                   detect, dn_dep, el)
    ctx.sample({"new": n_new, "base": len(base_s), "links": len(got_links),
                "detected_buildings": len(by_b), "additional": n_add})


def study_area(rng):
    """A zone-interior origin in UTM and its EPSG code."""
    epsg = rng.choice([32631, 32610, 32733])
    x = rng.uniform(4.2e5, 5.8e5)
    y = rng.uniform(1e6, 5e6)
    if epsg > 32700:
        y = 1e7 - y
    return round(x), round(y), epsg


def ll(x, y, epsg):
    g = GeoLocation(utm_x=x, utm_y=y, utm_epsg=epsg)
    return g.latitude, g.longitude


def surface_files(ctx, rng, x, y, epsg, size):
    """Writes a surface raster; returns its path."""
    nr = np.random.RandomState(rng.getrandbits(32))
    n = size + 40
    m = nr.uniform(0, 2, (n, n)).astype(np.float32) + 100
    for _ in range(rng.randint(0, 25)):
        j, i = rng.randrange(n - 8), rng.randrange(n - 8)
        m[j:j + rng.randint(1, 8), i:i + rng.randint(1, 8)] += \
            rng.uniform(3, 25)
    p = os.path.join(ctx.scratch, "dsm.tif")
    gis.write_geotiff(p, m, x - 20, y + 20, 1.0, epsg)
    return p


def area_kml(ctx, x, y, epsg, size):
    ring = [ll(*p, epsg)[::-1] for p in (
        (x, y), (x + size, y), (x + size, y - size), (x, y - size))]
    p = os.path.join(ctx.scratch, "area.kml")
    gis.write_kml(p, gis.kml_folder("area", gis.kml_polygon("area", ring)))
    return p


def judge_links(ctx, t, base_l, base_s, params, surface, tag):
    """Every pair of sites of the finished topology against the rules."""
    dist = get_max_los_dist_for_device_pairs(
        params.device_list, params.maximum_eirp,
        params.minimum_mcs_of_backhaul_links,
        params.minimum_mcs_of_access_links, params.maximum_los_distance)
    top = max(dist.values())
    lo, el = params.minimum_los_distance, params.maximum_elevation_scan_angle

    def validator(w, deg):
        a = (surface, top * (1 + w), lo * (1 - w), min(90, el + deg))
        z = ([], params.los_confidence_threshold)
        return EllipsoidalLOSValidator(*a, params.carrier_frequency, *z) \
            if params.use_ellipsoidal_los_model else \
            CylindricalLOSValidator(*a, params.fresnel_radius, *z)
    strict, loose = validator(.0005, .05), validator(.03, 3)
    links = {(skey(k.tx_site), skey(k.rx_site)): k for k in t.links.values()}
    ss = list(t.sites.values())
    los = {s.site_id: LOSSite(s.utm_x, s.utm_y, s.altitude,
                              s.location_type.value, s.building_id)
           for s in ss}
    pairs = {}
    for a in ss:
        for b in ss:
            ka, kb = skey(a), skey(b)
            if (ka, kb) in base_l:
                continue
            k = links.get((ka, kb))
            if k is not None:
                ctx.check_that(not (ka in base_s and kb in base_s),
                               f"{tag}-new-link-within-base", (ka, kb))
                ctx.check_that((a.site_type, b.site_type) in RADIO,
                               f"{tag}-link-types", (ka, kb))
            if ka == kb or (a.site_type, b.site_type) not in RADIO or \
                    (ka in base_s and kb in base_s):
                continue
            fs = frozenset((a.site_id, b.site_id))
            if fs not in pairs:
                pairs[fs] = (strict.compute_confidence(
                    los[a.site_id], los[b.site_id]),
                    loose.compute_confidence(los[a.site_id], los[b.site_id]))
            c0, c1 = pairs[fs]
            st = want_status(a, b)
            ok = admits(a, b, lo, dist[(a.device.device_sku,
                                        b.device.device_sku)], el)
            if ok is None:
                continue
            if ok and c0 > 1e-6 and st is not None:
                if ctx.check_that(k is not None, f"{tag}-link-missing",
                                  lambda: (ka, kb, c0)):
                    ctx.check_that(
                        k.status_type == st and k.is_wireless and
                        abs(k.confidence_level - c0) < 1e-6,
                        f"{tag}-link-attributes",
                        lambda: (k.status_type, st, k.confidence_level, c0))
                ctx.count("must_link")
            elif not ok or c1 == 0 or st is None:
                ctx.check_that(k is None, f"{tag}-link-unjustified",
                               lambda: (ka, kb, ok, c1))
                ctx.count("must_not_link")


@check.part(quick=300, thorough=8000, share=3,
            need={"must_link": 150, "must_not_link": 300,
                  "with_base": 10, "with_surface": 15})
def from_files(ctx, rng):
    """The whole LOS plan on input files."""
    x, y, epsg = study_area(rng)
    size = rng.randint(120, 260)
    dns = [dn_device(f"DN{i}", antenna_boresight_gain=rng.choice([20, 28]))
           for i in range(rng.choice([1, 2]))]
    cns = [cn_device("CN0")]
    devs = dns + cns
    surf = rng.random() < .6
    dsm = [surface_files(ctx, rng, x, y, epsg, size)] if surf else None
    ctx.count("with_surface", int(surf))

    def spot():
        px, py = x + rng.uniform(2, size - 2), y - rng.uniform(2, size - 2)
        return ll(px, py, epsg)
    n = rng.choice([rng.randint(2, 12)] * 7 + [30])
    use_base = rng.random() < .5
    absolute = use_base or rng.random() < .7
    rows = []
    for i in range(n):
        t = rng.choice([DN, DN, CN, POP])
        la, lo = spot()
        loc = rng.choice(["", "", "ROOFTOP", "STREET_LEVEL"])
        alt = rng.choice([None, round(rng.uniform(103, 125), 2)])
        if not surf:       # absolute altitudes throughout, or none
            alt = round(rng.uniform(103, 125), 2) if absolute else None
        if rows and rng.random() < .15:
            la, lo = rows[-1][0], rows[-1][1]
        rows.append([la, lo, "" if alt is None else alt, f"s{i}", t.name,
                     rng.choice(dns).device_sku if t != CN else "CN0", loc])
    sp = os.path.join(ctx.scratch, "sites.csv")
    with open(sp, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(["latitude", "longitude", "altitude", "name", "site type",
                    "device sku", "location type"])
        for r in rows:
            w.writerow([repr(v) if isinstance(v, float) else v for v in r])
    base_path, before = None, (dict(), dict())
    if use_base:
        ctx.count("with_base")
        b = Topology()
        bs = []
        for i in range(rng.choice([1, 2, 3, 4, 6, 9])):
            t = rng.choice([DN, CN, POP])
            la, lo = spot()
            s = make_site_ll(t, la, lo, rng.choice(cns if t == CN else dns),
                             status=rng.choice([EXISTING, EXISTING,
                                                CANDIDATE]),
                             alt=round(rng.uniform(103, 125), 2),
                             name=f"b{i}")
            bs.append(s)
            b.add_site(s)
        for s in bs:
            for r in bs:
                if s is not r and (s.site_type, r.site_type) in RADIO:
                    b.add_link(Link(s, r, status_type=CANDIDATE,
                                    is_wireless=True, confidence_level=.5))
        base_path = os.path.join(ctx.scratch, "base.kml")
        write_to_kml_file(b, base_path)
    kw = dict(boundary_polygon_file_path=area_kml(ctx, x, y, epsg, size),
              dsm_file_paths=dsm, site_file_path=sp,
              base_topology_file_path=base_path)
    params = LOSParams(
        device_list=devs, minimum_los_distance=rng.choice([5, 20]),
        maximum_los_distance=rng.choice([60, 120, 300]),
        maximum_elevation_scan_angle=rng.choice([10.0, 25.0, 60.0]),
        use_ellipsoidal_los_model=rng.random() < .4,
        los_confidence_threshold=rng.choice([1.0, .5, .8, .73, .847]),
        maximum_eirp=rng.choice([None, 43.0, 20.0]),
        num_processors=rng.choice([1, 2]))
    old = current_system_params.output_dir
    current_system_params.output_dir = ctx.scratch
    try:
        t = generate_candidate_topology(params, GISDataParams(**kw))
    finally:
        current_system_params.output_dir = old
    if base_path:
        poly, S, T, _ = load_gis_data(GISDataParams(**kw))
        _, _, _, bt = get_los_topology(GISDataParams(**kw), params, poly, [],
                                       S, T)
        before = snap(bt)
        ctx.check_that(len(bt.sites) == len(bs), "base-sites-read", "")
        got = snap(t)
        for k, v in before[0].items():
            ctx.check_that(got[0].get(k) == v, "file-base-site", k)
        for k, v in before[1].items():
            ctx.check_that(got[1].get(k) == v, "file-base-link", k)
    _, S, _, _ = load_gis_data(GISDataParams(**kw))
    # rows alike in place, type and device are one site
    distinct = {}
    for r in rows:
        distinct.setdefault((r[0], r[1], r[4], r[5]), set()).add(r[3])
    names = {s.name for s in t.sites.values()}
    left = set(names)
    for v in distinct.values():
        left -= v
        ctx.check_that(v & names, "file-sites-lost", lambda: (names, rows))
    ctx.check_that(left == {s.name for s in (bs if base_path else [])},
                   "file-sites", lambda: (names, rows))
    full = {(r[0], r[1], r[2], r[4], r[5], r[6]) for r in rows}
    ctx.check_that(len(distinct) <= len(t.sites) - (
        len(bs) if base_path else 0) <= len(full), "file-sites-number",
        lambda: (len(t.sites), rows))
    judge_links(ctx, t, before[1], before[0], params, S, "file")
    ctx.check_that(os.path.exists(os.path.join(
        ctx.scratch, "output", "candidate_topology.kml")), "output-file", "")
    for k in t.links.values():
        d, e = link_geometry(k.tx_site, k.rx_site)
        ctx.close(k.distance, d, "link-distance", rel=1e-6)
        ctx.check_that(circ_diff(k.tx_beam_azimuth, bearing(
            k.tx_site.latitude, k.tx_site.longitude, k.rx_site.latitude,
            k.rx_site.longitude)) < 1e-6, "link-azimuth", "")
        ctx.close(abs(k.el_dev), abs(e), "link-elevation", abs_tol=.05)
    ctx.nontrivial(n, len(t.links), surf, bool(base_path))


@check.part(quick=200, thorough=6000, share=3,
            need={"detected": 60, "must_link": 100})
def with_detection(ctx, rng):
    """The whole LOS plan with building outlines."""
    x, y, epsg = study_area(rng)
    size = rng.randint(120, 220)
    devs = [dn_device("DN0"), cn_device("CN0")]
    if rng.random() < .4:
        devs.append(rng.choice([dn_device("DN1"), cn_device("CN1")]))
    surf = rng.random() < .8
    dsm = [surface_files(ctx, rng, x, y, epsg, size)] if surf else None
    boxes, body = [], ""
    for i in range(rng.randint(1, 6)):
        bx, by = x + 10 + rng.uniform(0, size - 50), \
            y - 10 - rng.uniform(0, size - 50)
        w, h = rng.uniform(9, 25), rng.uniform(9, 25)
        if any(abs(bx - q[0]) < 40 and abs(by - q[1]) < 40 for q in boxes):
            continue
        boxes.append((bx, by, w, h))
        body += gis.kml_polygon(f"b{i}", [ll(*p, epsg)[::-1] for p in (
            (bx, by), (bx + w, by), (bx + w, by - h), (bx, by - h))])
    bp = os.path.join(ctx.scratch, "bld.kml")
    gis.write_kml(bp, gis.kml_folder("buildings", body))
    la, lo = ll(x + size / 2, y - size / 2, epsg)
    sp = os.path.join(ctx.scratch, "sites.csv")
    with open(sp, "w", newline="") as f:
        csv.writer(f).writerows([
            ["latitude", "longitude", "altitude", "name", "site type"],
            [repr(la), repr(lo), 120.0 if surf else "", "pop", "POP"]])
    dn_dep = rng.random() < .6
    det = SiteDetectionParams(
        dn_deployment=dn_dep, detect_highest=rng.random() < .6,
        detect_centers=True, detect_corners=rng.random() < .6)
    params = LOSParams(
        device_list=devs, minimum_los_distance=5, maximum_los_distance=200,
        maximum_elevation_scan_angle=60.0, site_detection=det,
        los_confidence_threshold=rng.choice([1.0, .5]), num_processors=1)
    kw = dict(boundary_polygon_file_path=area_kml(ctx, x, y, epsg, size),
              dsm_file_paths=dsm, site_file_path=sp,
              building_outline_file_path=bp)
    old = current_system_params.output_dir
    current_system_params.output_dir = ctx.scratch
    try:
        t = generate_candidate_topology(params, GISDataParams(**kw))
    finally:
        current_system_params.output_dir = old
    _, S, _, _ = load_gis_data(GISDataParams(**kw))
    judge_links(ctx, t, {}, {}, params, S, "detect")
    spots = defaultdict(lambda: defaultdict(set))
    for s in t.sites.values():
        if s.site_type != POP and not ctx.check_that(
                s.building_id is not None and s.building_id >= 0,
                "detected-building", (s.name, s.site_type, s.building_id,
                                      s.device.device_sku)):
            return
        if s.building_id is not None and s.building_id >= 0:
            spots[s.building_id][s.site_type].add(
                (s.device.device_sku, s.latitude, s.longitude, s.altitude))
            ctx.check_that(s.location_type == LocationType.ROOFTOP,
                           "detected-location", "")
            ctx.count("detected")
    ctx.check_that(len(spots) == len(boxes), "every-building",
                   (len(spots), len(boxes)))
    cn_skus = {d.device_sku for d in devs
               if d.device_sku.startswith("CN")}
    dn_skus = {d.device_sku for d in devs if d.device_sku.startswith("DN")}
    for b, v in spots.items():
        ctx.check_that({q[0] for q in v[CN]} == cn_skus and
                       len(v[CN]) == len(cn_skus) and
                       len({q[1:] for q in v[CN]}) == 1, "building-cns", v)
        if dn_dep:
            place = next(iter({q[1:] for q in v[CN]}))
            ctx.check_that({(k,) + place for k in dn_skus} <= v[DN],
                           "building-dns", v)
        # exactly one of the outlines holds it
        g = [GeoLocation(latitude=q[1], longitude=q[2])
             for w in v.values() for q in w]
        for p in g:
            ctx.check_that(any(bx - .01 <= p.utm_x <= bx + w + .01 and
                               by - h - .01 <= p.utm_y <= by + .01
                               for bx, by, w, h in boxes),
                           "detected-off-building", (p.utm_x, p.utm_y))
    ctx.nontrivial(len(boxes), len(t.sites), len(t.links), dn_dep)


@check.part(once=True)
def needs_devices(ctx, rng):
    """Detection without the devices it needs is refused."""
    x, y, epsg = 500000, 4000000, 32631
    bp = os.path.join(ctx.scratch, "bld.kml")
    gis.write_kml(bp, gis.kml_folder("b", gis.kml_polygon("b", [
        ll(*p, epsg)[::-1] for p in ((x + 10, y - 10), (x + 40, y - 10),
                                     (x + 40, y - 40))])))
    area = area_kml(ctx, x, y, epsg, 100)
    for devs, dep in (([dn_device()], True), ([dn_device()], False),
                      ([cn_device()], True)):
        ctx.expect_raises(PlannerException, lambda: generate_candidate_topology(
            LOSParams(device_list=devs, site_detection=SiteDetectionParams(
                dn_deployment=dep), num_processors=1),
            GISDataParams(boundary_polygon_file_path=area,
                          building_outline_file_path=bp)), "missing-device")


@check.part(once=True)
def across_zones(ctx, rng):
    """A study area across the border of two UTM zones."""
    p = os.path.join(ctx.scratch, "a.kml")
    gis.write_kml(p, gis.kml_folder("a", gis.kml_polygon("a", [
        (5.998, 40.0), (6.003, 40.0), (6.003, 40.005), (5.998, 40.005)])))
    sp = os.path.join(ctx.scratch, "sites.csv")
    with open(sp, "w", newline="") as f:
        csv.writer(f).writerows([
            ["latitude", "longitude", "altitude", "name", "site type",
             "device sku"],
            [40.002, 5.9995, 10.0, "w", "DN", "DN_DEV"],
            [40.002, 6.0005, 10.0, "e", "DN", "DN_DEV"]])
    old = current_system_params.output_dir
    current_system_params.output_dir = ctx.scratch
    try:
        t = generate_candidate_topology(
            LOSParams(device_list=[dn_device()], num_processors=1),
            GISDataParams(boundary_polygon_file_path=p, site_file_path=sp))
    finally:
        current_system_params.output_dir = old
    ctx.check_that(len(t.links) == 2, "utm-zone-border", len(t.links))


if __name__ == "__main__":
    check.run()
