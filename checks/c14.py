"""C14 sector creation: legal layouts that cover all that can be covered."""
import numpy as np

from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.exceptions import (
    OptimizerException, PlannerException, TopologyException,
)
from terragraph_planner.optimization.topology_preparation import (
    setup_node_structure, validate_site_sectors,
)

check = Check(
    "C14",
    rule="sites with random neighbours (bearings round the circle, clusters, "
         "across north), device layouts, statuses, wired links and sectors "
         "given beforehand go through setup_node_structure; layouts are "
         "compared with the best placement found by a separate search of the "
         "3 degree grid; non-trivial = distinct (layout, bearings) tuples",
    assumptions=["links of at most 600 m away from the poles",
                 "decisions within 0.03 degree of a limit may go either way",
                 "scan ranges above zero"],
    workers=6,
)

GRID = 3.0
LIMIT = 0.01          # tolerance of a link at the edge of a sector
SOFT = 0.03


def layouts(rng):
    """A legal (nodes, sectors per node, scan range) of a device."""
    while True:
        s = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6])
        n = rng.choice([1, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 12])
        top = 360.0 / (s * n)
        w = rng.choice([top, 70.0, 65.0, 45.0, 40.0, 120.0, 90.0, 180.0,
                        rng.uniform(4, top), round(rng.uniform(4, top), 1),
                        16.2, 30.6, 360.0])
        if s * n * w <= 360 and w >= 4:
            return n, s, w


def azimuths_of(center, s, w):
    return [(center + (k - (s - 1) / 2) * w) % 360 for k in range(s)]


def point_at(lat, lon, bearing_deg, dist):
    """Destination on the sphere, by rotating vectors."""
    p, q, b = (math.radians(lat), math.radians(lon),
               math.radians(bearing_deg))
    up = np.array([math.cos(p) * math.cos(q), math.cos(p) * math.sin(q),
                   math.sin(p)])
    east = np.array([-math.sin(q), math.cos(q), 0.0])
    north = np.cross(up, east)
    d = dist / 6371000.0
    v = up * math.cos(d) + (north * math.cos(b) + east * math.sin(b)) * \
        math.sin(d)
    return (math.degrees(math.asin(v[2])),
            math.degrees(math.atan2(v[1], v[0])))


def bearings(rng, k):
    mode = rng.randrange(5)
    if mode == 0:
        return [rng.uniform(0, 360) for _ in range(k)]
    if mode == 1:          # clusters
        c = [rng.uniform(0, 360) for _ in range(rng.randint(1, 3))]
        return [(rng.choice(c) + rng.uniform(-20, 20)) % 360
                for _ in range(k)]
    if mode == 2:          # across north
        return [rng.uniform(-40, 40) % 360 for _ in range(k)]
    if mode == 3:
        a, step = rng.uniform(0, 360), 360.0 / k
        return [(a + i * step + rng.uniform(-3, 3)) % 360 for i in range(k)]
    return [(rng.choice([0, 90, 180, 270]) + rng.uniform(-.4, .4)) % 360
            for _ in range(k)]


def cdiff(a, b):
    d = np.abs(np.asarray(a) - np.asarray(b)) % 360
    return np.minimum(d, 360 - d)


def score(az, node, links, dists, w):
    """(links not covered, weighted squared deviation) of a placement."""
    best, dev = 0, 0.0
    for a, d in zip(links, dists):
        ds = [cdiff(a, x) for x in az]
        if ds and min(ds) < w / 2 + 1e-6:
            best += 1
            dev += min(ds) ** 2 * d / max(dists)
    return len(links) - best, dev


def best_grid(n, s, w, links, dists):
    """Best placement of as many nodes as fit (at most n) on the grid.

    Dynamic programme over grid steps with a fixed first node; returns
    (number of nodes, uncovered, deviation)."""
    size = int(round(360 / GRID))
    aim = np.array([azimuths_of(c * GRID, s, w) for c in range(size)])
    d = cdiff(aim[:, :, None], np.asarray(links)[None, None, :]).min(axis=1)
    covered = d < w / 2 - 1e-6
    # a covered link is worth more than any deviation
    cost = np.where(covered, d ** 2 * np.asarray(dists) / max(dists) - 1e7,
                    0.0).sum(axis=1)
    gap = s * w
    step = int(math.ceil(gap / GRID - 1e-9))
    for m in range(n, 0, -1):
        if m > 1 and m * step > size:
            continue
        best = math.inf
        for first in range(size):
            # positions relative to first, as a rotated circle
            c = np.roll(cost, -first)
            row = np.full(size, math.inf)
            row[0] = c[0]
            for _ in range(m - 1):
                run = np.minimum.accumulate(row)
                nxt = np.full(size, math.inf)
                if step < size:
                    nxt[step:] = run[:size - step] + c[step:]
                row = nxt
            ok = row[:size - step + 1] if m > 1 else row[:1]
            if len(ok):
                best = min(best, ok.min())
        if best < math.inf:
            cov = -int(math.floor(best / 1e7)) if best < 0 else 0
            return m, len(links) - cov, best + cov * 1e7
    return 0, len(links), 0.0


def legal_nodes(nodes, n, s, w, tol=.009):
    """Reason why the azimuths {node: {position: azimuth}} are not a legal
    layout, or None."""
    if len(nodes) > n:
        return "too many nodes"
    spans = []
    for node, pos in nodes.items():
        if len(pos) != s:
            return f"node {node} has {len(pos)} sectors, not {s}"
        az = list(pos.values())
        # some start from which the others follow at steps of the scan range
        for start in az:
            want = [(start + k * w) % 360 for k in range(s)]
            left = list(az)
            for x in want:
                hit = [y for y in left if cdiff(x, y) < tol]
                if not hit:
                    break
                left.remove(hit[0])
            else:
                spans.append((start - w / 2) % 360)
                break
        else:
            return f"sectors of node {node} are not a scan range apart"
    spans.sort()
    for i, a in enumerate(spans):
        if len(spans) > 1:
            b = spans[(i + 1) % len(spans)]
            room = (b - a) % 360 or 360.0
            if room < s * w - tol:
                return "nodes overlap"
    return None


def sectors_by_node(t, sid):
    out = {}
    for sec in t.sectors.values():
        if sec.site.site_id == sid:
            out.setdefault(sec.node_id, {})[sec.position_in_node] = \
                sec.ant_azimuth
    return out


def star(rng, ctx, center_type, links, dists, dev, order=None, extra=None,
         types=None, lat=None, lon=None):
    """A site with neighbours at the given bearings."""
    lat = rng.uniform(-60, 60) if lat is None else lat
    lon = rng.uniform(-179, 179) if lon is None else lon
    other = dn_device("OTHER", nodes=1, sectors=1, scan=360.0)
    cdev = cn_device("OTHERCN", scan=360.0)
    c = make_site_ll(center_type, lat, lon, dev, sid="c")
    sites = [c]
    ls = []
    for i, (a, d) in enumerate(zip(links, dists)):
        ty = (types or ["DN"] * len(links))[i]
        la, lo = point_at(lat, lon, a, d)
        st = {"DN": DN, "POP": POP, "CN": CN}[ty]
        n = make_site_ll(st, la, lo, cdev if ty == "CN" else other,
                         sid=f"n{i:02d}")
        sites.append(n)
        if center_type == CN:
            ls.append((n, c))
        else:
            ls.append((c, n))
            if ty != "CN":
                ls.append((n, c))
    idx = list(range(len(ls)))
    if order:
        order.shuffle(idx)
        order.shuffle(sites)
    t = Topology(sites=sites)
    for i in idx:
        t.add_link(Link(*ls[i]))
    if extra:
        extra(t, c)
    return t


@check.part(quick=260, thorough=9000, share=.4,
            need={"covered all": 5, "left some": 2, "optimal": 25})
def dn_layout(ctx, rng):
    """DN and POP sites: legal layout, best cover, least deviation."""
    n, s, w = layouts(rng)
    k = rng.choice([1, 2, 3, 4, 5, 6, 8, 12])
    dev = dn_device(nodes=n, sectors=s, scan=w)
    links = bearings(rng, k)
    dists = [rng.uniform(40, 500) for _ in links]
    types = [rng.choice(["DN", "DN", "POP", "CN"]) for _ in links]
    kind = rng.choice([DN, POP])
    t = star(rng, ctx, kind, links, dists, dev, types=types)
    setup_node_structure(t)
    inst = f"nodes={n} sectors={s} scan={w} bearings={links} dists={dists}"
    nodes = sectors_by_node(t, "c")
    why = legal_nodes(nodes, n, s, w)
    ctx.check_that(why is None, "illegal-layout", f"{why}: {nodes} {inst}")
    for node, pos in nodes.items():
        ctx.check_that(sorted(pos) == list(range(s)), "positions",
                       f"{pos} {inst}")
        ctx.check_that(
            any(cdiff(a, x) < w / 2 + 1e-6 for x in pos.values()
                for a in links), "needless-node",
            f"node {node} {pos} covers no link; {inst}")
    ctx.check_that(len(nodes) > 0, "no-sector", inst)
    for sec in t.sectors.values():
        if sec.site.site_id == "c":
            ctx.check_that(sec.status_type == CANDIDATE
                           and 0 <= sec.ant_azimuth < 360
                           and sec.node_id == sorted(nodes)[
                               sorted(nodes).index(sec.node_id)],
                           "sector-fields", f"{sec.sector_id} {inst}")
    az = [x for pos in nodes.values() for x in pos.values()]
    got = score(az, None, links, dists, w)
    m, unc, dv = best_grid(n, s, w, links, dists)
    ctx.check_that(got[0] <= unc, "covers-fewer-links",
                   f"leaves {got[0]} links, {unc} is possible with {m} nodes "
                   f"{nodes} {inst}")
    if got[0] == unc:
        ctx.check_that(got[1] <= dv + 1e-5 * max(1, dv), "aim",
                       f"deviation {got[1]}, {dv} is possible with {m} nodes "
                       f"{nodes} {inst}")
        ctx.count("optimal")
    ctx.count("covered all" if got[0] == 0 else "left some")
    # links inside a sector get it, links outside stay without
    for lk in t.links.values():
        if "c" not in (lk.tx_site.site_id,):
            continue
        a = links[int(lk.rx_site.site_id[1:])]
        d = float(min(cdiff(a, x) for x in az))
        if d < w / 2 + LIMIT - SOFT:
            ctx.check_that(lk.tx_sector is not None, "link-without-sector",
                           f"{lk.link_id} {d} {inst}")
        elif d > w / 2 + LIMIT + SOFT:
            ctx.check_that(lk.tx_sector is None, "link-outside-its-sector",
                           f"{lk.link_id} {d} {inst}")
        ctx.check_that((lk.tx_sector is None) == (lk.rx_sector is None),
                       "one-ended", f"{lk.link_id} {inst}")
    ctx.nontrivial(n, s, round(w, 3), [round(x, 1) for x in links])
    # same result in any order of sites and links, and when turned by a
    # multiple of the grid step
    if rng.random() < .5:
        lat, lon = rng.uniform(-50, 50), rng.uniform(-170, 170)
        turn = rng.randrange(1, 120) * GRID
        res = []
        for delta, order in ((0, None), (0, rng), (turn, rng)):
            t2 = star(rng, ctx, kind, [(a + delta) % 360 for a in links],
                      dists, dev, types=types, lat=lat, lon=lon, order=order)
            setup_node_structure(t2)
            az2 = [x for pos in sectors_by_node(t2, "c").values()
                   for x in pos.values()]
            res.append(score([(x - delta) % 360 for x in az2], None, links,
                             dists, w))
        for r in res[1:]:
            ctx.check_that(
                r[0] == res[0][0] and
                abs(r[1] - res[0][1]) <= 1e-5 * max(1, r[1]),
                "turn-or-order", f"{res} turn={turn} {inst}")
        ctx.count("turned")


@check.part(quick=400, thorough=14000, share=.15,
            need={"cn": 100, "cn covered all": 20})
def cn_layout(ctx, rng):
    """CN sites: one node turned to the sites that transmit to it."""
    s = rng.choice([1, 1, 1, 2, 3])
    w = rng.choice([70.0, 360.0 / s, 45.0, rng.uniform(5, 360 / s), 120.0])
    if s * w > 360:
        w = 360.0 / s
    dev = cn_device(scan=w)
    dev.sector_params.number_sectors_per_node = s
    links = bearings(rng, rng.choice([1, 2, 2, 3, 4, 6]))
    dists = [rng.uniform(40, 500) for _ in links]
    t = star(rng, ctx, CN, links, dists, dev)
    setup_node_structure(t)
    inst = f"sectors={s} scan={w} bearings={links}"
    nodes = sectors_by_node(t, "c")
    why = legal_nodes(nodes, 1, s, w)
    ctx.check_that(why is None and len(nodes) == 1, "illegal-layout",
                   f"{why} {nodes} {inst}")
    az = sorted(nodes[0][p] for p in nodes[0])
    # centre of the node: the middle between its first and last sector
    first = nodes[0][0]
    mid = (first + (s - 1) / 2 * w) % 360

    def met(c, slack):
        tot = 0.0
        for a in links:
            d = float(cdiff(a, c))
            tot += d * d if d <= s * w / 2 + slack else 360.0 ** 2
        return tot

    best = min(met(c * GRID, -1e-6) for c in range(int(360 / GRID)))
    ctx.check_that(met(mid, 1e-6) <= best + 1e-5 * max(1, best), "cn-aim",
                   f"{met(mid, 1e-6)} > {best} {az} {inst}")
    ctx.count("cn")
    if best < 360.0 ** 2:
        ctx.count("cn covered all")
    # every link that reaches the CN gets a sector, wherever it comes from
    for lk in t.links.values():
        ctx.check_that(lk.tx_sector is not None and lk.rx_sector is not None
                       and lk.rx_sector.site.site_id == "c",
                       "cn-link-without-sector", f"{lk.link_id} {inst}")
        if lk.rx_sector is not None:
            near = min(cdiff(lk.rx_beam_azimuth, x.ant_azimuth)
                       for x in t.sectors.values()
                       if x.site.site_id == "c")
            ctx.check_that(cdiff(lk.rx_beam_azimuth, lk.rx_sector.ant_azimuth)
                           <= near + SOFT, "not-nearest-sector",
                           f"{lk.link_id} {inst}")
    ctx.nontrivial("cn", s, round(w, 2), [round(a, 1) for a in links])


def network(rng, ctx):
    """Random sites and links with all kinds of status."""
    devs = []
    for i in range(2):
        n, s, w = layouts(rng)
        devs.append(dn_device(f"D{i}", nodes=n, sectors=s, scan=w))
    cdev = cn_device("C0", scan=rng.choice([70.0, 20.0, 360.0]))
    if rng.random() < .5:       # a CN radio of several sectors
        cdev.sector_params.horizontal_scan_range = rng.choice([40.0, 70.0])
        cdev.sector_params.number_sectors_per_node = rng.randint(2, 4)
    x0, y0 = rng.uniform(300000, 700000), rng.uniform(1e5, 5e6)
    sites = []
    for i in range(rng.randint(2, 9)):
        ty = rng.choice([DN, DN, DN, POP, CN, CN])
        st = rng.choice([CANDIDATE] * 5 + ALL_STATUS)
        sites.append(make_site(
            ty, x0 + rng.uniform(-250, 250), y0 + rng.uniform(-250, 250),
            cdev if ty == CN else rng.choice(devs), status=st,
            alt=rng.uniform(0, 30), sid=f"s{i}"))
    t = Topology(sites=sites)
    for i, a in enumerate(sites):
        for b in sites[i + 1:]:
            if rng.random() < .5:
                continue
            if math.hypot(a.utm_x - b.utm_x, a.utm_y - b.utm_y) < 20:
                continue
            if a.site_type == CN and b.site_type == CN:
                continue
            wired = rng.random() < .15 and CN not in (a.site_type,
                                                      b.site_type)
            sts = [st for st in (CANDIDATE, UNAVAILABLE, UNREACHABLE)
                   if link_status_ok(a.status_type, b.status_type, st)]
            if not sts:
                continue
            st = sts[0] if rng.random() < .8 else rng.choice(sts)
            for p, q in ((a, b), (b, a)):
                if p.site_type == CN:
                    continue
                t.add_link(Link(p, q, status_type=st,
                                is_wireless=not wired))
    return t


def shot(t):
    return (
        {k: (s.site_type, s.status_type, s.latitude, s.longitude, s.device)
         for k, s in t.sites.items()},
        {k: (l.tx_site.site_id, l.rx_site.site_id, l.status_type,
             l.link_type, l.distance) for k, l in t.links.items()},
    )


def sector_shot(t):
    return (
        sorted((k, s.site.site_id, s.node_id, s.position_in_node,
                s.ant_azimuth, s.status_type.name, s.channel)
               for k, s in t.sectors.items()),
        sorted((k, l.tx_sector and l.tx_sector.sector_id,
                l.rx_sector and l.rx_sector.sector_id)
               for k, l in t.links.items()))


@check.part(quick=90, thorough=3200, share=.3,
            need={"links": 60, "wired": 3, "networks": 10,
                  "inactive site": 3})
def whole_network(ctx, rng):
    """Every link gets the nearest sector at both ends, or none at all."""
    t = network(rng, ctx)
    before = shot(t)
    inst = f"{before}"[:2500]
    # some sites bring their sectors along
    preset = {}
    for sid, site in t.sites.items():
        if rng.random() < .2:
            sp = site.device.sector_params
            s, w = sp.number_sectors_per_node, sp.horizontal_scan_range
            c = rng.uniform(0, 360)
            for j, a in enumerate(azimuths_of(c, s, w)):
                st = site.status_type if site.status_type not in ACTIVE \
                    else rng.choice([CANDIDATE, PROPOSED, EXISTING])
                sec = Sector(site, 0, j, a, st, channel=rng.choice([0, 1]))
                t.add_sector(sec)
                preset[sec.sector_id] = (a, st, sec.channel, sid)
    setup_node_structure(t)
    ctx.check_that(shot(t) == before, "changed-topology", inst)
    wireless = {}
    for lk in t.links.values():
        if lk.is_wireless:
            for s in (lk.tx_site.site_id, lk.rx_site.site_id):
                wireless.setdefault(s, set()).add(lk.link_id)
    for sid, site in t.sites.items():
        mine = {k: s for k, s in t.sectors.items() if s.site.site_id == sid}
        brought = {k for k, v in preset.items() if v[3] == sid}
        if brought:
            ctx.check_that(set(mine) == brought and all(
                (mine[k].ant_azimuth, mine[k].status_type, mine[k].channel,
                 sid) == preset[k] for k in brought), "changed-given-sectors",
                f"{sid} {sorted(mine)} {inst}")
            ctx.count("given sectors kept")
            continue
        if sid not in wireless:
            ctx.check_that(not mine, "sector-without-need", f"{sid} {inst}")
            continue
        if site.status_type not in ACTIVE | {CANDIDATE}:
            ctx.count("inactive site")
            continue
        sp = site.device.sector_params
        nodes = sectors_by_node(t, sid)
        why = legal_nodes(nodes, site.device.number_of_nodes_per_site,
                          sp.number_sectors_per_node,
                          sp.horizontal_scan_range)
        ctx.check_that(why is None and nodes, "illegal-layout",
                       f"{sid} {why} {nodes} {inst}")
        ctx.check_that(all(s.status_type == CANDIDATE
                           for s in mine.values()), "new-sector-status",
                       f"{sid} {inst}")
    for lk in t.links.values():
        if not lk.is_wireless:
            ctx.count("wired")
            ctx.check_that(lk.tx_sector is None and lk.rx_sector is None,
                           "sector-on-wire", f"{lk.link_id} {inst}")
            continue
        a, b = lk.tx_site, lk.rx_site
        fwd = bearing(a.latitude, a.longitude, b.latitude, b.longitude)
        ends = []
        for site, az in ((a, fwd), (b, (fwd + 180) % 360)):
            w = site.device.sector_params.horizontal_scan_range
            if site.site_type == CN:
                w = 360.0
            ds = sorted((float(cdiff(az, s.ant_azimuth)), k)
                        for k, s in t.sectors.items()
                        if s.site.site_id == site.site_id)
            ends.append((ds, w / 2 + LIMIT))
        sure = all(ds and ds[0][0] < lim - SOFT for ds, lim in ends)
        never = any(not ds or ds[0][0] > lim + SOFT for ds, lim in ends)
        got = (lk.tx_sector, lk.rx_sector)
        ctx.check_that((got[0] is None) == (got[1] is None), "one-ended",
                       f"{lk.link_id} {inst}")
        if sure:
            ctx.check_that(got[0] is not None, "link-without-sector",
                           f"{lk.link_id} {ends} {inst}")
        if never:
            ctx.check_that(got[0] is None, "link-outside-its-sector",
                           f"{lk.link_id} {ends} {inst}")
        if got[0] is not None:
            for sec, site, (ds, _) in zip(got, (a, b), ends):
                ctx.check_that(sec.site.site_id == site.site_id
                               and t.sectors.get(sec.sector_id) is sec,
                               "sector-of-another-site",
                               f"{lk.link_id} {sec.sector_id} {inst}")
                mine = [d for d, k in ds if k == sec.sector_id]
                ctx.check_that(mine and mine[0] <= ds[0][0] + SOFT,
                               "not-nearest-sector",
                               f"{lk.link_id} {sec.sector_id} {ds} {inst}")
            ctx.count("links")
        rev = t.get_link_by_site_ids(b.site_id, a.site_id)
        if rev is not None:
            ctx.check_that(rev.tx_sector is got[1] and
                           rev.rx_sector is got[0], "reverse-differs",
                           f"{lk.link_id} {inst}")
    ctx.count("networks")
    # preparing again finds everything in place
    once = sector_shot(t)
    setup_node_structure(t)
    ctx.check_that(sector_shot(t) == once, "second-time-differs", inst)
    ctx.nontrivial(len(t.sites), len(t.links), len(t.sectors),
                   sorted(before[1])[:5], round(
                       next(iter(t.sites.values())).utm_x, 1))


@check.part(quick=900, thorough=30000, share=.1,
            need={"accepted": 100, "refused": 100, "interleaved nodes": 15})
def given_layouts(ctx, rng):
    """Sectors given beforehand are accepted exactly when legal."""
    n, s, w = layouts(rng)
    interleave = rng.random() < .1
    while interleave and (n < 2 or s < 3):
        n, s, w = layouts(rng)
    site = make_site(DN, 500000, 100000, dn_device(nodes=n, sectors=s,
                                                   scan=w), sid="a")
    used = rng.randint(2 if interleave else 1, n)
    slack = 360 - used * s * w
    start = rng.uniform(0, 360)
    nodes, at = {}, start
    cuts = sorted(rng.uniform(0, slack) for _ in range(used)) \
        if rng.random() < .7 else [0.0] * used
    ids = rng.sample(range(n + 2), used)
    for i in range(used):
        c = start + cuts[i] + (i + .5) * s * w
        pos = rng.sample(range(s), s) if rng.random() < .3 else range(s)
        nodes[ids[i]] = dict(zip(pos, azimuths_of(c, s, w)))
    kind = rng.choice(["none", "none", "move", "drop", "extra-node", "shift",
                       "turn node"]) if not interleave else "interleave"
    if interleave:
        # the first and last sectors of the two nodes keep a scan range apart
        k1, k2 = rng.sample(ids, 2)
        k = rng.randint(1, s - 2)
        base = start + cuts[ids.index(k1)] + (ids.index(k1) + .5) * s * w
        nodes[k2] = dict(zip(nodes[k2], azimuths_of(base + k * w, s, w)))
        ctx.count("interleaved nodes")
    if kind == "move" and s > 1:
        k = rng.choice(ids)
        p = rng.choice(list(nodes[k]))
        nodes[k][p] = (nodes[k][p] + rng.choice([-1, 1])
                       * rng.uniform(.05, 60)) % 360
    elif kind == "drop" and s > 1:
        k = rng.choice(ids)
        del nodes[k][rng.choice(list(nodes[k]))]
    elif kind == "extra-node":
        c = rng.uniform(0, 360)
        nodes[max(ids) + 1] = dict(enumerate(azimuths_of(c, s, w)))
    elif kind == "shift":
        k = rng.choice(ids)
        d = rng.uniform(-1, 1) * rng.choice([.1, 5, 60])
        nodes[k] = {p: (a + d) % 360 for p, a in nodes[k].items()}
    elif kind == "turn node":
        k, d = rng.choice(ids), rng.uniform(0, 360)
        nodes[k] = {p: (a + d) % 360 for p, a in nodes[k].items()}
    t = Topology(sites=[site])
    items = [(k, p, a) for k, pos in nodes.items() for p, a in pos.items()]
    rng.shuffle(items)
    for k, p, a in items:
        t.add_sector(Sector(site, k, p, a, CANDIDATE))
    why = legal_nodes(nodes, n, s, w)
    # too close to call: changes of less than a few hundredths of a degree
    strict = legal_nodes(nodes, n, s, w + .02) if s == 1 and \
        n * s * (w + .02) <= 360 else why
    strict_lo = legal_nodes(nodes, n, s, w - .02) if s == 1 else why
    inst = f"nodes={n} sectors={s} scan={w} given={nodes} ({kind})"
    if why is None:
        ctx.count("accepted")
        setup_node_structure(t)
        ctx.check_that(
            sorted((x.node_id, x.position_in_node, x.ant_azimuth)
                   for x in t.sectors.values()) == sorted(items),
            "changed-given-sectors", inst)
    elif any((legal_nodes(nodes, n, s, w, tol) is None) != (why is None)
             for tol in (1e-6, .03)) or \
            (strict is None) != (why is None) or \
            (strict_lo is None) != (why is None):
        ctx.count("too close to call")
    else:
        ctx.count("refused")
        ctx.expect_raises((OptimizerException, TopologyException),
                          lambda: setup_node_structure(t),
                          "illegal-accepted:" + why.split()[0])
    ctx.nontrivial("given", n, s, round(w, 2), kind)


@check.part(quick=300, thorough=9000, share=.05,
            need={"active refused": 20, "candidate cleared": 8,
                  "given link kept": 20, "given link refused": 10})
def given_links(ctx, rng):
    """Links already in use must have a sector; given ones are verified."""
    w = rng.choice([30.0, 70.0, 100.0])
    dev = dn_device(nodes=1, sectors=1, scan=w)
    lat, lon = rng.uniform(-60, 60), rng.uniform(-170, 170)
    a = make_site_ll(DN, lat, lon, dev, EXISTING, sid="a")
    to = rng.uniform(0, 360)
    la, lo = point_at(lat, lon, to, rng.uniform(50, 400))
    cn = rng.random() < .4
    b = make_site_ll(CN if cn else POP, la, lo,
                     cn_device(scan=w) if cn else dev, EXISTING, sid="b")
    t = Topology(sites=[a, b])
    off_a = rng.uniform(-180, 180)
    off_b = rng.uniform(-180, 180)
    if rng.random() < .4:
        off_a = rng.uniform(-w / 2, w / 2) * .99
    if rng.random() < .5:
        off_b = rng.uniform(-w / 2, w / 2) * .99
    sa = Sector(a, 0, 0, (to + off_a) % 360, EXISTING)
    sb = Sector(b, 0, 0, (to + 180 + off_b) % 360, EXISTING)
    t.add_sector(sa)
    t.add_sector(sb)
    st = rng.choice([CANDIDATE, PROPOSED, EXISTING])
    given = rng.random() < .4
    lks = [Link(a, b, status_type=st)] + (
        [] if cn or rng.random() < .3 else [Link(b, a, status_type=st)])
    for lk in lks:
        if given:
            lk.tx_sector, lk.rx_sector = (
                (sa, sb) if lk.tx_site is a else (sb, sa))
        t.add_link(lk)
    lim = w / 2 + LIMIT
    inside = abs(off_a) < lim - SOFT and (cn or abs(off_b) < lim - SOFT)
    outside = abs(off_a) > lim + SOFT or (not cn and abs(off_b) > lim + SOFT)
    inst = f"scan={w} off={off_a},{off_b} {st} given={given} cn={cn}"
    if outside and (given or st in ACTIVE):
        ctx.expect_raises(PlannerException, lambda: setup_node_structure(t),
                          "link-outside-accepted")
        ctx.count("given link refused" if given else "active refused")
    elif inside or outside:
        setup_node_structure(t)
        for lk in lks:
            if inside:
                want = (sa, sb) if lk.tx_site is a else (sb, sa)
                ctx.check_that(lk.tx_sector is want[0] and
                               lk.rx_sector is want[1], "link-sectors", inst)
                ctx.count("given link kept" if given else "link attached")
            else:
                ctx.check_that(lk.tx_sector is None and lk.rx_sector is None,
                               "link-outside-its-sector", inst)
                ctx.count("candidate cleared")
            ctx.check_that(lk.status_type == st, "link-status", inst)
    ctx.nontrivial("gl", w, round(off_a), round(off_b), st.name, given, cn)


if __name__ == "__main__":
    check.run()
