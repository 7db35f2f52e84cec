"""C28 re-aiming the sectors of a finished plan."""
import itertools

import numpy as np

from vmon import Check, Skip
from tg import *  # noqa
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.topology_operations import (
    readjust_sectors_post_opt,
)
from terragraph_planner.optimization.topology_preparation import (
    setup_node_structure,
)

check = Check(
    "C28",
    rule="random candidate networks get sectors, a legal plan is chosen on "
         "them (statuses, polarity, channels, deployment rules), then the "
         "sectors are re-aimed; non-trivial = distinct (plan, layout) tuples",
    assumptions=["sectors as the planner created them, none of them existing",
                 "each CN in use has one link in use",
                 "the plan obeys the deployment rules beforehand",
                 "decisions within 0.03 degree of a limit may go either way"],
    workers=6,
)

GRID, LIMIT, SOFT = 3.0, 0.01, 0.03
WEIGHT = 8          # deviation of backhaul links counts eight times
LAYOUTS = [(4, 1, 70.0), (4, 1, 90.0), (2, 2, 90.0), (1, 4, 90.0),
           (3, 1, 120.0), (2, 1, 120.0), (2, 1, 180.0), (3, 2, 60.0),
           (1, 3, 100.0), (4, 1, 45.0), (1, 1, 360.0), (5, 1, 72.0)]


def candidate_network(rng):
    devs = [dn_device(f"D{i}", nodes=n, sectors=s, scan=w)
            for i, (n, s, w) in enumerate(rng.sample(LAYOUTS, 2))]
    cdev = cn_device("C0", scan=rng.choice([70.0, 20.0, 120.0, 360.0]))
    x0, y0 = rng.uniform(3e5, 7e5), rng.uniform(1e5, 6e6)
    sites = []
    for i in range(rng.randint(3, 9)):
        ty = POP if i == 0 else rng.choice([DN, DN, DN, POP, CN, CN, CN])
        while True:
            x, y = x0 + rng.uniform(-250, 250), y0 + rng.uniform(-250, 250)
            if all(math.hypot(x - s.utm_x, y - s.utm_y) > 20 for s in sites):
                break
        st = rng.choice([CANDIDATE] * 12 + [EXISTING] * 3 + [
            UNAVAILABLE, UNREACHABLE])
        sites.append(make_site(ty, x, y, cdev if ty == CN
                               else rng.choice(devs), status=st,
                               alt=rng.uniform(0, 30), sid=f"s{i}"))
    t = Topology(sites=sites)
    pairs = list(itertools.combinations(sites, 2))
    rng.shuffle(pairs)
    dense = rng.choice([.4, .7, .9])
    for a, b in pairs:
        if rng.random() > dense or a.site_type == b.site_type == CN:
            continue
        wired = rng.random() < .07 and CN not in (a.site_type, b.site_type)
        st = next(x for x in (CANDIDATE, UNAVAILABLE, UNREACHABLE, None)
                  if x is None or link_status_ok(a.status_type, b.status_type,
                                                 x))
        if st is None:
            continue
        if {a.status_type, b.status_type} == {EXISTING} and \
                rng.random() < .15:
            st = EXISTING
        for p, q in rng.sample([(a, b), (b, a)],
                               1 if rng.random() < .05 else 2):
            if p.site_type != CN:
                t.add_link(Link(p, q, status_type=st, is_wireless=not wired))
    return t


def star_network(rng):
    """One hub with a few close links of clearly different lengths."""
    n, k, w = rng.choice([(2, 1, 45.0), (2, 1, 60.0), (3, 1, 50.0),
                          (2, 1, 90.0), (1, 2, 45.0), (2, 2, 40.0),
                          (1, 3, 30.0), (2, 1, 120.0)])
    dev, rest = dn_device("D0", nodes=n, sectors=k, scan=w), dn_device(
        "D1", nodes=1, sectors=1, scan=360.0)
    cdev = cn_device("C0", scan=rng.choice([70.0, 360.0]))
    x0, y0 = rng.uniform(3e5, 7e5), rng.uniform(1e5, 6e6)
    sites = [make_site(rng.choice([DN, POP]), x0, y0, dev, sid="s0")]
    g = rng.uniform(0, 360)
    for i in range(1, rng.randint(3, 6)):
        d = rng.choice([40, 80, 120, 200]) * rng.uniform(.9, 1.1)
        ty = rng.choice([CN, CN, DN])
        sites.append(make_site(
            ty, x0 + d * math.sin(math.radians(g)),
            y0 + d * math.cos(math.radians(g)), cdev if ty == CN else rest,
            sid=f"s{i}"))
        g += rng.choice([8, 15, 25, 35, 50, 90]) * rng.uniform(.9, 1.1)
    t = Topology(sites=sites)
    for s in rng.sample(sites[1:], len(sites) - 1):
        t.add_link(Link(sites[0], s))
        if s.site_type != CN:
            t.add_link(Link(s, sites[0]))
    return t


def angle(a, b, c):
    return circ_diff(bearing(a.latitude, a.longitude, b.latitude, b.longitude),
                     bearing(a.latitude, a.longitude, c.latitude, c.longitude))


def ratio(a, b, c):
    x = [sphere_distance(a.latitude, a.longitude, s.latitude, s.longitude)
         for s in (b, c)]
    return max(x) / min(x)


class Rules:
    def __init__(self, rng):
        self.dn, self.total = rng.choice([(2, 15), (1, 2), (2, 3), (1, 15),
                                          (15, 15), (2, 2)])
        self.diff = rng.choice([25.0, 25.0, 0.0, 40.0, 10.0])
        self.near, self.ratio = rng.choice([(45.0, 3.0), (60.0, 1.5),
                                            (0.0, 3.0), (45.0, 100.0)])

    def clash(self, site, one, two, slack):
        """Whether two links of different sectors come too close; slack
        widens (positive) or narrows the rule."""
        g = angle(site, one, two)
        return g <= self.diff + slack or (
            g <= self.near + slack
            and ratio(site, one, two) >= self.ratio * (1 - slack / 100))

    def params(self, devices):
        return OptimizerParams(
            device_list=devices, dn_dn_sector_limit=self.dn,
            dn_total_sector_limit=self.total,
            diff_sector_angle_limit=self.diff, near_far_angle_limit=self.near,
            near_far_length_ratio=self.ratio)


def active(t):
    return [l for l in t.links.values() if l.is_wireless
            and l.status_type in ACTIVE]


def around(t, links):
    """site -> {neighbour: link id} over links in use, either way."""
    out = {i: {} for i in t.sites}
    for l in links:
        out[l.tx_site.site_id].setdefault(l.rx_site.site_id, l)
        out[l.rx_site.site_id].setdefault(l.tx_site.site_id, l)
    return out


def plan(t, rng, rules, channels):
    """Choose sites and links under the rules; True when links are in use."""
    for s in t.sectors.values():
        # settled when the first link of the sector is chosen
        s.channel = None
    used = {i: {} for i in t.sites}       # site -> neighbour -> own sector

    def fits(site, other, sec):
        u = used[site.site_id]
        if site.site_type == CN:
            return not u
        same = [k for k, v in u.items() if v is sec] + [other.site_id]
        if len(same) > rules.total or sum(
                t.sites[k].site_type != CN for k in same) > rules.dn:
            return False
        for k, v in u.items():
            if v is not sec and v.channel == sec.channel and rules.clash(
                    site, t.sites[k], other, SOFT):
                return False
        return True

    pairs = {}
    for l in t.links.values():
        k = tuple(sorted((l.tx_site.site_id, l.rx_site.site_id)))
        pairs.setdefault(k, []).append(l)
    keys = list(pairs)
    keys.sort(key=lambda k: all(l.status_type != EXISTING for l in pairs[k])
              * (1 + rng.random()))
    for k in keys:
        ls = pairs[k]
        a, b = t.sites[k[0]], t.sites[k[1]]
        if any(l.status_type in (UNAVAILABLE, UNREACHABLE) for l in ls):
            continue
        if ls[0].is_wireless:
            if ls[0].tx_sector is None:
                if ls[0].status_type == EXISTING:
                    return False
                continue
            if rng.random() < .25 and ls[0].status_type != EXISTING:
                continue
            l = ls[0]
            x, y = (l.tx_sector, l.rx_sector) if l.tx_site is a else (
                l.rx_sector, l.tx_sector)
            if max(abs(l.tx_dev), 0 if l.rx_site.site_type == CN
                   else abs(l.rx_dev)) > 0 and any(
                    abs(d) > s.site.device.sector_params
                    .horizontal_scan_range / 2 - SOFT
                    for d, s in ((l.tx_dev, l.tx_sector),
                                 (l.rx_dev, l.rx_sector))
                    if s.site.site_type != CN):
                if ls[0].status_type == EXISTING:
                    return False
                continue      # at the very edge
            old = x.channel, y.channel
            both = {c for c in old if c is not None}
            if len(both) < 2:
                c = both.pop() if both else rng.randrange(channels)
                x.channel = y.channel = c
            if x.channel != y.channel or not fits(a, b, x) or \
                    not fits(b, a, y):
                x.channel, y.channel = old
                if ls[0].status_type == EXISTING:
                    return False
                continue
            used[a.site_id][b.site_id] = x
            used[b.site_id][a.site_id] = y
        elif rng.random() < .4 and ls[0].status_type != EXISTING:
            continue
        for s in (a, b):
            if s.status_type == CANDIDATE:
                s.status_type = PROPOSED
        half = len(ls) == 2 and ls[0].is_wireless and rng.random() < .06
        for l in rng.sample(ls, 1) if half else ls:
            if l.status_type == CANDIDATE:
                l.status_type = PROPOSED
    for s in t.sites.values():
        if s.site_type != CN and s.status_type in ACTIVE:
            s.polarity = rng.choice([PolarityType.ODD, PolarityType.EVEN])
        if s.status_type == CANDIDATE and rng.random() < .1:
            s.status_type = PROPOSED      # in use without any link
    for s in t.sectors.values():
        if s.status_type == CANDIDATE and any(
                s is v for u in used.values() for v in u.values()):
            for o in t.sectors.values():
                if o.site is s.site and o.node_id == s.node_id and \
                        o.status_type == CANDIDATE:
                    o.status_type = PROPOSED
        if s.channel is None:
            s.channel = rng.randrange(channels) if \
                s.status_type == PROPOSED else -1
    return bool(active(t))


def inst(t):
    return str([(i, s.site_type.name, s.status_type.name,
                 round(s.latitude, 7), round(s.longitude, 7),
                 s.device.number_of_nodes_per_site,
                 s.device.sector_params.number_sectors_per_node,
                 s.device.sector_params.horizontal_scan_range)
                for i, s in t.sites.items()]) + str(
        [(k, l.status_type.name, l.is_wireless,
          l.tx_sector and (l.tx_sector.sector_id, l.tx_sector.channel))
         for k, l in t.links.items()]) + str(
        [(k, s.ant_azimuth, s.status_type.name, s.channel)
         for k, s in t.sectors.items()])


def layout(t, site):
    out = {}
    for s in t.sectors.values():
        if s.site is site:
            out.setdefault(s.node_id, {})[s.position_in_node] = s.ant_azimuth
    return out


def deviation(site, others, az):
    """(links outside every sector, weighted squared deviation)."""
    w = site.device.sector_params.horizontal_scan_range
    dist = [sphere_distance(site.latitude, site.longitude, o.latitude,
                            o.longitude) for o in others]
    missing, tot = 0, 0.0
    for o, d in zip(others, dist):
        b = bearing(site.latitude, site.longitude, o.latitude, o.longitude)
        off = min((circ_diff(b, a) for a in az), default=360.0)
        if off > w / 2 + LIMIT:
            missing += 1
        else:
            tot += off ** 2 * d / max(dist) * (
                1 if o.site_type == CN else WEIGHT)
    return missing, tot


def best_possible(site, others, m):
    """Least weighted deviation of m nodes on the 3 degree grid."""
    sp = site.device.sector_params
    s, w = sp.number_sectors_per_node, sp.horizontal_scan_range
    size = int(round(360 / GRID))
    links = np.array([bearing(site.latitude, site.longitude, o.latitude,
                              o.longitude) for o in others])
    dist = np.array([sphere_distance(site.latitude, site.longitude,
                                     o.latitude, o.longitude)
                     for o in others])
    wt = np.array([1 if o.site_type == CN else WEIGHT for o in others])
    aim = np.array([[(c * GRID + (k - (s - 1) / 2) * w) % 360
                     for k in range(s)] for c in range(size)])
    d = np.abs(aim[:, :, None] - links[None, None, :]) % 360
    d = np.minimum(d, 360 - d).min(axis=1)
    cost = np.where(d < w / 2 - 1e-6, d ** 2 * dist / dist.max() * wt - 1e8,
                    0.0).sum(axis=1)
    step = int(math.ceil(s * w / GRID - 1e-9))
    best = math.inf
    if m > 1 and m * step > size:
        return None
    for first in range(size):
        c = np.roll(cost, -first)
        row = np.full(size, math.inf)
        row[0] = c[0]
        for _ in range(m - 1):
            run = np.minimum.accumulate(row)
            nxt = np.full(size, math.inf)
            nxt[step:] = run[:size - step] + c[step:]
            row = nxt
        ok = row[:size - step + 1] if m > 1 else row[:1]
        best = min(best, ok.min())
    n = len(others)
    return best + n * 1e8 if best < -(n - .5) * 1e8 else None


def nodes_fit(site, nodes):
    sp = site.device.sector_params
    s, w = sp.number_sectors_per_node, sp.horizontal_scan_range
    if len(nodes) > site.device.number_of_nodes_per_site:
        return "too many nodes"
    starts = []
    for node, pos in nodes.items():
        if sorted(pos) != list(range(s)):
            return f"positions of node {node}"
        for k in range(1, s):
            if abs((pos[k] - pos[0] - k * w + 180) % 360 - 180) > .009:
                return f"spacing in node {node}"
        starts.append(pos[0] % 360)
    starts.sort()
    for i, a in enumerate(starts):
        if len(starts) > 1 and ((starts[(i + 1) % len(starts)] - a) % 360
                                or 360) < s * w - .009:
            return "nodes overlap"
    return None


@check.part(quick=500, thorough=12000, share=.6,
            need={"plans": 200, "backhaul": 300, "access": 200,
                  "improved": 30, "two channels at a site": 10,
                  "unused kept": 40, "unused cleared": 100, "optimal": 100,
                  "same sector limit": 60, "one way": 5})
def readjust(ctx, rng):
    """Links keep sectors, channels and rules; aim gets better, never worse."""
    judge(ctx, rng, candidate_network(rng), [1, 1, 2, 3], Rules(rng))


@check.part(quick=700, thorough=24000, share=.4,
            need={"plans": 150, "access": 300, "improved": 60,
                  "same sector before": 60, "near-far pairs": 60,
                  "kept in one sector by a rule": 20})
def stars(ctx, rng):
    """The same on single hubs with crowded links."""
    rules = Rules(rng)
    if rng.random() < .6:
        rules.diff = rng.choice([0.0, 10.0])
        rules.near, rules.ratio = rng.choice([(45.0, 2.0), (60.0, 1.5)])
    judge(ctx, rng, star_network(rng), [1, 2, 3, 3], rules)


def judge(ctx, rng, t, chans, rules):
    try:
        setup_node_structure(t)
    except OptimizerException:
        raise Skip("the device cannot cover the links in use")
    channels = rng.choice(chans)
    if not plan(t, rng, rules, channels):
        return
    start = inst(t)
    acts = active(t)
    near = around(t, acts)
    chan = {l.link_id: l.link_channel for l in acts}
    status = {k: l.status_type for k, l in t.links.items()}
    sites = {i: (s.status_type, s.polarity, s.site_type, s.latitude,
                 s.longitude) for i, s in t.sites.items()}
    unused = {k: (s.ant_azimuth, s.node_id, s.position_in_node, s.status_type,
                  s.channel) for k, s in t.sectors.items()
              if not near[s.site.site_id]}
    old_dev = {i: deviation(t.sites[i], [t.sites[k] for k in near[i]],
                            [s.ant_azimuth for s in t.sectors.values()
                             if s.site.site_id == i])
               for i in near if near[i]}
    # sector shared by two links of a site before
    def own(i, l):
        return l.tx_sector if l.tx_site.site_id == i else l.rx_sector
    shared = {i: {(a, b): own(i, near[i][a]) is own(i, near[i][b])
                  for a, b in itertools.combinations(near[i], 2)}
              for i in near}
    p = rules.params(list({s.device.device_sku: s.device
                           for s in t.sites.values()}.values()))
    info = lambda: f"{vars(rules)} before={start} after={inst(t)}"  # noqa
    readjust_sectors_post_opt(t, p)
    ctx.count("plans")
    ctx.check_that({k: l.status_type for k, l in t.links.items()} == status,
                   "link-status", info)
    ctx.check_that({i: (s.status_type, s.polarity, s.site_type, s.latitude,
                        s.longitude) for i, s in t.sites.items()} == sites,
                   "site-changed", info)
    ctx.check_that({k: (s.ant_azimuth, s.node_id, s.position_in_node,
                        s.status_type, s.channel)
                    for k, s in t.sectors.items()
                    if not near[s.site.site_id]} == unused,
                   "unused-site-changed", info)
    ctx.count("unused kept", len(unused))
    for l in t.links.values():
        if not l.is_wireless:
            ctx.check_that(l.tx_sector is None and l.rx_sector is None,
                           "wired-with-sector", info)
            continue
        x, y = l.tx_sector, l.rx_sector
        use = l.link_id in chan
        ctx.check_that((x is None) == (y is None), "one-ended", info)
        ctx.check_that(x is not None or not use, "link-without-sector",
                       lambda: f"{l.link_id} {info()}")
        if x is None:
            continue
        r = t.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
        if r is not None:
            ctx.check_that(r.tx_sector is y and r.rx_sector is x,
                           "two-ways-differ", info)
        for sec, site, az in ((x, l.tx_site, l.rx_site),
                              (y, l.rx_site, l.tx_site)):
            w = site.device.sector_params.horizontal_scan_range
            b = bearing(site.latitude, site.longitude, az.latitude,
                        az.longitude)
            off = circ_diff(b, sec.ant_azimuth)
            ctx.check_that(
                t.sectors.get(sec.sector_id) is sec and sec.site is site,
                "foreign-sector", lambda: f"{l.link_id} {info()}")
            ctx.check_that(off <= w / 2 + LIMIT + SOFT, "outside-sector",
                           lambda: f"{l.link_id} {off} {info()}")
            ctx.check_that(
                off <= min(circ_diff(b, s.ant_azimuth)
                           for s in t.sectors.values() if s.site is site)
                + SOFT, "not-nearest", lambda: f"{l.link_id} {info()}")
            if use:
                ctx.check_that(sec.status_type == PROPOSED, "sector-unused",
                               lambda: f"{l.link_id} {info()}")
                ctx.check_that(sec.channel == chan[l.link_id], "channel",
                               lambda: f"{l.link_id} {chan} {info()}")
        if use:
            ctx.count("access" if l.rx_site.site_type == CN else "backhaul")
            if l.rx_site.site_type != CN and (
                    r is None or r.status_type not in ACTIVE):
                ctx.count("one way")
    ctx.count("unused cleared", sum(
        1 for k, l in t.links.items() if l.is_wireless and k not in chan
        and l.tx_sector is None))
    for i, site in t.sites.items():
        if not near[i]:
            continue
        nodes = layout(t, site)
        why = nodes_fit(site, nodes)
        ctx.check_that(why is None, "illegal-layout",
                       lambda: f"{i} {why} {info()}")
        secs = [s for s in t.sectors.values() if s.site is site]
        az = [s.ant_azimuth for s in secs]
        busy = {}
        for k, l in near[i].items():
            busy.setdefault(own(i, l).sector_id, []).append(k)
        live = {s.node_id for s in secs if s.sector_id in busy}
        ctx.check_that(all((s.status_type == PROPOSED) == (s.node_id in live)
                           for s in secs), "node-status",
                       lambda: f"{i} {info()}")
        ctx.check_that(live == set(nodes), "needless-node",
                       lambda: f"{i} {info()}")
        if site.site_type != CN:
            for ks in busy.values():
                ctx.check_that(
                    len(ks) <= rules.total and
                    sum(t.sites[k].site_type != CN for k in ks) <= rules.dn,
                    "sector-limit", lambda: f"{i} {ks} {info()}")
                if len(ks) in (rules.total, rules.dn):
                    ctx.count("same sector limit")
        cs = {chan[l.link_id] for l in near[i].values()}
        if len(cs) > 1:
            ctx.count("two channels at a site")
        for (a, b), was in shared[i].items():
            now = own(i, near[i][a]) is own(i, near[i][b])
            ca, cb = (chan[near[i][k].link_id] for k in (a, b))
            if site.site_type == CN:
                continue
            if was:
                ctx.count("same sector before")
            if ca == cb and was and angle(
                    site, t.sites[a], t.sites[b]) > rules.diff + SOFT and \
                    rules.clash(site, t.sites[a], t.sites[b], -SOFT):
                ctx.count("near-far pairs")
            if ca == cb and now and rules.clash(
                    site, t.sites[a], t.sites[b], -SOFT):
                ctx.count("kept in one sector by a rule")
            if ca != cb or now:
                continue
            ctx.check_that(not rules.clash(site, t.sites[a], t.sites[b],
                                           -SOFT), "angle-rule",
                           lambda: f"{i} {a} {b} {info()}")
        new = deviation(site, [t.sites[k] for k in near[i]], az)
        old = old_dev[i]
        # the sector of a CN was not aimed at its link before
        if old[0] == 0:
            ctx.check_that(new[1] <= old[1] * (1 + 1e-6) + 1e-3, "worse-aim",
                           lambda: f"{i} {old} {new} {info()}")
            if new[1] < old[1] - 1:
                ctx.count("improved")
        if len(near[i]) == 1 or (
                len(cs) == 1 and rules.dn >= len(near[i]) and not any(
                    rules.clash(site, t.sites[a], t.sites[b], SOFT)
                    for a, b in shared[i])):
            dev = site.device
            m = min(dev.number_of_nodes_per_site, int(
                360 / (dev.sector_params.horizontal_scan_range
                       * dev.sector_params.number_sectors_per_node)))
            best = None
            while m and best is None:
                best = best_possible(site, [t.sites[k] for k in near[i]], m)
                m -= 1
            if best is not None:
                ctx.check_that(new[1] <= best * (1 + 1e-4) + .05, "not-best",
                               lambda: f"{i} {new} {best} {info()}")
                ctx.count("optimal")
    ctx.nontrivial(len(t.sites), len(acts), channels, rules.dn, rules.diff,
                   [round(s.ant_azimuth) for s in t.sectors.values()])


if __name__ == "__main__":
    check.run()
