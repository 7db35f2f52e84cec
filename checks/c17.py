"""C17 deployment rules: exactly the rule-breaking links are reported."""
from collections import Counter
from itertools import combinations

from vmon import Check
from tg import *  # noqa
from terragraph_planner.optimization.deployment_rules import (
    find_angle_violating_link_pairs, find_sector_limit_violations,
    get_violating_link_ids,
)

check = Check(
    "C17",
    rule="random star and mesh networks (wired, one-way, missing and inactive "
         "links, several channels, sectors shared or not, anywhere on Earth "
         "incl. across the antimeridian) against direct recomputation; "
         "non-trivial = distinct (kinds, verdict) tuples",
    assumptions=["pairs within 0.02 degrees or 1e-4 of a limit may go either "
                 "way", "no two linked sites share the same coordinates"],
    workers=6,
)


def network(rng):
    """Some sites, sectors on each, links among most pairs."""
    dn, cn = dn_device(nodes=2, sectors=2), cn_device()
    n = rng.randint(3, 7)
    lat0 = rng.choice([0.0, 0.001, 37.5, -33.9, 60.0, 71.0, -54.0])
    lon0 = rng.choice([0.0, 3.0, -122.1, 151.2, 179.9999, -180.0])
    types = [rng.choice([DN, DN, POP, CN]) for _ in range(n)]
    types[0] = rng.choice([DN, POP])
    theme = rng.choice([None, None, PROPOSED])
    sites, ll = [], []
    az0 = rng.uniform(0, 360)
    for i in range(n):
        if i == 0:
            lat, lon = lat0, lon0
        else:
            # bunches of nearly equal directions
            az = az0 + rng.choice([0, 0, 0, 90, 180]) + rng.choice(
                [0, rng.uniform(-6, 6), rng.uniform(-25, 25),
                 rng.uniform(-60, 60)])
            d = rng.choice([rng.uniform(20, 60), rng.uniform(60, 250)])
            lat = lat0 + d * math.cos(math.radians(az)) / M_PER_DEG
            lon = lon0 + d * math.sin(math.radians(az)) / (
                M_PER_DEG * math.cos(math.radians(lat0)))
        if lon >= 180:
            lon -= 360
        if lon < -180:
            lon += 360
        st = theme or rng.choice([PROPOSED, PROPOSED, EXISTING, CANDIDATE,
                                  UNREACHABLE])
        sites.append(make_site_ll(
            types[i], lat, lon, cn if types[i] == CN else dn, st,
            alt=rng.choice([0, 5, 30]), sid=f"{rng.choice('abc')}{i}"))
        ll.append((lat, lon))
    t = Topology(sites=sites)
    secs = {}
    for s in sites:
        k = 1 if s.site_type == CN else rng.randint(1, 3)
        secs[s.site_id] = []
        for j in range(k):
            ok = [x for x in ALL_STATUS
                  if sector_status_ok(s.status_type, x)]
            ssec = Sector(s, j // 2, j % 2, 100.0 * j,
                          s.status_type if rng.random() < .8
                          and s.status_type in ok else rng.choice(ok),
                          channel=rng.choice([0, 0, 1]))
            t.add_sector(ssec)
            secs[s.site_id].append(ssec)
    bare = rng.random() < .1
    pairs = list(combinations(sites, 2))
    rng.shuffle(pairs)
    for a, b in pairs:
        if rng.random() < .2 and a is not sites[0]:
            continue
        ok = [x for x in ALL_STATUS
              if link_status_ok(a.status_type, b.status_type, x)]
        if not ok:
            continue
        act = [x for x in ok if x in ACTIVE]
        st = rng.choice(act if act and rng.random() < .75 else ok)
        wired = rng.random() < .12
        sa, sb = rng.choice(secs[a.site_id]), rng.choice(secs[b.site_id])
        for p, q, x, y in rng.sample([(a, b, sa, sb), (b, a, sb, sa)], 2):
            if p.site_type == CN or rng.random() < .08:
                continue
            if bare or wired:
                x = y = None
            t.add_link(Link(p, q, x, y, status_type=st, is_wireless=not wired))
    return t


def describe(t):
    return str([(l.tx_site.site_id, l.rx_site.site_id,
                 l.tx_sector and (l.tx_sector.sector_id, l.tx_sector.channel),
                 l.status_type.name, l.is_wireless)
                for l in t.links.values()]) + str(
        [(s.site_id, s.site_type.name, s.latitude, s.longitude)
         for s in t.sites.values()])


@check.part(quick=7500, thorough=60000, share=.5,
            need={"diff": 1000, "near far": 500, "same sector": 500,
                  "other channel": 100, "wired": 50, "inactive": 100,
                  "antimeridian": 50, "violating links": 500})
def angle_rules(ctx, rng):
    """Pairs and links breaking the angle rules."""
    t = network(rng)
    diff_lim = rng.choice([0.0, 5.0, 15.0, 25.0, 45.0, 90.0])
    nf_lim = rng.choice([10.0, 45.0, 45.0, 90.0, 120.0])
    ratio = rng.choice([1.0, 1.5, 3.0, 3.0, 5.0])
    active = rng.random() < .5
    got = find_angle_violating_link_pairs(t, diff_lim, nf_lim, ratio, active)
    gd, gn = Counter(map(tuple, got.diff_sector_list)), Counter(
        map(tuple, got.near_far_list))
    inst = f"{diff_lim} {nf_lim} {ratio} {active} " + describe(t)
    seen = set()
    sure = set()
    unsure = set()
    for s in t.sites.values():
        out = [l for l in t.links.values() if l.tx_site is s]
        for l1, l2 in combinations(out, 2):
            i, (j, k) = s.site_id, sorted(
                (l1.rx_site.site_id, l2.rx_site.site_id))
            key = (i, j, k)
            seen.add(key)
            wd, wn = False, False
            am = any(abs(l.rx_site.longitude - s.longitude) > 180
                     for l in (l1, l2))
            if not (l1.is_wireless and l2.is_wireless):
                ctx.count("wired")
            elif active and not {l1.status_type, l2.status_type} <= ACTIVE:
                ctx.count("inactive")
            elif l1.tx_sector is l2.tx_sector:
                ctx.count("same sector")
            elif active and l1.tx_sector.channel != l2.tx_sector.channel:
                ctx.count("other channel")
            else:
                a1, a2 = (bearing(s.latitude, s.longitude, l.rx_site.latitude,
                                  l.rx_site.longitude) for l in (l1, l2))
                d1, d2 = (sphere_distance(
                    s.latitude, s.longitude, l.rx_site.latitude,
                    l.rx_site.longitude) for l in (l1, l2))
                ang = circ_diff(a1, a2)
                r = max(d1, d2) / min(d1, d2)
                if abs(ang - diff_lim) < .02 or abs(ang - nf_lim) < .02 or (
                        abs(r - ratio) < 1e-4 * ratio):
                    unsure.add(key)
                    continue
                wd = ang < diff_lim
                wn = not wd and ang < nf_lim and r > ratio
            if am and (wd or wn):
                ctx.count("antimeridian")
            ctx.count("diff" if wd else "near far" if wn else "fine")
            if wd or wn:
                sure.add(key)
            ctx.nontrivial((s.site_type.name, active, wd, wn, am,
                            l1.is_wireless, l2.is_wireless))
            ctx.check_that(bool(gd.pop(key, 0)) == wd, "sector-angle",
                           lambda: f"{key} want {wd} {inst}")
            ctx.check_that(bool(gn.pop(key, 0)) == wn, "near-far",
                           lambda: f"{key} want {wn} {inst}")
    for key in unsure:
        gd.pop(key, None), gn.pop(key, None)
    ctx.check_that(not gd and not gn, "no-such-pair",
                   lambda: f"{gd} {gn} {inst}")
    # the links concerned by pairs
    trip = list(got.diff_sector_list) + list(got.near_far_list)
    if rng.random() < .5 and len(t.sites) > 2:
        # pairs found in another network of the same sites
        for _ in range(rng.randint(1, 3)):
            trip.append(tuple(rng.sample(sorted(t.sites), 3)))
    ids = get_violating_link_ids(t, trip)
    want = {l.link_id for l in t.links.values() for i, j, k in trip
            if {l.tx_site.site_id, l.rx_site.site_id} in ({i, j}, {i, k})}
    ctx.count("violating links", len(want))
    ctx.check_that(set(ids) == want and len(ids) == len(want),
                   "links-of-pairs", lambda: f"{ids} {want} {inst}")


@check.part(quick=7500, thorough=60000, share=.5,
            need={"over dn": 300, "over total": 100, "at limit": 300,
                  "inactive sector": 100, "cn": 300})
def sector_limits(ctx, rng):
    """DN sectors with more links in use than allowed."""
    t = network(rng)
    dn_lim = rng.choice([0, 1, 1, 2, 3])
    tot = dn_lim + rng.choice([0, 0, 1, 2])
    if rng.random() < .05:
        tot, dn_lim = dn_lim, tot
    got = find_sector_limit_violations(t, dn_lim, tot)
    inst = f"{dn_lim} {tot} " + describe(t) + str(
        [(x.sector_id, x.status_type.name) for x in t.sectors.values()])
    used = set()
    for x in t.sectors.values():
        out = [l for l in t.links.values()
               if l.tx_sector is not None and l.tx_sector is x]
        act = [l for l in out if l.status_type in ACTIVE]
        dns = sum(l.rx_site.site_type != CN for l in act)
        cns = len(act) - dns
        on = x.status_type in ACTIVE and x.site.site_type != CN
        if not on:
            ctx.count("inactive sector")
        want = on and (dns > dn_lim or dns + cns > tot)
        if cns:
            ctx.count("cn")
        ctx.count("over dn" if want and dns > dn_lim else
                  "over total" if want else
                  "at limit" if on and (dns == dn_lim or len(act) == tot)
                  else "under")
        ctx.nontrivial((on, dns, cns, dn_lim, tot))
        ctx.check_that((x.sector_id in got) == want, "limit-verdict",
                       lambda: f"{x.sector_id} {dns} {cns} {want} {inst}")
        if want:
            used.add(x.sector_id)
            ctx.check_that(
                {l.rx_sector.sector_id for l in act
                 if l.rx_sector.status_type in ACTIVE}
                <= set(got[x.sector_id]) <=
                {l.rx_sector.sector_id for l in out
                 if l.rx_sector.status_type in ACTIVE}
                and len(set(got[x.sector_id])) == len(got[x.sector_id]),
                "far-sectors", lambda: f"{x.sector_id} {got} {inst}")
    ctx.check_that(set(got) == used, "limit-keys", lambda: f"{got} {inst}")


if __name__ == "__main__":
    check.run()
