"""Random networks of sites and links, and walks over them."""
import itertools
from collections import deque

from tg import *  # noqa

REACH = {CANDIDATE, PROPOSED, EXISTING}


def network(rng, themes=(None, PROPOSED, PROPOSED), oneway=.04):
    n = rng.randint(2, 9)
    dn, cn = dn_device(), cn_device()
    theme = rng.choice(themes)
    sites = []
    for i in range(n):
        ty = POP if i == 0 else rng.choice([DN] * 5 + [CN] * 3 + [POP])
        st = theme if theme and rng.random() < .9 else rng.choice(
            [PROPOSED, EXISTING, CANDIDATE, CANDIDATE, UNAVAILABLE,
             UNREACHABLE])
        if i == 0 and st in (UNAVAILABLE, UNREACHABLE):
            st = PROPOSED
        sites.append(make_site(
            ty, 5e5 + rng.uniform(0, 900), 1e6 + rng.uniform(0, 900),
            cn if ty == CN else dn, st, alt=0.0,
            sid=f"{rng.choice('abcxyz')}{i}"))
    t = Topology(sites=sites)
    secs = {}
    for s in sites:
        k = 1 if s.site_type == CN else rng.randint(1, 3)
        secs[s.site_id] = [Sector(s, j, 0, 90.0 * j, s.status_type)
                           for j in range(k)]
        for x in secs[s.site_id]:
            t.add_sector(x)
    dense = rng.choice([.15, .3, .6, .9])
    pairs = list(itertools.combinations(sites, 2))
    rng.shuffle(pairs)
    chain = {frozenset((sites[i - 1].site_id, sites[i].site_id))
             for i in range(1, n)} if rng.random() < .6 else set()
    for a, b in pairs:
        near = frozenset((a.site_id, b.site_id)) in chain
        if not near and rng.random() > dense:
            continue
        ok = [x for x in ALL_STATUS
              if link_status_ok(a.status_type, b.status_type, x)]
        if not ok or a.site_type == b.site_type == CN:
            continue
        act = [x for x in ok if x in ACTIVE]
        st = rng.choice(act if act and rng.random() < .8 else ok)
        wired = CN not in (a.site_type, b.site_type) and rng.random() < .12
        x, y = rng.choice(secs[a.site_id]), rng.choice(secs[b.site_id])
        if wired or rng.random() < .05:
            x = y = None
        mcs, cap = rng.choice([(0, 0.0), (3, .1), (5, .3), (9, 1.0),
                               (12, 1.8), (12, 1.8), (13, 2.0)])
        for p, q, u, v in rng.sample([(a, b, x, y), (b, a, y, x)],
                                     1 if rng.random() < oneway else 2):
            if p.site_type == CN:
                continue
            l = Link(p, q, u, v, status_type=st, is_wireless=not wired)
            l.mcs_level = 0 if wired else mcs
            l.capacity = 10.0 if wired else cap
            if rng.random() < .1 and not wired:
                l.mcs_level, l.capacity = 7, .5
            t.add_link(l)
    ids = list(t.sites)
    for d in range(rng.randint(1, 6)):
        k = rng.choice([1, 1, 1, 2, 3])
        t.add_demand_site(DemandSite(
            GeoLocation(utm_x=5e5 + d, utm_y=1e6, utm_epsg=EPSG,
                        altitude=0.0),
            demand=.1, connected_sites=[
                t.sites[i] for i in rng.sample(ids, min(k, len(ids)))]))
    return t


def edges(t, statuses):
    """Directed (from, to) -> link among accepted sites and links."""
    return {(l.tx_site.site_id, l.rx_site.site_id): l
            for l in t.links.values()
            if {l.status_type, l.tx_site.status_type,
                l.rx_site.status_type} <= statuses}


def walk(t, statuses, es, dead=()):
    """Hop count of every site reached from the POPs."""
    q = deque(i for i, s in t.sites.items() if s.site_type == POP
              and s.status_type in statuses and i not in dead)
    hop = {i: 0 for i in q}
    nxt = {}
    for a, b in es:
        nxt.setdefault(a, []).append(b)
    while q:
        a = q.popleft()
        for b in nxt.get(a, []):
            if b not in hop and b not in dead:
                hop[b] = hop[a] + 1
                q.append(b)
    return hop


def served(t, statuses, es, dead=()):
    hop = walk(t, statuses, es, dead)
    return {k for k, d in t.demand_sites.items()
            if any(s.site_id in hop for s in d.connected_sites)}


def inst(t):
    return str([(k, s.site_type.name, s.status_type.name)
                for k, s in t.sites.items()]) + str(
        [(k, l.status_type.name, l.link_type.name, l.mcs_level, l.capacity,
          l.tx_sector and l.tx_sector.sector_id)
         for k, l in t.links.items()]) + str(
        [(k, [s.site_id for s in d.connected_sites])
         for k, d in t.demand_sites.items()])


def state(t):
    return ({k: (s.status_type, s.site_type) for k, s in t.sites.items()},
            {k: s.status_type for k, s in t.sectors.items()},
            {k: (l.status_type, l.mcs_level, l.capacity, l.is_redundant)
             for k, l in t.links.items()},
            {k: [s.site_id for s in d.connected_sites]
             for k, d in t.demand_sites.items()})


def frozen(g):
    return sorted((u, v, str(sorted(d.items(), key=str)))
                  for u, v, d in g.edges(data=True)), \
        sorted((n, str(d)) for n, d in g.nodes(data=True))
