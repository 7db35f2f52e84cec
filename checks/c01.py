"""C01 topology lookups vs a plain scan, over operation histories."""
from vmon import Check
import tg
from tg import *  # noqa
from terragraph_planner.common.exceptions import (
    PlannerException, TopologyException,
)
from terragraph_planner.common.structs import GeoPoint

check = Check(
    "C01",
    rule="a case is a seeded history of 25-120 topology operations (valid, "
         "invalid, remove/re-add) with every lookup compared to a scan of a "
         "reference model after each; non-trivial = distinct multiset of "
         "(operation, outcome) with at least one removal and one re-addition",
    assumptions=["link identity is the ordered pair of site ids, so adding a "
                 "second link on the same pair replaces the first"],
)

DEV = [dn_device("DN_A"), dn_device("DN_B", nodes=2), cn_device("CN_A")]


def ids(xs):
    return sorted(s.site_id for s in xs)


class Model:
    def __init__(self):
        self.sites, self.sectors, self.links, self.demands = {}, {}, {}, {}
        # link_id -> (link, tx id, rx id, tx sector id, rx sector id)

    def clone(self):
        m = Model()
        m.sites, m.sectors = dict(self.sites), dict(self.sectors)
        m.links, m.demands = dict(self.links), dict(self.demands)
        return m


def channel(link):
    """The channel of a link in use, None when its ends disagree."""
    if link.status_type not in ACTIVE or link.tx_sector is None:
        return -1
    a, b = link.tx_sector.channel, link.rx_sector.channel
    return a if a == b else None


def compare(ctx, t, m, after, rng, full):
    C = ctx.check_that

    def d(x):
        return lambda: f"after {after}: {x}"
    ok = C(set(t.sites) == set(m.sites) and
           all(t.sites[k] is v for k, v in m.sites.items()),
           "sites-differ", d("site map"))
    ok &= C(set(t.sectors) == set(m.sectors) and
            all(t.sectors[k] is v for k, v in m.sectors.items()),
            "sectors-differ", d("sector map"))
    ok &= C(set(t.links) == set(m.links) and
            all(t.links[k] is v[0] for k, v in m.links.items()),
            "links-differ", d("link map"))
    ok &= C(set(t.demand_sites) == set(m.demands) and
            all(t.demand_sites[k] is v for k, v in m.demands.items()),
            "demand-sites-differ", d("demand site map"))
    for lid, (link, tx, rx, ts, rs) in m.links.items():
        got = (link.tx_sector.sector_id if link.tx_sector else None,
               link.rx_sector.sector_id if link.rx_sector else None)
        ok &= C(got == (ts, rs), "link-sectors-differ",
                d(f"{lid}: {got} vs {(ts, rs)}"))
        ok &= C(link.link_id == lid and link.tx_site.site_id == tx and
                link.rx_site.site_id == rx, "link-ends-differ", d(lid))
    if not ok or not full:
        return ok
    for v in m.links.values():
        want = channel(v[0])
        if want is not None:
            C(v[0].link_channel == want, "link-channel", d(want))
    site_ids = list(m.sites)
    by_pair = {(v[1], v[2]): v[0] for v in m.links.values()}
    for s in site_ids:
        exp = {k for k, v in m.sectors.items() if v.site.site_id == s}
        C(set(t.site_id_to_sector_ids.get(s, ())) == exp,
          "sectors-of-site", d(s))
        site = m.sites[s]
        succ = sorted(b for (a, b) in by_pair if a == s)
        pred = sorted(a for (a, b) in by_pair if b == s)
        wsucc = sorted(b for (a, b), k in by_pair.items()
                       if a == s and k.is_wireless)
        wpred = sorted(a for (a, b), k in by_pair.items()
                       if b == s and k.is_wireless)
        C(ids(t.get_successor_sites(site)) == succ, "successors", d(s))
        C(ids(t.get_predecessor_sites(site)) == pred, "predecessors", d(s))
        C(ids(t.get_wireless_successor_sites(site)) == wsucc,
          "wireless-successors", d(s))
        C(ids(t.get_wireless_predecessor_sites(site)) == wpred,
          "wireless-predecessors",
          d(f"{s}: {ids(t.get_wireless_predecessor_sites(site))} vs {wpred}"))
        C(dict(t.site_connectivity.get(s, {})) ==
          {b: k.link_id for (a, b), k in by_pair.items() if a == s},
          "connectivity-map", d(s))
        C(dict(t.site_connectivity_reverse.get(s, {})) ==
          {a: k.link_id for (a, b), k in by_pair.items() if b == s},
          "reverse-connectivity-map", d(s))
        for o in site_ids:
            C(t.get_link_by_site_ids(s, o) is by_pair.get((s, o)),
              "link-by-sites", d((s, o)))
    for s in set(t.site_id_to_sector_ids) - set(site_ids):
        C(not t.site_id_to_sector_ids.get(s), "stale-sector-ids",
          d(f"{s} is gone but still owns "
            f"{t.site_id_to_sector_ids.get(s)}"))
    for mp in (t.site_connectivity, t.site_connectivity_reverse):
        for s in set(mp) - set(site_ids):
            C(not mp[s], "stale-connectivity", d(s))
    for k in by_pair.values():
        C(t.get_reverse_link(k) is by_pair.get(
            (k.rx_site.site_id, k.tx_site.site_id)), "reverse-link",
          d(k.link_id))
    secs = list(m.sectors)
    rng.shuffle(secs)
    for a in secs[:6]:
        for b in secs[:6]:
            exp = by_pair.get(
                (m.sectors[a].site.site_id, m.sectors[b].site.site_id))
            C(t.get_link_by_sector_ids(a, b) is exp, "link-by-sectors",
              d((a, b)))
    fwd, rev = {}, {}
    last = {}
    for lid, v in t.links.items():
        ts, rs = m.links[lid][3:]
        if ts is not None:
            last[(ts, rs)] = lid
    for (ts, rs), lid in last.items():
        fwd.setdefault(ts, {})[rs] = lid
        rev.setdefault(rs, {})[ts] = lid
    C({k: v for k, v in t.sector_connectivity.items() if v} == fwd,
      "sector-connectivity", d("forward"))
    C({k: v for k, v in t.sector_connectivity_reverse.items() if v} == rev,
      "sector-connectivity", d("reverse"))
    C(t.get_sectorless_links() == {
        p for p, k in by_pair.items()
        if k.is_wireless and m.links[k.link_id][3] is None},
      "sectorless-links", d(""))
    sf = set(rng.sample(ALL_STATUS, rng.randint(0, 5)))
    tf = set(rng.sample(list(SiteType), rng.randint(0, 3)))
    lf = set(rng.sample(list(LinkType), rng.randint(0, 3)))
    for s_f in (None, sf):
        for t_f in (None, tf):
            C(set(t.get_site_ids(status_filter=s_f, site_type_filter=t_f)) ==
              {k for k, v in m.sites.items()
               if (s_f is None or v.status_type in s_f)
               and (t_f is None or v.site_type in t_f)},
              "site-ids-filter", d((s_f, t_f)))
        for l_f in (None, lf):
            C(set(t.get_link_site_id_pairs(
                status_filter=s_f, link_type_filter=l_f)) ==
              {p for p, k in by_pair.items()
               if (s_f is None or k.status_type in s_f)
               and (l_f is None or k.link_type in l_f)},
              "link-pairs-filter", d((s_f, l_f)))
    exp = {}
    for k, v in m.sectors.items():
        if v.status_type in sf:
            exp.setdefault(v.site.site_id, set()).add(k)
    C({k: set(v) for k, v in t.get_sector_ids(sf).items() if v} == exp,
      "sector-ids-filter", d(sf))
    col = {}
    for k, v in m.sites.items():
        col.setdefault(
            GeoPoint(v.longitude, v.latitude, v.altitude), set()).add(k)
    got = t.get_colocated_sites()
    C({k: set(v) for k, v in got.items()} == col and
      sum(len(v) for v in got.values()) == len(m.sites),
      "colocated-sites", d(""))
    pol = {PolarityType.ODD: set(), PolarityType.EVEN: set()}
    for k, v in m.sites.items():
        if v.site_type != CN and v.status_type in ACTIVE and \
                v.polarity != PolarityType.UNASSIGNED:
            pol[v.polarity].add(k)
    C(t.get_site_polarities() == pol, "polarities", d(""))
    return True


def new_site(rng, pool_xy):
    st = rng.choice([CN, DN, DN, POP])
    x, y = rng.choice(pool_xy)
    dev = DEV[2] if st == CN else rng.choice(DEV[:2])
    alt = rng.choice([0.0, 0.0, 10.0, None])
    return make_site(st, x, y, dev, rng.choice(ALL_STATUS), alt=alt,
                     name=rng.choice(["", "s"]) + str(rng.randint(0, 99)))


def what_it_is(s):
    return (s.site_type, s.utm_x, s.utm_y, s.altitude, s.device.device_sku)


def new_link(rng, a, b, secs_a, secs_b):
    wireless = rng.random() < 0.75
    stats = [s for s in ALL_STATUS
             if link_status_ok(a.status_type, b.status_type, s)]
    if not stats:
        return None
    kw = {"status_type": rng.choice(stats), "is_wireless": wireless,
          "confidence_level": rng.choice([None, 0.5])}
    if secs_a and secs_b and rng.random() < 0.6:
        return Link(tx_sector=rng.choice(secs_a), rx_sector=rng.choice(secs_b),
                    **kw)
    return Link(a, b, **kw)


@check.part(quick=2400, thorough=14000, share=3,
            need={"op:remove_site": 50, "op:readd_site": 20,
                  "op:remove_sector": 50, "op:remove_link": 50,
                  "rejected": 50})
def histories(ctx, rng):
    pool_xy = [(rng.randint(0, 600) + 400000.0, rng.randint(0, 600) + 1e6)
               for _ in range(rng.randint(3, 7))]
    t, m = Topology(), Model()
    removed = []
    outside = []
    removed_links = []
    trace = []
    nops = rng.randint(25, 120)
    nodes = rng.choice([2, 2, 2, 14])
    if nodes > 2:      # few sites with many sectors
        pool_xy = pool_xy[:1]
        nops = 120
    kinds = (["add_site"] * 4 + ["add_sector"] * 4 + ["add_link"] * 6 +
             ["remove_site"] * 2 + ["readd_site"] * 3 + ["remove_sector"] * 2 +
             ["remove_link"] * 2 + ["add_demand", "remove_demand", "status",
                                    "status", "polarity", "sort", "bad",
                                    "bad", "readd_link"])
    if nodes > 2:
        kinds += ["add_sector"] * 20
    for step in range(nops):
        kind = rng.choice(kinds)
        sites = list(m.sites.values())
        outcome = "ok"
        if kind == "add_site":
            s = new_site(rng, pool_xy)
            same = [o for o in m.sites.values() if what_it_is(o) ==
                    what_it_is(s)]
            ctx.check_that((s.site_id in m.sites) == bool(same),
                           "site-identity", lambda: what_it_is(s))
            if s.site_id in m.sites:
                ctx.expect_raises(TopologyException, lambda: t.add_site(s),
                                  "duplicate-site-accepted")
                outcome = "dup"
                ctx.count("rejected")
            else:
                t.add_site(s)
                m.sites[s.site_id] = s
        elif kind == "readd_site":
            cand = [s for s in removed if s.site_id not in m.sites]
            if not cand:
                continue
            s = rng.choice(cand)
            t.add_site(s)
            m.sites[s.site_id] = s
        elif kind == "remove_site":
            if not sites:
                continue
            s = rng.choice(sites)
            t.remove_site(s.site_id)
            removed.append(s)
            outside.append(s)
            del m.sites[s.site_id]
            m.sectors = {k: v for k, v in m.sectors.items()
                         if v.site.site_id != s.site_id}
            m.links = {k: v for k, v in m.links.items()
                       if s.site_id not in v[1:3]}
        elif kind == "add_sector":
            if not sites:
                continue
            s = rng.choice(sites)
            sec = Sector(s, rng.randint(0, nodes), rng.randint(0, 1),
                         rng.uniform(0, 360),
                         sector_status_for(s.status_type, rng),
                         rng.randint(-1, 9))
            if sec.sector_id in m.sectors:
                ctx.expect_raises(TopologyException, lambda: t.add_sector(sec),
                                  "duplicate-sector-accepted")
                outcome = "dup"
                ctx.count("rejected")
            else:
                t.add_sector(sec)
                m.sectors[sec.sector_id] = sec
        elif kind == "remove_sector":
            if not m.sectors:
                continue
            k = rng.choice(sorted(m.sectors))
            t.remove_sector(k)
            del m.sectors[k]
            for lid, v in list(m.links.items()):
                if k in v[3:]:
                    m.links[lid] = v[:3] + (None, None)
        elif kind == "add_link":
            tx = [s for s in sites if s.site_type != CN]
            if not tx or len(sites) < 2:
                continue
            a = rng.choice(tx)
            b = rng.choice([s for s in sites if s is not a])
            k = new_link(
                rng, a, b,
                [v for v in m.sectors.values() if v.site is a],
                [v for v in m.sectors.values() if v.site is b])
            if k is None:
                continue
            use_ids = k.tx_sector is None and rng.random() < 0.4
            if use_ids:
                t.add_link_from_site_ids(
                    a.site_id, b.site_id, status_type=k.status_type,
                    is_wireless=k.is_wireless,
                    confidence_level=k.confidence_level)
                got = t.links.get(k.link_id)
                ctx.check_that(
                    got is not None and got.status_type == k.status_type and
                    got.is_wireless == k.is_wireless and
                    got.confidence_level == k.confidence_level and
                    got.tx_site is a and got.rx_site is b,
                    "link-from-ids", k.link_id)
                k = got if got is not None else k
            else:
                t.add_link(k)
            if k.link_id in m.links:
                outcome = "replace"
                old = m.links.pop(k.link_id)
            m.links[k.link_id] = (
                k, a.site_id, b.site_id,
                k.tx_sector.sector_id if k.tx_sector else None,
                k.rx_sector.sector_id if k.rx_sector else None)
        elif kind == "readd_link":
            cand = [v for v in removed_links
                    if m.sites.get(v[1]) is v[0].tx_site
                    and m.sites.get(v[2]) is v[0].rx_site
                    and v[0].link_id not in m.links
                    and all((x is None and sec is None) or
                            (sec is not None and m.sectors.get(x) is sec)
                            for x, sec in ((v[3], v[0].tx_sector),
                                           (v[4], v[0].rx_sector)))]
            if not cand:
                continue
            v = rng.choice(cand)
            removed_links = [x for x in removed_links if x is not v]
            t.add_link(v[0])
            m.links[v[0].link_id] = v
        elif kind == "remove_link":
            if not m.links:
                continue
            k = rng.choice(sorted(m.links))
            t.remove_link(k)
            removed_links.append(m.links.pop(k))
        elif kind == "add_demand":
            x, y = rng.choice(pool_xy)
            ds = DemandSite(GeoLocation(utm_x=x, utm_y=y, utm_epsg=EPSG,
                                        altitude=rng.choice([None, 0.0, 4.0])),
                            connected_sites=rng.sample(
                                sites, min(len(sites), rng.randint(0, 3))))
            ctx.check_that(
                (ds.demand_id in m.demands) == any(
                    (o.utm_x, o.utm_y, o.altitude) == (x, y, ds.altitude)
                    for o in m.demands.values()), "demand-identity", (x, y))
            t.add_demand_site(ds)
            m.demands[ds.demand_id] = ds
        elif kind == "remove_demand":
            if not m.demands:
                continue
            k = rng.choice(sorted(m.demands))
            t.remove_demand_site(k)
            del m.demands[k]
        elif kind == "status":
            objs = list(m.sites.values()) + list(m.sectors.values()) + [
                v[0] for v in m.links.values()]
            if not objs:
                continue
            try:
                rng.choice(objs).status_type = rng.choice(ALL_STATUS)
            except PlannerException:
                outcome = "refused"
        elif kind == "polarity":
            if not sites:
                continue
            rng.choice(sites).polarity = rng.choice(list(PolarityType))
        elif kind == "sort":
            before = {k: sorted(s.site_id for s in v.connected_sites)
                      for k, v in m.demands.items()}
            t.sort()
            for mp, name in ((t.sites, "sites"), (t.sectors, "sectors"),
                             (t.links, "links"),
                             (t.demand_sites, "demand_sites")):
                ctx.check_that(list(mp) == sorted(mp), "sort-order", name)
            for k, v in m.demands.items():
                ctx.check_that(
                    [s.site_id for s in v.connected_sites] == before[k],
                    "sort-demand", k)
        elif kind == "bad":
            kind, outcome = bad_op(ctx, t, m, outside, pool_xy, rng)
            if kind is None:
                continue
        ctx.count("op:" + kind)
        ctx.count("operations")
        trace.append((kind, outcome))
        full = step % 4 == 3 or step == nops - 1
        compare(ctx, t, m, f"{trace[-6:]}", rng, full)
        if ctx.violations:
            return
    tally = {}
    for x in trace:
        tally[x] = tally.get(x, 0) + 1
    if any(k == "remove_site" for k, _ in trace) and \
            any(k == "readd_site" for k, _ in trace):
        ctx.nontrivial(sorted(tally.items()))
    ctx.sample({"trace": trace[:30], "operations": len(trace)})


def bad_op(ctx, t, m, outside, pool_xy, rng):
    """An invalid operation: it must raise and change nothing."""
    ctx.count("rejected")
    ghosts = [s for s in outside if s.site_id not in m.sites]
    if not ghosts:
        s = new_site(rng, pool_xy)
        if s.site_id in m.sites:
            return None, None
        ghosts = [s]
    g = rng.choice(ghosts)
    inside = [s for s in m.sites.values()]
    what = rng.choice(["remove_site", "remove_sector", "remove_link",
                       "remove_demand", "add_sector", "add_link", "lookup",
                       "from_ids"])
    R = ctx.expect_raises
    if what == "remove_site":
        R(PlannerException, lambda: t.remove_site(g.site_id), "bad-" + what)
    elif what == "remove_sector":
        R(PlannerException, lambda: t.remove_sector(g.site_id + "-0-0-DN"),
          "bad-" + what)
    elif what == "remove_link":
        R(PlannerException, lambda: t.remove_link(g.site_id + "-nowhere"),
          "bad-" + what)
    elif what == "remove_demand":
        R(PlannerException, lambda: t.remove_demand_site("nowhere"),
          "bad-" + what)
    elif what == "add_sector":
        sec = Sector(g, 0, 0, 0.0, sector_status_for(g.status_type, rng))
        R(PlannerException, lambda: t.add_sector(sec), "bad-" + what)
    elif what in ("add_link", "from_ids"):
        if not inside:
            return None, None
        o = rng.choice(inside)
        a, b = (g, o) if g.site_type != CN and rng.random() < .5 else (o, g)
        if a.site_type == CN:
            a, b = b, a
        if a.site_type == CN:
            return None, None
        if what == "from_ids":
            R(PlannerException, lambda: t.add_link_from_site_ids(
                a.site_id, b.site_id), "bad-" + what)
        else:
            st = [x for x in ALL_STATUS
                  if link_status_ok(a.status_type, b.status_type, x)]
            if not st:
                return None, None
            k = Link(a, b, status_type=st[0])
            R(PlannerException, lambda: t.add_link(k), "bad-" + what)
    else:
        o = rng.choice(inside).site_id if inside else "x"
        R(PlannerException, lambda: t.get_link_by_site_ids(g.site_id, o),
          "bad-lookup")
        R(PlannerException, lambda: t.get_link_by_site_ids(o, g.site_id),
          "bad-lookup")
        R(PlannerException, lambda: t.get_successor_sites(g), "bad-lookup")
        R(PlannerException, lambda: t.get_predecessor_sites(g), "bad-lookup")
        R(PlannerException, lambda: t.get_wireless_predecessor_sites(g),
          "bad-lookup")
        R(PlannerException, lambda: t.get_link_by_sector_ids("q", "r"),
          "bad-lookup")
        if m.sectors:
            k = rng.choice(sorted(m.sectors))
            R(PlannerException, lambda: t.get_link_by_sector_ids(k, "r"),
              "bad-lookup")
            R(PlannerException, lambda: t.get_link_by_sector_ids("r", k),
              "bad-lookup")
    return "bad_" + what, "raised"


@check.part(quick=360, thorough=1500, share=1, need={"built": 20})
def constructor(ctx, rng):
    """Building from iterables equals building by additions."""
    xy = [(400000.0 + rng.randint(0, 900), 1e6 + rng.randint(0, 900))
          for _ in range(rng.randint(2, 9))]
    sites, secs, links, dem = {}, {}, {}, {}
    for p in xy:
        s = new_site(rng, [p])
        sites[s.site_id] = s
    for s in sites.values():
        for n in range(rng.randint(0, 3)):
            sec = Sector(s, n, 0, rng.uniform(0, 360),
                         sector_status_for(s.status_type, rng))
            secs[sec.sector_id] = sec
    for a in sites.values():
        for b in sites.values():
            if a is b or a.site_type == CN or rng.random() < .4:
                continue
            k = new_link(rng, a, b,
                         [v for v in secs.values() if v.site is a],
                         [v for v in secs.values() if v.site is b])
            if k:
                links[k.link_id] = k
    for p in xy[:3]:
        ds = DemandSite(GeoLocation(utm_x=p[0], utm_y=p[1], utm_epsg=EPSG))
        dem[ds.demand_id] = ds
    t = Topology(iter(sites.values()), dem.values(), secs.values(),
                 links.values())
    m = Model()
    m.sites, m.sectors, m.demands = dict(sites), dict(secs), dict(dem)
    m.links = {k: (v, v.tx_site.site_id, v.rx_site.site_id,
                   v.tx_sector.sector_id if v.tx_sector else None,
                   v.rx_sector.sector_id if v.rx_sector else None)
               for k, v in links.items()}
    compare(ctx, t, m, "construction", rng, True)
    ctx.count("built")
    ctx.nontrivial(len(sites), len(secs), len(links))


if __name__ == "__main__":
    check.run()
