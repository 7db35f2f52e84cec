"""C02 status rules over assignment histories and construction."""
import math

from vmon import Check
import tg
from tg import *  # noqa
from terragraph_planner.common.exceptions import (
    ConfigException, PlannerException, TopologyException,
)
from terragraph_planner.common.topology_models.site import DetectedSite

check = Check(
    "C02",
    rule="histories: 30-150 attempted status assignments on a random small "
         "topology, each judged against the rule table and the whole state "
         "compared afterwards; matrices: every (type, status) combination at "
         "construction and assignment; non-trivial = distinct sequence of "
         "(element kind, old, new, accepted)",
    assumptions=["the status rules are those of the setters' documentation; a "
                 "link joining an unavailable and an unreachable site has no "
                 "legal status"],
)
DN_D, CN_D = dn_device(), cn_device()


def dev(st):
    return CN_D if st == CN else DN_D


def mk(st, status, i=0, **k):
    return make_site(st, 400000.0 + 37 * i, 1e6 + 11 * i, dev(st), status, **k)


def state(sites, secs, links):
    return ([s.status_type for s in sites], [s.status_type for s in secs],
            [k.status_type for k in links])


@check.part(quick=5000, thorough=20000, share=2,
            need={"accepted": 100, "refused": 100})
def histories(ctx, rng):
    n = rng.randint(2, 5)
    sites = [mk(rng.choice([CN, DN, DN, POP]), rng.choice(ALL_STATUS), i)
             for i in range(n)]
    secs, links = [], []
    for s in sites:
        for k in range(rng.randint(0, 2)):
            secs.append(Sector(s, k, 0, 10.0 * k,
                               sector_status_for(s.status_type, rng)))
    for a in sites:
        for b in sites:
            if a is b or a.site_type == CN or rng.random() < .3:
                continue
            ok = [x for x in ALL_STATUS
                  if link_status_ok(a.status_type, b.status_type, x)]
            if ok:
                sa = [x for x in secs if x.site is a]
                sb = [x for x in secs if x.site is b]
                if sa and sb and rng.random() < .5:
                    links.append(Link(tx_sector=sa[0], rx_sector=sb[0],
                                      status_type=rng.choice(ok)))
                else:
                    links.append(Link(a, b, status_type=rng.choice(ok),
                                      is_wireless=rng.random() < .8))
    t = Topology(sites, (), secs, links)
    want = state(sites, secs, links)
    hist = []
    fixed = {}
    for _ in range(rng.randint(30, 150)):
        kind = rng.choice([0, 1, 2, 2])
        objs = (sites, secs, links)[kind]
        if not objs:
            continue
        i = rng.randrange(len(objs))
        o = objs[i]
        old = want[kind][i]
        new = rng.choice(ALL_STATUS)
        ok = site_change_ok(old, new)
        if kind == 1:
            ok = ok and sector_status_ok(
                want[0][sites.index(o.site)], new)
        elif kind == 2:
            ok = ok and link_status_ok(
                want[0][sites.index(o.tx_site)],
                want[0][sites.index(o.rx_site)], new)
        try:
            o.status_type = new
            got = True
        except TopologyException:
            got = False
        hist.append((kind, old.name, new.name, got))
        name = ("site", "sector", "link")[kind]
        ctx.check_that(
            got == ok, f"{name}-status-{'accepted' if got else 'refused'}",
            lambda: f"{old} -> {new}; history {hist[-8:]}; state {want}")
        if ok:
            want[kind][i] = new
        ctx.count("accepted" if got else "refused")
        ctx.check_that(state(sites, secs, links) == want,
                       "state-after-assignment",
                       lambda: f"{hist[-1]}: {state(sites, secs, links)} "
                               f"instead of {want}")
        if ctx.violations:
            return
    # the fixed ones never moved: want only changes by legal moves, and the
    # lists by status agree with the individual elements
    for st in ALL_STATUS:
        ctx.check_that(
            t.get_site_ids(status_filter={st}) ==
            {s.site_id for s in sites if s.status_type == st},
            "site-list-by-status", st)
    del fixed
    ctx.nontrivial(tuple(hist))
    ctx.sample(hist[:20])


@check.part(once=True)
def construction_matrix(ctx, rng):
    """Every status at construction of sectors and links."""
    types = [CN, DN, POP]
    for st in types:
        for ss in ALL_STATUS:
            for x in ALL_STATUS:
                site = mk(st, ss)
                ok = sector_status_ok(ss, x)
                try:
                    sec = Sector(site, 0, 0, 0.0, x)
                    got = True
                    ctx.check_that(
                        sec.status_type == x and sec.site is site,
                        "sector-construction-value", (st, ss, x))
                except TopologyException:
                    got = False
                ctx.check_that(got == ok, "sector-construction", (st, ss, x))
                ctx.nontrivial("sector", st.name, ss.name, x.name)
    for ta in types:
        for tb in types:
            for sa in ALL_STATUS:
                for sb in ALL_STATUS:
                    for x in ALL_STATUS:
                        for w in (True, False):
                            a, b = mk(ta, sa, 0), mk(tb, sb, 1)
                            ok = ta != CN and link_status_ok(sa, sb, x)
                            try:
                                k = Link(a, b, status_type=x, is_wireless=w)
                                got = True
                                lt = LinkType.ETHERNET if not w else (
                                    LinkType.WIRELESS_ACCESS if tb == CN
                                    else LinkType.WIRELESS_BACKHAUL)
                                ctx.check_that(k.status_type == x and
                                               k.link_type == lt and
                                               k.link_type.is_wireless() == w,
                                               "link-construction-value",
                                               (ta, tb, sa, sb, x, w))
                            except TopologyException:
                                got = False
                            ctx.check_that(got == ok, "link-construction",
                                           (ta, tb, sa, sb, x, w, got))
                            ctx.nontrivial("link", ta.name, tb.name, sa.name,
                                           sb.name, x.name, w)
    ctx.sample("all 3x5x5 sector and 3x3x5x5x5x2 link constructions")


@check.part(once=True)
def assignment_matrix(ctx, rng):
    """Every single-step transition of every element kind."""
    for old in ALL_STATUS:
        for new in ALL_STATUS:
            for st in (CN, DN, POP):
                s = mk(st, old)
                try:
                    s.status_type = new
                    got = True
                except TopologyException:
                    got = False
                ctx.check_that(got == site_change_ok(old, new) and
                               s.status_type == (new if got else old),
                               "site-transition", (st, old, new, got))
            for ss in ALL_STATUS:
                if not sector_status_ok(ss, old):
                    continue
                sec = Sector(mk(DN, ss), 0, 0, 0.0, old)
                try:
                    sec.status_type = new
                    got = True
                except TopologyException:
                    got = False
                ctx.check_that(
                    got == (site_change_ok(old, new)
                            and sector_status_ok(ss, new))
                    and sec.status_type == (new if got else old),
                    "sector-transition", (ss, old, new, got))
            for sa in ALL_STATUS:
                for sb in ALL_STATUS:
                    if not link_status_ok(sa, sb, old):
                        continue
                    k = Link(mk(DN, sa), mk(DN, sb, 1), status_type=old)
                    try:
                        k.status_type = new
                        got = True
                    except TopologyException:
                        got = False
                    ctx.check_that(
                        got == (site_change_ok(old, new)
                                and link_status_ok(sa, sb, new))
                        and k.status_type == (new if got else old),
                        "link-transition", (sa, sb, old, new, got))
                    ctx.nontrivial("t", sa.name, sb.name, old.name, new.name)
    E = StatusType
    ctx.check_that(E.active_status() == {PROPOSED, EXISTING}, "predicate",
                   "active")
    ctx.check_that(E.inactive_status() == {UNAVAILABLE, UNREACHABLE},
                   "predicate", "inactive")
    ctx.check_that(E.immutable_status() == {EXISTING, UNAVAILABLE},
                   "predicate", "immutable")
    ctx.check_that(E.reachable_status() == {PROPOSED, EXISTING, CANDIDATE},
                   "predicate", "reachable")
    ctx.check_that(SiteType.dist_site_types() == {DN, POP}, "predicate",
                   "dist types")
    for e in (StatusType, SiteType, LinkType, LocationType, PolarityType,
              SectorType, DeviceType):
        for v in e:
            ctx.check_that(
                e.from_string(v.to_string()) is v and
                e.from_string(v.to_string().lower()) is v and
                e.from_string(v.value) is v, "enum-text", v)
    ctx.sample("all single-step transitions")


@check.part(quick=3000, thorough=6000, share=1, need={"made": 100})
def element_rules(ctx, rng):
    """Rules tying type, device, location and building, and derived values."""
    st = rng.choice([CN, DN, POP])
    d = rng.choice([CN_D, DN_D])
    loc = rng.choice(list(LocationType))
    b = rng.choice([None, None, -1, 0, 7])
    name = rng.choice(["", "", "x", "A-1"])
    subs = rng.choice([None, 0, 1, 5])
    status = rng.choice(ALL_STATUS)
    x, y = rng.uniform(3e5, 7e5), rng.uniform(1e5, 5e6)
    alt = rng.choice([None, 0.0, rng.uniform(-50, 500)])
    ok = ((loc == LocationType.ROOFTOP) == (b is not None)) and \
        ((st == CN) == (d.device_type == DeviceType.CN))
    try:
        s = make_site(st, x, y, d, status, alt=alt, name=name, loc=loc,
                      building=b, subs=subs)
        got = True
    except TopologyException:
        got = False
    ctx.check_that(got == ok, "site-construction", (st, d.device_sku, loc, b))
    ctx.count("made")
    ctx.nontrivial(st.name, d.device_sku, loc.name, b, name, subs, status.name)
    if not got:
        return
    C = ctx.check_that
    C(s.name == (name or s.site_id), "site-name", name)
    C(s.number_of_subscribers == ((subs or 1) if st == CN else 0),
      "subscribers", (st, subs))
    C(s.status_type == status and s.site_type == st and s.device is d and
      s.location_type == loc and s.building_id == b and s.altitude == alt,
      "site-values", status)
    twin = make_site(st, x, y, d, rng.choice(ALL_STATUS), alt=alt, name="zz",
                     loc=loc, building=b)
    C(twin.site_id == s.site_id, "site-id-stable", s.site_id)
    other = make_site(st, x + rng.choice([-1, 1]) * rng.uniform(.5, 9), y, d,
                      status, alt=alt, loc=loc, building=b)
    C(other.site_id != s.site_id, "site-id-distinct", s.site_id)
    alt2 = make_site(st, x, y, d, status, alt=(alt or 0.0) + 1.5, loc=loc,
                     building=b)
    C(alt2.site_id != s.site_id, "site-id-distinct", "altitude")
    if st != CN:
        p = make_site(POP if st == DN else DN, x, y, d, status, alt=alt,
                      loc=loc, building=b)
        C(p.site_id != s.site_id, "site-id-distinct", "type")
        C(p.site_hash == s.site_hash, "site-hash", "same place")
        q = make_site(st, x, y, dn_device("OTHER"), status, alt=alt, loc=loc,
                      building=b)
        C(q.site_id != s.site_id, "site-id-distinct", "device")
    # detected sites
    det = DetectedSite(st, s.location, 3)
    made = det.to_site(d)
    C(det.device is None and made.device is d and made.site_type == st and
      made.building_id == 3 and made.status_type == CANDIDATE and
      made.location_type == LocationType.ROOFTOP, "detected-site", st)
    ctx.expect_raises(TopologyException,
                      lambda: Topology(sites=[det]), "detected-site-accepted")
    # sectors
    ss = sector_status_for(status, rng)
    node, pos, az = rng.randint(0, 3), rng.randint(0, 2), rng.uniform(0, 360)
    ch = rng.choice([-1, 0, 3])
    sec = Sector(s, node, pos, az, ss, ch)
    C(sec.sector_type == (SectorType.CN if st == CN else SectorType.DN) and
      sec.node_id == node and sec.position_in_node == pos and
      sec.ant_azimuth == az and sec.channel == ch and
      sec.node_capex == d.node_capex, "sector-values", sec.sector_id)
    ids = {Sector(s, n, p, 0.0, ss).sector_id
           for n in range(3) for p in range(3)}
    C(len(ids) == 9, "sector-ids-distinct", ids)
    # links
    o = make_site(DN, x + 150, y + 20, DN_D, status, alt=rng.choice(
        [None, 5.0]))
    lst = [z for z in ALL_STATUS if link_status_ok(status, status, z)]
    ls = rng.choice(lst)
    k = Link(o, s, status_type=ls)
    C(k.tx_site is o and k.rx_site is s and k.is_out_of_sector() and
      k.tx_sector is None and k.rx_sector is None and k.tx_dev is None and
      k.rx_dev is None, "link-values", k.link_id)
    so = Sector(o, 0, 0, 0.0, sector_status_for(status, rng))
    for args in ((so, None), (None, sec)):
        ctx.expect_raises(
            TopologyException,
            lambda: Link(o, s, args[0], args[1], status_type=ls),
            "half-sectored-link-accepted", args)
    ctx.expect_raises(TopologyException,
                      lambda: Link(o, s, sec, so, status_type=ls),
                      "foreign-sector-accepted")
    ctx.expect_raises(TopologyException, lambda: Link(None, s),
                      "link-without-end-accepted")
    ctx.expect_raises(TopologyException, lambda: Link(o, None),
                      "link-without-end-accepted")
    k2 = Link(tx_sector=so, rx_sector=sec, status_type=ls)
    C(k2.link_id == k.link_id and not k2.is_out_of_sector() and
      k2.tx_site is o and k2.rx_site is s, "link-from-sectors", k2.link_id)

    def bad_set():
        k2.tx_sector = sec
    ctx.expect_raises(TopologyException, bad_set, "foreign-sector-set")

    def bad_set2():
        k2.rx_sector = so
    ctx.expect_raises(TopologyException, bad_set2, "foreign-sector-set")
    C(k2.tx_sector is so and k2.rx_sector is sec, "refused-set-changed", "")
    # channel of a link: only when active, both sectors must agree
    so.channel, sec.channel = 2, 2
    C(k2.link_channel == (2 if ls in ACTIVE else -1), "link-channel", ls)
    C(k.link_channel == -1, "link-channel", "sectorless")
    if ls in ACTIVE:
        sec.channel = 1
        ctx.expect_raises(TopologyException, lambda: k2.link_channel,
                          "channel-mismatch-accepted")
    k2.clear_sectors()
    C(k2.is_out_of_sector(), "clear-sectors", "")
    C(k.capacity == 0 and k.mcs_level == 0 and k.rsl_dbm == -math.inf,
      "fresh-link-budget", k.link_id)


if __name__ == "__main__":
    check.run()
