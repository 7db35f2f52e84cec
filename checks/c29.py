"""C29: the whole optimization, from candidate network to report."""
import csv
import itertools
import os

import yaml

from nets import walk, edges, served, inst
from tg import *  # noqa
from vmon import Check, Skip

from terragraph_planner.common.configuration.enums import (
    RedundancyLevel, TopologyRouting,
)
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.exceptions import (
    OptimizerException, PlannerException,
)
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.optimization import topology_optimization as to
from terragraph_planner.optimization.structs import OptimizationSolution

check = Check(
    "C29",
    rule="random candidate networks (standing, unavailable and co-located "
         "sites, wired links, every demand model, channels, both redundancy "
         "methods, extra POPs) are planned and reported by the real program "
         "and the plan, tables, metrics and files are audited; random "
         "decisions are written into random networks; non-trivial = distinct "
         "plans",
    assumptions=[
        "scipy's HiGHS stands in for the commercial solver",
        "networks of at most 8 sites",
    ])
U = PolarityType.UNASSIGNED


# ------------------------------------------- writing a decision into a plan
def decided(rng):
    """A network with a random state and a random consistent decision."""
    n = rng.randint(2, 9)
    dn, cn = dn_device(), cn_device()
    theme = rng.choice([.2, .5])
    sites = []
    for i in range(n):
        ty = POP if i == 0 else rng.choice([DN] * 5 + [CN] * 3 + [POP])
        st = rng.choice([EXISTING, UNAVAILABLE, UNREACHABLE, PROPOSED,
                         EXISTING]) if rng.random() < theme else CANDIDATE
        sites.append(make_site(
            ty, 5e5 + rng.uniform(0, 900), 1e6 + rng.uniform(0, 900),
            cn if ty == CN else dn, st, alt=0.0,
            sid=f"{rng.choice('abcxyz')}{i}"))
    t = Topology(sites=sites)
    for s in sites:
        if s.site_type != CN and rng.random() < .15:
            continue            # only wired links here
        for j in range(1 if s.site_type == CN else rng.randint(1, 3)):
            ok = [x for x in ALL_STATUS if sector_status_ok(s.status_type, x)]
            if s.status_type == PROPOSED:
                ok.remove(EXISTING)
            t.add_sector(Sector(s, j, 0, 90.0 * j, rng.choice(ok)))
    secs = {s.site_id: [x for x in t.sectors.values() if x.site is s]
            for s in sites}
    dense = rng.choice([.15, .3, .6])
    for a, b in itertools.combinations(sites, 2):
        if a.site_type == b.site_type == CN or rng.random() > dense:
            continue
        ok = [x for x in ALL_STATUS
              if link_status_ok(a.status_type, b.status_type, x)]
        if not ok:
            continue
        wired = CN not in (a.site_type, b.site_type) and (
            rng.random() < .2 or not (secs[a.site_id] and secs[b.site_id]))
        x = y = None
        if not wired:
            if not (secs[a.site_id] and secs[b.site_id]):
                continue
            x, y = rng.choice(secs[a.site_id]), rng.choice(secs[b.site_id])
            if EXISTING in ok and not x.status_type == y.status_type == \
                    EXISTING:
                ok.remove(EXISTING)
            if PROPOSED in ok and not {x.status_type, y.status_type} <= ACTIVE:
                ok.remove(PROPOSED)
            if not ok:
                continue
        st = CANDIDATE if CANDIDATE in ok and rng.random() < .7 \
            else rng.choice(ok)
        for p, q, u, v in ((a, b, x, y), (b, a, y, x)):
            if p.site_type != CN:
                t.add_link(Link(p, q, u, v, status_type=st,
                                is_wireless=not wired))
    keen = rng.choice([.3, .7, .95])
    site = {}
    for s in sites:
        v = rng.random() < keen
        if s.status_type == EXISTING:
            v = rng.random() < .9
        if s.status_type in (UNAVAILABLE, UNREACHABLE):
            v = rng.random() < .1       # must not matter
        if v or rng.random() < .5:
            site[s.site_id] = int(v)
    up = {s.site_id for s in sites if s.status_type == EXISTING or (
        s.status_type not in (UNAVAILABLE, UNREACHABLE)
        and site.get(s.site_id))}
    link, need = {}, set()
    for l in t.links.values():
        e = (l.tx_site.site_id, l.rx_site.site_id)
        if e[::-1] in link:
            v = link[e[::-1]]
        else:
            v = int(set(e) <= up and rng.random() < keen)
        link[e] = v
        if v and l.tx_sector is not None or l.status_type == EXISTING and \
                l.tx_sector is not None:
            need |= {l.tx_sector.sector_id, l.rx_sector.sector_id}
    sector, chan = {}, {}
    nch = rng.choice([1, 3])
    for k, s in t.sectors.items():
        v = int(k in need or (s.site.site_id in up and rng.random() < .2))
        if v or rng.random() < .5:
            sector[(s.site.site_id, k)] = v
        if rng.random() < .8:
            chan[(s.site.site_id, k)] = rng.randrange(nch) if v else -1
    odd, even = {}, {}
    for s in sites:
        if s.site_type != CN and site.get(s.site_id):
            v = rng.random() < .5
            odd[s.site_id], even[s.site_id] = int(v), int(not v)
    return t, OptimizationSolution(
        site_decisions=site, sector_decisions=sector, link_decisions=link,
        odd_site_decisions=odd, even_site_decisions=even,
        channel_decisions=chan, flow_decisions={}, tdm_decisions={},
        shortage_decisions={}, objective_value=0.0, cost=0)


def become(old, want):
    if old in (EXISTING, UNAVAILABLE, UNREACHABLE):
        return old
    return PROPOSED if want else CANDIDATE


def legal(ctx, t, what):
    for s in t.sectors.values():
        ctx.check_that(sector_status_ok(s.site.status_type, s.status_type),
                       "sector-status", lambda: f"{s.sector_id}\n{what()}")
    for k, l in t.links.items():
        ctx.check_that(link_status_ok(l.tx_site.status_type,
                                      l.rx_site.status_type, l.status_type),
                       "link-status", lambda: f"{k}\n{what()}")
        if l.status_type in ACTIVE and l.tx_sector is not None:
            ctx.check_that(
                {l.tx_sector.status_type, l.rx_sector.status_type} <= ACTIVE,
                "link-without-sector", lambda: f"{k}\n{what()}")


@check.part(quick=6000, thorough=250000, share=.4,
            need={"cut off": 1000, "changed": 3000, "standing": 2000,
                  "cut off links": 200, "standing cut off": 300})
def written(ctx, rng):
    """Decisions become statuses, polarities and channels."""
    t, sol = decided(rng)
    before = inst(t) + str([(k, s.status_type.name)
                            for k, s in t.sectors.items()])
    text = f"{before}\n{sol}"
    what = lambda: text  # noqa
    site = {k: become(s.status_type, sol.site_decisions.get(k, 0))
            for k, s in t.sites.items()}
    sec = {k: become(s.status_type, sol.sector_decisions.get(
        (s.site.site_id, k), 0)) for k, s in t.sectors.items()}
    link = {k: become(l.status_type, sol.link_decisions.get(
        (l.tx_site.site_id, l.rx_site.site_id), 0))
        for k, l in t.links.items()}
    # whatever no POP in use reaches over links in use is given up
    seen = {k for k, s in t.sites.items()
            if s.site_type == POP and site[k] in ACTIVE}
    grow = True
    while grow:
        grow = False
        for k, l in t.links.items():
            a, b = l.tx_site.site_id, l.rx_site.site_id
            if link[k] in ACTIVE and a in seen and b not in seen and \
                    site[b] in ACTIVE:
                seen.add(b)
                grow = True
    drop = lambda x: CANDIDATE if x == PROPOSED else x  # noqa
    for k, s in t.sites.items():
        if k not in seen:
            ctx.count("cut off", site[k] == PROPOSED)
            ctx.count("standing cut off", site[k] == EXISTING)
            site[k] = drop(site[k])
    for k, s in t.sectors.items():
        if s.site.site_id not in seen:
            sec[k] = drop(sec[k])
    for k, l in t.links.items():
        if l.tx_site.site_id not in seen or l.rx_site.site_id not in seen:
            ctx.count("cut off links", link[k] == PROPOSED)
            link[k] = drop(link[k])
    old = {k: s.status_type for k, s in t.sites.items()}
    to.update_topology_with_solution(sol, t)
    for k, s in t.sites.items():
        ctx.check_that(s.status_type == site[k], "site-status",
                       lambda: f"{k} {s.status_type} want {site[k]}\n{text}")
        ctx.count("changed", s.status_type != old[k])
        ctx.count("standing", old[k] == EXISTING)
        if s.status_type in ACTIVE:
            pol = (PolarityType.ODD if sol.odd_site_decisions.get(k) else
                   PolarityType.EVEN if sol.even_site_decisions.get(k) else U)
            ctx.check_that(s.polarity == pol, "polarity",
                           lambda: f"{k} {s.polarity} want {pol}\n{text}")
    for k, s in t.sectors.items():
        ctx.check_that(s.status_type == sec[k], "sector-decision",
                       lambda: f"{k} {s.status_type} want {sec[k]}\n{text}")
        if s.status_type in ACTIVE:
            c = sol.channel_decisions.get((s.site.site_id, k), -1)
            ctx.check_that(s.channel == c, "channel",
                           lambda: f"{k} {s.channel} want {c}\n{text}")
    for k, l in t.links.items():
        ctx.check_that(l.status_type == link[k], "link-decision",
                       lambda: f"{k} {l.status_type} want {link[k]}\n{text}")
    legal(ctx, t, what)
    ctx.nontrivial(text)


# ------------------------------------------------------------ whole planner
def world(rng, old_links=False):
    layout = rng.choice([(4, 1, 90.0), (4, 1, 70.0), (2, 2, 90.0),
                         (3, 1, 120.0), (1, 1, 360.0)])
    dn = dn_device("D", nodes=layout[0], sectors=layout[1], scan=layout[2],
                   capex=rng.choice([0.0, 250.0, 900.0]))
    cn = cn_device("C", scan=rng.choice([70.0, 360.0]))
    theme = "mixed" if old_links else rng.choice(
        ["plain", "plain", "built", "mixed"])
    n = rng.randint(3, 8)
    sites, shared = [], False
    size = rng.choice([120, 250])
    for i in range(n):
        ty = POP if i == 0 else rng.choice([DN] * 4 + [CN] * 4 + [POP])
        st = CANDIDATE
        if theme != "plain":
            st = rng.choice([CANDIDATE] * 5 + [EXISTING] * 2 + (
                [UNAVAILABLE, PROPOSED] if theme == "mixed" else []))
        if i == 0 and st == UNAVAILABLE:
            st = CANDIDATE
        while True:
            x, y = 5e5 + rng.uniform(0, size), 1e6 + rng.uniform(0, size)
            if all(math.hypot(x - s.utm_x, y - s.utm_y) > 15 for s in sites):
                break
        if ty == DN and rng.random() < .08 and any(
                s.site_type == CN and s.status_type == CANDIDATE
                for s in sites) and st == CANDIDATE and not shared:
            c = rng.choice([s for s in sites if s.site_type == CN
                            and s.status_type == CANDIDATE])
            x, y = c.utm_x, c.utm_y
            shared = True
        sites.append(make_site(
            ty, x, y, cn if ty == CN else dn, st, alt=10.0,
            sid=f"{rng.choice('abcxyz')}{i}", name=f"n{i}",
            subs=rng.choice([None, None, 1, 3]) if ty == CN else None))
    t = Topology(sites=sites)
    dense = rng.choice([.4, .7, 1.0])
    for a, b in itertools.combinations(sites, 2):
        if a.site_type == b.site_type == CN or rng.random() > dense or \
                (a.utm_x, a.utm_y) == (b.utm_x, b.utm_y):
            continue
        wired = CN not in (a.site_type, b.site_type) and rng.random() < .12
        st = CANDIDATE
        if UNAVAILABLE in (a.status_type, b.status_type):
            st = UNAVAILABLE
        elif rng.random() < .05:
            st = UNAVAILABLE
        elif wired and a.status_type == b.status_type == EXISTING and \
                rng.random() < .5:
            st = EXISTING
        if old_links and not wired and st == CANDIDATE and \
                {a.status_type, b.status_type} <= ACTIVE and \
                rng.random() < .7:
            st = EXISTING if a.status_type == b.status_type == EXISTING \
                and rng.random() < .7 else PROPOSED
        for p, q in ((a, b), (b, a)):
            if p.site_type != CN:
                t.add_link(Link(p, q, status_type=st, is_wireless=not wired,
                                confidence_level=None if wired else 1.0))
    p = OptimizerParams(
        device_list=[dn, cn],
        pop_capacity=rng.choice([10.0, 10.0, 1.0]),
        budget=rng.choice([3e5, 3e5, 8000.0, 1.0]),
        number_of_channels=rng.choice([1, 1, 2]),
        maximize_common_bandwidth=rng.random() < .25,
        always_active_pops=rng.random() < .6,
        enable_legacy_redundancy_method=rng.random() < .5,
        redundancy_level=rng.choice(list(RedundancyLevel)),
        backhaul_link_redundancy_ratio=rng.choice([.2, 0.0, 1.0]),
        number_of_extra_pops=rng.choice([0, 0, 0, 0, 1, 2]),
        maximum_number_hops=rng.choice([15, 15, 2]),
        dn_dn_sector_limit=rng.choice([2, 2, 1]),
        demand=rng.choice([.025, .1, .6]),
        oversubscription=rng.choice([1.0, 4.0]),
        topology_routing=rng.choice([None, None] + list(TopologyRouting)),
        availability_sim_time=rng.choice([0, 2.0]),
        min_cost_rel_stop=-1, redundancy_rel_stop=-1)
    x = rng.random()
    if x < .2:
        p.enable_uniform_demand = True
        p.demand_spacing, p.demand_connection_radius = size / 2, size / 2
        p.enable_cn_demand = rng.random() < .5
    return t, p


def look(t):
    return ({k: (s.site_type, s.status_type, s.name, s.longitude, s.latitude)
             for k, s in t.sites.items()},
            {k: (l.status_type, l.is_wireless) for k, l in t.links.items()})


def describe(t, p):
    keys = ("budget number_of_channels maximize_common_bandwidth pop_capacity "
            "always_active_pops enable_legacy_redundancy_method demand "
            "redundancy_level backhaul_link_redundancy_ratio "
            "number_of_extra_pops maximum_number_hops dn_dn_sector_limit "
            "topology_routing enable_uniform_demand enable_cn_demand").split()
    return str({k: getattr(p, k) for k in keys}) + "\n" + "\n".join(
        f"{k} {s.site_type.name} {s.status_type.name} {s.utm_x:.0f} "
        f"{s.utm_y:.0f}" for k, s in t.sites.items()) + "\n" + "\n".join(
        f"{k} {l.status_type.name} {l.link_type.name}"
        for k, l in t.links.items())


def planned_world(ctx, t, p):
    current_system_params.output_dir = ctx.scratch
    current_system_params.debug_mode = False
    to.optimize_and_report_topology(t, p)
    return os.path.join(ctx.scratch, "output")


# plans the program declines to make, for lack of links, POPs or demand
DECLINED = ("infeasible", "Insufficient number of POPs", "capacity outgoing",
            "capacity incoming", "no CNs", "contain at least one POP",
            "horizontal scan range")


@check.part(quick=260, thorough=6000, share=2,
            need={"planned": 30, "links in use": 80, "standing": 20,
                  "channels": 8, "legacy": 8, "redundant": 8})
def whole(ctx, rng):
    t, p = world(rng)
    text = describe(t, p)
    what = lambda: text  # noqa
    was = look(t)
    try:
        out = planned_world(ctx, t, p)
    except PlannerException as e:
        ctx.count("declined")
        if not any(x in str(e) for x in DECLINED):
            raise
        ctx.count("declined: " + str(e)[:40])
        return
    ctx.count("planned")
    audit(ctx, t, p, was, out, what)
    ctx.nontrivial(text)
    ctx.sample({"network": text})


@check.part(quick=40, thorough=600, share=.3, need={"standing links": 2})
def standing_links(ctx, rng):
    """Networks that already have wireless links."""
    t, p = world(rng, True)
    kinds = {l.status_type for l in t.links.values()
             if l.is_wireless} & ACTIVE
    if not kinds:
        raise Skip()
    ctx.count("standing links")
    text = describe(t, p)
    was = look(t)
    try:
        out = planned_world(ctx, t, p)
    except PlannerException as e:
        if any(x in str(e) for x in DECLINED):
            return
        if EXISTING in kinds and "connected to existing sectors" in str(e):
            ctx.violate("existing-wireless-link", f"{e}\n{text}")
            return
        if PROPOSED in kinds and "connected to active sectors" in str(e):
            ctx.violate("planned-wireless-link", f"{e}\n{text}")
            return
        raise
    audit(ctx, t, p, was, out, lambda: text)
    ctx.nontrivial(text)


def audit(ctx, t, p, was, out, what):
    ctx.count("legacy" if p.enable_legacy_redundancy_method else "redundant")
    now = look(t)
    extra = set(now[0]) - set(was[0])
    ctx.check_that(set(was[0]) <= set(now[0])
                   and len(extra) <= p.number_of_extra_pops,
                   "sites", lambda: f"{extra}\n{what()}")
    for k in extra:
        s = t.sites[k]
        ctx.count("extra POPs")
        ctx.check_that(s.site_type == POP and any(
            o.site_type == DN and (o.longitude, o.latitude) == (
                s.longitude, s.latitude) for o in t.sites.values()),
            "extra-pop", what)
    ctx.check_that(set(was[1]) <= set(now[1]), "links", what)
    for k, o in was[0].items():
        c = now[0][k]
        ctx.check_that(o[0] == c[0] and o[2:] == c[2:], "site-changed", what)
        if o[1] in (EXISTING, UNAVAILABLE):
            ctx.count("standing")
            ctx.check_that(c[1] == o[1], "site-status", what)
        else:
            ctx.check_that(c[1] in (CANDIDATE, PROPOSED, UNREACHABLE),
                           "site-status", what)
    for k, o in was[1].items():
        c = now[1][k]
        ctx.check_that(o[1] == c[1], "link-changed", what)
        if o[0] in (EXISTING, UNAVAILABLE):
            ctx.check_that(c[0] == o[0], "link-kept", lambda: f"{k}\n{what()}")
        else:
            ctx.check_that(c[0] in (CANDIDATE, PROPOSED, UNREACHABLE),
                           "link-kept", lambda: f"{k}\n{what()}")
    legal(ctx, t, what)
    es = edges(t, ACTIVE)
    hop = walk(t, ACTIVE, es)
    for k, s in t.sites.items():
        if s.status_type == PROPOSED:
            ctx.check_that(k in hop, "stranded-site",
                           lambda: f"{k}\n{what()}")
    into = {}
    for (a, b), l in es.items():
        ctx.count("links in use")
        if l.status_type == PROPOSED:
            ctx.check_that(a in hop and b in hop, "stranded-link",
                           lambda: f"{a}>{b}\n{what()}")
        r = t.get_link_by_site_ids(b, a)
        if r is not None:
            ctx.check_that(r.status_type == l.status_type, "one-way-status",
                           lambda: f"{a}>{b}\n{what()}")
        if not l.is_wireless:
            continue
        ctx.check_that(l.tx_sector is not None, "link-without-sector",
                       lambda: f"{a}>{b}\n{what()}")
        if p.number_of_channels > 1:
            ctx.count("channels")
        ctx.check_that(
            0 <= l.tx_sector.channel < p.number_of_channels
            and l.tx_sector.channel == l.rx_sector.channel, "link-channel",
            lambda: f"{a}>{b} {l.tx_sector.channel} {l.rx_sector.channel}\n"
                    f"{what()}")
        if l.rx_site.site_type == CN:
            into[b] = into.get(b, 0) + 1
        else:
            ctx.check_that(
                {l.tx_site.polarity, l.rx_site.polarity}
                == {PolarityType.ODD, PolarityType.EVEN}, "polarity",
                lambda: f"{a}>{b}\n{what()}")
    ctx.check_that(all(v == 1 for v in into.values()), "cn-served-twice",
                   lambda: f"{into}\n{what()}")
    places = {}
    for k, s in t.sites.items():
        if s.status_type in ACTIVE:
            places.setdefault((s.longitude, s.latitude, s.altitude),
                              []).append(k)
    for v in places.values():
        ctx.check_that(len([k for k in v if t.sites[k].status_type
                            == PROPOSED]) <= 1, "two-in-one-place",
                       lambda: f"{v}\n{what()}")
    # price
    price = {POP: p.pop_site_capex, DN: p.dn_site_capex, CN: p.cn_site_capex}
    new = sum(price[s.site_type] for s in t.sites.values()
              if s.status_type == PROPOSED)
    old = sum(price[s.site_type] for s in t.sites.values()
              if s.status_type == EXISTING)
    nodes = {}
    for s in t.sectors.values():
        if s.status_type in ACTIVE:
            nodes[(s.site.site_id, s.node_id)] = s
    for s in nodes.values():
        if s.status_type == PROPOSED:
            new += s.site.device.node_capex
        else:
            old += s.site.device.node_capex
    with open(os.path.join(out, "metrics.yaml")) as f:
        m = yaml.unsafe_load(f)
    ctx.close(m["capex"]["proposed_capex"], new, "capex", what,
              abs_tol=1e-6)
    ctx.close(m["capex"]["total_capex"], new + old, "capex", what,
              abs_tol=1e-6)
    act = [s for s in t.sites.values() if s.status_type in ACTIVE]
    for key, n in (
            ("active_sites", len(act)),
            ("active_pop_sites", sum(s.site_type == POP for s in act)),
            ("active_dn_sites", sum(s.site_type == DN for s in act)),
            ("active_cn_sites", sum(s.site_type == CN for s in act)),
            ("active_nodes", len(nodes))):
        ctx.check_that(m["counts"][key] == n, "counts",
                       lambda: f"{key} {m['counts'][key]} {n}\n{what()}")
    conn = served(t, ACTIVE, es)
    ctx.check_that(m["demand_metrics"]["number_of_disconnected_demands"]
                   == len(t.demand_sites) - len(conn), "coverage", what)
    ctx.check_that(bool(conn), "serves-nobody", what)
    if es and all(l.capacity > 0 for l in es.values()):
        ctx.count("with flow")
        ctx.check_that(m["flow_metrics"] is not None and m["flow_metrics"][
            "minimum_bandwdith_for_connected_demand"] >= 0, "flow", what)
    # tables and files
    rows = {}
    for name, n in (("site", len(t.sites)), ("link", len(t.links)),
                    ("sector", sum(s.status_type in ACTIVE
                                   for s in t.sectors.values()))):
        with open(os.path.join(out, f"{name}.csv")) as f:
            rows[name] = list(csv.DictReader(f))
        if n:
            live = name == "link" and not es
            ctx.check_that(live or len(rows[name]) == n, "table-rows",
                           lambda: f"{name} {len(rows[name])} {n}\n{what()}")
    back = extract_topology_from_file(
        os.path.join(out, "reporting_topology.kml"), p.device_list, None)
    at = {}
    for s in t.sites.values():
        at.setdefault((round(s.latitude, 5), round(s.longitude, 5),
                       s.site_type), s.status_type.name)
    got = {}
    for s in back.sites.values():
        got.setdefault((round(s.latitude, 5), round(s.longitude, 5),
                        s.site_type), s.status_type.name)
    for k, v in got.items():
        ctx.check_that(at.get(k, v) == v, "report-file", what)
    ctx.check_that(len(back.sites) == len(t.sites), "report-file-sites",
                   lambda: f"{len(back.sites)} {len(t.sites)}\n{what()}")
    pairs = {k for k, l in t.links.items() if l.is_wireless}
    ctx.check_that(len(back.links) == len(pairs), "report-file-links",
                   lambda: f"{len(back.links)} {len(pairs)}\n{what()}")


if __name__ == "__main__":
    check.run()
