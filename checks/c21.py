"""C21 counts, costs, metrics and tables of the report."""
import csv
import itertools
import logging
import os
from collections import Counter

import numpy as np
import yaml

from vmon import Check, Skip
from nets import REACH, edges, inst, served, state, walk
from tg import *  # noqa
from terragraph_planner.common.configuration.enums import OutputFile
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.optimization import topology_report as tr
from terragraph_planner.optimization.deployment_rules import (
    find_angle_violating_link_pairs, find_sector_limit_violations,
)
from terragraph_planner.optimization.structs import (
    DisjointPath, FlowSolution, RoutingSolution,
)
from terragraph_planner.optimization.topology_component_counter import (
    count_topology_components,
)
from terragraph_planner.optimization.topology_networkx import (
    build_digraph, disjoint_paths, single_edge_failures,
    single_site_failures,
)
from terragraph_planner.optimization.topology_operations import compute_capex

check = Check(
    "C21",
    rule="random plans (every status, several devices, multi-sector nodes, "
         "sites at one place, wired links, channels, subscribers) are counted, "
         "priced and tabulated again from their elements; non-trivial = "
         "distinct (elements, counts) tuples",
    assumptions=["every node has sectors that are either existing or proposed "
                 "when several of its sectors are active",
                 "both directions of a link have one status"],
    workers=6,
)
TY = {POP: "POP", DN: "DN", CN: "CN"}


def plan(rng):
    dns = [dn_device(f"DN_{i}", nodes=n, sectors=k, scan=w, capex=c)
           for i, (n, k, w, c) in enumerate(
               [(4, 1, 80.0, 250.0), (2, 2, 70.0, 400.5), (1, 3, 60.0, 90)])]
    cns = [cn_device("CN_0", capex=150), cn_device("CN_1", capex=99.25)]
    sites, by_pos = [], []
    n = rng.randint(2, 9)
    theme = rng.choice([None, PROPOSED, EXISTING])
    for i in range(n):
        ty = POP if i == 0 else rng.choice([DN, DN, DN, CN, CN, POP])
        st = theme if theme and rng.random() < .7 else rng.choice(
            [PROPOSED, PROPOSED, EXISTING, CANDIDATE, CANDIDATE, UNAVAILABLE,
             UNREACHABLE])
        if i == 0:
            st = rng.choice([PROPOSED, EXISTING])
        pos = (5e5 + rng.uniform(0, 900), 1e6 + rng.uniform(0, 900),
               rng.choice([0.0, rng.uniform(-5, 90)]))
        if by_pos and rng.random() < .25 and st not in ACTIVE:
            pos = rng.choice(by_pos)     # candidates at one place
        by_pos.append(pos)
        sites.append(make_site(
            ty, pos[0], pos[1], rng.choice(cns if ty == CN else dns), st,
            alt=pos[2], sid=f"{rng.choice('abxy')}{i}",
            name=rng.choice(["", f"site {i}", f"n&{i}"]),
            **(dict(loc=LocationType.ROOFTOP, building=rng.randrange(1, 9))
               if rng.random() < .4 else dict(loc=rng.choice(
                   [LocationType.UNKNOWN, LocationType.STREET_LEVEL]))),
            subs=rng.choice([None, rng.randint(1, 9)]) if ty == CN else None))
    t = Topology(sites=sites)
    for s in sites:
        d = s.device
        for j in range(d.number_of_nodes_per_site):
            both = rng.choice([PROPOSED, EXISTING]) \
                if s.status_type == EXISTING else PROPOSED
            for k in range(d.sector_params.number_sectors_per_node):
                if rng.random() < .1:
                    continue
                st = s.status_type
                if st in ACTIVE:
                    st = rng.choice([both, both, CANDIDATE])
                t.add_sector(Sector(s, j, k, rng.uniform(0, 360), st))
    for s in sites:
        if s.status_type in ACTIVE and rng.random() < .5:
            s.polarity = rng.choice(list(PolarityType))
    secs = {s.site_id: [x for x in t.sectors.values() if x.site is s]
            for s in sites}
    dense = rng.choice([.3, .6, .95])
    for a, b in itertools.combinations(sites, 2):
        if rng.random() > dense or a.site_type == b.site_type == CN:
            continue
        if (a.utm_x, a.utm_y) == (b.utm_x, b.utm_y):
            continue
        ok = [x for x in ALL_STATUS
              if link_status_ok(a.status_type, b.status_type, x)]
        act = [x for x in ok if x in ACTIVE]
        if not ok:
            continue
        st = rng.choice(act if act and rng.random() < .8 else ok)
        if CN in (a.site_type, b.site_type) and st == UNAVAILABLE and act:
            st = CANDIDATE       # whether these are backups is not settled
        wired = CN not in (a.site_type, b.site_type) and rng.random() < .2
        x = y = None
        if not wired:
            want = ACTIVE if st in ACTIVE else set(ALL_STATUS)
            p = [z for z in secs[a.site_id] if z.status_type in want]
            q = [z for z in secs[b.site_id] if z.status_type in want]
            if st in ACTIVE and not (p and q):
                st = CANDIDATE
                if not link_status_ok(a.status_type, b.status_type, st):
                    continue
            if p and q and (st in ACTIVE or rng.random() < .7):
                x, y = rng.choice(p), rng.choice(q)
        mcs = rng.choice([3, 9, 12])
        for u, v, p, q in ((a, b, x, y), (b, a, y, x)):
            if u.site_type == CN:
                continue
            l = Link(u, v, p, q, status_type=st, is_wireless=not wired,
                     confidence_level=rng.choice([None, .333, 1.0]))
            l.mcs_level, l.capacity = mcs, rng.choice([.303, 1.0, 1.8])
            l.snr_dbm, l.sinr_dbm = rng.uniform(0, 30), rng.uniform(0, 30)
            l.rsl_dbm, l.tx_power = rng.uniform(-90, -30), rng.uniform(0, 30)
            t.add_link(l)
    # one channel per group of sectors joined by active links
    grp = {k: k for k in t.sectors}

    def root(k):
        while grp[k] != k:
            k = grp[k]
        return k
    for l in t.links.values():
        if l.tx_sector is not None and l.status_type in ACTIVE:
            grp[root(l.tx_sector.sector_id)] = root(l.rx_sector.sector_id)
    chan = {}
    nch = rng.choice([0, 1, 3])
    for k, x in t.sectors.items():
        x.channel = chan.setdefault(root(k), rng.randrange(nch) if nch
                                    else -1)
    for d in range(rng.randint(0, 6)):
        t.add_demand_site(DemandSite(
            GeoLocation(utm_x=5e5 + 50 * d, utm_y=1e6, utm_epsg=EPSG,
                        altitude=0.0),
            demand=rng.choice([None, .1, .25]), num_sites=rng.randint(1, 4),
            connected_sites=rng.sample(sites, rng.randint(1, min(3, n)))))
    return t


def params(rng):
    return OptimizerParams(
        device_list=[dn_device()], pop_site_capex=rng.choice([0, 500, 1.5e3]),
        dn_site_capex=rng.choice([0, 333, 1e3]),
        cn_site_capex=rng.choice([0, 77.5]),
        oversubscription=rng.choice([1.0, 2.0, 25.0]),
        diff_sector_angle_limit=rng.choice([10, 25, 60]),
        near_far_angle_limit=45, near_far_length_ratio=3,
        dn_dn_sector_limit=rng.choice([1, 2]),
        dn_total_sector_limit=rng.choice([2, 5]))


def place(s):
    return s.utm_x, s.utm_y, s.altitude


def phys(l):
    """One physical link, either direction, per pair of places and types."""
    return frozenset([place(l.tx_site) + (l.tx_site.site_type,),
                      place(l.rx_site) + (l.rx_site.site_type,)])


def counts(t):
    out = {}
    S, X, L = t.sites.values(), t.sectors.values(), t.links.values()
    hop = walk(t, REACH, edges(t, REACH))
    for ty in (POP, DN, CN):
        n = TY[ty].lower()
        out[f"active_{n}_sites"] = sum(
            s.site_type == ty and s.status_type in ACTIVE for s in S)
        out[f"total_{n}_sites"] = len(
            {place(s) for s in S if s.site_type == ty})
        if ty != POP:
            out[f"connectable_{n}_sites"] = len(
                {place(s) for s in S if s.site_type == ty
                 and s.site_id in hop})
        out[f"active_demand_connected_{n}_sites"] = len(
            {s.site_id for d in t.demand_sites.values()
             for s in d.connected_sites
             if s.site_type == ty and s.status_type in ACTIVE})
    for k in ("active", "total"):
        use = ACTIVE if k == "active" else set(ALL_STATUS)
        out[f"{k}_sites"] = sum(out[f"{k}_{n}_sites"]
                                for n in ("pop", "dn", "cn"))
        xs = [x for x in X if x.status_type in use]
        out[f"{k}_sectors"] = len(xs)
        nodes = {(x.site.site_id, x.node_id) for x in xs}
        out[f"{k}_nodes"] = len(nodes)
        out[f"{k}_cn_nodes"] = sum(t.sites[i].site_type == CN
                                   for i, _ in nodes)
        out[f"{k}_dn_nodes"] = len(nodes) - out[f"{k}_cn_nodes"]
        for lt, n in ((LinkType.WIRELESS_BACKHAUL, "backhaul"),
                      (LinkType.WIRELESS_ACCESS, "access"),
                      (LinkType.ETHERNET, "wired")):
            out[f"{k}_{n}_links"] = len(
                {phys(l) for l in L if l.status_type in use
                 and l.link_type == lt})
    act = [x for x in X if x.status_type in ACTIVE]
    for ty, n in ((POP, "active_dn_sectors_on_pops"),
                  (DN, "active_dn_sectors_on_dns"),
                  (CN, "active_cn_sectors")):
        out[n] = sum(x.site.site_type == ty for x in act)
    out["active_cns_with_backup_dns"] = sum(
        s.site_type == CN and s.status_type in ACTIVE and sum(
            l.rx_site is s and l.status_type != UNAVAILABLE
            and l.tx_sector is not None
            and l.tx_sector.status_type in ACTIVE for l in L) > 1
        for s in S)
    sku = Counter(s.device.device_sku for s in S if s.status_type in ACTIVE)
    chan = Counter()
    for key in {frozenset((l.tx_site.site_id, l.rx_site.site_id)): l
                for l in L if l.status_type in ACTIVE and l.is_wireless
                }.values():
        chan[key.tx_sector.channel] += 1
    return out, dict(sku), dict(chan)


@check.part(quick=2500, thorough=90000, share=.3,
            need={"backup": 100, "same place": 500, "connectable": 1000,
                  "channels": 500})
def counted(ctx, rng):
    """Counts of sites, nodes, sectors and links."""
    t = plan(rng)
    before, text = state(t), inst(t)
    got, sku, chan = count_topology_components(t)
    ctx.check_that(state(t) == before, "plan-changed", text)
    want, wsku, wchan = counts(t)
    have = got._asdict()
    ctx.check_that(set(have) == set(want), "count-names",
                   lambda: str(set(have) ^ set(want)))
    for k in want:
        ctx.check_that(have[k] == want[k], f"count:{k}",
                       lambda: f"{have[k]} != {want[k]} {text}")
    ctx.check_that({k: v for k, v in sku.items() if v} == wsku, "sku-count",
                   lambda: f"{sku} {wsku} {text}")
    ctx.check_that({k: v for k, v in chan.items() if v} == wchan,
                   "channel-count", lambda: f"{chan} {wchan} {text}")
    ctx.count("backup", want["active_cns_with_backup_dns"])
    ctx.count("connectable", want["connectable_dn_sites"])
    ctx.count("same place", len(t.sites) - len({place(s) for s in
                                                t.sites.values()}))
    ctx.count("channels", len(wchan))
    ctx.nontrivial(*want.values())


@check.part(quick=2500, thorough=90000, share=.1,
            need={"partly used node": 200, "existing": 500, "proposed": 500})
def priced(ctx, rng):
    """Capital expenditure, once per node in use and per site in use."""
    t, p = plan(rng), params(rng)
    before, text = state(t), inst(t)
    got = compute_capex(t, p)
    ctx.check_that(state(t) == before, "plan-changed", text)
    price = {POP: p.pop_site_capex, DN: p.dn_site_capex, CN: p.cn_site_capex}
    cost = {PROPOSED: 0.0, EXISTING: 0.0}
    for s in t.sites.values():
        if s.status_type in cost:
            cost[s.status_type] += price[s.site_type]
            ctx.count(s.status_type.name.lower())
    nodes = {}
    for x in t.sectors.values():
        nodes.setdefault((x.site.site_id, x.node_id), []).append(x)
    for xs in nodes.values():
        use = {x.status_type for x in xs} & ACTIVE
        if use and len({x.status_type for x in xs}) > 1:
            ctx.count("partly used node")
        for st in use:
            cost[st] += xs[0].site.device.node_capex
    ctx.close(got.proposed_capex, cost[PROPOSED], "proposed-capex",
              lambda: f"{p.__dict__} {text}", abs_tol=1e-6)
    ctx.close(got.total_capex, cost[PROPOSED] + cost[EXISTING],
              "total-capex", lambda: f"{p.__dict__} {text}", abs_tol=1e-6)
    ctx.nontrivial(round(cost[PROPOSED], 2), round(cost[EXISTING], 2))


def stats(vals, n=None):
    """avg, max, min over n elements, those without a value being 0."""
    vals = list(vals)
    vals += [0] * ((len(vals) if n is None else n) - len(vals))
    if not vals:
        return 0, 0, 0
    return sum(vals) / len(vals), max(vals), min(vals)


def flows(rng, t):
    """A flow in at most one direction of every active link."""
    fl, util = {}, {}
    for k, l in edges(t, ACTIVE).items():
        if (k[1], k[0]) in util and util[k[1], k[0]] > 0:
            continue
        f = rng.choice([0.0, rng.uniform(0, 1)]) * l.capacity
        util.pop((k[1], k[0]), None)
        fl[k] = f
        util[k] = 100 * f / l.capacity
    return fl, util


@check.part(quick=1400, thorough=50000, share=.6,
            need={"with flow": 200, "outage link": 100, "outage site": 100,
                  "violating link": 50, "violating sector": 50,
                  "link rows": 2000, "sector rows": 2000, "files": 100,
                  "site rows": 2000, "disconnected": 100})
def reported(ctx, rng):
    """Metrics and tables of a plan."""
    t, p = plan(rng), params(rng)
    text = inst(t)
    fl, util = flows(rng, t)
    sol = None
    buf = rng.uniform(0, 1)
    conn = served(t, ACTIVE, edges(t, ACTIVE))
    if util and rng.random() < .8:
        sol = RoutingSolution(FlowSolution(fl, {}, buf, conn), util)
        ctx.count("with flow")
    g = build_digraph(t, ACTIVE)
    cut = single_edge_failures(g)
    pops, dns = single_site_failures(g)
    dis = disjoint_paths(t, g)
    avail = {k: rng.choice([1.0, rng.random()]) for k in conn}
    angle = find_angle_violating_link_pairs(
        t, p.diff_sector_angle_limit, p.near_far_angle_limit,
        p.near_far_length_ratio, True)
    over = find_sector_limit_violations(
        t, p.dn_dn_sector_limit, p.dn_total_sector_limit)
    before = state(t)
    m = tr.get_topology_metrics(
        topology=t, params=p, routing_solution=sol, disjoint_paths=dis,
        edge_failure_disruptions=cut, pop_failure_disruptions=pops,
        dn_failure_disruptions=dns, availability=avail,
        violating_links=angle, violating_sectors=over)
    ctx.check_that(state(t) == before, "plan-changed", text)
    metrics(ctx, t, p, m, sol, buf, conn, cut, pops, dns, dis, avail, angle,
            over, text)
    tr.add_statistics_to_topology(
        topology=t, routing_solution=sol, edge_failure_disruptions=cut,
        pop_failure_disruptions=pops, dn_failure_disruptions=dns)
    price = {POP: p.pop_site_capex, DN: p.dn_site_capex, CN: p.cn_site_capex}
    sdf = tr.build_sites_df(t, price)
    ldf = tr.build_links_df(t, angle, over) if t.links else None
    xdf = tr.build_sectors_df(t, over) if any(
        x.status_type in ACTIVE for x in t.sectors.values()) else None
    ctx.check_that(state(t) == before, "plan-changed", text)
    site_rows(ctx, t, sdf.to_dict("records"), price, fl if sol else {},
              pops, dns, text)
    if ldf is not None:
        link_rows(ctx, t, ldf.reset_index().to_dict("records"),
                  fl if sol else {}, util if sol else {}, cut, angle, over,
                  text)
    if xdf is not None:
        sector_rows(ctx, t, xdf.reset_index().to_dict("records"), over, text)
    if rng.random() < .25:
        files(ctx, m, sdf, ldf, xdf, text)
    ctx.nontrivial(len(t.links), len(t.sectors), len(cut), len(conn),
                   round(m.capex.total_capex, 1))


def overloaded(t, p):
    """Sectors with more neighbours in use than allowed."""
    near = {}
    for l in t.links.values():
        if l.status_type in ACTIVE and l.tx_sector is not None:
            near.setdefault(l.tx_sector.sector_id, {})[
                l.rx_sector.sector_id] = l.rx_site.site_type == CN
    return {k for k, v in near.items() if t.sectors[k].status_type in ACTIVE
            and (len([c for c in v.values() if not c])
                 > p.dn_dn_sector_limit
                 or len(v) > p.dn_total_sector_limit)}


@check.part(quick=700, thorough=15000, share=.4,
            need={"analysed": 150, "link rows": 1000, "availability": 60,
                  "violating sector": 30, "only wired or access": 5})
def analysed(ctx, rng):
    """The whole analysis of a plan, as it is written to the files."""
    t, p = plan(rng), params(rng)
    for s in t.sites.values():
        s.device.sector_params.horizontal_scan_range = 360.0
    p.near_far_angle_limit = rng.choice([20, 45, 80])
    p.near_far_length_ratio = rng.choice([1, 3])
    p.dn_total_sector_limit = rng.choice([1, 2, 5])
    p.pop_capacity = 10.0
    p.device_list = list({s.device.device_sku: s.device
                          for s in t.sites.values()}.values())
    for d in t.demand_sites.values():
        d.demand = d.demand or .05
    p.link_availability_percentage = rng.choice([90.0, 99.0])
    p.availability_sim_time = rng.choice([0, .2, .5])
    p.availability_seed = rng.choice([0, 0, 7])
    for l in t.links.values():
        if l.status_type == EXISTING and l.tx_sector is not None and \
                {l.tx_sector.status_type, l.rx_sector.status_type} \
                != {EXISTING}:
            raise Skip("existing link on new sectors")
    if rng.random() < .3:       # no backhaul in use
        for l in t.links.values():
            if l.link_type == LinkType.WIRELESS_BACKHAUL and \
                    l.status_type == PROPOSED:
                l.status_type = CANDIDATE
    text, before = inst(t), state(t)
    try:
        res = tr.analyze(t, p)
    except OptimizerException as e:
        if "capacity" not in str(e):
            raise
        raise Skip("refused")
    ctx.count("analysed")
    same = state(t)
    ctx.check_that(before[0] == same[0] and before[1] == same[1],
                   "plan-changed", text)
    m = res.metrics
    g = build_digraph(t, ACTIVE)
    cut = single_edge_failures(g)
    pops, dns = single_site_failures(g)
    dis = disjoint_paths(t, g)
    angle = find_angle_violating_link_pairs(
        t, p.diff_sector_angle_limit, p.near_far_angle_limit,
        p.near_far_length_ratio, True)
    over = overloaded(t, p)
    conn = served(t, ACTIVE, edges(t, ACTIVE))
    f = m.flow_metrics
    pairs, fl, util = {}, {}, {}
    live = [l for l in t.links.values() if l.status_type in ACTIVE]
    for l in live:
        k = (l.tx_site.site_id, l.rx_site.site_id)
        fl[k], util[k] = l.proposed_flow, l.utilization
        if l.capacity > 0:
            ctx.check_that(
                l.utilization == 0 or abs(
                    l.utilization - 100 * l.proposed_flow / l.capacity)
                <= 1e-6, "utilization", text)
        pairs.setdefault(frozenset(k), []).append(l.utilization)
    if f is not None:
        three(ctx, f.link_capacity_utilization,
              stats(map(max, pairs.values())), "metric-use", text)
    avail = {}
    if p.availability_sim_time and conn:
        ctx.count("availability")
        a = m.availability_metrics
        ctx.check_that(tr.analyze(t, p).metrics.availability_metrics == a,
                       "availability-not-repeatable", text)
        ctx.check_that(0 <= a.percentiles[0] <= a.percentiles[100] <= 100,
                       "metric-avail", text)
    ctx.count("only wired or access", bool(live) and not any(
        l.link_type == LinkType.WIRELESS_BACKHAUL for l in live))
    metrics(ctx, t, p, m._replace(
        flow_metrics=None, availability_metrics=m.availability_metrics
        if not p.availability_sim_time else type(m.availability_metrics)(
            avg=0, percentiles=dict.fromkeys((0, 25, 50, 75, 100), 0))),
        None, 0, conn, cut, pops, dns, dis, avail, angle, over, text)
    price = {POP: p.pop_site_capex, DN: p.dn_site_capex, CN: p.cn_site_capex}
    if any(s.status_type in ACTIVE for s in t.sites.values()):
        site_rows(ctx, t, res.site_df.to_dict("records"), price, fl, pops,
                  dns, text)
    if live:
        link_rows(ctx, t, res.link_df.reset_index().to_dict("records"), fl,
                  util, cut, angle, over, text)
    if any(x.status_type in ACTIVE for x in t.sectors.values()):
        sector_rows(ctx, t, res.sector_df.reset_index().to_dict("records"),
                    over, text)
    ctx.nontrivial("analysed", text)


def three(ctx, got, want, mech, text):
    for a, b in zip((got.avg, got.max, got.min), want):
        ctx.close(a, b, mech, lambda: f"{got} {want} {text}", abs_tol=1e-6)


def metrics(ctx, t, p, m, sol, buf, conn, cut, pops, dns, dis, avail, angle,
            over, text):
    want, sku, chan = counts(t)
    ctx.check_that(m.counts._asdict() == want, "metric-counts", text)
    ctx.check_that(dict(m.active_site_sku_counter) == sku, "metric-sku", text)
    ctx.check_that(dict(m.channel_occupancy_counter) == chan,
                   "metric-channel", text)
    cx = compute_capex(t, p)
    ctx.check_that(tuple(m.capex) == tuple(cx), "metric-capex", text)
    d = m.demand_metrics
    n, near = len(t.demand_sites), len(dis.demand_connected_to_pop)
    two = len(dis.demand_with_disjoint_paths)
    total = sum((x.demand or 0) * x.num_sites
                for x in t.demand_sites.values())
    for a, b in ((d.number_of_demands, n),
                 (d.number_of_disconnected_demands, n - len(conn)),
                 (d.number_of_demands_connected_to_pops, near),
                 (d.number_of_demands_with_disjoint_path, two),
                 (d.percentage_of_demand_with_disjoint_path,
                  100 * two / (n - near) if n > near else 0),
                 (d.total_demand, total),
                 (d.total_demand_oversubscribed, total / p.oversubscription)):
        ctx.close(a, b, "metric-demand", lambda: f"{d} {text}", abs_tol=1e-6)
    if sol is None:
        ctx.check_that(m.flow_metrics is None, "metric-flow", text)
    else:
        f = m.flow_metrics
        ctx.close(f.minimum_bandwdith_for_connected_demand, buf,
                  "metric-flow", text)
        ctx.close(f.total_bandwidth, buf * len(conn), "metric-flow", text,
                  abs_tol=1e-9)
        three(ctx, f.link_capacity_utilization,
              stats(sol.active_link_utilization.values()), "metric-use", text)
    act = [x for x in t.sectors.values() if x.status_type in ACTIVE
           and x.site.site_type != CN]
    for lt, mm, mcs in (
            (LinkType.WIRELESS_BACKHAUL, m.backhaul_link, m.backhaul_mcs),
            (LinkType.WIRELESS_ACCESS, m.access_link, m.access_mcs)):
        ls = [l for l in t.links.values() if l.link_type == lt
              and l.status_type in ACTIVE]
        pairs = {phys(l): l for l in ls}
        ctx.check_that(mm.active_count == len(pairs), "metric-links", text)
        ctx.check_that({k: v for k, v in mcs.items() if v} == Counter(
            l.mcs_level for l in pairs.values()), "metric-mcs", text)
        three(ctx, mm.link_dist, stats(l.distance for l in ls),
              "metric-length", text)
        per = [sum(x in (l.tx_sector, l.rx_sector) for l in pairs.values())
               for x in act]
        three(ctx, mm.links_per_sector, stats(per), "metric-per-sector",
              text)
    fd = m.failure_disruption
    three(ctx, fd.edge_fail_effect, stats(map(len, cut.values())),
          "metric-link-failure", text)
    three(ctx, fd.pop_fail_effect, stats(
        map(len, pops.values()), want["active_pop_sites"]),
        "metric-pop-failure", text)
    three(ctx, fd.dn_fail_effect, stats(
        map(len, dns.values()), want["active_dn_sites"]),
        "metric-dn-failure", text)
    av = sorted(avail.values())
    a = m.availability_metrics
    ctx.close(a.avg, 100 * sum(av) / len(av) if av else 0, "metric-avail",
              text, abs_tol=1e-6)
    for q in (0, 25, 50, 75, 100):
        w = 0.0
        if av:
            x = (len(av) - 1) * q / 100
            lo = int(x)
            hi = min(lo + 1, len(av) - 1)
            w = 100 * (av[lo] + (av[hi] - av[lo]) * (x - lo))
        ctx.close(a.percentiles[q], w, "metric-avail", text, abs_tol=1e-6)
    ctx.check_that((m.diff_sector_link_violations,
                    m.near_far_link_violations,
                    m.sector_link_limit_violations)
                   == (len(angle.diff_sector_list),
                       len(angle.near_far_list), len(over)),
                   "metric-violations", text)


def cell(ctx, row, name, want, digits, mech, text, slack=0.0):
    got = row[name]
    if isinstance(want, float):
        ok = isinstance(got, (int, float, np.floating)) and (
            got == want
            or abs(got - want) <= .5 * 10 ** -digits + 1e-9 + slack)
    else:
        ok = got == want
    ctx.check_that(ok, f"{mech}:{name}",
                   lambda: f"{got!r} != {want!r} in {row} {text}")


def site_rows(ctx, t, rows, price, fl, pops, dns, text):
    ctx.check_that(len(rows) == len(t.sites), "site-rows", text)
    hop = walk(t, ACTIVE, edges(t, ACTIVE))
    by = {r["Site Name"]: r for r in rows}
    for i, s in t.sites.items():
        r = by.get(s.name)
        ctx.check_that(r is not None, "site-row-missing",
                       lambda: f"{s.name} {sorted(map(str, by))} {text}")
        ctx.count("site rows")
        xs = [x for x in t.sectors.values() if x.site is s
              and x.status_type in ACTIVE]
        ls = {phys(l) for l in t.links.values() if l.is_wireless
              and l.status_type in ACTIVE and s in (l.tx_site, l.rx_site)}
        out = (pops if s.site_type == POP else dns if s.site_type == DN
               else {}).get(i, ())
        ctx.count("outage site", bool(out))
        ctx.count("disconnected", i not in hop)
        for name, want, dg in (
                ("Status", s.status_type.to_string(), 0),
                ("Site Type", TY[s.site_type], 0),
                ("Altitude", float(s.altitude), 6),
                ("Polarity", s.polarity.to_string(), 0),
                ("Outages Caused", len(out), 0),
                ("Site Capex", float(price[s.site_type]), 6),
                ("Active Nodes", len({x.node_id for x in xs}), 0),
                ("Active Sectors", len(xs), 0),
                ("Active Links", len(ls), 0),
                ("Hops to Nearest Pop", hop.get(i, "disconnected"), 0),
                ("Device SKU", s.device.device_sku, 0),
                ("Outgoing Flow", float(sum(
                    v for k, v in fl.items() if k[0] == i)), 6),
                ("Incoming Flow", float(sum(
                    v for k, v in fl.items() if k[1] == i)), 6)):
            cell(ctx, r, name, want, dg, "site", text)
        for name, want in (("Lat", s.latitude), ("Lon", s.longitude)):
            cell(ctx, r, name, float(want), 6, "site", text, 2e-5)
        cell(ctx, r, "Building Id", "N/A" if s.building_id is None
             else s.building_id, 0, "site", text)
        cell(ctx, r, "Number of Subscribers",
             "N/A" if s.number_of_subscribers is None
             else s.number_of_subscribers, 0, "site", text)


def link_rows(ctx, t, rows, fl, util, cut, angle, over, text):
    ctx.check_that(len(rows) == len(t.links), "link-rows", text)
    by = {(r["Tx Site Name"], r["Rx Site Name"]): r for r in rows}
    bad = {}
    for key, lst in (("d", angle.diff_sector_list),
                     ("n", angle.near_far_list)):
        bad[key] = {frozenset((i, x)) for i, j, k in lst for x in (j, k)}
    for l in t.links.values():
        r = by.get((l.tx_site.name, l.rx_site.name))
        ctx.check_that(r is not None, "link-row-missing", text)
        ctx.count("link rows")
        k = (l.tx_site.site_id, l.rx_site.site_id)
        pair = frozenset(k)
        act = l.status_type in ACTIVE
        lost = len(cut.get((min(k), max(k)), ())) if act else 0
        ctx.count("outage link", lost > 0)
        ctx.count("violating link", pair in bad["d"] | bad["n"])
        if not l.is_wireless:
            sec = "WIRED CONNECTION"
        elif l.tx_sector is None or l.rx_sector is None:
            sec = "UNKNOWN"
        else:
            sec = f"{l.tx_sector.sector_id} --> {l.rx_sector.sector_id}"
        dev = [circ_diff(az, x.ant_azimuth) if x is not None else "N/A"
               for az, x in ((l.tx_beam_azimuth, l.tx_sector),
                             (l.rx_beam_azimuth, l.rx_sector))]
        lim = any(x is not None and x.sector_id in over
                  for x in (l.tx_sector, l.rx_sector))
        for n, d in (("Deviation from Tx Boresight", dev[0]),
                     ("Deviation from Rx Boresight", dev[1])):
            if isinstance(d, float):     # either side of the boresight
                cell(ctx, {n: abs(r[n])}, n, d, 2, "link", text)
            else:
                cell(ctx, r, n, d, 0, "link", text)
        if act:
            cell(ctx, r, "Violates Sector Link Limit", lim, 0, "link", text)
        ch = "UNASSIGNED"
        if act and l.tx_sector is not None and l.tx_sector.channel >= 0:
            ch = str(l.tx_sector.channel)
        for name, want, dg in (
                ("Link Type", l.link_type.to_string(), 0),
                ("Status", l.status_type.to_string(), 0),
                ("Distance", float(l.distance), 2),
                ("Data Flow (Gbps)", float(fl.get(k, 0)), 2),
                ("Throughput (Gbps)", float(l.capacity), 2),
                ("Utilization", float(util.get(k, 0)), 2),
                ("Tx Beam Azimuth", float(l.tx_beam_azimuth), 2),
                ("Rx Beam Azimuth", float(l.rx_beam_azimuth), 2),
                ("Deviation from El Boresight", math.degrees(math.asin(
                    (l.rx_site.altitude - l.tx_site.altitude)
                    / l.distance)), 2),
                ("Tx Power (dBm)", float(l.tx_power), 2),
                ("Estimated MCS", l.mcs_level, 0),
                ("Estimated SNR (dB)", float(l.snr_dbm), 2),
                ("Estimated SINR (dB)", float(l.sinr_dbm), 2),
                ("Estimated RSL", float(l.rsl_dbm), 2),
                ("Sectors", sec, 0), ("Outages Caused", lost, 0),
                ("Confidence Level", "N/A" if l.confidence_level is None
                 else float(l.confidence_level), 2),
                ("Channel", ch, 0),
                ("Violates Diff Sector Angle Rule", pair in bad["d"], 0),
                ("Violates Near-Far Rule", pair in bad["n"], 0)):
            cell(ctx, r, name, want, dg, "link", text)


def sector_rows(ctx, t, rows, over, text):
    act = {k: x for k, x in t.sectors.items() if x.status_type in ACTIVE}
    by = {r["Sector ID"]: r for r in rows}
    ctx.check_that(set(by) == set(act) and len(rows) == len(act),
                   "sector-rows", text)
    for k, x in act.items():
        r = by[k]
        ctx.count("sector rows")
        ctx.count("violating sector", k in over)
        ls = {phys(l): l.link_type for l in t.links.values()
              if l.status_type in ACTIVE and x in (l.tx_sector, l.rx_sector)}
        n = Counter(ls.values())
        for name, want, dg, slack in (
                ("Node ID", x.node_id, 0, 0),
                ("Sector Position", x.position_in_node, 0, 0),
                ("Status", x.status_type.to_string(), 0, 0),
                ("Azimuth Orientation", float(x.ant_azimuth), 1, 1e-4),
                ("Polarity", x.site.polarity.to_string(), 0, 0),
                ("Channel", str(x.channel) if x.channel >= 0
                 else "UNASSIGNED", 0, 0),
                ("Node Cost", float(x.site.device.node_capex), 1, 1e-9),
                ("Active Backhaul Links", n[LinkType.WIRELESS_BACKHAUL], 0,
                 0),
                ("Active Access Links", n[LinkType.WIRELESS_ACCESS], 0, 0),
                ("Site Type", TY[x.site.site_type], 0, 0),
                ("Violates Link Load", k in over, 0, 0)):
            cell(ctx, r, name, want, dg, "sector", text, slack)


def plain(x):
    if hasattr(x, "_asdict"):
        return {k: plain(v) for k, v in x._asdict().items()}
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def files(ctx, m, sdf, ldf, xdf, text):
    old = current_system_params.output_dir
    out = ctx.scratch
    current_system_params.output_dir = out
    try:
        for kind, df in ((OutputFile.SITE, sdf), (OutputFile.LINK, ldf),
                         (OutputFile.SECTOR, xdf)):
            if df is None:
                continue
            tr.dump_df_to_csv(df, kind)
            with open(os.path.join(out, "output",
                                   f"{kind.name.lower()}.csv")) as f:
                rows = list(csv.DictReader(f))
            flat = df.reset_index() if df.index.name else df
            want = flat.to_dict("records")
            ctx.check_that(len(rows) == len(want), "file-rows", text)
            for a, b in zip(rows, want):
                for k, v in b.items():
                    if isinstance(v, float):
                        ctx.close(float(a[k]), v, "file-cell",
                                  lambda: f"{k} {text}", rel=1e-5,
                                  abs_tol=1e-9)
                    else:
                        ctx.check_that(a[k] == str(v), "file-cell",
                                       lambda: f"{k} {a[k]} {v} {text}")
        tr.dump_metrics_to_yaml(m)
        with open(os.path.join(out, "output", "metrics.yaml")) as f:
            back = yaml.safe_load(f)
        ctx.check_that(back == plain(m), "file-metrics",
                       lambda: f"{back} {plain(m)} {text}")
    finally:
        current_system_params.output_dir = old
    ctx.count("files")


if __name__ == "__main__":
    logging.disable(logging.CRITICAL)
    check.run()
