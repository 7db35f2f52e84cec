"""C26: traffic of a plan."""
import itertools

import numpy as np
from scipy.optimize import linprog

from nets import inst, network, state, walk
from tg import *  # noqa
from vmon import Check, Skip

from terragraph_planner.common.configuration.enums import TopologyRouting
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization import topology_report as tr
from terragraph_planner.optimization.ilp_models.flow_optimization import (
    MaxFlowNetwork,
)

check = Check(
    "C26",
    rule="the traffic found for a random plan (every status, wired and "
         "one-way links, links off the routing, several demands per site) is "
         "checked site by site, link by link and sector by sector and its "
         "common bandwidth against a linear program written from scratch; "
         "non-trivial = distinct plans",
    assumptions=[
        "scipy's HiGHS stands in for the commercial solver",
        "plans of at most 9 sites, at least one POP in use",
        "what one site hands to one demand is at most the largest link "
        "capacity of the plan",
    ])
EPS = 1e-5


def links_in_use(t):
    return {(l.tx_site.site_id, l.rx_site.site_id): l
            for l in t.links.values()
            if {l.status_type, l.tx_site.status_type,
                l.rx_site.status_type} <= ACTIVE
            and l.capacity > 0 and not l.is_redundant
            and (not l.is_wireless or l.tx_sector is not None)}


def copies(t):
    for k, d in t.demand_sites.items():
        for i in range(d.num_sites):
            yield (k if i == 0 else f"{k}_{i}"), d


def connected(t, es):
    hop = walk(t, ACTIVE, es)
    return {k for k, d in copies(t)
            if any(s.site_id in hop for s in d.connected_sites)}


def common(t, p, es, conn, top):
    """The largest bandwidth that all of `conn` can have at once."""
    names = list(es)
    on = [k for k, s in t.sites.items() if s.status_type in ACTIVE]
    pops = [k for k in on if t.sites[k].site_type == POP]
    taps = [(s.site_id, k) for k, d in copies(t) if k in conn
            for s in {x.site_id: x for x in d.connected_sites}.values()
            if s.site_id in on]
    cols = [("l",) + e for e in names] + [("t",) + e for e in taps] + \
        [("p", k, k) for k in pops]
    n = len(cols) + 1
    A, b, Ae, be = [], [], [], []
    for sec in t.sectors:
        for end in ("tx_sector", "rx_sector"):
            row = np.zeros(n)
            for x, c in enumerate(cols):
                if c[0] == "l" and es[c[1:]].is_wireless and getattr(
                        es[c[1:]], end).sector_id == sec:
                    row[x] = 1 / es[c[1:]].capacity
            if row.any():
                A.append(row)
                b.append(1)
    for k in on:
        row, out = np.zeros(n), np.zeros(n)
        for x, c in enumerate(cols):
            if c[0] != "p" and c[1] == k:
                row[x] -= 1
                out[x] += 1
            if (c[0] == "l" and c[2] == k) or (c[0] == "p" and c[1] == k):
                row[x] += 1
        Ae.append(row)
        be.append(0)
        if k in pops:
            A.append(out)
            b.append(p.pop_capacity)
    for k in conn:
        row = np.zeros(n)
        for x, c in enumerate(cols):
            if c[0] == "t" and c[2] == k:
                row[x] += 1
        row[-1] = -1
        Ae.append(row)
        be.append(0)
    hi = [es[c[1:]].capacity if c[0] == "l" else top if c[0] == "t"
          else p.pop_capacity for c in cols] + [None]
    obj = np.zeros(n)
    obj[-1] = -1
    r = linprog(obj, A_ub=np.array(A) if A else None, b_ub=b or None,
                A_eq=np.array(Ae), b_eq=be, bounds=[(0, h) for h in hi],
                method="highs")
    if r.status != 0:
        raise RuntimeError(f"reference LP: {r.message}")
    return -r.fun


def circulates(flow):
    nxt = {}
    for (i, j), f in flow.items():
        if f > 2 * EPS:
            nxt.setdefault(i, []).append(j)
    seen = {}

    def dfs(u):
        seen[u] = 1
        for v in nxt.get(u, []):
            if seen.get(v) == 1 or (v not in seen and dfs(v)):
                return True
        seen[u] = 2
        return False
    return any(u not in seen and dfs(u) for u in list(nxt))


def plan(rng):
    t = network(rng, themes=(PROPOSED, PROPOSED, EXISTING, None), oneway=0)
    if not any(s.site_type == POP and s.status_type in ACTIVE
               for s in t.sites.values()):
        raise Skip("no POP in use")
    for k, l in list(t.links.items()):
        if l.is_wireless and l.tx_sector is None and l.status_type in ACTIVE:
            t.remove_link(k)
    scale = rng.choice([1.0, 1.0, rng.uniform(.2, 1)])
    for l in t.links.values():
        if l.is_wireless:
            l.capacity *= scale
        elif rng.random() < .3:
            l.capacity = rng.choice([.05, .4, 1.0])
    pairs = {frozenset((l.tx_site.site_id, l.rx_site.site_id))
             for l in t.links.values()}
    if rng.random() < .3:
        off = {q for q in pairs if rng.random() < .3}
        for l in t.links.values():
            if frozenset((l.tx_site.site_id, l.rx_site.site_id)) in off:
                l.is_redundant = True
    for k, d in t.demand_sites.items():
        d.demand = rng.choice([.025, .2, 1.0])
        d.num_sites = rng.choice([1, 1, 1, 2, 3])
    p = OptimizerParams(
        device_list=list({s.device.device_sku: s.device
                          for s in t.sites.values()}.values()),
        pop_capacity=rng.choice([10.0, 10.0, 2.0, rng.uniform(.1, 2)]),
        oversubscription=rng.choice([1.0, 5.0]))
    return t, p


def text(t, p):
    return f"pop_capacity={p.pop_capacity}\n" + inst(t) + str(
        [k for k, l in t.links.items() if l.is_redundant]) + str(
        [(k, d.num_sites) for k, d in t.demand_sites.items()])


def judge(ctx, t, p, sol, what):
    es = links_in_use(t)
    conn = connected(t, es)
    caps = [l.capacity for l in t.links.values()]
    top = max(caps) if caps else p.pop_capacity
    if sol is None:
        ctx.count("nothing connected")
        ctx.check_that(not conn, "no-answer-though-connected",
                       lambda: f"{conn}\n{what()}")
        return None
    ctx.check_that(set(sol.connected_demand_sites) == conn, "connected-set",
                   lambda: f"{sol.connected_demand_sites} {conn}\n{what()}")
    ctx.count("solved")
    flow, b = sol.flow_decisions, sol.buffer_decision
    say = lambda s: (lambda: f"{s} buffer {b}\n{what()}")  # noqa
    want = common(t, p, es, conn, top)
    ctx.check_that(abs(b - want) <= 1e-5 * (1 + want), "not-the-most",
                   say(f"{b} possible {want}"))
    if want > 1e-3:
        ctx.count("served")
    inn, out = {}, {}
    for (i, j), f in flow.items():
        out[i] = out.get(i, 0.0) + f
        inn[j] = inn.get(j, 0.0) + f
        ctx.check_that(f >= -EPS, "negative-flow", say(f"{i}>{j} {f}"))
    for k, s in t.sites.items():
        ctx.check_that(
            abs(inn.get(k, 0) - out.get(k, 0)) <= 5 * EPS, "conservation",
            say(f"{k} {inn.get(k, 0)} {out.get(k, 0)}"))
        if s.status_type not in ACTIVE:
            ctx.check_that(inn.get(k, 0) <= EPS, "traffic-at-unused-site",
                           say(k))
        if s.site_type == POP:
            ctx.check_that(out.get(k, 0) <= p.pop_capacity + EPS,
                           "pop-capacity", say(f"{k} {out.get(k)}"))
    for k, d in copies(t):
        ctx.check_that(
            abs(inn.get(k, 0) - (b if k in conn else 0)) <= 5 * EPS,
            "unequal", say(f"{k} {inn.get(k, 0)}"))
        at = {s.site_id for s in d.connected_sites}
        for (i, j), f in flow.items():
            if j == k and f > EPS:
                ctx.check_that(i in at, "demand-from-elsewhere",
                               say(f"{i}>{j}"))
    source = [k for k in out if k not in t.sites]
    ctx.check_that(
        abs(sum(out[k] for k in source) - b * len(conn)) <= 1e-4,
        "sources", say(f"{source} {conn}"))
    for (i, j), f in flow.items():
        if i in t.sites and j in t.sites and f > 2 * EPS:
            ctx.count("loaded_links")
            ctx.check_that((i, j) in es, "traffic-on-unused-link",
                           say(f"{i}>{j} {f}"))
        if i not in t.sites and f > EPS:
            ctx.check_that(j in t.sites and t.sites[j].site_type == POP,
                           "traffic-from-nowhere", say(f"{i}>{j}"))
    share = {}
    for (i, j), l in es.items():
        f = flow.get((i, j), 0.0)
        ctx.check_that(f <= l.capacity + EPS, "over-capacity",
                       say(f"{i}>{j} {f} {l.capacity}"))
        if not l.is_wireless:
            ctx.check_that((i, j) not in sol.tdm_decisions, "wired-share",
                           say(f"{i}>{j}"))
            continue
        x = sol.tdm_decisions[(i, j)]
        ctx.check_that(f <= x * l.capacity + EPS, "over-time-share",
                       say(f"{i}>{j} {f} {x}"))
    for l in t.links.values():
        if l.tx_sector is not None and l.is_wireless:
            x = sol.tdm_decisions[(l.tx_site.site_id, l.rx_site.site_id)]
            ctx.check_that(-EPS <= x <= 1 + EPS, "share-range", say(f"{x}"))
            for q in ((l.tx_sector.sector_id, 0), (l.rx_sector.sector_id, 1)):
                share[q] = share.get(q, 0) + x
    for q, x in share.items():
        ctx.check_that(x <= 1 + EPS, "sector-time", say(f"{q} {x}"))
    ctx.check_that(not circulates(flow), "circulating-flow", say(f"{flow}"))
    ctx.count("oracle_evaluations")
    return b, conn, es


@check.part(quick=7500, thorough=120000, share=3,
            need={"solved": 2000, "served": 1500, "loaded_links": 3000,
                  "existing": 300, "off routing": 300})
def traffic(ctx, rng):
    t, p = plan(rng)
    before, s0 = text(t, p), state(t)
    what = lambda: before  # noqa
    for l in t.links.values():
        if l.status_type in ACTIVE and l.tx_sector is not None and \
                EXISTING in (l.tx_sector.status_type,
                             l.rx_sector.status_type):
            ctx.count("existing")
            break
    if any(l.is_redundant for l in t.links.values()):
        ctx.count("off routing")
    try:
        sol = MaxFlowNetwork(t, p).solve()
    except OptimizerException as e:
        if "capacity" not in str(e):
            raise
        ctx.count("refused")
        es = links_in_use(t)
        conn = connected(t, es)
        ctx.check_that(
            not conn or not any(l.capacity > 0 for l in t.links.values()),
            "refused-though-servable", lambda: f"{e}\n{before}")
        return
    ctx.check_that(state(t) == s0, "plan-changed", what)
    ctx.nontrivial(before)
    judge(ctx, t, p, sol, what)
    ctx.sample({"plan": before})


@check.part(quick=1050, thorough=20000, share=2,
            need={"analysed": 300, "routed": 100, "links in use": 300})
def analysed(ctx, rng):
    """The traffic written into the plan and its metrics."""
    t, p = plan(rng)
    for l in t.links.values():
        l.is_redundant = False
    for s in t.sites.values():
        s.device.sector_params.horizontal_scan_range = 360.0
    p.topology_routing = rng.choice([None, None] + list(TopologyRouting))
    p.availability_sim_time = 0
    before, s0 = text(t, p) + str(p.topology_routing), state(t)
    what = lambda: before  # noqa
    try:
        res = tr.analyze(t, p)
    except OptimizerException as e:
        if "capacity" not in str(e):
            raise
        raise Skip("refused")
    ctx.count("analysed")
    s1 = state(t)
    ctx.check_that(s0[0] == s1[0] and s0[1] == s1[1] and s0[3] == s1[3]
                   and {k: v[0] for k, v in s0[2].items()}
                   == {k: v[0] for k, v in s1[2].items()},
                   "plan-changed", what)
    es = links_in_use(t)
    conn = connected(t, es)
    everything = {k: l for k, l in links_in_use_all(t).items()}
    if p.topology_routing is None:
        ctx.check_that(not any(l.is_redundant for l in t.links.values()),
                       "redundant-without-routing", what)
    else:
        ctx.count("routed")
        ctx.check_that(connected(t, es) == connected(t, everything)
                       or any(l.capacity <= 0 for l in everything.values()),
                       "routing-disconnects", what)
    m = res.metrics.flow_metrics
    if not conn:
        ctx.check_that(m is None, "flow-without-connection", what)
        return
    ctx.check_that(m is not None, "no-flow-metrics", what)
    caps = [l.capacity for l in t.links.values()]
    want = common(t, p, es, conn, max(caps) if caps else p.pop_capacity)
    if want > 1e-3:
        ctx.count("served")
    ctx.close(m.minimum_bandwdith_for_connected_demand, want,
              "metric-bandwidth", what, rel=1e-5, abs_tol=1e-5)
    ctx.close(m.total_bandwidth, want * len(conn), "metric-total", what,
              rel=1e-4, abs_tol=1e-4)
    both, use = {}, []
    for l in t.links.values():
        e = (l.tx_site.site_id, l.rx_site.site_id)
        if l.status_type not in ACTIVE:
            continue
        ctx.count("links in use")
        ctx.check_that(e in es or l.proposed_flow <= 2 * EPS,
                       "traffic-on-unused-link", lambda: f"{e}\n{before}")
        u = 100 * l.proposed_flow / l.capacity if l.capacity > 0 else 0
        both.setdefault(frozenset(e), []).append((u, l.utilization, e))
    for k, v in both.items():
        big = max(u for u, _, _ in v)
        use.append(big)
        ctx.check_that(
            abs(max(x for _, x, _ in v) - big) <= 1e-3
            and sum(u > 1e-2 for u, _, _ in v) <= 1,
            "utilization", lambda: f"{v}\n{before}")
    net = {k: 0.0 for k in t.sites}
    for l in t.links.values():
        if l.status_type in ACTIVE:
            net[l.tx_site.site_id] -= l.proposed_flow
            net[l.rx_site.site_id] += l.proposed_flow
    taken = sum(v for k, v in net.items() if t.sites[k].site_type != POP)
    ctx.check_that(taken <= want * len(conn) + 1e-4, "more-than-asked", what)
    for k, v in net.items():
        if t.sites[k].site_type != POP:
            n = sum(c in conn and any(s.site_id == k
                                      for s in d.connected_sites)
                    for c, d in copies(t))
            ctx.check_that(-1e-4 <= v <= n * want + 1e-4, "site-keeps",
                           lambda: f"{k} {v}\n{before}")
    s = m.link_capacity_utilization
    if use:
        for got, w in ((s.avg, sum(use) / len(use)), (s.max, max(use)),
                       (s.min, min(use))):
            ctx.close(got, w, "metric-utilization", what, rel=1e-4,
                      abs_tol=1e-3)
    else:
        ctx.check_that(tuple(s) == (0, 0, 0), "metric-utilization", what)
    ctx.nontrivial(before)


def links_in_use_all(t):
    return {(l.tx_site.site_id, l.rx_site.site_id): l
            for l in t.links.values()
            if {l.status_type, l.tx_site.status_type,
                l.rx_site.status_type} <= ACTIVE
            and (not l.is_wireless or l.tx_sector is not None)}


if __name__ == "__main__":
    check.run()
