"""C24: redundancy is as promised, the most possible, and cheapest."""
import itertools

import networkx as nx

from ilp import *  # noqa
from nets import inst
from vmon import Check, Skip

from terragraph_planner.common.configuration.enums import RedundancyLevel
from terragraph_planner.optimization import topology_optimization as topt
from terragraph_planner.optimization.ilp_models.redundancy_optimization import (
    RedundantNetwork,
    compute_candidate_edges_for_redundancy,
)
from terragraph_planner.optimization.structs import RedundancyParams

check = Check(
    "C24",
    rule="redundancy is planned on top of random plans; every failure the "
         "level covers is then applied to the result in turn, and the plan is "
         "compared with the best over every choice of sites and polarities",
    assumptions=[
        "scipy's HiGHS stands in for the commercial solver; it is told to "
        "solve to optimality",
        "networks of at most 8 sites (18 for the path search), at most one "
        "site in use in each place",
    ])


def flows(edges, kinds, sink, caps, most):
    """Most units from the POPs to `sink` with these capacities per site."""
    pop_cap, dn_cap, sink_cap = caps
    # residual graph: (site, 0) entrance, (site, 1) exit
    res = {}

    def add(u, v, c):
        res.setdefault(u, {})[v] = res.get(u, {}).get(v, 0) + c
        res.setdefault(v, {}).setdefault(u, 0)

    seen = {x for e in edges for x in e} | {
        k for k, v in kinds.items() if v == POP}
    for k in seen:
        c = pop_cap if kinds[k] == POP else sink_cap if k == sink else dn_cap
        add((k, 0), (k, 1), c)
        if kinds[k] == POP:
            add("S", (k, 0), pop_cap)
    for i, j in edges:
        add((i, 1), (j, 0), 1)
    goal, total = (sink, 1), 0
    if goal not in res:
        return 0
    while total < most:
        back, queue = {"S": None}, ["S"]
        while queue and goal not in back:
            u = queue.pop()
            for v, c in res.get(u, {}).items():
                if c > 0 and v not in back:
                    back[v] = u
                    queue.append(v)
        if goal not in back:
            break
        v = goal
        while back[v] is not None:
            res[back[v]][v] -= 1
            res[v][back[v]] += 1
            v = back[v]
        total += 1
    return total


LEVELS = {
    "LOW": lambda n: (2, 2, 2),
    "MEDIUM": lambda n: (1, 1, 2) if n > 1 else (2, 1, 2),
    "HIGH": lambda n: (2, 1, 4) if n > 1 else (3, 1, 3),
}


def failures(level, pops, dns, links):
    """Sets of POPs, DNs and links the level promises to survive."""
    if level == "LOW":
        return [(set(), {l}) for l in links]
    if level == "MEDIUM":
        return [({x}, set()) for x in
                list(dns) + (list(pops) if len(pops) > 1 else [])]
    if len(pops) == 1:
        return [(set(c), set()) for c in itertools.combinations(dns, 2)]
    return [({a, b}, set()) for a in pops for b in dns] + \
        [(set(c), set()) for c in itertools.combinations(dns, 3)]


def survives(ctx, level, dn, pops, dns, edges, say):
    pairs = {frozenset(e) for e in edges}
    for gone, cut in failures(level, pops, [d for d in dns if d != dn],
                              pairs):
        left = [e for e in edges if not gone & set(e)
                and frozenset(e) not in cut]
        ctx.count("failures")
        if not ctx.check_that(dn in reached(pops - gone, left),
                              "cut-off-by-failure",
                              lambda: say(f"{dn} without {gone or cut}")):
            return


def problem(ctx, rng):
    t, p, on = base_plan(ctx, rng, ctx.scale(7, 8),
                         keen=rng.choice([.2, .2, .4, .8]))
    dns = [k for k in on if t.sites[k].site_type == DN]
    if len(dns) == 0 and rng.random() < .98:
        raise Skip("no DN in use")
    into = {l.rx_site.site_id for l in t.links.values() if l.capacity > 0}
    outof = {l.tx_site.site_id for l in t.links.values() if l.capacity > 0}
    if not any(x.site_id in into for d in t.demand_sites.values()
               for x in d.connected_sites) or not any(
                   t.sites[k].site_type == POP for k in outof):
        raise Skip("nothing to serve")
    return t, p, on, dns


@check.part(quick=9000, thorough=100000, share=3,
            need={"plans": 1000, "grown": 150, "failures": 1500,
                  "partial": 200, "priced": 100})
def planned(ctx, rng):
    """The plan has the least shortage and, with it, the least cost."""
    t, p, on, dns = problem(ctx, rng)
    pops = {k for k in on if t.sites[k].site_type == POP}
    level = rng.choice(list(LEVELS))
    caps = LEVELS[level](len(pops))
    if rng.random() < .1:
        level, caps = None, (rng.randint(1, 3), rng.randint(1, 2),
                             rng.randint(1, 4))
    before, text = inst(t), show(t, p)
    was = p.maximize_common_bandwidth
    sol = RedundantNetwork(t, p, RedundancyParams(*caps)).solve()
    what = lambda x="": f"{x}\n{level} {caps}\n{text}"  # noqa
    ctx.check_that(inst(t) == before
                   and p.maximize_common_bandwidth == was,
                   "input-changed", what)
    ctx.check_that(sol is not None, "no-plan", what)
    if sol is None:
        return
    ctx.count("plans")
    ctx.sample({"level": level, "network": text})
    ctx.nontrivial(text, caps)
    ref = Ref(t, p)
    use = {k for k, v in sol.site_decisions.items() if v == 1}
    ctx.check_that(set(sol.site_decisions) == set(t.sites), "sites-decided",
                   what)
    added = use - on
    ctx.count("grown", bool(added))
    place = {k: (s.longitude, s.latitude, s.altitude)
             for k, s in t.sites.items()}
    lost = on - use
    ctx.check_that(all(
        ref.kind[k] == CN and any(place[a] == place[k] for a in added)
        for k in lost), "planned-site-dropped", lambda: what(lost))
    ctx.check_that(all(ref.kind[k] == DN and ref.status[k] == CANDIDATE
                       for k in added), "ineligible-site-added",
                   lambda: what(added))
    ctx.check_that(len({place[k] for k in use}) == len(use),
                   "two-sites-in-one-place", lambda: what(use))
    # polarities and links
    odd = {k for k, v in sol.odd_site_decisions.items() if v == 1}
    even = {k for k, v in sol.even_site_decisions.items() if v == 1}
    pol = None
    if not p.ignore_polarities:
        for k in t.sites:
            ctx.check_that(
                (k in odd) + (k in even)
                == (k in use and ref.kind[k] in DIST
                    and (k in odd or k in even or any(
                        e.usable and k in (e.i, e.j) for e in ref.edges))),
                "polarity-of-sites", lambda: what(k))
        pol = {k: k in odd for k in t.sites}
    up = []
    for e in ref.edges:
        want = e.usable and e.i in use and e.j in use and (
            e.wired or not e.dist or pol is None or pol[e.i] != pol[e.j])
        ctx.check_that(sol.link_decisions[(e.i, e.j)] == int(want),
                       "link-decision", lambda: what((e.i, e.j, want)))
        if e.active and {e.i, e.j} <= use:
            ctx.check_that(bool(want), "planned-link-dropped",
                           lambda: what((e.i, e.j)))
        if sol.link_decisions[(e.i, e.j)] == 1 and e.dist:
            up.append((e.i, e.j))
    for x in t.sectors.values():
        got = sol.sector_decisions.get((x.site.site_id, x.sector_id), 0)
        ctx.check_that(got == int(x.site.site_id in use), "sector-decision",
                       lambda: what(x.sector_id))
        ch = sol.channel_decisions.get((x.site.site_id, x.sector_id), -1)
        ctx.check_that(ch == (0 if got else -1), "channel-decision",
                       lambda: what(x.sector_id))
    # what a site can count on
    goal = caps[2]
    have = {d: flows(up, ref.kind, d, caps, goal) for d in dns}
    tied = {k for e in ref.edges if e.dist and e.cap > 0
            for k in (e.i, e.j)}
    for d in dns:
        if d not in tied:
            ctx.check_that(d not in sol.shortage_decisions, "lone-DN",
                           lambda: what(d))
            continue
        s = sol.shortage_decisions.get(d)
        ctx.check_that(s is not None and -1e-6 <= s <= goal + 1e-6
                       and have[d] >= goal - s - 1e-4, "shortage-understated",
                       lambda: what(f"{d} short {s} but has {have[d]}"))
        if s is not None and s < .5:
            if level:
                survives(ctx, level, d, pops, [k for k in use
                                               if ref.kind[k] == DN],
                         up, what)
        else:
            ctx.count("partial")
    cost = sum(ref.full[k] for k in use)
    ctx.close(sol.cost, cost, "cost", what, rel=1e-6, abs_tol=1e-6)
    # against every choice of sites and polarities
    fixed = {k for k in on if ref.kind[k] in DIST}
    free = [k for k in t.sites if ref.kind[k] == DN and k not in on
            and ref.status[k] == CANDIDATE]
    picks = []
    for r in range(len(free) + 1):
        for c in itertools.combinations(free, r):
            S = fixed | set(c)
            if len({place[k] for k in S}) == len(S):
                picks.append((sum(ref.full[k] for k in c), S))
    picks.sort(key=lambda x: x[0])
    kinds = {k: v for k, v in ref.kind.items() if k in on or v != POP}
    mine = [d for d in dns if d in tied]
    need = {d: goal - sol.shortage_decisions[d] - 1e-4 for d in mine}
    spent = sum(ref.full[k] for k in use if k in free)
    big = ref.maximal([frozenset(S) for _, S in picks])
    best, cheap, cache = 0, None, {}
    for q in ref.polarities():
        for S in big:
            es = frozenset((e.i, e.j) for e in ref.open_edges(S, q)
                           if e.dist)
            if es not in cache:
                cache[es] = sum(flows(es, kinds, d, caps, goal)
                                for d in mine)
            best = max(best, cache[es])
    got = sum(goal - sol.shortage_decisions[d] for d in mine)
    ctx.close(got, best, "not-the-most-redundancy", lambda: what(
        f"{sol.shortage_decisions}"), rel=0, abs_tol=1e-3)
    cache = {}
    for price, S in picks:
        if price >= spent - 1e-6:
            break
        for q in ref.polarities():
            es = frozenset((e.i, e.j) for e in ref.open_edges(S, q)
                           if e.dist)
            if es not in cache:
                cache[es] = all(flows(es, kinds, d, caps, goal) >= need[d]
                                for d in mine)
            if cache[es]:
                cheap = price
                break
        if cheap is not None:
            break
    ctx.count("priced", spent > 0)
    ctx.check_that(cheap is None or cheap >= spent - 1e-4 * (1 + spent),
                   "not-the-cheapest", lambda: what(
                       f"spent {spent}, could be {cheap}"))


def big_net(rng):
    """A larger candidate network, on a grid or in a row now and then."""
    n = rng.randint(4, 18)
    dn = dn_device()
    shape = rng.choice(["free", "free", "grid", "row", "diagonal"])
    side = max(2, int(n ** .5 + .5))
    sites, at = [], set()
    for i in range(n):
        pos = {"free": (rng.uniform(0, 900), rng.uniform(0, 900)),
               "grid": (100.0 * (i % side), 100.0 * (i // side)),
               "row": (100.0 * i, 0.0),
               "diagonal": (50.0 * i, 50.0 * i)}[shape]
        ty = POP if i == 0 or rng.random() < .1 else DN
        lat, lon = 1.0 + pos[1] * 1e-5, 1.0 + pos[0] * 1e-5
        sites.append(make_site_ll(ty, lat, lon, dn, alt=0.0,
                                  sid=f"{rng.choice('abcxyz')}{i}"))
    rng.shuffle(sites)
    t = Topology(sites=sites)
    secs = {}
    for s in sites:
        secs[s.site_id] = Sector(s, 0, 0, 0.0, CANDIDATE)
        t.add_sector(secs[s.site_id])
    reach = rng.choice([150, 250, 500]) * 1e-5
    twoway = rng.random() < .7
    for a, b in itertools.permutations(sites, 2):
        d = ((a.latitude - b.latitude) ** 2
             + (a.longitude - b.longitude) ** 2) ** .5
        if d > reach or (not twoway and rng.random() < .2):
            continue
        wired = rng.random() < .05 and twoway is False
        l = Link(a, b, None if wired else secs[a.site_id],
                 None if wired else secs[b.site_id],
                 status_type=CANDIDATE, is_wireless=not wired)
        l.capacity = 1.8
        l.mcs_level = 9
        t.add_link(l)
    return t, OptimizerParams(device_list=[dn])


@check.part(quick=1500, thorough=30000, share=2,
            need={"POP paths": 3000, "DN paths": 2000, "in a row": 100,
                  "one way": 200})
def paths(ctx, rng):
    """The reduced network keeps the disjoint paths of the full one."""
    t, p, on = base_plan(ctx, rng, 9, keen=.9,
                         like=big_net(rng) if rng.random() < .8 else None)
    dns = [k for k in on if t.sites[k].site_type == DN]
    pops = [k for k in on if t.sites[k].site_type == POP]
    if not dns:
        raise Skip("no DN in use")
    before = inst(t)
    x, y = rng.choice([(4.0, 2.0)] * 3 + [
        (2.0, 0.0), (0.0, 2.0), (1.0, 3.0), (2.0, 2.0)])
    got = compute_candidate_edges_for_redundancy(t, x, y)
    lines = lambda s="": "\n".join([  # noqa
        f"{s} {x} {y}"] + [
        f"{k} {s.site_type.name} {s.status_type.name} "
        f"{s.latitude:.5f} {s.longitude:.5f}" for k, s in t.sites.items()] + [
        f"{l.tx_site.site_id}>{l.rx_site.site_id} {l.status_type.name}"
        for l in t.links.values()])
    ctx.check_that(inst(t) == before, "input-changed", lines)
    kinds = {k: s.site_type for k, s in t.sites.items()}
    full = {(l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values()
            if l.status_type not in INACTIVE and l.capacity > 0
            and {l.tx_site.site_type, l.rx_site.site_type} <= DIST
            and l.tx_site.status_type not in INACTIVE
            and l.rx_site.status_type not in INACTIVE}
    ctx.check_that(got <= full, "unusable-link", lambda: lines(got - full))
    ctx.nontrivial(sorted(got), before)
    ctx.sample({"network": lines(), "kept": sorted(got)})
    ctx.count("one way", any((j, i) not in full for i, j in full))
    pts = [(t.sites[d].latitude, t.sites[d].longitude) for d in dns]
    ctx.count("in a row", len(pts) > 2 and (
        len({round(u, 9) for u, _ in pts}) == 1
        or len({round(u - v, 9) for u, v in pts}) == 1))

    def between(edges, a, b, cap):
        g = nx.DiGraph()
        for k in kinds:
            g.add_edge((k, 0), (k, 1), capacity=cap if k == a
                       or kinds[a] == POP and kinds[k] == POP else
                       x if kinds[k] == POP else 1.0)
        for i, j in edges:
            if j != a or kinds[a] == POP:
                g.add_edge((i, 1), (j, 0), capacity=1.0)
        return nx.maximum_flow_value(g, (a, 0), (b, 0))

    if x > 0:
        for a, b in rng.sample([(a, b) for a in pops for b in dns],
                               min(6, len(pops) * len(dns))):
            ctx.count("POP paths")
            u, v = between(got, a, b, x), between(full, a, b, x)
            ctx.check_that(min(u, x) == min(v, x), "POP-paths-lost",
                           lambda: lines(f"{a} to {b}: {u} of {v}"))
    if y > 0 and len(dns) > 1:
        for a in rng.sample(dns, min(6, len(dns))):
            near = sorted((
                (t.sites[a].latitude - t.sites[b].latitude) ** 2
                + (t.sites[a].longitude - t.sites[b].longitude) ** 2, b)
                for b in dns if b != a)
            if len(near) > 1 and near[1][0] < near[0][0] * 1.001:
                continue
            b = near[0][1]
            ctx.count("DN paths")
            for i, j in ((a, b), (b, a)):
                u, v = between(got, i, j, y), between(full, i, j, y)
                ctx.check_that(min(u, y) == min(v, y), "DN-paths-lost",
                               lambda: lines(f"{i} to {j}: {u} of {v}"))


# the step is a helper of the optimizer: without it the part is left out
RUN_STEP = getattr(topt, "_run_redundancy_step", None)


@(check.part(quick=5000, thorough=60000, share=2,
             need={"steps": 600, "grown": 60, "failures": 800})
  if RUN_STEP else lambda fn: fn)
def step(ctx, rng):
    """The step as the optimizer runs it, level by level."""
    t, p, on, dns = problem(ctx, rng)
    pops = {k for k in on if t.sites[k].site_type == POP}
    level = rng.choice(list(LEVELS) + ["NONE"])
    p.redundancy_level = RedundancyLevel[level]
    status = {k: s.status_type for k, s in t.sites.items()}
    kinds = {k: s.site_type for k, s in t.sites.items()}
    text, before = show(t, p), inst(t)
    what = lambda x="": f"{x}\n{level}\n{text}"  # noqa

    def up():
        return [(l.tx_site.site_id, l.rx_site.site_id)
                for l in usable_links(t) if l.status_type in ACTIVE]

    old = up()
    sol = RUN_STEP(t, p)
    if level == "NONE":
        ctx.check_that(sol is None and inst(t) == before, "unasked", what)
        return
    ctx.check_that(sol is not None, "no-plan", what)
    if sol is None:
        return
    ctx.count("steps")
    ctx.nontrivial(text, level)
    ctx.sample({"level": level, "network": text})
    caps = LEVELS[level](len(pops))
    now = {k for k, s in t.sites.items() if s.status_type in ACTIVE}
    new = up()
    ctx.count("grown", bool(now - on))
    place = {k: (s.longitude, s.latitude, s.altitude)
             for k, s in t.sites.items()}
    for k in on - now:
        ctx.check_that(kinds[k] == CN and any(
            place[a] == place[k] for a in now - on), "planned-site-dropped",
            lambda: what(k))
    for k in now - on:
        ctx.check_that(status[k] == CANDIDATE and kinds[k] == DN,
                       "ineligible-site-added", lambda: what(k))
    for k in on:
        ctx.check_that(status[k] != EXISTING
                       or t.sites[k].status_type == EXISTING,
                       "status", lambda: what(k))
    new_ones = {k for k in now if kinds[k] != CN or status[k] != EXISTING}
    ctx.check_that(len({place[k] for k in new_ones}) == len(new_ones),
                   "two-sites-in-one-place", lambda: what(now))
    ctx.check_that(set(old) <= set(new), "planned-link-dropped",
                   lambda: what(set(old) - set(new)))
    ctx.check_that(now & {k for k in kinds if kinds[k] in DIST}
                   <= reached(pops, new) | on, "added-site-cut-off",
                   lambda: what(now))
    odd = {k for k in t.sites if t.sites[k].polarity == PolarityType.ODD}
    if not p.ignore_polarities:
        for l in usable_links(t):
            i, j = l.tx_site.site_id, l.rx_site.site_id
            if l.status_type in ACTIVE and l.is_wireless:
                ctx.check_that((i in odd) != (j in odd), "polarity",
                               lambda: what((i, j)))
    goal = caps[2]
    for d in dns:
        u, v = (flows(e, kinds if e is old else {
            k: q for k, q in kinds.items() if q != POP or k in pops},
            d, caps, goal) for e in (old, new))
        ctx.check_that(v >= u, "less-than-before",
                       lambda: what(f"{d} {u} {v}"))
        s = sol.shortage_decisions.get(d)
        if s is not None:
            if u == goal:
                ctx.count("redundant before")
            ctx.check_that(s <= goal - u + 1e-4, "shortage-overstated",
                           lambda: what(f"{d} short {s} had {u}"))
            ctx.check_that(v >= goal - s - 1e-4, "shortage-understated",
                           lambda: what(f"{d} short {s} has {v}"))
            if s < .5:
                survives(ctx, level, d, pops,
                         [k for k in now if kinds[k] == DN], new, what)
        elif d in {k for e in new for k in e}:
            ctx.violate("site-forgotten", what(d))
            return


if __name__ == "__main__":
    check.run()
