"""C19 graph analyses against exhaustive recomputation."""
import logging

from vmon import Check
from nets import REACH, edges, frozen, inst, network, served, state, walk
from tg import *  # noqa
from terragraph_planner.common.configuration.enums import TopologyRouting
from terragraph_planner.optimization.constants import SUPERSOURCE
from terragraph_planner.optimization.topology_networkx import (
    build_digraph, disjoint_paths, find_connected_demands,
    find_most_disruptive_links, get_topology_routing_results,
    single_edge_failures, single_site_failures,
)
from terragraph_planner.optimization.topology_operations import (
    compute_max_pop_capacity_of_topology, get_adversarial_links,
    get_reachable_demand_sites, hops_from_pops, mark_unreachable_components,
)

check = Check(
    "C19",
    rule="random networks (trees, rings, meshes, islands; wired and one-way "
         "links; all statuses; demand at any number of sites) with every "
         "analysis recomputed by removing elements one at a time; non-trivial "
         "= distinct (size, result) tuples",
    assumptions=["at least one POP with an accepted status",
                 "no two sites in use share a position"],
    workers=6,
)
COST = {**{m: 15 for m in (2, 3)}, **{m: 3 for m in (4, 5, 6, 7, 8)}}


@check.part(quick=6400, thorough=150000, share=.25,
            need={"edge cuts": 300, "edge harmless": 300, "site cuts": 300,
                  "wired kept": 50, "disjoint": 100, "single path": 100,
                  "next to POP": 100, "out of reach": 100,
                  "reachable": 1000})
def failures(ctx, rng):
    """Demand cut off by each link or site, and disjoint paths."""
    t = network(rng)
    sts = rng.choice([ACTIVE, ACTIVE, ACTIVE, REACH])
    if not any(s.site_type == POP and s.status_type in sts
               for s in t.sites.values()):
        return
    before = state(t)
    g = build_digraph(t, sts)
    order = rng.sample(["edges", "sites", "disjoint", "demand"], 4)
    got, notes = {}, frozen(g)
    for o in order:
        if o == "edges":
            got[o] = single_edge_failures(g)
        elif o == "sites":
            got[o] = single_site_failures(g)
        elif o == "disjoint":
            got[o] = disjoint_paths(t, g)
        else:
            got[o] = find_connected_demands(g)
        ctx.check_that(frozen(g) == notes, "graph-changed:" + o,
                       lambda: inst(t))
    ctx.check_that(state(t) == before, "plan-changed", lambda: inst(t))
    es = edges(t, sts)
    # demand at a site that is not itself accepted is not served there
    base = served(t, sts, es)
    ctx.check_that(got["demand"] == base, "connected-demand",
                   lambda: f"{got['demand']} {base} {inst(t)}")
    ctx.check_that(get_reachable_demand_sites(t, sts) == base,
                   "reachable-demand", lambda: f"{base} {inst(t)}")
    ctx.count("reachable", len(base))
    want = {}
    for (a, b), l in es.items():
        if l.link_type != LinkType.WIRELESS_BACKHAUL:
            ctx.count("wired kept" if not l.is_wireless else "access kept")
            continue
        key = (min(a, b), max(a, b))
        left = {e: x for e, x in es.items() if set(e) != {a, b}}
        want[key] = base - served(t, sts, left)
        ctx.count("edge cuts" if want[key] else "edge harmless")
    ctx.check_that({k: set(v) for k, v in got["edges"].items()} == want,
                   "link-failure", lambda: f"{got['edges']} {want} {inst(t)}")
    pops, dns = {}, {}
    for i, s in t.sites.items():
        if s.site_type == CN:
            continue
        cut = base - served(t, sts, es, {i})
        if cut:
            ctx.count("site cuts")
            (pops if s.site_type == POP else dns)[i] = cut
    ctx.check_that(
        [{k: set(v) for k, v in x.items()} for x in got["sites"]]
        == [pops, dns], "site-failure",
        lambda: f"{got['sites']} {pops} {dns} {inst(t)}")
    d = got["disjoint"]
    two, near = set(), set()
    for k, dem in t.demand_sites.items():
        if k not in base:
            ctx.count("out of reach")
            continue
        if any(s.site_type == POP and s.status_type in sts
               for s in dem.connected_sites):
            near.add(k)
            ctx.count("next to POP")
            continue
        alone = all(k in served(t, sts, {e: x for e, x in es.items()
                                         if e != c})
                    for c, l in es.items() if l.rx_site.site_type != CN)
        ctx.count("disjoint" if alone else "single path")
        if alone:
            two.add(k)
    ctx.check_that(set(d.disconnected_demand_locations)
                   == set(t.demand_sites) - base, "disconnected-demand",
                   lambda: f"{d} {inst(t)}")
    ctx.check_that(set(d.demand_connected_to_pop) == near, "demand-at-pop",
                   lambda: f"{d} {near} {inst(t)}")
    ctx.check_that(not set(d.demand_with_disjoint_paths) - two,
                   "claimed-disjoint", lambda: f"{d} {two} {inst(t)}")
    ctx.check_that(set(d.demand_with_disjoint_paths) >= two,
                   "missed-disjoint", lambda: f"{d} {two} {inst(t)}")
    ctx.nontrivial(len(t.sites), len(es), len(base), len(two), len(pops),
                   len(dns))


@check.part(quick=6400, thorough=150000, share=.25,
            need={"marked": 500, "too far": 40, "kept": 500,
                  "unavailable link": 100, "pop capped": 100,
                  "pop sum": 100})
def hops_and_marks(ctx, rng):
    """Hop counts, unreachable elements, capacity out of the POPs."""
    t = network(rng, (None, None, CANDIDATE, PROPOSED))
    sts = rng.choice([ACTIVE, REACH, {CANDIDATE}, set(ALL_STATUS), None])
    acc = sts or set(ALL_STATUS)
    before = state(t)
    got = hops_from_pops(t, sts)
    want = walk(t, acc, edges(t, acc))
    ctx.check_that(dict(got) == want, "hops",
                   lambda: f"{sts} {got} {want} {inst(t)}")
    cap = rng.choice([.5, 2.0, 10.0, 1e3])
    total = 0.0
    for i, s in t.sites.items():
        if s.site_type != POP:
            continue
        best, wired = {}, 0.0
        for (a, _), l in edges(t, acc).items():
            if a == i and not l.is_wireless:
                wired += l.capacity
            elif a == i and l.tx_sector is not None:
                k = l.tx_sector.sector_id
                best[k] = max(best.get(k, 0.0), l.capacity)
        out = wired + sum(best.values())
        ctx.count("pop capped" if out > cap else "pop sum")
        total += min(out, cap)
    ctx.close(compute_max_pop_capacity_of_topology(t, cap, acc), total,
              "pop-capacity", lambda: f"{cap} {acc} {inst(t)}")
    ctx.check_that(state(t) == before, "plan-changed", lambda: inst(t))
    limit = rng.choice([None, 1, 2, 3, 5])
    text = inst(t)
    hop = walk(t, REACH, edges(t, REACH))
    mark_unreachable_components(t, limit)
    lost = {i for i, s in before[0].items() if s[0] == CANDIDATE
            and (i not in hop or limit is not None and hop[i] > limit)}
    for i, s in t.sites.items():
        new = UNREACHABLE if i in lost else before[0][i][0]
        ctx.count("marked" if i in lost else "kept")
        if i in lost and i in hop:
            ctx.count("too far")
        ctx.check_that(s.status_type == new, "site-mark",
                       lambda: f"{i} limit={limit} {s.status_type} {text}")
    for i, x in t.sectors.items():
        old = before[1][i]
        new = UNREACHABLE if x.site.status_type == UNREACHABLE else old
        ctx.check_that(x.status_type == new, "sector-mark",
                       lambda: f"{i} limit={limit} {x.status_type} {text}")
    for i, l in t.links.items():
        old = before[2][i][0]
        new = old
        if lost & {l.tx_site.site_id, l.rx_site.site_id}:
            if old == UNAVAILABLE:
                ctx.count("unavailable link")
            else:
                new = UNREACHABLE
        ctx.check_that(l.status_type == new, "link-mark",
                       lambda: f"{i} limit={limit} {l.status_type} {text}")
    ctx.check_that(state(t)[3] == before[3], "plan-changed", lambda: text)
    ctx.nontrivial(len(t.sites), len(lost), limit, len(got), round(total, 2))


def cheapest(es, cost, srcs):
    """Bellman-Ford from the POPs; nodes not reached are missing."""
    d = {s: 0.0 for s in srcs}
    for _ in range(len(es) + 1):
        for (a, b) in es:
            if a in d and d[a] + cost(es[a, b]) < d.get(b, math.inf):
                d[b] = d[a] + cost(es[a, b])
    return d


@check.part(quick=6400, thorough=150000, share=.25,
            need={"hops routed": 300, "class routed": 300, "zone routed": 200,
                  "wired on route": 50, "longer but better class": 30})
def routing(ctx, rng):
    """Links used when traffic follows shortest paths."""
    t = network(rng)
    for l in t.links.values():       # links too weak for traffic: no cost
        if l.is_wireless and l.mcs_level == 0:
            l.mcs_level = rng.choice([2, 4, 12])
    kind = rng.choice(list(TopologyRouting))
    before = state(t)
    srcs = {i for i, s in t.sites.items()
            if s.site_type == POP and s.status_type in ACTIVE}
    if not srcs:
        return
    g = build_digraph(t, ACTIVE)
    used = get_topology_routing_results(t, g, kind)
    ctx.check_that(state(t) == before, "plan-changed", lambda: inst(t))
    es = edges(t, ACTIVE)

    def c_hop(l):
        return 1.0

    def c_mcs(l):
        return float(COST.get(l.mcs_level, 1)) if l.is_wireless else 1.0

    hop = cheapest(es, c_hop, srcs)
    cost = c_hop if kind == TopologyRouting.SHORTEST_PATH else c_mcs
    zones = {None: (es, srcs)}
    zone_of = {k: None for k in t.demand_sites}
    if kind == TopologyRouting.DPA_PATH:
        # the POPs at minimal hop distance of each site and demand
        per = {p: cheapest(es, c_hop, {p}) for p in srcs}
        near = {i: {p for p in srcs if per[p].get(i, math.inf) == hop[i]}
                for i in hop}
        dem = {}
        for k, d in t.demand_sites.items():
            at = [s.site_id for s in d.connected_sites if s.site_id in hop]
            if at:
                m = min(hop[i] for i in at)
                dem[k] = set().union(*[near[i] for i in at if hop[i] == m])
        if any(len(v) != 1 for v in near.values()) or \
                any(len(v) != 1 for v in dem.values()):
            ctx.count("ambiguous zone")
            return
        zones = {p: ({e: l for e, l in es.items()
                      if near.get(e[0]) == near.get(e[1]) == {p}}, {p})
                 for p in srcs}
        zone_of = {k: next(iter(v)) for k, v in dem.items()}
    by = {e: es[e] for e in es if es[e].link_id in used}
    ctx.check_that({l.link_id for l in by.values()} == set(used),
                   "route-over-unused", lambda: f"{used} {inst(t)}")
    useful = set()
    for k, d in t.demand_sites.items():
        z = zone_of.get(k)
        if k not in zone_of or z is None and kind == TopologyRouting.DPA_PATH:
            continue
        zes, zs = zones[z]
        at = [s.site_id for s in d.connected_sites]
        if z is not None:
            at = [i for i in at if near.get(i) == {z}]
        dist = cheapest(zes, cost, zs)
        at = [i for i in at if i in dist]
        if not at:
            continue
        best = min(dist[i] for i in at)
        mine = cheapest({e: l for e, l in by.items() if e in zes}, cost, zs)
        ctx.check_that(
            min(mine.get(i, math.inf) for i in at) == best, "route-not-best",
            lambda: f"{kind} {k} best={best} {used} {inst(t)}")
        ctx.count({1: "hops routed", 2: "class routed",
                   3: "zone routed"}[kind.value])
        if cost is c_mcs and best > 0 and \
                min(hop[i] for i in at) < best < math.inf:
            ctx.count("longer but better class")
        ends = {i for i in at if dist[i] == best}
        back = {}
        for i in ends:               # cost from each node to the best ends
            r = cheapest({(b, a): l for (a, b), l in zes.items()}, cost, {i})
            for x, v in r.items():
                back[x] = min(back.get(x, math.inf), v)
        useful |= {e for e, l in zes.items() if e[0] in dist and e[1] in back
                   and dist[e[0]] + cost(l) + back[e[1]] == best}
    ctx.check_that(set(by) <= useful, "route-detour",
                   lambda: f"{kind} {sorted(set(by) - useful)} {inst(t)}")
    ctx.count("wired on route", sum(not l.is_wireless for l in by.values()))
    ctx.nontrivial(kind.name, len(es), len(by))


def blocked(t):
    """Sites that cannot be chosen next to one in use at the same place."""
    out = set()
    for i, s in t.sites.items():
        if s.status_type in ACTIVE:
            continue
        for x in t.sites.values():
            if x.status_type in ACTIVE and (x.latitude, x.longitude,
                                            x.altitude) == (
                    s.latitude, s.longitude, s.altitude):
                if x.site_type != CN or s.site_type == CN:
                    out.add(i)
    return out


@check.part(quick=6400, thorough=150000, share=.25,
            need={"links found": 80, "count reached": 20,
                  "refused": 100, "weak link in use": 20, "blocked": 50})
def adversarial(ctx, rng):
    """Links assumed to fail: most disruptive, candidates replace them."""
    t = network(rng, (None, PROPOSED, PROPOSED, EXISTING))
    if rng.random() < .5:            # some candidates at occupied places
        base = [s for s in t.sites.values() if s.status_type in ACTIVE]
        for j, s in enumerate(rng.sample(base, min(2, len(base)))):
            ty = rng.choice([CN, DN, POP])
            n = make_site(ty, s.utm_x, s.utm_y,
                          cn_device() if ty == CN else dn_device(), CANDIDATE,
                          alt=s.altitude, sid=f"k{j}")
            t.add_site(n)
            for o in rng.sample(list(t.sites.values()),
                                min(4, len(t.sites))):
                if (o.utm_x, o.utm_y) == (n.utm_x, n.utm_y) or \
                        o.status_type not in REACH or \
                        o.site_type == ty == CN:
                    continue
                for p, q in ((n, o), (o, n)):
                    if p.site_type != CN:
                        l = Link(p, q)
                        l.mcs_level, l.capacity = 9, 1.0
                        t.add_link(l)
            if t.demand_sites and rng.random() < .6:
                rng.choice(list(t.demand_sites.values())
                           ).connected_sites.append(n)
    if not any(s.site_type == POP and s.status_type in ACTIVE
               for s in t.sites.values()):
        return
    ratio = rng.choice([0.0, .05, .2, .5, 1.0])
    before = state(t)
    text = inst(t)
    got = set(get_adversarial_links(t, ratio))
    ctx.check_that(state(t) == before, "plan-changed", lambda: text)
    back = {e for e, l in edges(t, ACTIVE).items()
            if l.link_type == LinkType.WIRELESS_BACKHAUL}
    n_act = sum(l.status_type in ACTIVE and
                l.link_type == LinkType.WIRELESS_BACKHAUL
                for l in t.links.values())
    cnt = math.ceil(n_act * ratio)
    ctx.check_that(got <= back and all(
        (b, a) in got or (b, a) not in back
        or t.get_link_by_site_ids(b, a).capacity <= 0 for a, b in got),
                   "adversarial-kind", lambda: f"{got} {text}")
    ctx.check_that(len(got) <= cnt + 1, "adversarial-count",
                   lambda: f"{got} {cnt} {text}")
    es = edges(t, ACTIVE)
    now = served(t, ACTIVE, es)
    loss = {}
    for e in back:
        left = {x: l for x, l in es.items() if set(x) != set(e)}
        loss[e] = len(now - served(t, ACTIVE, left))
    ban = blocked(t)
    if ban:
        ctx.count("blocked")
    cand = {e: l for e, l in edges(t, REACH).items() if l.capacity > 0
            and not set(e) & ban}

    def kept(without):
        left = {e: l for e, l in cand.items() if e not in without}
        hop = walk(t, REACH, left, ban)
        return {k for k, d in t.demand_sites.items() if any(
            s.site_id in hop for s in d.connected_sites)}
    whole = kept(set())
    if any(es[e].capacity <= 0 and loss[e] for e in back):
        ctx.count("weak link in use")
    ctx.check_that(kept(got) == whole, "adversarial-cuts-candidates",
                   lambda: f"{got} {ratio} {text}")
    ctx.check_that(all(loss[e] > 0 for e in got), "adversarial-harmless",
                   lambda: f"{got} {loss} {text}")
    full = len(got) >= cnt
    least = min((loss[e] for e in got), default=0)
    if cnt:
        for e in back - got:
            if loss[e] == 0 or es[e].capacity <= 0 or (
                    es.get((e[1], e[0])) is not None
                    and es[e[1], e[0]].capacity <= 0):
                continue
            if full and loss[e] <= least:
                continue
            ctx.count("refused")
            ctx.check_that(kept(got | {e, (e[1], e[0])}) != whole,
                           "adversarial-missed",
                           lambda: f"{e} {got} {ratio} {loss} {text}")
    ctx.count("links found", len(got))
    if full and got:
        ctx.count("count reached")
    # the same from two graphs
    g, h = build_digraph(t, ACTIVE), build_digraph(t, REACH)
    notes = frozen(g), frozen(h)
    k = rng.choice([0, 1, 2, 4])
    some = find_most_disruptive_links(g, h, k)
    ctx.check_that((frozen(g), frozen(h)) == notes, "graph-changed",
                   lambda: text)
    ctx.check_that(set(some) <= back and len(some) <= k + (k > 0),
                   "most-disruptive", lambda: f"{some} {k} {text}")
    ctx.nontrivial(len(t.sites), len(back), len(got), ratio)


if __name__ == "__main__":
    logging.disable(logging.CRITICAL)
    check.run()
