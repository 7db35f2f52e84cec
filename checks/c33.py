"""C33: how the planning steps fit together."""
import glob
import itertools
import math
import os
import random

import c29
from tg import *  # noqa
from vmon import Check, Skip

from terragraph_planner.common.configuration.enums import RedundancyLevel
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.optimization import topology_optimization as to
from terragraph_planner.optimization.deployment_rules import (
    find_angle_violating_link_pairs,
)
from terragraph_planner.optimization.ilp_models.cost_optimization import (
    MinCostNetwork,
)
from terragraph_planner.optimization.ilp_models.coverage_optimization import (
    MaxCoverageNetwork,
)
from terragraph_planner.optimization.ilp_models import (
    pop_proposal_optimization as pops,
)
from terragraph_planner.optimization.topology_operations import (
    compute_capex, get_adversarial_links, mark_unreachable_components,
)
from terragraph_planner.optimization.topology_preparation import (
    prepare_topology_for_optimization,
)

check = Check(
    "C33",
    rule="random candidate networks are optimized in debug mode; the networks "
         "the steps leave behind are read back and compared with each other "
         "and with the answers of the step models on a copy; non-trivial = "
         "distinct networks and settings",
    assumptions=["scipy's HiGHS stands in for the commercial solver",
                 "networks of at most 8 sites",
                 "the step models themselves are judged by C22 to C27"])
SHARES = [1.0, .9, .8, .7, .6, .5]


def price(p, s, full=True):
    """With all nodes, or with the least that can be in use."""
    base = {POP: p.pop_site_capex, DN: p.dn_site_capex, CN: p.cn_site_capex}
    n = s.device.number_of_nodes_per_site if full else 0
    n = 1 if s.site_type == CN else n
    if s.status_type == EXISTING:           # nodes may be added to it
        return (n if full else 0) * s.device.node_capex
    return base[s.site_type] + n * s.device.node_capex


class Stage:
    """What a step left behind: elements by place and type."""

    def __init__(self, ctx, name, p, t):
        path = glob.glob(os.path.join(ctx.scratch, "debug", name + "*.kml"))
        self.there = len(path) == 1
        if not self.there:
            return
        got = extract_topology_from_file(path[0], p.device_list, None)
        self.ids = {}
        self.status, self.links = {}, {}
        for k, s in got.sites.items():
            mine = [i for i, o in t.sites.items()
                    if o.site_type == s.site_type
                    and abs(o.latitude - s.latitude) < 2e-5
                    and abs(o.longitude - s.longitude) < 2e-5]
            if len(mine) != 1:
                continue
            self.ids[k] = mine[0]
            self.status[mine[0]] = s.status_type
        for l in got.links.values():
            a, b = (self.ids.get(x.site_id) for x in (l.tx_site, l.rx_site))
            self.links[a, b] = l.status_type
        self.on = {k for k, v in self.status.items() if v in ACTIVE}

    def cost(self, p, t, full):
        return sum(price(p, t.sites[k], full) for k in self.on)


def copy_of(seed):
    return c29.world(random.Random(seed))


def tuned(rng, p, case):
    p.availability_sim_time = 0
    p.topology_routing = None
    if case == "coverage":
        p.enable_legacy_redundancy_method = True
        p.budget = rng.choice([3e5, 9000.0, 14000.0, 20000.0])
        p.backhaul_link_redundancy_ratio = rng.choice([0.0, .2, .5])
    elif case == "redundancy":
        p.enable_legacy_redundancy_method = False
    elif case == "scarce":
        p.pop_capacity = rng.choice([.1, .2, .3, .5, .8])
        p.demand, p.oversubscription = rng.choice([.1, .2]), 1.0
    elif case == "no POP":
        p.number_of_extra_pops = 1
    return p


def ladder(rng, t, p):
    """A mesh of DNs with more places than the cheapest network needs."""
    dn = next(x for x in p.device_list if x.device_sku == "D")
    cn = next(x for x in p.device_list if x.device_sku == "C")
    n = rng.randint(3, 5)
    rows = [(POP, 0.0, 0.0)]
    for k in range(n):
        rows.append((DN, 70.0 + 60 * (k // 2) + rng.uniform(-8, 8),
                     -40.0 + 80 * (k % 2) + rng.uniform(-8, 8)))
    if rng.random() < .3:
        rows.append((POP, 260.0, 0.0))
    far = max(x for _, x, _ in rows)
    for k in rng.sample(range(3), rng.randint(1, 3)):
        rows.append((CN, far + rng.uniform(40, 70),
                     45 * (k - 1) + rng.uniform(-15, 15)))
    sites = [make_site(ty, 5e5 + x, 1e6 + y, cn if ty == CN else dn,
                       CANDIDATE, alt=10.0, sid=f"{rng.choice('abxy')}{i}",
                       name=f"n{i}") for i, (ty, x, y) in enumerate(rows)]
    u = Topology(sites=sites)
    for a, b in itertools.combinations(sites, 2):
        d = math.hypot(a.utm_x - b.utm_x, a.utm_y - b.utm_y)
        kinds = {a.site_type, b.site_type}
        if kinds == {CN} or kinds == {POP, CN} or d > 125:
            continue
        for x, y in ((a, b), (b, a)):
            if x.site_type != CN:
                u.add_link(Link(x, y, status_type=CANDIDATE,
                                confidence_level=1.0))
    p.pop_capacity, p.number_of_extra_pops = 10.0, 0
    p.demand, p.oversubscription = .025, 4.0
    p.maximum_number_hops, p.budget = 15, 3e5
    return u


def star(rng, t, p, case):
    """A POP with CNs around it: not all of them can be served by the
    cheapest network, or they stand close to one line."""
    dn = next(x for x in p.device_list if x.device_sku == "D")
    cn = next(x for x in p.device_list if x.device_sku == "C")
    n = rng.randint(3, 5) if case == "leftover" else rng.randint(4, 7)
    rows = [(POP, 0.0, 0.0, EXISTING)]
    at = rng.uniform(0, 360)
    for k in range(n):
        if case == "leftover":
            a, r = 360 / n * k + rng.uniform(-5, 5), rng.uniform(40, 90)
        else:
            r = rng.uniform(25, 30) if k % 2 else rng.uniform(100, 130)
            a = at = at + rng.choice([20, 33]) + rng.uniform(-4, 4)
        x, y = r * math.cos(math.radians(a)), r * math.sin(math.radians(a))
        if all(math.hypot(x - b, y - c) > 8 for _, b, c, _ in rows):
            rows.append((CN, x, y, CANDIDATE))
    if case == "leftover" and rng.random() < .5:
        rows.append((DN, 130.0, 130.0, EXISTING))
    sites = [make_site(ty, 5e5 + x, 1e6 + y, cn if ty == CN else dn, st,
                       alt=10.0, sid=f"{rng.choice('abxy')}{i}", name=f"n{i}")
             for i, (ty, x, y, st) in enumerate(rows)]
    u = Topology(sites=sites)
    for a, b in itertools.combinations(sites, 2):
        if a.site_type == b.site_type == CN:
            continue
        for x, y in ((a, b), (b, a)):
            if x.site_type != CN:
                u.add_link(Link(x, y, status_type=CANDIDATE,
                                confidence_level=1.0))
    p.number_of_extra_pops, p.maximum_number_hops = 0, 15
    p.demand, p.oversubscription = .1, 1.0
    p.enable_uniform_demand, p.enable_cn_demand = False, True
    p.dn_dn_sector_limit, p.number_of_channels = 2, rng.choice([1, 1, 2])
    if case == "leftover":
        p.pop_site_capex = 6000.0
        p.pop_capacity = p.demand * {3: 2.05, 4: 3.1, 5: 3.2}[n]
        own = sum(price(p, s) + 4000 for s in sites
                  if s.status_type == EXISTING)
        one = price(p, next(s for s in sites if s.site_type == CN))
        p.budget = rng.choice([one * 4.5, one * 6, own + 5 * one])
        p.enable_legacy_redundancy_method = True
        p.maximize_common_bandwidth = False
    return u


def world(seed, case, tune):
    t, p = copy_of(seed)
    rng = random.Random(tune)
    tuned(rng, p, case)
    if case == "redundancy":
        t = ladder(rng, t, p)
    elif case in ("leftover", "close"):
        t = star(rng, t, p, case)
    elif case == "no POP":          # every POP becomes a DN
        d = next(x for x in p.device_list if x.device_sku == "D")
        u = Topology(sites=[
            make_site(DN if s.site_type == POP else s.site_type, s.utm_x,
                      s.utm_y, d if s.site_type != CN else s.device,
                      s.status_type, alt=10.0, sid=k, name=s.name,
                      subs=s.number_of_subscribers)
            for k, s in t.sites.items()])
        for l in t.links.values():
            u.add_link(Link(u.sites[l.tx_site.site_id],
                            u.sites[l.rx_site.site_id],
                            status_type=l.status_type,
                            is_wireless=l.is_wireless,
                            confidence_level=l.confidence_level))
        t = u
    return t, p


def rehearse(ctx, t, p):
    """The answers of the single steps on a copy."""
    prepare_topology_for_optimization(t, p)
    t.sort()
    had = set(t.sites)
    if p.number_of_extra_pops:
        sol = pops.POPProposalNetwork(t, p).propose_pops()
        if sol is not None:
            pops.add_duplicate_pop_to_dn_site(t, sol)
    extra = len(set(t.sites) - had)
    mark_unreachable_components(t, maximum_hops=p.maximum_number_hops)
    p.ignore_polarities = False
    model = MinCostNetwork(t, p)
    for share in SHARES:
        sol = model.solve(coverage_percentage=share)
        if sol is not None:
            return extra, share, sol
    return extra, None, None


@check.part(quick=150, thorough=9000, share=1,
            need={"planned": 30, "partly served": 5, "refused": 2,
                  "kept": 50, "extra coverage": 2, "redundant": 2,
                  "extra POPs": 5, "angle pairs": 5, "servable more": 3})
def steps(ctx, rng):
    seed, tune = rng.randrange(10 ** 9), rng.randrange(10 ** 9)
    case = rng.choice(["any", "coverage", "coverage", "redundancy", "scarce",
                       "leftover", "close", "close", "no POP"])
    t, p = world(seed, case, tune)
    text = f"{case}\n" + c29.describe(t, p)
    what = lambda: text  # noqa
    limits = (p.diff_sector_angle_limit, p.near_far_angle_limit,
              p.near_far_length_ratio)
    old = c29.look(t)
    current_system_params.output_dir = ctx.scratch
    current_system_params.debug_mode = True
    failed = None
    try:
        to.pre_opt_check(t, p)
        prepare_topology_for_optimization(t, p)
        to.optimize_topology(t, p)
    except PlannerException as e:
        if not any(x in str(e) for x in c29.DECLINED):
            raise
        failed = str(e)
    finally:
        current_system_params.debug_mode = False
    u, q = world(seed, case, tune)
    try:
        to.pre_opt_check(u, q)
        extra, share, sol = rehearse(ctx, u, q)
    except PlannerException as e:
        # refused before the first step
        ctx.check_that(failed == str(e), "refusal",
                       lambda: f"{failed} / {e}\n{text}")
        return
    ctx.nontrivial(text)
    got = len(set(t.sites) - set(old[0]))
    ctx.check_that(got == extra, "extra-pops",
                   lambda: f"{got} want {extra}\n{text}")
    ctx.count("extra POPs", extra > 0)
    late = failed is not None and "interference" in failed
    if share is None:
        ctx.count("refused")
        ctx.check_that(failed is not None and not late, "planned-unservable",
                       lambda: f"{failed}\n{text}")
        return
    ctx.count("partly served", share < 1)
    ctx.check_that(failed is None or late, "refused-though-servable",
                   lambda: f"{share} {failed}\n{text}")
    if failed is not None and not late:
        return
    shots = {n: Stage(ctx, n, p, t) for n in (
        "prepared_topology", "min_cost_topology", "max_coverage_topology",
        "redundant_topology", "min_interference_topology",
        "optimized_topology")}
    legacy = p.enable_legacy_redundancy_method
    first, second = shots["min_cost_topology"], shots[
        "max_coverage_topology" if legacy else "redundant_topology"]
    want = {"prepared_topology", "min_cost_topology",
            "max_coverage_topology" if legacy else "redundant_topology"}
    if not late:
        want |= {"min_interference_topology", "optimized_topology"}
    ctx.check_that({n for n, s in shots.items() if s.there} == want,
                   "stages", lambda: f"{[n for n in shots if shots[n].there]}"
                   f"\n{text}")
    if not (first.there and second.there):
        return
    ready = shots["prepared_topology"]
    for k, v in ready.status.items():
        if k in old[0]:
            ctx.check_that(v == old[0][k][1] or v == UNREACHABLE
                           or v in (CANDIDATE, PROPOSED),
                           "prepared-status", lambda: f"{k}\n{text}")
    # the cheapest network
    to.update_topology_with_solution(sol, u)
    if not any(v[1] == PROPOSED for v in old[0].values()):
        # forced sites that serve nobody are taken back
        mine = compute_capex(u, q).proposed_capex
        low, high = first.cost(p, t, False), first.cost(p, t, True)
        ctx.check_that(low - 1e-3 <= mine <= high + 1e-3,
                       "first-network-price",
                       lambda: f"{share} {low} {high} {mine}\n{text}")
    places = {k: (s.longitude, s.latitude) for k, s in t.sites.items()}
    for k in first.on:
        ctx.count("kept")
        ctx.check_that(k in second.on or t.sites[k].site_type == CN and any(
            places[o] == places[k] and t.sites[o].site_type != CN
            for o in second.on), "dropped-by-second-step",
            lambda: f"{k}\n{text}")
    if legacy:
        spent, least = (x.cost(p, t, False) for x in (second, first))
        most = first.cost(p, t, True)
        ctx.count("extra coverage", second.on != first.on)
        ctx.check_that(spent <= max(p.budget, most) + 1e-3, "over-budget",
                       lambda: f"{spent} {most} {p.budget}\n{text}")
        if least >= p.budget:
            ctx.check_that(second.on == first.on, "extended-without-budget",
                           what)
        elif share < 1 or p.backhaul_link_redundancy_ratio > 0:
            coverage(ctx, u, q, sol, first, second, text)
    else:
        ctx.count("redundant", second.on != first.on)
        if p.redundancy_level == RedundancyLevel.NONE:
            ctx.check_that(second.on == first.on, "unasked-redundancy", what)
    if late:
        return
    ctx.count("planned")
    third, last = (shots["min_interference_topology"],
                   shots["optimized_topology"])
    ctx.check_that(third.on <= second.on, "added-by-third-step",
                   lambda: f"{third.on - second.on}\n{text}")
    ctx.check_that(third.status == last.status and third.links == last.links,
                   "changed-by-last-step", what)
    ctx.check_that(all(t.sites[k].status_type == v
                       for k, v in last.status.items()), "result", what)
    es = {k: l.status_type for k, l in t.links.items() if l.is_wireless}
    ctx.check_that(len(last.links) == len(es) and sorted(
        v.name for v in last.links.values()) == sorted(
            v.name for v in es.values()), "result-links", what)
    # the rules the report would count as broken
    by = {(l.tx_site.site_id, l.rx_site.site_id): l
          for l in t.links.values()}
    every = find_angle_violating_link_pairs(t, *limits, False)
    ctx.count("angle pairs", bool(every.diff_sector_list
                                  + every.near_far_list))
    bad = find_angle_violating_link_pairs(t, *limits, True)
    for i, j, k in bad.diff_sector_list + bad.near_far_list:
        a, b = by[i, j], by[i, k]
        ctx.check_that(
            a.status_type == b.status_type == EXISTING
            or a.tx_sector.channel != b.tx_sector.channel,
            "angle-rule", lambda: f"{i}>{j} {k}\n{text}")
    near = {}
    for l in t.links.values():
        if l.status_type in ACTIVE and l.is_wireless:
            near.setdefault(l.tx_sector.sector_id, []).append(
                l.rx_site.site_type)
    for k, v in near.items():
        ctx.check_that(
            len(v) <= p.dn_total_sector_limit and
            len([x for x in v if x != CN]) <= p.dn_dn_sector_limit,
            "sector-limit", lambda: f"{k} {v}\n{text}")


def coverage(ctx, u, q, sol, first, second, text):
    """Money left is used when it serves more."""
    if {k for k, s in u.sites.items() if s.status_type in ACTIVE} != first.on:
        return          # another network of the same price
    if compute_capex(u, q).proposed_capex >= q.budget:
        return
    best = MaxCoverageNetwork(u, q, get_adversarial_links(
        u, q.backhaul_link_redundancy_ratio)).solve()
    if best is None or not best.shortage_decisions:
        return
    on = {k for k, v in best.site_decisions.items() if v == 1}
    gain = sum(sol.shortage_decisions.values()) - sum(
        best.shortage_decisions.values())
    if gain > 1e-2 and on - first.on:
        ctx.count("servable more")
        ctx.check_that(second.on - first.on, "budget-unused",
                       lambda: f"{gain}\n{text}")


if __name__ == "__main__":
    check.run()
