"""C27: extra POPs are eligible, bounded in number, best placed, mirrored."""
import copy

from ilp import *  # noqa
from nets import inst
from vmon import Check, Skip

from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.ilp_models import (
    pop_proposal_optimization as pp,
)
from terragraph_planner.optimization.structs import OptimizationSolution

check = Check(
    "C27",
    rule="POPs proposed for random candidate networks are checked constraint "
         "by constraint and against the best coverage of every legal choice "
         "of places; random choices are added to random networks and the "
         "result is compared element by element with a model",
    assumptions=[
        "scipy's HiGHS stands in for the commercial solver; it is told to "
        "solve to optimality",
        "networks of at most 7 sites",
    ])


class Access(Ref):
    """The network in which every DN place may hold a POP serving CNs."""

    def __init__(self, t, p):
        q = copy.deepcopy(p)
        q.ignore_polarities = True
        q.always_active_pops = q.maximize_common_bandwidth = False
        super().__init__(t, q)
        place = {k: (s.longitude, s.latitude, s.altitude)
                 for k, s in t.sites.items()}
        self.place = place
        taken = {place[k] for k in t.sites if self.kind[k] == POP}
        self.given = {k for k in t.sites if self.kind[k] == POP
                      and self.status[k] not in INACTIVE}
        self.spots = {k for k in t.sites if self.kind[k] == DN
                      and place[k] not in taken
                      and self.status[k] not in INACTIVE}
        self.forced = {k for k in t.sites if self.status[k] in ACTIVE
                       and k not in self.spots} | self.given
        self.number = len({place[k] for k in self.given}) + min(
            p.number_of_extra_pops, len({place[k] for k in self.spots}))
        for k in t.sites:
            if self.kind[k] == DN and place[k] not in taken:
                self.kind[k] = POP
                if self.status[k] in ACTIVE:
                    self.status[k] = CANDIDATE
                fresh = self.status[k] != EXISTING
                self.site_price[k] = p.pop_site_capex if fresh else 0.0
                self.node_price[k] = self.node_cost.get(k, 0.0) \
                    if fresh else 0.0
        self.edges = [e for e in self.edges if self.kind[e.j] == CN]

    def picks(self):
        return [S for S in self.choices()
                if sum(self.kind[k] == POP for k in S) == self.number]


@check.part(quick=4000, thorough=100000, share=2,
            need={"plans": 800, "extra": 400, "binding": 200,
                  "standing DNs": 300, "shared places": 150})
def placed(ctx, rng):
    """The proposal is a legal choice and no other serves more."""
    t, p = candidate(rng, nmax=ctx.scale(7, 8), pops=rng.choice([.05, .2]))
    if rng.random() < .3:
        for k in [k for k, s in t.sites.items() if s.site_type == POP]:
            if rng.random() < .8:
                t.remove_site(k)
                for d in list(t.demand_sites.values()):
                    d.connected_sites = [s for s in d.connected_sites
                                         if s.site_id != k]
        if not any(s.site_type in (DN, POP) for s in t.sites.values()):
            raise Skip("nothing to propose")
    if t.links and max(l.capacity for l in t.links.values()) <= 0:
        raise Skip("no link with capacity")
    p.number_of_extra_pops = rng.choice([1, 1, 1, 2, 2, 3, 9])
    before, was = inst(t), copy.deepcopy(p)
    what = lambda: f"extra {p.number_of_extra_pops}\n{show(t, p)}"  # noqa
    ref = Access(t, p)
    # the model lets a site hand a demand at most the largest link capacity
    top = max((e.cap for e in ref.edges), default=0)
    if any(q > top > 0 for _, q, _ in ref.demands):
        raise Skip("demand above the largest link capacity")
    try:
        sol = pp.POPProposalNetwork(t, p).propose_pops()
    except OptimizerException as e:
        if "capacity" not in str(e):
            raise
        ctx.count("refused")
        ctx.check_that(
            not any(e.usable for e in ref.edges) or not ref.spots | ref.given
            or least(ref) >= ref.total - 1e-6,
            "refused-though-servable", lambda: f"{e}\n{what()}")
        return
    ctx.check_that(inst(t) == before, "topology-changed", what)
    ctx.check_that(all(getattr(p, k) == getattr(was, k) for k in (
        "ignore_polarities", "always_active_pops",
        "maximize_common_bandwidth", "number_of_extra_pops")),
        "parameters-changed", what)
    ctx.nontrivial(before, p.number_of_extra_pops)
    best = least(ref)
    if sol is None:
        ctx.count("no plan")
        ctx.check_that(best is None or best >= ref.total - 1e-4,
                       "no-proposal-though-possible",
                       lambda: f"{best} of {ref.total}\n{what()}")
        return
    ctx.count("plans")
    ctx.sample({"network": show(t, p)})
    pops = {k for k, v in sol.site_decisions.items()
            if v == 1 and ref.kind[k] == POP}
    extra = pops - ref.given
    ctx.count("extra", bool(extra))
    ctx.count("standing DNs", any(
        s.site_type == DN and s.status_type in ACTIVE
        for s in t.sites.values()))
    ctx.count("shared places", bool(ref.groups))
    ctx.check_that(extra <= ref.spots, "not-eligible",
                   lambda: f"{extra}\n{what()}")
    ctx.check_that(len(extra) <= p.number_of_extra_pops, "too-many",
                   lambda: f"{extra}\n{what()}")
    check_plan(ctx, ref, sol, "", what)
    short = sum(sol.shortage_decisions[k] for k, _, _ in ref.demands)
    ctx.check_that(best is not None, "plan-though-impossible", what)
    tol = 1e-4 * (1 + ref.total)
    ctx.check_that(abs(short - best) <= tol, "not-best-placed",
                   lambda: f"short {short}, possible {best}\n{what()}")
    ctx.close(sol.objective_value, short, "objective", what, rel=1e-6,
              abs_tol=1e-5)
    one = Access(t, p)
    one.number = ref.number - 1
    ctx.count("binding", one.number >= len(
        {ref.place[k] for k in ref.given}) and least(one) > best + tol)


def least(ref):
    v = [ref.best(S, "shortage") for S in ref.maximal(ref.picks())]
    v = [x for x in v if x is not None]
    return min(v) if v else None


def site_row(s):
    return (s.site_type, s.latitude, s.longitude, s.altitude, s.device,
            s.status_type, s.location_type, s.building_id, s.name,
            s.number_of_subscribers)


def sector_row(s):
    return (s.site.site_id, s.node_id, s.position_in_node, s.ant_azimuth,
            s.status_type, s.channel, s.sector_type)


def link_row(l):
    return (l.tx_site.site_id, l.rx_site.site_id,
            l.tx_sector and l.tx_sector.sector_id,
            l.rx_sector and l.rx_sector.sector_id, l.status_type,
            l.is_wireless, l.confidence_level, repr(l.link_budget))


@check.part(quick=4000, thorough=150000, share=1,
            need={"extra POPs": 3000, "copied links": 3000,
                  "links kept away": 1500, "demand": 500})
def mirrored(ctx, rng):
    """Adding a chosen POP copies its DN and touches nothing else."""
    t, p = candidate(rng, nmax=8)
    for l in t.links.values():
        l.confidence_level = round(rng.random(), 3) if l.is_wireless else None
    for s in t.sectors.values():
        s.channel = rng.randrange(3)
    text = show(t, p)
    keen = rng.choice([.3, .8])
    pick = {k: int(rng.random() < keen) for k in t.sites
            if rng.random() < .9}
    if rng.random() < .3:
        for s in t.sites.values():
            if s.site_type == DN:
                s._location_type = LocationType.ROOFTOP
                s._building_id = rng.randrange(9)
    chosen = [k for k, s in t.sites.items()
              if s.site_type == DN and pick.get(k)]
    # two devices in one place can both be chosen here: the planner never
    # does that, and their POPs would share one identity
    places = [t.sites[k].site_hash for k in chosen]
    if len(set(places)) < len(places):
        raise Skip("same place twice")
    sites = {k: site_row(s) for k, s in t.sites.items()}
    secs = {k: sector_row(s) for k, s in t.sectors.items()}
    links = {k: link_row(l) for k, l in t.links.items()}
    dem = {k: ([s.site_id for s in d.connected_sites], d.demand, d.num_sites)
           for k, d in t.demand_sites.items()}
    sol = OptimizationSolution(
        site_decisions=pick, sector_decisions={}, link_decisions={},
        odd_site_decisions={}, even_site_decisions={}, channel_decisions={},
        flow_decisions={}, tdm_decisions={}, shortage_decisions={},
        objective_value=0.0, cost=0)
    pp.add_duplicate_pop_to_dn_site(t, sol)
    say = lambda x: (lambda: f"{x}\n{pick}\n{text}")  # noqa
    for k, v in sites.items():
        ctx.check_that(k in t.sites and site_row(t.sites[k]) == v,
                       "site-changed", say(k))
    for k, v in secs.items():
        ctx.check_that(k in t.sectors and sector_row(t.sectors[k]) == v,
                       "sector-changed", say(k))
    for k, v in links.items():
        ctx.check_that(k in t.links and link_row(t.links[k]) == v,
                       "link-changed", say(k))
    twin = {}
    for k in t.sites.keys() - sites.keys():
        near = [c for c in chosen if t.sites[c].site_hash
                == t.sites[k].site_hash and c not in twin]
        ctx.check_that(len(near) == 1, "stray-site", say(k))
        twin[near[0]] = k
    ctx.check_that(len(twin) == len(chosen), "missing-pop", say(chosen))
    want_links = {}
    for c, k in twin.items():
        ctx.count("extra POPs")
        o = sites[c]
        ctx.check_that(site_row(t.sites[k]) == (
            POP, *o[1:5], CANDIDATE, *o[6:8], o[8] + "_POP", 0),
            "new-site", lambda: f"{site_row(t.sites[k])}\n{text}")
        a = {r[1:4] + r[5:] for r in secs.values() if r[0] == c}
        b = {(r[1:4] + r[5:], r[4]) for r in map(
            sector_row, t.sectors.values()) if r[0] == k}
        ctx.check_that(b == {(x, CANDIDATE) for x in a}, "new-sectors",
                       lambda: f"{a} {b}\n{text}")
        new = {(s.node_id, s.position_in_node): s.sector_id
               for s in t.sectors.values() if s.site.site_id == k}
        map_ = lambda q: new[secs[q][1:3]]  # noqa
        for i, j, x, y, st, wl, conf, budget in links.values():
            if c not in (i, j):
                continue
            other = j if i == c else i
            if sites[other][0] == POP or x is None or y is None or \
                    st in INACTIVE:
                ctx.count("links kept away")
                continue
            ctx.count("copied links")
            r = (k, j, map_(x), y) if i == c else (i, k, x, map_(y))
            want_links[r[:2]] = r + (CANDIDATE, wl, conf, budget)
    got = {(l.tx_site.site_id, l.rx_site.site_id): link_row(l)
           for k, l in t.links.items() if k not in links}
    ctx.check_that(got == want_links, "new-links",
                   lambda: f"{sorted(set(got.values()) ^ set(want_links.values()), key=str)}\n{pick}\n{text}")
    ids = set(map(id, (t.links[k].link_budget for k in links)))
    ctx.check_that(all(id(l.link_budget) not in ids for k, l
                       in t.links.items() if k not in links),
                   "shared-link-budget", say(""))
    ctx.check_that(t.sectors.keys() - secs.keys() == {
        k for k, s in t.sectors.items()
        if s.site.site_id in twin.values()}, "stray-sector", say(""))
    ctx.check_that(t.demand_sites.keys() == dem.keys(), "demand-changed",
                   say(""))
    for k, (conn, q, num) in dem.items():
        d = t.demand_sites[k]
        want = conn + [twin[c] for c in dict.fromkeys(conn) if c in twin]
        ctx.count("demand", len(want) > len(conn))
        ctx.check_that(
            sorted(s.site_id for s in d.connected_sites) == sorted(want)
            and (d.demand, d.num_sites) == (q, num), "demand-changed",
            lambda: f"{[s.site_id for s in d.connected_sites]} {want}\n{text}")
    ctx.nontrivial(text, sorted(pick.items()))


if __name__ == "__main__":
    check.run()
