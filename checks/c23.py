"""C23: coverage maximisation stays in budget and serves the most demand."""
import copy

from ilp import *  # noqa
from nets import inst
from vmon import Check, Skip

from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.ilp_models.coverage_optimization import (
    MaxCoverageNetwork,
)

check = Check(
    "C23",
    rule="every plan of the coverage model for a random candidate network, "
         "budget and set of adversarial links is checked constraint by "
         "constraint and against the best coverage of every choice of sites "
         "the budget allows (all legal site sets, all polarity assignments, "
         "a linear program for the traffic of each)",
    assumptions=[
        "scipy's HiGHS stands in for the commercial solver; it is told to "
        "solve to optimality",
        "networks of at most 6 sites (7 in thorough); an active site carries "
        "all nodes its sectors describe",
        "no demand site wants more than the largest link capacity",
    ])


def setup(ctx, rng, **kw):
    t, p = candidate(rng, nmax=ctx.scale(6, 7), **kw)
    if t.links and max(l.capacity for l in t.links.values()) <= 0:
        raise Skip("no link with capacity")
    pairs = sorted((l.tx_site.site_id, l.rx_site.site_id)
                   for l in t.links.values())
    bad = set()
    if pairs and rng.random() < .5:
        bad = set(rng.sample(pairs, rng.randint(
            1, max(1, len(pairs) // rng.choice([2, 4])))))
        if rng.random() < .5:
            bad |= {(j, i) for i, j in bad}
    ref = Ref(t, p, bad)
    costs = sorted({round(ref.cost(S), 6) for S in ref.choices()})
    x = rng.random()
    if x < .05 or not costs:
        p.budget = rng.choice([0.0, 1e6])
    elif x < .35:
        p.budget = rng.choice(costs) + .01
    elif x < .5:
        p.budget = max(costs) + 100.0
    else:
        p.budget = rng.uniform(.5, max(costs) + 1)
    return t, p, ref, bad


def affordable(ref):
    """Site choices surely within, and surely beyond the budget."""
    eps = 1e-3
    sure = [S for S in ref.choices() if ref.cost(S) <= ref.p.budget - eps]
    maybe = [S for S in ref.choices() if ref.cost(S) <= ref.p.budget + eps]
    return sure, maybe


def top(ref, sets, goal, conn):
    v = [ref.best(S, goal, connected=conn) for S in ref.maximal(sets)]
    v = [x for x in v if x is not None]
    return None if not v else min(v) if goal == "shortage" else max(v)


@check.part(quick=4000, thorough=120000, share=4,
            need={"plans": 1200, "budget binds": 600, "adversarial": 500,
                  "no plan": 400, "common": 300, "loaded_links": 600})
def most(ctx, rng):
    t, p, ref, bad = setup(ctx, rng)
    before = inst(t)
    what = lambda: f"adversarial {sorted(bad)}\n{show(t, p)}"  # noqa
    sure, maybe = affordable(ref)
    try:
        sol = MaxCoverageNetwork(t, p, set(bad)).solve()
    except OptimizerException as e:
        if "capacity" not in str(e):
            raise
        ctx.count("refused")
        v = top(Ref(t, p), ref.choices(), "shortage", None)
        ctx.check_that(v is None or v >= ref.total - 1e-6,
                       "refused-though-servable", lambda: f"{e}\n{what()}")
        return
    ctx.check_that(inst(t) == before, "topology-changed", what)
    ctx.nontrivial(before, round(p.budget, 3), sorted(bad))
    goal = "common" if p.maximize_common_bandwidth else "shortage"
    conns = ref.connectable() if goal == "common" else [None]
    if p.budget <= 0:
        ctx.check_that(sol is None, "plan-without-budget", what)
        return
    if sol is None:
        ctx.count("no plan")
        best = [top(ref, sure, goal, c) for c in conns if c is None or c]
        # no plan: nothing legal is affordable, or nothing can be served
        ok = not best or any(
            v is None or (v <= 1e-4 if goal == "common"
                          else v >= ref.total - 1e-4) for v in best)
        ctx.check_that(ok, "no-plan-though-possible",
                       lambda: f"{best} of {ref.total}\n{what()}")
        return
    ctx.count("plans")
    ctx.sample({"network": show(t, p), "adversarial": sorted(bad)})
    if bad:
        ctx.count("adversarial")
    check_plan(ctx, ref, sol, "", what)
    ctx.check_that(sol.cost <= p.budget + 1e-3, "over-budget",
                   lambda: f"{sol.cost} {p.budget}\n{what()}")
    stand = {k for k, v in sol.site_decisions.items() if v} | (
        ref.forced & ref.single)
    ctx.check_that(
        sum(ref.full[k] for k in stand) <= p.budget + 1e-2, "over-budget-full",
        lambda: f"{sorted(stand)} {p.budget}\n{what()}")
    if len(maybe) < len(ref.choices()):
        ctx.count("budget binds")
    served = {k: w - sol.shortage_decisions[k] for k, w, _ in ref.demands}
    if goal == "shortage":
        got = ref.total - sum(served.values())
        ctx.close(sol.objective_value, got, "objective", what(), rel=1e-6,
                  abs_tol=1e-5)
        best, least = top(ref, sure, goal, None), top(ref, maybe, goal, None)
        tol = 1e-4 * (1 + ref.total)
        ctx.check_that(best is None or got <= best + tol, "not-most",
                       lambda: f"short {got}, possible {best}\n{what()}")
        ctx.check_that(least is not None and got >= least - tol,
                       "more-than-possible",
                       lambda: f"short {got}, possible {least}\n{what()}")
        return
    ctx.count("common")
    if not conns or not conns[0]:
        ctx.check_that(bool(conns), "plan-with-impossible-polarities", what)
        return
    fit = []
    for c in conns:
        got = min(served[k] for k in c)
        low = min(w for k, w, _ in ref.demands if k in c)
        best = top(ref, sure, goal, c)
        fit.append((-sol.objective_value, got, best))
        if abs(min(got, low) + sol.objective_value) > 1e-4 and \
                got < -sol.objective_value - 1e-4:
            continue
        if best is None or -sol.objective_value >= best - 1e-4:
            break
    else:
        ctx.violate("not-most-common", f"{fit}\n{what()}")
    ctx.count("oracle_evaluations")


@check.part(quick=600, thorough=12000, share=1, need={"pairs": 150})
def monotone(ctx, rng):
    """A larger budget or fewer adversarial links never covers less."""
    t, p, ref, bad = setup(ctx, rng, themes=("plain", "mixed"))
    p.maximize_common_bandwidth = False
    q = copy.deepcopy(p)
    fewer = set(bad)
    if bad and rng.random() < .5:
        fewer = set(rng.sample(sorted(bad), rng.randint(0, len(bad) - 1)))
    else:
        q.budget = p.budget * rng.uniform(1, 3) + rng.choice([0, 1500])
    try:
        a = MaxCoverageNetwork(t, p, set(bad)).solve()
        b = MaxCoverageNetwork(t, q, set(fewer)).solve()
    except OptimizerException:
        raise Skip("refused")
    if a is None:
        return
    ctx.count("pairs")
    what = f"{p.budget} {q.budget} {sorted(bad)} {sorted(fewer)}\n{show(t, p)}"
    ctx.check_that(b is not None, "more-budget-no-plan", what)
    if b is not None:
        ctx.check_that(b.objective_value <= a.objective_value + 1e-4,
                       "more-budget-covers-less",
                       f"{a.objective_value} {b.objective_value} {what}")
    ctx.nontrivial(inst(t), round(q.budget, 3))


if __name__ == "__main__":
    check.run()
