"""C22: the minimum-cost plan is feasible and truly cheapest."""
import copy

from ilp import *  # noqa
from nets import inst
from vmon import Check, Skip

from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.ilp_models.cost_optimization import (
    MinCostNetwork,
)

check = Check(
    "C22",
    rule="every plan the cost model returns for a random candidate network "
         "is checked constraint by constraint, and every choice of sites that "
         "would have cost less is shown unable to serve the required demand "
         "by an exhaustive search (all legal site sets, all polarity "
         "assignments, a linear program for the traffic of each); 'no plan' "
         "is accepted only when that search finds none either",
    assumptions=[
        "scipy's HiGHS stands in for the commercial solver; it is told to "
        "solve to optimality",
        "networks of at most 6 sites (7 in thorough); an active site carries "
        "all nodes its sectors describe",
        "no demand site wants more than the largest link capacity",
    ])

TOL = 1e-4


def need(ref, cov, conn):
    """Is what a site set can serve enough for the coverage?"""
    if ref.p.maximize_common_bandwidth:
        low = min(w for k, w, _ in ref.demands if k in conn)
        return "common", (lambda v, s: v >= cov * low + s * TOL * low)
    return "shortage", (
        lambda v, s: v <= (1 - cov) * ref.total - s * TOL * ref.total)


def feasible(ref, S, cov, conn, slack=1):
    goal, ok = need(ref, cov, conn)
    # a site that cannot be built together with others is judged on its own
    v = ref.best(S, goal, connected=conn, stop=lambda x: ok(x, slack))
    return v is not None and ok(v, slack)


def judge(ctx, ref, cov, sol, what):
    conns = [None]
    if ref.p.maximize_common_bandwidth:
        conns = ref.connectable()
        if not conns:
            ctx.check_that(sol is None, "plan-with-impossible-polarities",
                           what)
            ctx.count("impossible_polarities")
            return
        if not conns[0]:
            # nothing is required: any legal plan will do, or none
            ctx.count("nothing_connectable")
            if sol is not None:
                check_plan(ctx, ref, sol, "", what)
            return
    if sol is None:
        for conn in conns:
            hit = next((S for S in ref.maximal(ref.choices())
                        if feasible(ref, S, cov, conn)), None)
            if hit is None:
                ctx.count("infeasible_confirmed")
                return
        ctx.violate("no-plan-though-feasible",
                    f"coverage {cov}, sites {sorted(hit)}\n{what()}")
        return
    ctx.count("plans")
    check_plan(ctx, ref, sol, "", what)
    served = {k: w - sol.shortage_decisions[k] for k, w, _ in ref.demands}
    if ref.p.maximize_common_bandwidth:
        low = {min(w for k, w, _ in ref.demands if k in c) for c in conns}
        ctx.check_that(
            any(all(served[k] >= cov * min(low) - 1e-4 for k in c)
                for c in conns), "coverage-not-met",
            lambda: f"{cov} {served}\n{what()}")
    else:
        ctx.check_that(
            sum(served.values()) >= cov * ref.total - 1e-4 * (1 + ref.total),
            "coverage-not-met", lambda: f"{cov} {served}\n{what()}")
    obj = sol.objective_value
    ctx.check_that(sol.cost <= obj + 1e-3 + 1e-6 * abs(obj),
                   "plan-dearer-than-objective",
                   lambda: f"{sol.cost} {obj}\n{what()}")
    cheaper = [S for S in ref.choices()
               if ref.cost(S) < obj - max(1e-2, 1e-5 * obj)]
    ctx.count("cheaper_choices", len(cheaper))
    best = None
    for conn in conns:
        best = next((S for S in ref.maximal(cheaper)
                     if feasible(ref, S, cov, conn)), None)
        ctx.count("oracle_evaluations")
        if best is None:
            break
    if best is not None:
        ctx.violate(
            "not-cheapest",
            f"objective {obj}, {sorted(best)} costs {ref.cost(best)} "
            f"coverage {cov} {sol.site_decisions}\n{what()}")


@check.part(quick=3600, thorough=60000, share=4,
            need={"plans": 900, "infeasible_confirmed": 90,
                  "cheaper_choices": 3000, "loaded_links": 1200})
def cheapest(ctx, rng):
    t, p = candidate(rng, nmax=ctx.scale(6, 7))
    ref = Ref(t, p)
    before = inst(t)
    what = lambda: show(t, p)  # noqa
    if t.links and max(l.capacity for l in t.links.values()) <= 0:
        raise Skip("no link with capacity")
    try:
        net = MinCostNetwork(t, p)
    except OptimizerException as e:
        if "capacity" not in str(e):
            raise
        ctx.count("refused")
        best = min(ref.best(S, "shortage") for S in ref.choices()) \
            if ref.choices() else ref.total
        ctx.check_that(best >= ref.total - 1e-6, "refused-though-servable",
                       lambda: f"{e}\n{what()}")
        return
    covs = rng.choice([[1.0], [1.0, rng.uniform(.3, .95)],
                       [rng.uniform(.2, 1), 1.0, rng.uniform(.2, 1)]])
    for cov in covs:
        sol = net.solve(coverage_percentage=cov)
        judge(ctx, ref, cov, sol, what)
        if sol is None and rng.random() < .5:
            break
    ctx.check_that(inst(t) == before, "topology-changed", what)
    ctx.nontrivial(before, p.always_active_pops, p.maximize_common_bandwidth)
    ctx.sample({"network": show(t, p), "coverage": covs})


@check.part(quick=450, thorough=6000, share=1, need={"repeats": 200})
def repeated(ctx, rng):
    """Lowering the coverage on one model equals starting afresh."""
    t, p = candidate(rng, nmax=6, themes=("plain", "mixed"))
    ref = Ref(t, p)
    try:
        net = MinCostNetwork(t, copy.deepcopy(p))
        fresh = MinCostNetwork(t, copy.deepcopy(p))
    except OptimizerException:
        raise Skip("refused")
    c1, c2 = sorted([rng.uniform(.1, 1), rng.uniform(.1, 1)])
    if rng.random() < .3:
        c2 = 1.0
    hi = net.solve(coverage_percentage=c2)
    lo = net.solve(coverage_percentage=c1)
    solo = fresh.solve(coverage_percentage=c1)
    ctx.count("repeats")
    ctx.check_that((lo is None) == (solo is None), "repeat-feasibility",
                   lambda: f"{c1} {c2} {lo} {solo}\n{show(t, p)}")
    if lo is not None and solo is not None:
        ctx.close(lo.objective_value, solo.objective_value,
                  "repeat-objective", f"{c1} after {c2}\n{show(t, p)}",
                  rel=1e-5, abs_tol=1e-2)
    if hi is not None:
        ctx.check_that(lo is not None, "less-coverage-infeasible",
                       lambda: f"{c1} {c2}\n{show(t, p)}")
        if lo is not None:
            ctx.check_that(
                lo.objective_value <= hi.objective_value
                + 1e-2 + 1e-5 * hi.objective_value, "less-coverage-dearer",
                lambda: f"{c1} {lo.objective_value} {c2} "
                        f"{hi.objective_value}\n{show(t, p)}")
    ctx.nontrivial(inst(t), c1, c2)


if __name__ == "__main__":
    check.run()
