"""C32: solvers that stop early or without an answer."""
import os
import random
import shutil

import xpress

import c29
from c30 import differ, files, snapshot
from tg import *  # noqa
from vmon import Check, Skip

from terragraph_planner.common.configuration.enums import RedundancyLevel
from terragraph_planner.common.exceptions import (
    OptimizerException, PlannerException,
)

check = Check(
    "C32",
    rule="random candidate networks are planned while the solver is made to "
         "run out of time, to report infeasibility or to stop at a poor but "
         "feasible answer at chosen steps and calls; plans, refusals, tables "
         "and later runs with the same settings compared with runs that "
         "leave the step out; non-trivial = distinct networks and faults",
    assumptions=["scipy's HiGHS stands in for the commercial solver, whose "
                 "statuses are set as its manual describes them",
                 "networks of at most 8 sites"])

STEPS = ["MinCostNetwork", "RedundantNetwork", "MaxCoverageNetwork",
         "MinInterferenceNetwork", "POPProposalNetwork"]
FLOW = "MaxFlowNetwork"
REAL = xpress.problem.solve


class Solver:
    """Stands between the planner and the solver."""

    def __init__(self, seed, fault=None):
        # fault(step, call number within the step) -> kind of fault or None
        self.rng, self.fault = random.Random(seed), fault
        self.calls, self.made = {}, []

    def __enter__(self):
        me = self

        def solve(problem, *a, **k):
            name = problem._name
            n = me.calls[name] = me.calls.get(name, 0) + 1
            kind = me.fault(name, n) if me.fault else None
            if kind is None:
                return REAL(problem, *a, **k)
            me.made.append((name, n, kind))
            return getattr(me, kind)(problem)
        xpress.problem.solve = solve
        return self

    def __exit__(self, *a):
        xpress.problem.solve = REAL

    def timeout(self, p):
        p._unstart()
        p._x, p._objval, p._mipsols = None, None, 0
        p._mipstatus = self.rng.choice([1, 2, 3])
        p._lpstatus = 0 if p._name == FLOW else 4

    def infeasible(self, p):
        p._unstart()
        p._x, p._objval, p._mipsols = None, None, 0
        p._mipstatus, p._lpstatus = 5, 2

    def early(self, p):
        """Any feasible answer, with the value it has."""
        goal, sense = p._obj, p._sense
        t, c = goal._lin()
        style = self.rng.random()
        if style < .5:
            terms = {v: a * self.rng.choice([0, .3, 1, 1, 3])
                     for v, a in t.items()}
        else:
            top = max([abs(a) for a in t.values()] or [1])
            terms = {v: a * self.rng.choice([.3, 1, 3])
                     for v, a in t.items()}
            for v in p._vars:
                if v.vartype != xpress.continuous:
                    terms[v] = terms.get(v, 0) + top * self.rng.uniform(-1, 1)
        p._obj = xpress.linterm(terms, 0.0)
        try:
            REAL(p)
        finally:
            p._obj, p._sense = goal, sense
        if p._mipsols:
            p._objval = c + sum(a * p._x[p._index[v]] for v, a in t.items())
            p._mipstatus = 4


def run(ctx, t, p, solver):
    """The plan's folder, or the refusal."""
    shutil.rmtree(os.path.join(ctx.scratch, "output"), ignore_errors=True)
    with solver:
        try:
            return c29.planned_world(ctx, t, p), None
        except PlannerException as e:
            return None, e


def copy_of(seed):
    return c29.world(random.Random(seed))


def unreported(ctx, what):
    out = os.path.join(ctx.scratch, "output")
    left = [n for n in ("site.csv", "link.csv", "sector.csv", "metrics.yaml",
                        "reporting_topology.kml")
            if os.path.exists(os.path.join(out, n))]
    ctx.check_that(not left, "report-of-a-refused-plan",
                   lambda: f"{left}\n{what()}")


def same_plan(ctx, one, two, mech, what):
    """(network, output folder or None) twice."""
    ctx.check_that((one[1] is None) == (two[1] is None), mech + "-refused",
                   lambda: f"{one[1]} {two[1]}\n{what()}")
    bad = differ(one[0], two[0])
    ctx.check_that(not bad, mech, lambda: "\n".join(bad[:8] + [what()]))


def outcome(ctx, t, p, solver):
    out, e = run(ctx, t, p, solver)
    got = snapshot(t)
    if out is not None:
        got.update(files(out))
    return got, out, e


def accepted(e):
    return any(x in str(e) for x in c29.DECLINED + ("timed-out",))


@check.part(quick=150, thorough=6000, share=1.6,
            need={"planned despite faults": 25, "early": 30, "no answer": 30,
                  "refused": 4, "again": 20})
def anything(ctx, rng):
    """Faults anywhere: a legal plan, or a refusal and no report."""
    seed = rng.randrange(10 ** 9)
    t, p = copy_of(seed)
    if rng.random() < .4 and not p.number_of_extra_pops:
        p.number_of_extra_pops = 1
    extra = p.number_of_extra_pops
    kinds = rng.choice([["early"], ["early"], ["timeout", "early"],
                        ["timeout", "infeasible"],
                        ["early", "timeout", "infeasible"]])
    often = rng.choice([.3, .6, 1.0 if kinds == ["early"] else .2])
    dice = random.Random(seed + 1)

    def fault(step, n):
        if step in STEPS and dice.random() < often:
            return dice.choice(kinds)
    was, text = c29.look(t), c29.describe(t, p)
    s = Solver(seed, fault)
    what = lambda: f"{s.made}\n{text}"  # noqa
    out, e = run(ctx, t, p, s)
    for k, n, kind in s.made:
        ctx.count("early" if kind == "early" else "no answer")
        ctx.count(f"{k} {kind}")
    ctx.nontrivial(str(s.made), text)
    if e is not None:
        ctx.count("refused")
        ctx.check_that(accepted(e), "refusal-text",
                       lambda: f"{e}\n{what()}")
        c29.legal(ctx, t, what)
        unreported(ctx, what)
    else:
        ctx.count("planned despite faults", bool(s.made))
        c29.audit(ctx, t, p, was, out, what)
    # the same settings plan another copy as if nothing had happened
    if rng.random() < .5 and s.made:
        ctx.count("again")
        t1, _ = copy_of(seed)
        one = outcome(ctx, t1, p, Solver(0))
        t2, q = copy_of(seed)
        q.number_of_extra_pops = extra
        two = outcome(ctx, t2, q, Solver(0))
        same_plan(ctx, one, two, "later-run", what)


@check.part(quick=110, thorough=5000, share=1.2,
            need={"extra POPs": 8, "redundancy": 8, "coverage": 6})
def optional_steps(ctx, rng):
    """No answer for an optional step is as good as leaving it out."""
    seed = rng.randrange(10 ** 9)
    t, p = copy_of(seed)
    u, q = copy_of(seed)
    kind = rng.choice(["timeout", "infeasible"])
    step = rng.choice(["extra POPs", "redundancy", "coverage"])
    for x in (p, q):
        if step == "redundancy":
            x.enable_legacy_redundancy_method = False
            if x.redundancy_level == RedundancyLevel.NONE:
                x.redundancy_level = RedundancyLevel.MEDIUM
        elif step == "coverage":
            x.enable_legacy_redundancy_method = True
            x.budget = max(x.budget, 3e5)
    first = 1
    if step == "extra POPs":
        p.number_of_extra_pops, q.number_of_extra_pops = rng.choice([1, 2]), 0
        failing = "POPProposalNetwork"
    elif step == "redundancy":
        q.redundancy_level = RedundancyLevel.NONE
        failing = "RedundantNetwork"
        first = rng.choice([1, 2])      # the second of its two problems
    else:
        q.budget = -1.0
        failing = "MaxCoverageNetwork"
    text = f"{step} {kind} from call {first}\n" + c29.describe(t, p)
    s = Solver(seed, lambda name, n: kind if name == failing and n >= first
               else None)
    one = outcome(ctx, t, p, s)
    if not s.made:
        raise Skip()
    two = outcome(ctx, u, q, Solver(0))
    ctx.count(step)
    what = lambda: f"{one[2]}\n{two[2]}\n{text}"  # noqa
    ctx.check_that(str(one[2]) == str(two[2]), step + "-refusal", what)
    same_plan(ctx, one, two, "without " + step, what)
    ctx.nontrivial(text)


@check.part(quick=110, thorough=5000, share=1,
            need={"min cost": 6, "min cost early levels": 6,
                  "interference": 6, "flow": 6})
def needed_steps(ctx, rng):
    """No answer for a step the plan needs."""
    seed = rng.randrange(10 ** 9)
    t, p = copy_of(seed)
    case = rng.choice(["min cost", "min cost early levels", "interference",
                       "flow"])
    kind = rng.choice(["timeout", "infeasible"])
    text = f"{case} {kind}\n" + c29.describe(t, p)
    what = lambda: text  # noqa
    u, q = copy_of(seed)
    clean = outcome(ctx, u, q, Solver(0))
    if clean[1] is None:
        raise Skip()
    if case == "min cost early levels":
        last = rng.randint(1, 3)
        rule = lambda name, n: kind if (  # noqa
            name == "MinCostNetwork" and n <= last) else None
    else:
        failing = {"min cost": "MinCostNetwork", "flow": FLOW,
                   "interference": "MinInterferenceNetwork"}[case]
        rule = lambda name, n: kind if name == failing else None  # noqa
    was = c29.look(t)
    s = Solver(seed, rule)
    got, out, e = outcome(ctx, t, p, s)
    if not s.made:
        raise Skip()
    ctx.count(case)
    ctx.nontrivial(text)
    if case == "min cost early levels":
        if e is None:
            c29.audit(ctx, t, p, was, out, what)
        else:
            ctx.check_that(accepted(e) and "minimum cost" not in str(e)
                           and "Insufficient" not in str(e),
                           "no-lower-coverage", lambda: f"{e}\n{text}")
        return
    if case == "flow":
        ctx.check_that(out is not None, "flow-refused",
                       lambda: f"{e}\n{text}")
        if out is None:
            return
        plan = lambda x: {k: v for k, v in x.items()  # noqa
                          if k.split()[0] in ("site", "sector", "demand")
                          or "capex" in k or k.startswith(
                              "file metrics.yaml counts")}
        bad = differ(plan(got), plan(clean[0]))
        ctx.check_that(not bad, "plan-without-flow",
                       lambda: "\n".join(bad[:8] + [text]))
        left = [k for k, v in got.items() if "flow_metrics" in k
                and v != [None]]
        ctx.check_that(not left, "made-up-flow", lambda: f"{left}\n{text}")
        return
    # refused
    ctx.check_that(isinstance(e, OptimizerException), "unsolved-" + case,
                   lambda: f"{e}\n{text}")
    ctx.check_that(("timed-out" in str(e)) == (kind == "timeout"),
                   "reason", lambda: f"{e}\n{text}")
    unreported(ctx, what)
    c29.legal(ctx, t, what)
    if case == "min cost":
        now = c29.look(t)
        new = [k for k in now[0] if now[0][k][1] == PROPOSED
               and (k not in was[0] or was[0][k][1] != PROPOSED)]
        new += [k for k in now[1] if now[1][k][0] == PROPOSED
                and (k not in was[1] or was[1][k][0] != PROPOSED)]
        ctx.check_that(not new, "proposed-without-plan",
                       lambda: f"{new}\n{text}")


if __name__ == "__main__":
    check.run()
