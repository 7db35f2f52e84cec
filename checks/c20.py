"""C20 simulated availability against exact availability."""
import logging
from types import SimpleNamespace

from vmon import Check
from nets import edges, frozen, inst, network, served, state
from tg import *  # noqa
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization import topology_availability as ta
from terragraph_planner.optimization.topology_networkx import build_digraph

check = Check(
    "C20",
    rule="random networks with at most nine wireless backhaul pairs; every "
         "combination of failed pairs is walked to get the exact "
         "availability; non-trivial = distinct (links, exact values)",
    assumptions=["a network with at least one active POP",
                 "failures of different links are independent"],
    workers=6,
)


class Clock:
    """A clock that jumps past any limit after some readings."""

    def __init__(self, readings):
        self.left = readings

    def now(self):
        self.left -= 1
        return 1e9 if self.left < 0 else 0.0


def exact(t, p):
    """Truth table per demand over the pairs up, and probabilities."""
    es = edges(t, ACTIVE)
    pairs = sorted({tuple(sorted(e)) for e, l in es.items()
                    if l.link_type == LinkType.WIRELESS_BACKHAUL})
    if len(pairs) > 9:
        return None
    tables = {k: 0 for k in served(t, ACTIVE, es)}
    prob = dict.fromkeys(tables, 0.0)
    ups = {x: 0 for x in pairs}
    for m in range(1 << len(pairs)):
        up = {x for i, x in enumerate(pairs) if m >> i & 1}
        pr = p ** len(up) * (1 - p) ** (len(pairs) - len(up))
        left = {e: l for e, l in es.items()
                if l.link_type != LinkType.WIRELESS_BACKHAUL
                or tuple(sorted(e)) in up}
        for k in served(t, ACTIVE, left):
            tables[k] |= 1 << m
            prob[k] += pr
        for x in up:
            ups[x] |= 1 << m
    return pairs, tables, prob, ups


def plan(rng):
    t = network(rng, (PROPOSED, EXISTING, PROPOSED, None), oneway=0)
    if not any(s.site_type == POP and s.status_type in ACTIVE
               for s in t.sites.values()):
        return None
    return t


def judge(ctx, t, p, sim, ex, got, text):
    pairs, tables, prob, ups = ex
    av, la = got
    full = (1 << (1 << len(pairs))) - 1
    ctx.check_that(set(av) == set(tables), "demand-reported",
                   lambda: f"{av} {prob} {text}")
    ctx.check_that(set(la) == set(pairs), "links-reported",
                   lambda: f"{la} {pairs} {text}")
    var0 = 2 * p * (1 - p) / sim
    slack = 12 * min(p, 1 - p) / sim + 1e-9
    vals = [(k, av[k], prob[k], tables[k]) for k in tables] + \
        [(x, la[x], p, ups[x]) for x in pairs]
    for k, v, want, tab in vals:
        ctx.check_that(-1e-9 <= v <= 1 + 1e-9, "range",
                       lambda: f"{k} {v} {text}")
        if tab == full:
            ctx.count("cannot fail")
            ctx.close(v, 1.0, "always-served", lambda: f"{k} {text}",
                      abs_tol=1e-9)
            continue
        ctx.count("can fail")
        tol = 8 * math.sqrt(var0 * want * (1 - want)) + slack
        if tol < .1:
            ctx.count("sharp")
        ctx.close(v, want, "availability",
                  lambda: f"{k} p={p} T={sim} {text}", rel=0, abs_tol=tol)
    for k, v, _, a in vals:
        for n, w, _, b in vals:
            if k != n and a & ~b == 0:
                ctx.count("same time" if a == b else "never above")
                ctx.check_that(v <= w + 1e-9, "order",
                               lambda: f"{k}={v} {n}={w} {text}")


@check.part(quick=700, thorough=20000, share=.75,
            need={"cannot fail": 50, "can fail": 200, "sharp": 150,
                  "never above": 100, "same time": 50, "repeated": 15})
def simulate(ctx, rng):
    """Simulated values near the exact ones, same seed, same answer."""
    t = plan(rng)
    if t is None:
        return
    p = rng.choice([0.0, 1.0, .999, .9, .9, .7, .5, .5, .3, .05])
    ex = exact(t, p)
    if ex is None:
        ctx.count("too large")
        return
    sim = rng.choice([200, 1000, 4000]) * rng.uniform(.6, 1)
    limit = rng.choice([None, 3600, 1e6])
    seed = rng.choice([0, rng.randrange(1 << 30)])
    g = build_digraph(t, ACTIVE)
    notes, before = frozen(g), state(t)
    text = inst(t)
    got = ta.compute_availability(g, 100 * p, sim, limit, seed)
    ctx.check_that(frozen(g) == notes, "graph-changed", lambda: text)
    ctx.check_that(state(t) == before, "plan-changed", lambda: text)
    judge(ctx, t, p, sim, ex, got, text)
    if rng.random() < .25:
        ctx.count("repeated")
        again = ta.compute_availability(g, 100 * p, sim, None, seed)
        ctx.check_that(again == got, "not-repeatable", lambda: text)
        if ex[0] and 0 < p < 1:
            other = ta.compute_availability(g, 100 * p, sim, None, seed + 1)
            ctx.check_that(other[1] != got[1], "seed-ignored", lambda: text)
    ctx.nontrivial(len(ex[0]), tuple(round(v, 6) for v in ex[2].values()))


@check.part(quick=400, thorough=9000, share=.2,
            need={"can fail": 100, "cut short": 50})
def time_limit(ctx, rng):
    """Stopped by its time limit, it reports on the part simulated."""
    t = plan(rng)
    if t is None:
        return
    p = rng.choice([.99, .9, .7, .5, .2])
    ex = exact(t, p)
    if ex is None or not ex[0]:
        return
    k = len(ex[0])
    cycles = rng.choice([100, 200])
    clock = Clock(1 + 2 * k * cycles)
    real = ta.time
    ta.time = SimpleNamespace(time=clock.now, monotonic=clock.now,
                              perf_counter=clock.now)
    try:
        got = ta.compute_availability(build_digraph(t, ACTIVE), 100 * p,
                                      4 * cycles, 60,
                                      rng.randrange(1 << 30))
    finally:
        ta.time = real
    if clock.left < 0:
        ctx.count("cut short")
    judge(ctx, t, p, .7 * cycles, ex, got, inst(t))
    ctx.nontrivial(k, cycles, tuple(round(v, 6) for v in ex[2].values()))


@check.part(quick=200, thorough=3000, share=.05,
            need={"at once": 30, "one way": 20, "bad values": 50})
def odd_inputs(ctx, rng):
    """Immediate stop, one-way backhaul, values out of range."""
    t = plan(rng)
    if t is None:
        return
    g = build_digraph(t, ACTIVE)
    for a, n in ((-1e-3, 10), (100.001, 10), (50, 0), (50, -3)):
        ctx.count("bad values")
        ctx.expect_raises(OptimizerException,
                          lambda: ta.compute_availability(g, a, n, None, 1),
                          "accepted")
    p = rng.choice([0.0, 100.0, 50.0])
    real = ta.time
    clock = Clock(1)
    ta.time = SimpleNamespace(time=clock.now, monotonic=clock.now,
                              perf_counter=clock.now)
    try:
        av, la = ta.compute_availability(g, p, rng.choice([50, 5000, 1e5])
                                         if len(g.edges) < 12 else 500,
                                         60, rng.randrange(1 << 30))
    finally:
        ta.time = real
    ctx.count("at once")
    ex = exact(t, .5)
    if ex is not None:
        # up to the first event all links are up (or never, at 0 percent)
        state0 = (1 << len(ex[0])) - 1 if p else 0
        for tab, got in [(ex[1], av), (ex[3], la)]:
            for k, v in got.items():
                ctx.count("until the first event")
                ctx.close(v, tab[k] >> state0 & 1, "first-event",
                          lambda: f"{k} p={p} {inst(t)}", abs_tol=1e-9)
    for v in list(av.values()) + list(la.values()):
        ctx.check_that(-1e-9 <= v <= 1 + 1e-9, "range-at-once",
                       lambda: f"{p} {av} {la} {inst(t)}")
    back = [l for l in t.links.values() if l.status_type in ACTIVE
            and l.tx_site.status_type in ACTIVE
            and l.rx_site.status_type in ACTIVE
            and l.link_type == LinkType.WIRELESS_BACKHAUL]
    if back:
        ctx.count("one way")
        l = rng.choice(back)
        g.remove_edge(l.tx_site.site_id, l.rx_site.site_id)
        ctx.expect_raises(OptimizerException, lambda: ta.compute_availability(
            g, 90, 10, None, 1), "one-way-accepted")
    ctx.nontrivial(p, len(av), len(la))


if __name__ == "__main__":
    logging.disable(logging.CRITICAL)
    check.run()
