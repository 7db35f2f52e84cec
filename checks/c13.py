"""C13 longest link of every device pair."""
import itertools

import rf
from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.exceptions import (
    ConfigException, LOSException,
)
from terragraph_planner.common.rf.link_budget_calculator import (
    fspl_based_estimation, get_max_tx_power,
)
from terragraph_planner.common.structs import MCSMap
from terragraph_planner.los.helper import (
    get_max_los_dist_for_device_pairs, search_max_los_dist_based_on_capacity,
)

check = Check(
    "C13",
    rule="random device lists, MCS tables and limits; every distance of the "
         "result judged on both sides by the radio equations, small ranges "
         "metre by metre; non-trivial = distinct (devices, limits, distances)",
    assumptions=["capacities within 1e-7 dB of a threshold may go either "
                 "way", "radio settings for which reach falls with distance"],
    workers=6,
)


def mcs_table(rng):
    mcs = sorted(rng.sample(range(1, 14), rng.randint(1, 8)))
    snr, mbps, out = rng.uniform(-2, 8), rng.choice([0, 0, 60.0]), []
    for m in mcs:
        out.append(MCSMap(m, round(snr, 3), mbps,
                          rng.choice([0, 0, 0, 2, 5])))
        snr += rng.uniform(.3, 4)
        mbps += rng.choice([60.0, 200.0, 0])
    if out[-1].mbps == 0:
        out[-1] = out[-1]._replace(mbps=100.0)
    return out


def device(rng, name, cn, reach=None):
    kw = dict(
        antenna_boresight_gain=round(rng.uniform(5, 40), 2),
        maximum_tx_power=round(rng.uniform(2, 30), 2),
        noise_figure=round(rng.uniform(2, 12), 2),
        rain_rate=rng.choice([0.0, 30.0, rng.uniform(1, 120)]),
        tx_miscellaneous_loss=rng.choice([0.0, 2.0, 20.0]),
        rx_miscellaneous_loss=rng.choice([0.0, 2.0, 20.0]),
        tx_diversity_gain=rng.choice([0.0, 3.0]),
        minimum_tx_power=rng.choice([None, None, 1.5]),
        carrier_frequency=rng.choice([60480.0] * 8 + [58320.0, 70000.0,
                                                      28000.0]),
    )
    d = (cn_device if cn else dn_device)(name, **kw)
    if rng.random() < .6:
        d.sector_params.mcs_map = mcs_table(rng)
    return d


def capacity(m, tx, rx, table, power):
    """The capacities that rounding allows at a distance."""
    ng = rf.net_gain(m, tx, None, rx, None)
    out = set()
    for tol in (-1e-7, 0, 1e-7):
        c = rf.allowed_class(power, ng, rf.noise(rx), table,
                             tx.minimum_tx_power, tol)
        out.add(c.mbps if c else 0.0)
    return out


def reach_ok(r, tx, rx, table, power):
    """r is the first metre without any rate."""
    return 0.0 in capacity(r, tx, rx, table, power) and (
        r == 0 or max(capacity(r - 1, tx, rx, table, power)) > 0)


@check.part(quick=5000, thorough=150000, share=2,
            need={"pairs": 2000, "clipped": 200, "both_ways": 200,
                  "filtered": 400, "refused": 10, "unlimited": 20})
def device_pairs(ctx, rng):
    """The distances of a device list."""
    nd, nc = rng.randint(1, 3), rng.randint(0, 3)
    devs = [device(rng, f"D{i}", False) for i in range(nd)] + \
        [device(rng, f"C{i}", True) for i in range(nc)]
    rng.shuffle(devs)
    eirp = rng.choice([None, None, 40.0, 25.0, 55.0])
    top = rng.choice([None, 200, 50, 1000, 7])
    bh, ac = rng.choice([None, None, 3, 6, 9]), rng.choice(
        [None, None, 4, 8, 13])

    def tab(rx):
        lo = ac if rx.device_sku[0] == "C" else bh
        t = rx.sector_params.mcs_map
        return t if lo is None else [r for r in t if r.mcs >= lo]
    power = {d.device_sku: rf.max_power(d.sector_params, eirp) for d in devs}
    dn = [d for d in devs if d.device_sku[0] == "D"]
    if any(not tab(d) for d in devs):
        ctx.count("refused")
        ctx.expect_raises((ConfigException, LOSException),
                          lambda: get_max_los_dist_for_device_pairs(
                              devs, eirp, bh, ac, top), "no-class-left")
        return
    far = [max(capacity(10000, a.sector_params, b.sector_params, tab(b),
                        power[a.device_sku])) > 0 for a in dn for b in devs]
    if any(far):
        ctx.count("unlimited")
        ctx.expect_raises(LOSException,
                          lambda: get_max_los_dist_for_device_pairs(
                              devs, eirp, bh, ac, top), "reach-beyond-model")
        return
    got = get_max_los_dist_for_device_pairs(devs, eirp, bh, ac, top)
    ctx.check_that(set(got) == {(a.device_sku, b.device_sku)
                                for a in dn for b in devs}, "pairs-listed",
                   lambda: list(got))
    if bh or ac:
        ctx.count("filtered")
    for a in dn:
        for b in devs:
            ctx.count("pairs")
            r = got[(a.device_sku, b.device_sku)]
            ways = [(a, b)]
            if b in dn and a is not b:
                ways.append((b, a))
                ctx.count("both_ways")
                ctx.check_that(r == got[(b.device_sku, a.device_sku)],
                               "both-ways-differ", lambda: got)
            if top is not None:
                ctx.check_that(r <= top, "beyond-limit", (r, top))
            one = []
            for x, y in ways:
                args = (x.sector_params, y.sector_params, tab(y),
                        power[x.device_sku])
                if r == top:        # the limit, or less than the reach
                    ctx.count("clipped")
                    one.append(max(capacity(r - 1, *args)) > 0)
                else:
                    one.append(reach_ok(r, *args))
                    ctx.check_that(0.0 in capacity(r, *args),
                                   "usable-beyond", lambda: (r, x, y))
            ctx.check_that(any(one), "not-the-reach", lambda: (
                r, a.device_sku, b.device_sku, top))
    perm = list(devs)
    rng.shuffle(perm)
    ctx.check_that(get_max_los_dist_for_device_pairs(
        perm, eirp, bh, ac, top) == got, "order-of-devices", lambda: got)
    ctx.nontrivial(nd, nc, eirp, top, bh, ac, tuple(sorted(got.values())))


@check.part(quick=2000, thorough=60000, need={"metres": 8000, "none": 20,
                                             "at_lower": 10})
def search(ctx, rng):
    """The search itself, metre by metre over its whole range."""
    tx, rx = device(rng, "D", False), device(rng, "C", True)
    t, r = tx.sector_params, rx.sector_params
    power = get_max_tx_power(t, None)
    lo = rng.choice([0, 0, 5, 40])
    hi = lo + rng.randint(0, 120)
    # put the reach inside or around the range
    m = max(1, rng.randint(lo - 10, hi + 10))
    r.thermal_noise_power = power + rf.net_gain(m, t, None, r, None) - \
        r.noise_figure - min(q.snr for q in r.mcs_map if q.mbps > 0) + \
        rng.uniform(-.01, .01)

    def cap(d):
        ctx.count("metres")
        return fspl_based_estimation(d, power, t, r, r.mcs_map, 0.0, 0.0, 0.0,
                                     0.0, None, None).capacity
    want = next((d for d in range(lo, hi + 1) if cap(d) == 0), None)
    got = search_max_los_dist_based_on_capacity(lo, hi, power, t, r, r.mcs_map)
    ctx.check_that(got == want, "search", (got, want, lo, hi))
    ctx.count("none", int(want is None))
    ctx.count("at_lower", int(want == lo))
    ctx.nontrivial(lo, hi, got)


@check.part(quick=600, thorough=15000, need={"orders": 200})
def any_order(ctx, rng):
    """Every order of three devices."""
    devs = [device(rng, "D0", False), device(rng, "D1", False),
            device(rng, "C0", True)]
    top = rng.choice([None, 60, 300])
    seen = set()
    for p in itertools.permutations(devs):
        try:
            v = get_max_los_dist_for_device_pairs(
                list(p), None, None, None, top)
            seen.add(tuple(sorted(v.items())))
        except LOSException:
            seen.add("beyond")
        ctx.count("orders")
    ctx.check_that(len(seen) == 1, "any-order", lambda: seen)
    ctx.nontrivial(str(seen)[:200])


if __name__ == "__main__":
    check.run()
