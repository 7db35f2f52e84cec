"""C12 link budget: the documented radio equations, for every input."""
import rf
from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.configuration.configs import SectorParams
from terragraph_planner.common.constants import DEFAULT_MCS_SNR_MBPS_MAP
from terragraph_planner.common.rf import link_budget_calculator as lb
from terragraph_planner.common.structs import MCSMap

check = Check(
    "C12",
    rule="random sector parameters, patterns, MCS tables (with gaps, backoffs "
         "and equal rates), distances, weather and deviations through every "
         "public function of the link budget; non-trivial = distinct (class, "
         "distance, frequency, rain, pattern kinds)",
    assumptions=["values within 1e-7 dB of a threshold may go either way",
                 "deviations in (-180, 180] and [-90, 90], not half-way "
                 "between two entries of a pattern",
                 "rain model used within its range: availability below 100"],
    workers=6,
)


def table(rng):
    """A valid MCS table: increasing SNR, non-decreasing rate."""
    if rng.random() < .3:
        return list(DEFAULT_MCS_SNR_MBPS_MAP)
    mcs = sorted(rng.sample(range(rng.choice([0, 1, 3]), 16),
                            rng.randint(1, 9)))
    snr, mbps, out = rng.uniform(-3, 6), rng.choice([0, 0, 50.0]), []
    back = 0.0
    for m in mcs:
        out.append(MCSMap(m, round(snr, 3), round(mbps, 2), back))
        snr += rng.uniform(.2, 4)
        mbps += rng.choice([0, 60.0, 250.5])
        back += rng.choice([0, 0, .5, 2])
    if rng.random() < .4:
        out = [r._replace(tx_backoff=rng.choice([0, 0, 1, 3, 6]))
               for r in out]
    return out


def params(rng, mcs=None):
    mx = round(rng.uniform(0, 40), 3)
    s = SectorParams(
        antenna_boresight_gain=round(rng.uniform(0, 45), 3),
        maximum_tx_power=mx,
        carrier_frequency=rng.choice([60480.0, 58320.0, 64800.0, 5180.0,
                                      28000.0, 73000.0, 52000.0, 68000.0,
                                      rng.uniform(50000, 70000)]),
        thermal_noise_power=rng.choice([-81.0, rng.uniform(-100, -60)]),
        noise_figure=rng.uniform(0, 12),
        rain_rate=rng.choice([0.0, 30.0, rng.uniform(1, 120)]),
        link_availability_percentage=rng.choice(
            [99.9, 99.999, 99.0, rng.uniform(95, 99.999)]),
        tx_diversity_gain=rng.choice([0.0, 3.0, rng.uniform(0, 6)]),
        rx_diversity_gain=rng.choice([0.0, 3.0, rng.uniform(0, 6)]),
        tx_miscellaneous_loss=rng.choice([0.0, rng.uniform(0, 8)]),
        rx_miscellaneous_loss=rng.choice([0.0, rng.uniform(0, 8)]),
        minimum_tx_power=rng.choice([None, None, mx, 0.0, round(
            rng.uniform(-10, mx), 3)]),
    )
    s.mcs_map = mcs or table(rng)
    return s


def antenna(rng):
    return {f"a{k}": [[-round(rng.uniform(0, 40), 2) for _ in range(360)]
                      for _ in range(2)] for k in range(rng.randint(1, 3))}


def scan(rng):
    hs = sorted(rng.sample(range(-90, 91, 5), rng.randint(1, 9)))
    vs = sorted(rng.sample(range(-40, 41, 5), rng.randint(1, 6)))
    top = rng.choice([0.0, 28.0, 30.0])
    return {float(h): {float(v): round(top - rng.choice(
        [0.0, 0.0, rng.uniform(0, 12)]), 2) for v in vs} for h in hs}


def pattern(rng):
    return rng.choice([None, None, antenna, scan])


def angle_for(rng, pat, lim, az):
    """A deviation that is not half-way between two pattern entries."""
    for _ in range(50):
        a = rng.choice([0.0, rng.uniform(-lim, lim), rng.uniform(-5, 5),
                        float(rng.randint(-int(lim) + 1, int(lim))),
                        lim - .3, -lim + .3])
        if pat is None:
            return a
        if all(isinstance(k, float) for k in pat):
            keys = sorted(pat) if az else sorted(next(iter(pat.values())))
            d = sorted(abs(k - a) for k in keys)
            if len(d) == 1 or d[1] - d[0] > 1e-6:
                return a
        elif abs(a - math.floor(a) - .5) > 1e-6:
            return a
    return 0.0


def distance(rng):
    return rng.choice([0.0, 1e-4, .3, 1.0, rng.uniform(0, 30),
                       rng.uniform(1, 600), rng.uniform(1, 600),
                       rng.uniform(100, 9000)])


@check.part(quick=20000, thorough=600000, share=2,
            need={"scan": 300, "antenna": 300, "symmetric": 300})
def received_power(ctx, rng):
    """Losses, gains and noise against the documented equations."""
    tx, rx = params(rng), params(rng)
    m = distance(rng)
    f = tx.carrier_frequency
    ctx.close(lb.fspl(m / 1000, f / 1000) if m else 0.0,
              rf.path_loss(m, f), "path-loss", abs_tol=1e-6)
    ctx.close(lb.compute_oxygen_loss(m / 1000, f), rf.oxygen_loss(m, f),
              "oxygen-loss", abs_tol=1e-9)
    ctx.close(lb.compute_rain_loss(
        m / 1000, tx.rain_rate, tx.link_availability_percentage, f),
        rf.rain_loss(m, f, tx.rain_rate, tx.link_availability_percentage),
        "rain-loss", rel=1e-7, abs_tol=1e-9)
    pats = []
    for _ in range(2):
        k = pattern(rng)
        pats.append(k(rng) if k else None)
        if k:
            ctx.count(k.__name__)
    a = [angle_for(rng, pats[i], 180, True) for i in range(2)]
    e = [angle_for(rng, pats[i], 90, False) for i in range(2)]
    for i, s in enumerate((tx, rx)):
        ctx.close(lb.extract_gain_from_radio_pattern(
            s.antenna_boresight_gain, s.tx_diversity_gain, pats[i], a[i],
            e[i]), rf.gain(s.antenna_boresight_gain, s.tx_diversity_gain,
                           pats[i], a[i], e[i]), "antenna-gain", abs_tol=1e-9)
    want = rf.net_gain(m, tx, pats[0], rx, pats[1], a[0], a[1], e[0], e[1])
    got = lb.get_fspl_based_net_gain(m, tx, pats[0], rx, pats[1], a[0], a[1],
                                     e[0], e[1])
    ctx.close(got, want, "net-gain", rel=1e-9, abs_tol=1e-7)
    if rng.random() < .3:       # same radio at both ends
        ctx.count("symmetric")
        a2, e2 = angle_for(rng, pats[0], 180, True), \
            angle_for(rng, pats[0], 90, False)
        ctx.close(lb.get_fspl_based_net_gain(
            m, tx, pats[0], None, pats[1], a[0], a2, e[0], e2),
            rf.net_gain(m, tx, pats[0], tx, pats[0], a[0], a2, e[0], e2),
            "net-gain-symmetric", rel=1e-9, abs_tol=1e-7)
    p = rng.uniform(0, 40)
    ctx.close(lb.get_rsl(p, 3.0, 1.0, m / 1000, f / 1000, 2.5, .5, 4.0),
              p + 3 - 1 + 2.5 - .5 - rf.path_loss(m, f) - 4, "rsl",
              abs_tol=1e-6)
    ctx.close(lb.get_rsl(p, 3.0, 1.0, m / 1000, f / 1000, None, None, 4.0),
              p + 2 * (3 - 1) - rf.path_loss(m, f) - 4, "rsl-symmetric",
              abs_tol=1e-6)
    ctx.close(lb.get_noise_power(rx), rf.noise(rx), "noise", abs_tol=1e-9)
    ctx.close(lb.linear_to_log(lb.log_to_linear(-p)), -p, "db", abs_tol=1e-9)
    ctx.close(lb.log_to_linear(-p), math.exp(-p / 10 * math.log(10)),
              "milliwatt", rel=1e-9)
    ctx.nontrivial(round(m, 2), round(f), round(tx.rain_rate, 1),
                   *[type(q).__name__ for q in pats])


@check.part(quick=20000, thorough=600000, share=2,
            need={"capped_by_backoff": 300, "no_class": 500, "gap": 200,
                  "full": 1000, "eirp_limited": 500})
def estimation(ctx, rng):
    """Class, rate, power and SNR of a link."""
    tx, rx = params(rng), params(rng)
    t = rx.mcs_map
    eirp = rng.choice([None, None, rng.uniform(10, 60),
                       rng.uniform(10, 60), 0.0])
    power = lb.get_max_tx_power(tx, eirp)
    ctx.close(power, rf.max_power(tx, eirp), "max-power", abs_tol=1e-9)
    if eirp is not None:
        ctx.check_that(power + tx.antenna_boresight_gain +
                       tx.tx_diversity_gain <= eirp + 1e-9 or
                       power == tx.minimum_tx_power, "eirp-exceeded", power)
        ctx.count("eirp_limited", int(power < tx.maximum_tx_power))
    pats = [rng.choice([None, None, scan]) for _ in range(2)]
    pats = [k(rng) if k else None for k in pats]
    a = [angle_for(rng, p, 60, True) for p in pats]
    e = [angle_for(rng, p, 30, False) for p in pats]
    base = rf.net_gain(1.0, tx, pats[0], rx, pats[1], *a, *e)
    if rng.random() < .7:       # near a threshold, by a matching noise level
        m = distance(rng)
        r = rng.choice(t)
        ng = rf.net_gain(m, tx, pats[0], rx, pats[1], *a, *e)
        rx.thermal_noise_power = power + ng - rx.noise_figure - r.snr - \
            rng.uniform(-1, 8)
    else:
        m = distance(rng)
    del base
    ng = rf.net_gain(m, tx, pats[0], rx, pats[1], *a, *e)
    np_dbm = rf.noise(rx)
    got = lb.fspl_based_estimation(m, power, tx, rx, t, a[0], a[1], e[0],
                                   e[1], pats[0], pats[1])
    choices = {rf.allowed_class(power, ng, np_dbm, t, tx.minimum_tx_power, q)
               for q in (-1e-7, 0, 1e-7)}
    best = rf.best_class(power + ng - np_dbm, t)
    fit = [c for c in choices if got.mcs_level == (c.mcs if c else 0)]
    if not ctx.check_that(bool(fit), "mcs", lambda: (
            got.mcs_level, choices, t, power + ng - np_dbm)):
        return
    c = fit[0]
    ctx.close(got.capacity, c.mbps / 1000 if c else lb_zero(t), "capacity",
              abs_tol=1e-9)
    back = c.tx_backoff if c else next(
        (r.tx_backoff for r in t if r.mcs == 0), 0.0)
    ctx.close(got.tx_power, power - back, "tx-power", abs_tol=1e-9)
    ctx.close(got.rsl_dbm, power - back + ng, "rsl-dbm", rel=1e-9,
              abs_tol=1e-6)
    ctx.close(got.snr_dbm, power - back + ng - np_dbm, "snr-dbm", rel=1e-9,
              abs_tol=1e-6)
    ctx.check_that(got.sinr_dbm == got.snr_dbm, "sinr-starts-as-snr", "")
    if c is not None:
        ctx.check_that(got.tx_power <= tx.maximum_tx_power + 1e-9 or
                       tx.minimum_tx_power is not None, "power-above-max", "")
        ctx.check_that(tx.minimum_tx_power is None or got.tx_power >=
                       tx.minimum_tx_power - 1e-6, "power-below-min",
                       got.tx_power)
        ctx.check_that(got.snr_dbm >= c.snr - 1e-6, "snr-below-class", "")
    if c is None:
        ctx.count("no_class")
    elif best is not None and c.mcs < best.mcs:
        ctx.count("capped_by_backoff")
        if any(x not in {r.mcs for r in t}
               for x in range(c.mcs + 1, best.mcs)):
            ctx.count("gap")
    else:
        ctx.count("full")
    # the lowest power that keeps the class
    lvl, p = lb.adjust_tx_power_with_backoff(
        best.mcs if best else 0, t, tx.minimum_tx_power, power, ng, np_dbm)
    if len(choices) == 1:
        if c is None:
            ctx.check_that(lvl == 0 and p == -math.inf, "no-power", (lvl, p))
        else:
            w = c.snr + np_dbm - ng
            if tx.minimum_tx_power is not None:
                w = max(w, tx.minimum_tx_power)
            ctx.check_that(lvl == c.mcs, "adjusted-mcs", (lvl, c))
            ctx.close(p, w, "adjusted-power", rel=1e-9, abs_tol=1e-6)
    ctx.nontrivial(got.mcs_level, len(t), round(m, 1), round(power, 1))


def lb_zero(t):
    """Rate of class 0, which a table may hold."""
    return next((r.mbps / 1000 for r in t if r.mcs == 0), 0.0)


@check.part(quick=3000, thorough=100000, need={"at_threshold": 1000})
def lookup(ctx, rng):
    """The MCS table in both directions, exactly at its thresholds too."""
    t = table(rng)
    for r in t:
        for snr in (r.snr, r.snr - 1e-6, r.snr + .01,
                    r.snr - 100, r.snr + 100, rng.uniform(-5, 30)):
            b = rf.best_class(snr, t)
            ctx.check_that(lb.get_mcs_from_snr(snr, t) == (
                b.mcs if b else 0), "mcs-from-snr", lambda: (snr, t))
        ctx.count("at_threshold")
        ctx.check_that(lb.get_snr_from_mcs(r.mcs, t) == r.snr,
                       "snr-from-mcs", lambda: (r, t))
        ctx.check_that(lb.get_link_capacity_from_mcs(r.mcs, t) ==
                       r.mbps / 1000, "rate-from-mcs", lambda: (r, t))
        ctx.check_that(lb.get_backoff_from_mcs(r.mcs, t) == r.tx_backoff,
                       "backoff-from-mcs", lambda: (r, t))
    for m in range(0, 18):
        below = [r for r in t if r.mcs <= m]
        ctx.check_that(lb.get_snr_from_mcs(m, t) == (
            max(below, key=lambda r: r.mcs).snr if below else 0),
            "snr-from-gap", lambda: (m, t))
        if all(r.mcs != m for r in t):
            ctx.check_that(lb.get_link_capacity_from_mcs(m, t) == 0,
                           "rate-of-unknown-class", lambda: (m, t))
    ctx.check_that(lb.get_mcs_from_snr(math.nan, t) == 0, "mcs-of-nan", "")
    ctx.nontrivial(tuple(t))


@check.part(quick=1200, thorough=40000, need={"steps": 20000})
def monotone(ctx, rng):
    """More distance, rain, availability or loss never helps."""
    tx, rx = params(rng), params(rng)
    tx.carrier_frequency = rng.uniform(24000, 80000)
    power = lb.get_max_tx_power(tx, None)

    def run(m):
        return lb.fspl_based_estimation(m, power, tx, rx, rx.mcs_map, 0.0,
                                        0.0, 0.0, 0.0, None, None)

    def sweep(mech, values):
        last = None
        for v in values:
            x = v()
            if last is not None:
                ctx.check_that(x.mcs_level <= last.mcs_level and
                               x.capacity <= last.capacity, mech,
                               lambda: (x, last))
                ctx.check_that(
                    x.rsl_dbm + tx_back(x) <= last.rsl_dbm + tx_back(last)
                    + 1e-9, mech + "-power", lambda: (x, last))
            last = x
            ctx.count("steps")

    def tx_back(x):
        return power - x.tx_power
    d = sorted(distance(rng) for _ in range(14))
    rx.thermal_noise_power = power + rf.net_gain(
        d[7] + 1, tx, None, rx, None) - rx.noise_figure - rng.uniform(0, 15)
    sweep("farther-is-better", [lambda v=v: run(v) for v in d])
    m = d[7]

    def with_(obj, name, v):
        setattr(obj, name, v)
        return run(m)
    for obj, name, lo, hi in (
            (tx, "rain_rate", 1, 120),
            (tx, "link_availability_percentage", 95, 99.999),
            (tx, "tx_miscellaneous_loss", 0, 20),
            (rx, "rx_miscellaneous_loss", 0, 20)):
        old = getattr(obj, name)
        sweep(f"more-{name}-helps".replace("_", "-"), [
            lambda v=v: with_(obj, name, v)
            for v in sorted(rng.uniform(lo, hi) for _ in range(5))])
        setattr(obj, name, old)
    ctx.nontrivial(round(d[7]), round(power), len(rx.mcs_map))


@check.part(once=True)
def always_available(ctx, rng):
    """The configuration accepts an availability of 100 %."""
    s = SectorParams(link_availability_percentage=100)
    try:
        v = lb.compute_rain_loss(.1, 30.0, 100.0, 60480.0)
        x = lb.fspl_based_estimation(
            100, 16.0, s, s, s.mcs_map, 0, 0, 0, 0, None, None)
    except (ValueError, ZeroDivisionError) as e:
        ctx.violate("availability-100", repr(e))
        return
    ctx.check_that(v >= 0 and x.mcs_level >= 0, "availability-100-value", v)


if __name__ == "__main__":
    check.run()
