"""Radio equations of docs/rf_modeling, written out independently."""
import math

OXYGEN = [(52, 0), (53, 1), (54, 2.2), (55, 4), (56, 6.6), (57, 9.7),
          (58, 12.6), (59, 14.6), (60, 15), (61, 14.6), (62, 14.3),
          (63, 10.5), (64, 6.8), (65, 3.9), (66, 1.9), (67, 1), (68, 0)]


def path_loss(m, mhz):
    """Free-space loss in dB; never a gain."""
    if m <= 0:
        return 0.0
    v = 92.45 + 20 * math.log10(m / 1000 * (mhz / 1000))
    return max(v, 0.0)


def oxygen_loss(m, mhz):
    f = mhz / 1000
    if f < 52 or f > 68:
        return 0.0
    for (a, x), (b, y) in zip(OXYGEN, OXYGEN[1:]):
        if a <= f <= b:
            return (x + (y - x) * (f - a) / (b - a)) * m / 1000
    return 0.0


def rain_loss(m, mhz, rain, availability):
    d, f, p = m / 1000, mhz / 1000, 100 - availability
    if d <= 0 or rain <= 0:
        return 0.0
    per_km = .8515 * rain ** .7486
    den = .477 * d ** .633 * rain ** (.073 * .7486) * f ** .123 - 10.579 * (
        1 - math.exp(-.024 * d))
    at_001 = per_km * d * min(1 / den, 2.5)
    c0 = .12 + .4 * .8 * math.log10(f / 10)
    c1 = math.exp(c0 * math.log(.07) + (1 - c0) * math.log(.12))
    c2 = .855 * c0 + .546 * (1 - c0)
    c3 = .139 * c0 + .043 * (1 - c0)
    lp = math.log10(p)
    return max(0.0, at_001 * c1 * 10 ** (-lp * (c2 + c3 * lp)))


def gain(boresight, diversity, pattern, az, el):
    """Antenna gain in a direction, for every kind of pattern."""
    g = boresight + diversity
    if pattern is None:
        return g
    if all(isinstance(k, float) for k in pattern):      # scan pattern
        best = max(v for r in pattern.values() for v in r.values())
        row = pattern[min(pattern, key=lambda k: abs(k - az))]
        return g + row[min(row, key=lambda k: abs(k - el))] - best
    first = pattern[next(iter(pattern))]
    return g + first[0][math.floor(az + .5) % 360] + \
        first[1][math.floor(el + .5) % 360]


def net_gain(m, tx, txp, rx, rxp, az_t=0, az_r=0, el_t=0, el_r=0):
    f = tx.carrier_frequency
    return (gain(tx.antenna_boresight_gain, tx.tx_diversity_gain, txp, az_t,
                 el_t) - tx.tx_miscellaneous_loss
            + gain(rx.antenna_boresight_gain, rx.rx_diversity_gain, rxp, az_r,
                   el_r) - rx.rx_miscellaneous_loss
            - path_loss(m, f) - oxygen_loss(m, f)
            - rain_loss(m, f, tx.rain_rate, tx.link_availability_percentage))


def max_power(tx, eirp):
    p = tx.maximum_tx_power
    if eirp is not None:
        p = min(p, eirp - tx.antenna_boresight_gain - tx.tx_diversity_gain)
    if tx.minimum_tx_power is not None:
        p = max(p, tx.minimum_tx_power)
    return p


def noise(rx):
    return rx.noise_figure + rx.thermal_noise_power


def best_class(snr, table, tol=0.0):
    """Highest row whose SNR threshold is reached, or None."""
    rows = [r for r in table if snr + tol >= r.snr]
    return max(rows, key=lambda r: r.mcs) if rows else None


def allowed_class(power, ng, np_dbm, table, lo, tol=0.0):
    """Highest row that fits the power limits including its backoff."""
    top = best_class(power + ng - np_dbm, table, tol)
    if top is None:
        return None
    for r in sorted(table, key=lambda r: -r.mcs):
        if r.mcs > top.mcs or r.mcs <= 0:
            continue
        need = r.snr + np_dbm - ng
        if lo is not None:
            need = max(need, lo)
        if need <= power - r.tx_backoff + tol:
            return r
    return None
