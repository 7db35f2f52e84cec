"""Random radio networks shared by several checks."""
from tg import *  # noqa
from terragraph_planner.common.constants import DEFAULT_MCS_SNR_MBPS_MAP
from terragraph_planner.common.structs import MCSMap


def table(rng):
    if rng.random() < .3:
        return list(DEFAULT_MCS_SNR_MBPS_MAP)
    out, snr, mbps = [], rng.uniform(-2, 6), 0.0
    for m in sorted(rng.sample(range(1, 14), rng.randint(1, 7))):
        mbps += rng.choice([100.0, 300.0])
        out.append(MCSMap(m, round(snr, 2), mbps, rng.choice([0, 0, 2])))
        snr += rng.uniform(.5, 3)
    return out


def scan(rng):
    hs = [h + .25 for h in sorted(rng.sample(range(-90, 91, 5),
                                             rng.randint(1, 8)))]
    vs = [v + .25 for v in sorted(rng.sample(range(-40, 41, 5),
                                             rng.randint(1, 5)))]
    return {float(h): {float(v): round(28 - rng.choice(
        [0.0, rng.uniform(0, 12)]), 2) for v in vs} for h in hs}


def device(rng, name, cn):
    mx = round(rng.uniform(5, 30), 2)
    kw = dict(antenna_boresight_gain=round(rng.uniform(15, 35), 2),
              maximum_tx_power=mx,
              noise_figure=rng.uniform(2, 10),
              rain_rate=rng.choice([0.0, 30.0, 90.0]),
              tx_diversity_gain=rng.choice([0.0, 3.0]),
              rx_diversity_gain=rng.choice([0.0, 2.0]),
              tx_miscellaneous_loss=rng.choice([0.0, 1.0]),
              rx_miscellaneous_loss=rng.choice([0.0, 4.0]),
              minimum_tx_power=rng.choice([None, None, round(
                  rng.uniform(0, mx), 2)]))
    if cn:
        d = cn_device(name, scan=rng.choice([70.0, 360.0]), **kw)
    else:
        n, w = rng.choice([(4, 70.0), (4, 90.0), (2, 120.0), (1, 360.0),
                           (3, 40.0)])
        d = dn_device(name, nodes=n, scan=w, **kw)
    d.sector_params.mcs_map = table(rng)
    d.sector_params.scan_pattern_data = scan(rng) if rng.random() < .6 \
        else None
    return d


def network(rng, n=None, statuses=True):
    devs = [device(rng, f"D{i}", False) for i in range(2)]
    cns = [device(rng, f"C{i}", True) for i in range(2)]
    sites = []
    x0, y0 = rng.uniform(3e5, 7e5), rng.uniform(1e5, 5e6)
    for i in range(n or rng.randint(2, 7)):
        ty = rng.choice([DN, DN, DN, POP, CN, CN])
        st = rng.choice([CANDIDATE] * 4 + [EXISTING, PROPOSED]) \
            if statuses else CANDIDATE
        sites.append(make_site(
            ty, x0 + rng.uniform(-250, 250), y0 + rng.uniform(-250, 250),
            rng.choice(cns if ty == CN else devs), st,
            alt=rng.choice([0.0, rng.uniform(0, 60)]), sid=f"s{i}"))
    t = Topology(sites=sites)
    for i, a in enumerate(sites):
        for b in sites[i + 1:]:
            d = math.hypot(a.utm_x - b.utm_x, a.utm_y - b.utm_y)
            if d < 25 or a.site_type == b.site_type == CN or \
                    rng.random() < .35:
                continue
            wired = CN not in (a.site_type, b.site_type) and \
                rng.random() < .2
            for p, q in ((a, b), (b, a)):
                if p.site_type != CN:
                    t.add_link(Link(p, q, is_wireless=not wired))
    return t, devs + cns


def usable_angles(l):
    """Deviations that are clear of the half-way points of the patterns."""
    for s, az, el in ((l.tx_site, l.tx_dev, l.el_dev),
                      (l.rx_site, l.rx_dev, -l.el_dev)):
        p = s.device.sector_params.scan_pattern_data
        if p is None:
            continue
        for v, keys in ((az, sorted(p)), (el, sorted(next(iter(
                p.values())))), (0.0, sorted(next(iter(p.values()))))):
            d = sorted(abs(k - v) for k in keys)
            if len(d) > 1 and d[1] - d[0] < .05:
                return False
    return True
