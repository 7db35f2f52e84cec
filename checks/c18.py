"""C18 interference, SINR and transmit power control."""
import rf
from radio import network
from vmon import Check
from tg import *  # noqa
from terragraph_planner.optimization.topology_interference import (
    analyze_interference, compute_link_interference, compute_link_net_gain_map,
    compute_link_rsl_map,
)
from terragraph_planner.optimization.topology_operations import (
    update_link_caps_with_sinr,
)
from terragraph_planner.optimization.topology_preparation import (
    add_link_capacities,
)
from terragraph_planner.common.exceptions import OptimizerException
import logging

check = Check(
    "C18",
    rule="random networks with sectors, two kinds of antenna patterns, "
         "statuses, polarities, channels, redundant and wired links; every "
         "interference, SINR and power value recomputed; non-trivial = "
         "distinct (number of interferers, class, status) tuples",
    assumptions=["no deviation within 0.02 degrees of a pattern step",
                 "values within 1e-6 dB of a threshold may go either way"],
    workers=6,
)


def blocks(rng):
    """Antenna pattern in steps of ten degrees."""
    def axis():
        v = [round(-rng.uniform(0, 25), 2) for _ in range(36)]
        return {a: v[a // 10] for a in range(360)}
    return {"ANT": {0: axis(), 1: axis()}}


def clear(a):
    """Far from the steps at 9.5, 19.5, ... and 359.5."""
    r = (a + .5) % 10
    return min(r, 10 - r) > .02


class Unclear(Exception):
    pass


def off(a, s):
    return (a - s.ant_azimuth + 180) % 360 - 180


def geometry(p, q):
    flat = sphere_distance(p.latitude, p.longitude, q.latitude, q.longitude)
    up = q.altitude - p.altitude
    return (math.hypot(flat, up), math.degrees(math.atan2(up, flat)),
            bearing(p.latitude, p.longitude, q.latitude, q.longitude))


def path_gain(path, az_t, az_r, el_t, el_r):
    """Net gain along a path when the beams are off by these angles."""
    m, _, _ = geometry(path.tx_site, path.rx_site)
    tx = path.tx_site.device.sector_params
    rx = path.rx_site.device.sector_params
    for p, vals in ((tx, (az_t, el_t)), (rx, (az_r, el_r))):
        if p.antenna_pattern_data is not None and not all(
                clear(v) for v in vals):
            raise Unclear
    return rf.net_gain(m, tx, tx.antenna_pattern_data, rx,
                       rx.antenna_pattern_data, az_t, az_r, el_t, el_r)


def norm(a):
    return (a + 180) % 360 - 180


def in_sector(l):
    return l.tx_sector is not None and l.rx_sector is not None


def on(l):
    return l.status_type in ACTIVE


def polarity(t, s):
    if s.site_type != CN:
        return s.polarity
    U = PolarityType.UNASSIGNED
    opp = {PolarityType.EVEN: PolarityType.ODD,
           PolarityType.ODD: PolarityType.EVEN, U: U}
    got = {opp[l.tx_site.polarity] for l in t.links.values()
           if l.rx_site is s and on(l)}
    return got.pop() if len(got) == 1 else U


def opposite(p, q):
    return p != q or p == PolarityType.UNASSIGNED


def audible(t, path):
    """Does the receiving sector hear the transmitting one?"""
    a, b = path.tx_sector, path.rx_sector
    return path.is_wireless and in_sector(path) and \
        {a.status_type, b.status_type} <= ACTIVE and \
        {path.tx_site.status_type, path.rx_site.status_type} <= ACTIVE and \
        opposite(polarity(t, path.tx_site), polarity(t, path.rx_site)) and \
        (a.channel == b.channel or -1 in (a.channel, b.channel))


def interference(t, link):
    """Interfering power (mW) on an active link, and number of sources."""
    total, n = 0.0, 0
    if not in_sector(link):
        return 0.0, 0
    for path in t.links.values():
        if path.rx_sector is not link.rx_sector or \
                path.tx_sector is link.tx_sector or not audible(t, path):
            continue
        src = [q for q in t.links.values()
               if in_sector(q) and q.tx_sector is path.tx_sector
               and q.is_wireless and on(q) and not q.is_redundant
               and q.rx_sector is not link.rx_sector
               and q.rx_sector is not link.tx_sector]
        part = 0.0
        _, el_p, az_p = geometry(path.tx_site, path.rx_site)
        _, el_l, az_l = geometry(link.tx_site, link.rx_site)
        for q in src:
            _, el_q, az_q = geometry(q.tx_site, q.rx_site)
            g = path_gain(path, norm(az_p - az_q), norm(az_p - az_l),
                          norm(el_p - el_q), norm(el_l - el_p))
            part += 10 ** ((q.tx_power + g) / 10)
        if src:
            total += part / len(src)
            n += 1
    return total, n


def populate(ctx, rng):
    t, devs = network(rng, rng.randint(3, 7))
    for d in devs:
        d.sector_params.scan_pattern_data = d.sector_params.scan_pattern_data \
            if rng.random() < .3 else None
        d.sector_params.antenna_pattern_data = blocks(rng) \
            if rng.random() < .5 else None
    secs = {}
    for s in t.sites.values():
        n = 1 if s.site_type == CN else rng.choice([1, 2, 3, 4])
        secs[s.site_id] = [Sector(
            s, k, 0, (rng.uniform(0, 90) + 360 / n * k) % 360,
            s.status_type) for k in range(n)]
        for x in secs[s.site_id]:
            t.add_sector(x)
    for l in t.links.values():
        if not l.is_wireless:
            continue
        rev = t.links.get(f"{l.rx_site.site_id}-{l.tx_site.site_id}")
        if rev is not None and rev.tx_sector is not None:
            l.tx_sector, l.rx_sector = rev.rx_sector, rev.tx_sector
            continue
        az = bearing(l.tx_site.latitude, l.tx_site.longitude,
                     l.rx_site.latitude, l.rx_site.longitude)
        l.tx_sector = min(secs[l.tx_site.site_id],
                          key=lambda x: circ_diff(x.ant_azimuth, az))
        l.rx_sector = min(secs[l.rx_site.site_id],
                          key=lambda x: circ_diff(x.ant_azimuth, az + 180))
    for s in t.sites.values():
        if s.status_type == CANDIDATE and rng.random() < .85:
            s.status_type = PROPOSED
        s.polarity = rng.choice([PolarityType.EVEN, PolarityType.ODD] * 3 +
                                [PolarityType.UNASSIGNED])
        if s.site_type == CN:
            s.polarity = PolarityType.UNASSIGNED
    chans = rng.choice([[0], [0], [0, 1], [-1, 0, 1]])
    for s in t.sectors.values():
        if s.status_type == CANDIDATE and s.site.status_type in ACTIVE and \
                rng.random() < .85:
            s.status_type = PROPOSED
        s.channel = rng.choice(chans)
        if rng.random() < .3:
            s.ant_azimuth = (s.ant_azimuth + rng.uniform(-30, 30)) % 360
    for l in list(t.links.values()):
        act = {l.tx_site.status_type, l.rx_site.status_type} <= ACTIVE
        if act and l.status_type == CANDIDATE and rng.random() < .7:
            l.status_type = PROPOSED
        l.is_redundant = rng.random() < .12
        if l.is_wireless and rng.random() < (.03 if on(l) else .1):
            l.clear_sectors()
    eirp = rng.choice([None, None, rng.uniform(20, 50)])
    p = OptimizerParams(device_list=devs, maximum_eirp=eirp)
    return t, p, eirp


def state(t):
    return ({k: (s.status_type, s.polarity) for k, s in t.sites.items()},
            {k: (s.status_type, s.channel, s.ant_azimuth)
             for k, s in t.sectors.items()},
            {k: (l.status_type, l.is_redundant, l.tx_sector and
                 l.tx_sector.sector_id, l.rx_sector and l.rx_sector.sector_id)
             for k, l in t.links.items()})


def inst(t, eirp):
    return f"eirp={eirp} " + str(
        [(k, s.site_type.name, s.status_type.name, s.polarity.name,
          s.latitude, s.longitude, s.altitude) for k, s in t.sites.items()]
    ) + str([(k, l.status_type.name, l.is_redundant, l.tx_sector and
              l.tx_sector.sector_id, l.rx_sector and l.rx_sector.sector_id,
              l.tx_power) for k, l in t.links.items()])


@check.part(quick=8000, thorough=300000, share=.45,
            need={"interfered": 100, "clean": 100, "several sources": 20,
                  "wired": 20, "inactive": 50, "redundant": 20})
def sinr(ctx, rng):
    """SINR of every link in use, from the powers of the others."""
    t, p, eirp = populate(ctx, rng)
    add_link_capacities(t, p, with_deviation=True)
    for l in t.links.values():          # any powers will do
        if rng.random() < .3 and l.tx_power > -math.inf:
            d = rng.uniform(0, 10)
            l.tx_power -= d
            l.rsl_dbm -= d
        if rng.random() < .05:
            l.tx_power = l.rsl_dbm = -math.inf
        l.sinr_dbm = 12345.0
    before = state(t)
    try:
        want = {k: interference(t, l) for k, l in t.links.items()
                if on(l) and l.is_wireless}
    except Unclear:
        ctx.count("unclear")
        return
    if rng.random() < .5:
        gains = compute_link_net_gain_map(t)
        got = compute_link_rsl_map(t, gains)
        analyze_interference(t, gains)
    else:
        got = compute_link_rsl_map(t)
        analyze_interference(t)
    ctx.check_that(state(t) == before, "changed-plan", lambda: inst(t, eirp))
    for k, l in t.links.items():
        if l.is_redundant and on(l):
            ctx.count("redundant")
        if k not in want:
            ctx.count("wired" if not l.is_wireless else "inactive")
            ctx.check_that(l.sinr_dbm == 12345.0, "sinr-of-unused",
                           lambda: f"{k} {l.sinr_dbm} {inst(t, eirp)}")
            ctx.check_that(got.get(k, 0) == 0, "interference-on-unused",
                           lambda: f"{k} {got} {inst(t, eirp)}")
            continue
        mw, n = want[k]
        ctx.count("clean" if n == 0 else "interfered")
        if n > 1:
            ctx.count("several sources")
        ctx.close(got.get(k, 0.0), mw, "interference-sum",
                  lambda: f"{k} {inst(t, eirp)}", rel=1e-6, abs_tol=1e-30)
        if l.rsl_dbm == -math.inf:
            ctx.check_that(l.sinr_dbm == -math.inf, "sinr-without-signal", k)
            continue
        noise = 10 ** (rf.noise(l.rx_site.device.sector_params) / 10)
        ctx.close(l.sinr_dbm, l.rsl_dbm - 10 * math.log10(noise + mw),
                  "sinr", lambda: f"{k} {inst(t, eirp)}", rel=0,
                  abs_tol=1e-6)
        ctx.nontrivial(n, l.link_type.name, l.status_type.name,
                       round(mw / noise, 1))


@check.part(quick=8000, thorough=300000, share=.4,
            need={"interfered": 60, "clean": 100, "inactive": 50,
                  "settled": 50, "dead": 20, "lower class": 5})
def power_control(ctx, rng):
    """After power control: classes, capacities, powers and SINR agree."""
    t, p, eirp = populate(ctx, rng)
    if not t.links:
        return
    iters = rng.choice([1, 2, 5, 400])
    add_link_capacities(t, p, with_deviation=True)
    first = {k: (l.mcs_level, l.capacity, l.tx_power, l.rsl_dbm, l.snr_dbm)
             for k, l in t.links.items()}
    before = state(t)
    update_link_caps_with_sinr(t, p, iters)
    ctx.check_that(state(t) == before, "changed-plan", lambda: inst(t, eirp))
    try:
        want = {k: interference(t, l) for k, l in t.links.items()
                if on(l) and l.is_wireless}
    except Unclear:
        ctx.count("unclear")
        return
    for k, l in t.links.items():
        if k not in want:
            ctx.check_that(
                (l.mcs_level, l.capacity, l.tx_power, l.rsl_dbm, l.snr_dbm)
                == first[k], "unused-link-changed",
                lambda: f"{k} {l.link_budget} {first[k]} {inst(t, eirp)}")
            ctx.count("inactive")
            continue
        where = f"{k} iterations={iters} first={first[k]} " + inst(t, eirp)
        mw, n = want[k]
        tx = l.tx_site.device.sector_params
        rx = l.rx_site.device.sector_params
        noise = 10 ** (rf.noise(rx) / 10)
        ni = 10 * math.log10(noise + mw)
        top = rf.max_power(tx, eirp)
        ng = first[k][3] - first[k][2]
        rows = {r.mcs: r for r in rx.mcs_map}
        if l.tx_power == -math.inf:
            ctx.count("dead")
            ctx.check_that(l.snr_dbm == -math.inf, "dead-snr",
                           f"{l.link_budget} {where}")
            ctx.check_that(l.mcs_level == 0 and l.capacity == 0 and
                           l.rsl_dbm == l.sinr_dbm == -math.inf,
                           "dead-link", f"{l.link_budget} {where}")
            if n == 0:
                ctx.check_that(first[k][0] == 0, "class-lost",
                               f"{l.link_budget} {where}")
            continue
        ctx.count("clean" if n == 0 else "interfered")
        ctx.close(l.rsl_dbm, l.tx_power + ng, "rsl", where, abs_tol=1e-6)
        ctx.close(l.snr_dbm, l.rsl_dbm - rf.noise(rx), "snr", where,
                  abs_tol=1e-6)
        ctx.close(l.sinr_dbm, l.rsl_dbm - ni, "sinr", where, abs_tol=1e-6)
        lo = tx.minimum_tx_power
        got = []
        for q in (-1e-6, 0, 1e-6):
            fit = [r for r in rx.mcs_map if r.mcs > 0 and
                   l.sinr_dbm + q >= r.snr and
                   max(l.tx_power, r.snr + ni - ng)
                   <= top - r.tx_backoff + q]
            got.append(max(fit, key=lambda r: r.mcs) if fit else None)
        ctx.check_that(l.mcs_level in [r.mcs if r else 0 for r in got],
                       "class", f"{l.link_budget} want {got} {where}")
        ctx.close(l.capacity, rows[l.mcs_level].mbps / 1000
                  if l.mcs_level in rows else 0.0, "capacity", where)
        back = rows[l.mcs_level].tx_backoff if l.mcs_level in rows else 0
        ctx.check_that(l.tx_power <= top - back + 1e-6 and (
            lo is None or l.tx_power >= lo - 1e-6), "power-limits",
            f"{l.link_budget} {lo} {top} {back} {where}")
        ctx.check_that(l.mcs_level <= first[k][0], "class-gained",
                       f"{l.link_budget} {where}")
        if n == 0:
            ctx.check_that(l.mcs_level == first[k][0], "class-lost",
                           f"{l.link_budget} {where}")
        elif l.mcs_level < first[k][0]:
            ctx.count("lower class")
        if (n == 0 or iters >= 400) and l.mcs_level in rows:
            need = rows[l.mcs_level].snr + ni - ng
            need = max(need, lo) if lo is not None else need
            ctx.close(l.tx_power, need, "power-not-lowest", where,
                      abs_tol=1e-3)
            ctx.count("settled")
        ctx.nontrivial(n, l.mcs_level, first[k][0], lo is None, iters)


@check.part(quick=3000, thorough=100000, share=.15,
            need={"computed": 300, "wired": 20, "no sector": 10})
def worst_case(ctx, rng):
    """The interference the planner assumes before choosing links."""
    t, p, eirp = populate(ctx, rng)
    got = compute_link_interference(t, eirp)
    ctx.check_that(set(got) == {(l.tx_site.site_id, l.rx_site.site_id)
                                for l in t.links.values()}, "keys",
                   lambda: f"{got} {inst(t, eirp)}")
    for l in t.links.values():
        v = got[(l.tx_site.site_id, l.rx_site.site_id)]
        if not l.is_wireless or not in_sector(l):
            ctx.count("wired" if not l.is_wireless else "no sector")
            ctx.check_that(v == -math.inf, "no-path", l.link_id)
            continue
        _, el, az = geometry(l.tx_site, l.rx_site)
        try:
            g = path_gain(l, off(az, l.tx_sector),
                          off(az + 180, l.rx_sector), el, -el)
        except Unclear:
            ctx.count("unclear")
            continue
        ctx.close(v, rf.max_power(l.tx_site.device.sector_params, eirp) + g,
                  "worst-case", lambda: f"{l.link_id} {inst(t, eirp)}",
                  rel=0, abs_tol=1e-6)
        ctx.count("computed")
        ctx.nontrivial(round(el), round(v, 1))
    if t.links:
        ctx.expect_raises(OptimizerException,
                          lambda: update_link_caps_with_sinr(t, p, 0),
                          "no-iterations")


if __name__ == "__main__":
    logging.disable(logging.CRITICAL)
    check.run()
