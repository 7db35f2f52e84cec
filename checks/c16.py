"""C16 preparation: coherent statuses, link capacities, required inputs."""
import rf
from radio import network, usable_angles
from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.exceptions import (
    OptimizerException, PlannerException, TopologyException,
)
from terragraph_planner.optimization.topology_optimization import (
    pre_opt_check,
)
from terragraph_planner.optimization.topology_preparation import (
    add_link_capacities, prepare_topology_for_optimization,
    setup_node_structure, validate_topology_status,
)

check = Check(
    "C16",
    rule="random networks with all mixes of site, sector and link statuses "
         "(made incoherent after the fact), wired and one-way links, device "
         "tables and antenna patterns through status validation, capacity "
         "computation and the whole preparation; non-trivial = distinct "
         "(statuses, kinds) tuples",
    assumptions=["values within 1e-7 dB of a threshold may go either way",
                 "deviations not half-way between two pattern entries"],
    workers=6,
)
INACTIVE = {UNAVAILABLE, UNREACHABLE}


def coherent(t):
    """Reason why the statuses do not fit together, or None."""
    pairs = {(l.tx_site.site_id, l.rx_site.site_id): l
             for l in t.links.values()}
    for (a, b), l in pairs.items():
        r = pairs.get((b, a))
        if r is None and l.link_type != LinkType.WIRELESS_ACCESS:
            return "one-way backhaul"
        if r is not None and r.status_type != l.status_type:
            return "reverse differs"
        sites = [l.tx_site.status_type, l.rx_site.status_type]
        secs = [s.status_type if s is not None else None
                for s in (l.tx_sector, l.rx_sector)]
        if l.status_type == EXISTING:
            if sites != [EXISTING] * 2:
                return "existing link, site not existing"
            if l.is_wireless and secs != [EXISTING] * 2:
                return "existing link, sector not existing"
        elif l.status_type == PROPOSED:
            if not set(sites) <= ACTIVE:
                return "proposed link, inactive site"
            if l.is_wireless and not set(secs) <= ACTIVE:
                return "proposed link, inactive sector"
        elif l.status_type == CANDIDATE:
            if set(sites) & INACTIVE:
                return "candidate link, inactive site"
            if set(secs) & INACTIVE:
                return "candidate link, inactive sector"
    return None


def force(obj, st):
    try:
        obj.status_type = st
    except TopologyException:
        pass


@check.part(quick=3000, thorough=100000, share=.3,
            need={"accepted": 300, "one-way backhaul": 30,
                  "reverse differs": 30, "existing link, sector not existing":
                  20, "proposed link, inactive site": 10,
                  "proposed link, inactive sector": 20,
                  "candidate link, inactive site": 10,
                  "candidate link, inactive sector": 10,
                  "wired in use": 30, "access in use": 30})
def status_rules(ctx, rng):
    """validate_topology_status accepts exactly coherent networks."""
    sites = []
    theme = rng.choice([None, EXISTING, EXISTING, PROPOSED, CANDIDATE])
    for i in range(rng.randint(2, 4)):
        ty = rng.choice([DN, DN, POP, CN])
        st = theme if theme and rng.random() < .85 else rng.choice(ALL_STATUS)
        sites.append(make_site(
            ty, 500000 + 90 * i + rng.uniform(0, 30), 1000 * rng.random(),
            cn_device() if ty == CN else dn_device(), st, sid=f"s{i}"))
    t = Topology(sites=sites)
    for s in sites:
        for k in range(rng.choice([1, 2])):
            ok = [x for x in ALL_STATUS if sector_status_ok(s.status_type, x)]
            if s.status_type == CANDIDATE:
                ok = [CANDIDATE]
            want = [x for x in ok if x == s.status_type]
            t.add_sector(Sector(s, k, 0, 90.0 * k,
                                rng.choice(want) if want and rng.random() < .8
                                else rng.choice(ok)))
    secs = {s.site_id: [x for x in t.sectors.values() if x.site is s]
            for s in sites}
    for i, a in enumerate(sites):
        for b in sites[i + 1:]:
            if rng.random() < .3:
                continue
            wired = rng.random() < .25
            ok = [x for x in ALL_STATUS
                  if link_status_ok(a.status_type, b.status_type, x)]
            if not ok:
                continue
            st = theme if theme in ok and rng.random() < .8 \
                else rng.choice(ok)
            both = rng.random() < .93
            give = rng.random() < .8 and not wired
            sa, sb = rng.choice(secs[a.site_id]), rng.choice(secs[b.site_id])
            first = True
            for p, q, x, y in ((a, b, sa, sb), (b, a, sb, sa)):
                if p.site_type == CN or (not first and not both):
                    continue
                t.add_link(Link(
                    p, q, x if give else None, y if give else None,
                    status_type=st if first or rng.random() < .95
                    else rng.choice(ok), is_wireless=not wired))
                first = False
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        o = rng.choice([rng.choice(sites), rng.choice(sites),
                        rng.choice(list(t.sectors.values()))])
        force(o, rng.choice([CANDIDATE, PROPOSED, UNREACHABLE]))
    if rng.random() < .2:
        # a site becomes unreachable with some of its sectors, and returns
        s = rng.choice(sites)
        was = s.status_type
        if was in (CANDIDATE, PROPOSED):
            s.status_type = UNREACHABLE
            for x in rng.sample(secs[s.site_id],
                                rng.randint(1, len(secs[s.site_id]))):
                force(x, UNREACHABLE)
            s.status_type = was
    why = coherent(t)
    inst = str([(s.site_id, s.site_type.name, s.status_type.name)
                for s in sites]) + str(
        [(l.link_id, l.link_type.name, l.status_type.name,
          l.tx_sector and l.tx_sector.status_type.name,
          l.rx_sector and l.rx_sector.status_type.name)
         for l in t.links.values()])
    if why is None:
        try:
            validate_topology_status(t)
        except PlannerException as e:
            ctx.violate("coherent-refused", f"{e} {inst}")
        ctx.check_that(True, "coherent-accepted", "")
        ctx.count("accepted")
        for l in t.links.values():
            if l.status_type in ACTIVE:
                ctx.count("wired in use" if not l.is_wireless else
                          "access in use" if l.rx_site.site_type == CN
                          else "backhaul in use")
    else:
        ctx.count(why)
        try:
            validate_topology_status(t)
        except TopologyException:
            ctx.check_that(True, "incoherent-refused", "")
        else:
            ctx.violate("incoherent-accepted:" + why.replace(" ", "-"), inst)
    ctx.nontrivial(why, inst[:200])


@check.part(quick=400, thorough=14000, share=.4,
            need={"wired": 50, "plain": 200, "with deviation": 200,
                  "pattern used": 100, "no sector": 20, "usable": 200,
                  "elevated": 50})
def capacities(ctx, rng):
    """Capacities follow the radio equations of the two devices."""
    t, devs = network(rng)
    setup_node_structure(t)
    if rng.random() < .5:          # turn sectors, as if placed by hand
        for s in t.sectors.values():
            s.ant_azimuth = (s.ant_azimuth + rng.uniform(-30, 30)) % 360
    for l in t.links.values():     # some links lost their sectors
        if l.is_wireless and rng.random() < .1:
            l.clear_sectors()
    eirp = rng.choice([None, rng.uniform(20, 50)])
    popc = rng.choice([10.0, 3.6])
    p = OptimizerParams(device_list=devs, maximum_eirp=eirp,
                        pop_capacity=popc)
    before = {k: (l.status_type, l.tx_sector, l.rx_sector, l.distance)
              for k, l in t.links.items()}
    for dev in (False, True):
        add_link_capacities(t, p, with_deviation=dev)
        for l in t.links.values():
            b = l.link_budget
            where = (f"{l.link_id} deviation={dev} eirp={eirp} "
                     f"distance={l.distance}")
            if not l.is_wireless:
                ctx.check_that(
                    b.mcs_level == 0 and b.capacity == popc and
                    b.rsl_dbm == b.snr_dbm == b.tx_power == -math.inf,
                    "wired-capacity", f"{b} {where}")
                ctx.count("wired")
                continue
            if l.tx_sector is None:
                ctx.check_that(b.mcs_level == 0 and b.capacity == 0 and
                               b.rsl_dbm == b.snr_dbm == b.tx_power ==
                               -math.inf, "capacity-without-sector",
                               f"{b} {where}")
                ctx.count("no sector")
                continue
            if dev and not usable_angles(l):
                continue
            tx = l.tx_site.device.sector_params
            rx = l.rx_site.device.sector_params
            flat = sphere_distance(l.tx_site.latitude, l.tx_site.longitude,
                                   l.rx_site.latitude, l.rx_site.longitude)
            up = l.rx_site.altitude - l.tx_site.altitude
            m = math.hypot(flat, up)
            el = math.degrees(math.atan2(up, flat))
            az = bearing(l.tx_site.latitude, l.tx_site.longitude,
                         l.rx_site.latitude, l.rx_site.longitude)
            if abs(el) > 5:
                ctx.count("elevated")

            def off(a, s):
                return (a - s.ant_azimuth + 180) % 360 - 180

            if dev:
                ng = rf.net_gain(
                    m, tx, tx.scan_pattern_data, rx, rx.scan_pattern_data,
                    off(az, l.tx_sector), off(az + 180, l.rx_sector), el,
                    0.0 if l.rx_site.site_type == CN else -el)
                if tx.scan_pattern_data:
                    ctx.count("pattern used")
            else:
                ng = rf.net_gain(m, tx, None, rx, None)
            power = rf.max_power(tx, eirp)
            noise = rf.noise(rx)
            got = [rf.allowed_class(power, ng, noise, rx.mcs_map,
                                    tx.minimum_tx_power, q)
                   for q in (-1e-6, 0, 1e-6)]
            fit = [c for c in got if b.mcs_level == (c.mcs if c else 0)]
            ctx.check_that(bool(fit), "mcs",
                           f"{b} expected {got} power={power} {where}")
            if fit:
                c = fit[0]
                ctx.close(b.capacity, (c.mbps if c else 0.0) / 1000,
                          "capacity", where, rel=1e-9)
                pw = power - (c.tx_backoff if c else 0)
                if tx.minimum_tx_power is not None:
                    pw = max(pw, tx.minimum_tx_power)
                if c is not None:
                    ctx.close(b.tx_power, pw, "tx-power", where,
                              abs_tol=1e-6)
                    ctx.close(b.rsl_dbm, pw + ng, "rsl", where, abs_tol=1e-5)
                    ctx.close(b.snr_dbm, pw + ng - noise, "snr", where,
                              abs_tol=1e-5)
                ctx.count("usable" if c else "unusable")
            ctx.count("with deviation" if dev else "plain")
    ctx.check_that({k: (l.status_type, l.tx_sector, l.rx_sector, l.distance)
                    for k, l in t.links.items()} == before,
                   "changed-links", str(before)[:500])
    ctx.nontrivial(len(t.sites), len(t.links), round(
        sum(l.distance for l in t.links.values()), 2), eirp is None)


def full(t):
    return (
        {k: (s.site_type, s.status_type, s.latitude, s.longitude, s.altitude,
             s.device.device_sku) for k, s in t.sites.items()},
        {k: (l.status_type, l.link_type, l.tx_sector and
             l.tx_sector.sector_id, l.rx_sector and l.rx_sector.sector_id,
             l.link_budget.mcs_level, l.capacity, l.tx_power, l.rsl_dbm)
         for k, l in t.links.items()},
        {k: (s.status_type, s.ant_azimuth, s.node_id, s.position_in_node)
         for k, s in t.sectors.items()},
        {k: (d.demand, d.num_sites, sorted(s.site_id for s in
                                           d.connected_sites))
         for k, d in t.demand_sites.items()})


@check.part(quick=120, thorough=5000, share=.2,
            need={"prepared": 10, "no demand": 1})
def whole_preparation(ctx, rng):
    """Preparing = sectors, capacities without deviation and demand."""
    t, devs = network(rng)
    kw = {}
    if rng.random() < .3:
        kw = dict(enable_uniform_demand=True, demand_spacing=150.0,
                  demand_connection_radius=200.0)
    p = OptimizerParams(device_list=devs, demand=rng.choice([.025, .1]),
                        pop_capacity=7.5, **kw)
    sites = full(t)[0]
    kinds = {k: (l.status_type, l.link_type) for k, l in t.links.items()}
    if not kw and not any(s.site_type == CN for s in t.sites.values()):
        ctx.expect_raises(OptimizerException, lambda:
                          prepare_topology_for_optimization(t, p),
                          "no-demand-accepted")
        ctx.count("no demand")
        return
    prepare_topology_for_optimization(t, p)
    once = full(t)
    ctx.check_that(once[0] == sites and {
        k: (l.status_type, l.link_type) for k, l in t.links.items()} == kinds,
        "changed-sites-or-statuses", str(sites))
    for l in t.links.values():
        ctx.check_that(not l.is_wireless or (l.tx_sector is None) ==
                       (l.tx_power == -math.inf), "capacity-not-computed",
                       l.link_id)
        ctx.check_that(l.is_wireless or l.capacity == 7.5, "wired-capacity",
                       l.link_id)
    caps = {k: (l.link_budget.mcs_level, l.capacity, l.tx_power)
            for k, l in t.links.items()}
    add_link_capacities(t, p, with_deviation=False)
    ctx.check_that(caps == {k: (l.link_budget.mcs_level, l.capacity,
                                l.tx_power) for k, l in t.links.items()},
                   "capacity-with-deviation", str(caps)[:1000])
    ctx.check_that(len(t.demand_sites) > 0, "no-demand-sites", str(sites))
    prepare_topology_for_optimization(t, p)
    ctx.check_that(full(t) == once, "second-time-differs",
                   lambda: str([(a, b) for a, b in zip(full(t), once)
                                if a != b])[:2000])
    ctx.count("prepared")
    ctx.nontrivial(len(t.sites), len(t.links), len(t.sectors),
                   len(t.demand_sites))


@check.part(quick=1500, thorough=20000, share=.1,
            need={"refused": 100, "fine": 100})
def required_inputs(ctx, rng):
    """A POP (or extra POPs) and something to serve are required."""
    sites = []
    for i in range(rng.randint(0, 4)):
        ty = rng.choice([DN, DN, POP, CN, CN])
        sites.append(make_site(ty, 5e5 + 50 * i, 1e5, cn_device()
                               if ty == CN else dn_device(),
                               rng.choice(ALL_STATUS), sid=f"s{i}"))
    t = Topology(sites=sites)
    extra = rng.choice([0, 0, 0, 1, 3])
    uni, man = rng.random() < .3, rng.random() < .3
    kw = dict(enable_uniform_demand=uni, enable_manual_demand=man,
              enable_cn_demand=rng.random() < .8 or not (uni or man))
    p = OptimizerParams(device_list=[dn_device()], demand_spacing=10.0,
                        number_of_extra_pops=extra,
                        demand_connection_radius=10.0, **kw)
    types = {s.site_type for s in sites}
    bad = (extra == 0 and POP not in types) or \
        (not uni and not man and CN not in types)
    if bad:
        ctx.expect_raises(OptimizerException, lambda: pre_opt_check(t, p),
                          "insufficient-input-accepted")
        ctx.count("refused")
    else:
        pre_opt_check(t, p)
        ctx.check_that(True, "fine", "")
        ctx.count("fine")
    ctx.nontrivial(sorted(x.name for x in types), extra, uni, man)


if __name__ == "__main__":
    check.run()
