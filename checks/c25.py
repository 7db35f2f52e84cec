"""C25: links chosen under interference obey every rule and are best."""
import itertools
import math

from ilp import *  # noqa
from nets import inst
from vmon import Check, Skip

from terragraph_planner.optimization.ilp_models.interference_optimization import (
    MinInterferenceNetwork,
)

check = Check(
    "C25",
    rule="links are chosen for random plans with random signal levels, "
         "interfering levels and angle rules; every constraint is re-checked "
         "from the inputs, SINR from the reported time shares, and the "
         "objective is bounded by every set of links without interference "
         "and with interference all the time",
    assumptions=[
        "scipy's HiGHS stands in for the commercial solver; it is told to "
        "solve to optimality",
        "networks of at most 7 sites, at most one POP or DN in use in each "
        "place",
        "no demand site wants more than the largest link capacity",
    ])

EPS = 1e-5


def lin(x):
    return 10 ** (x / 10) if x != -math.inf else 0.0


def noise(dev):
    return dev.sector_params.thermal_noise_power + \
        dev.sector_params.noise_figure


def rate(dev, sinr):
    """Throughput (Gbps) of the best class this SINR (dB) allows."""
    return max([r.mbps / 1000 for r in dev.sector_params.mcs_map
                if r.snr <= sinr], default=0.0)


def crossed(rng):
    """CNs in sight of several serving sites that use few sectors."""
    devs = {DN: dn_device(), CN: cn_device()}
    nb, nc = rng.choice([(2, 2), (2, 2), (2, 3), (3, 2), (3, 3)])
    at = {}

    def put(ty, sid):
        at[sid] = make_site(
            ty, 5e5 + rng.uniform(0, 600), 1e6 + rng.uniform(0, 600),
            devs[CN if ty == CN else DN], CANDIDATE, alt=0.0, sid=sid)
    for i in range(nb):
        put(POP if i == 0 or rng.random() < .7 else DN, f"b{i}")
    for i in range(nc):
        put(CN, f"k{i}")
    order = list(at.values())
    rng.shuffle(order)
    t = Topology(sites=order)
    secs = {}
    for s in order:
        k = 1 if s.site_type == CN else rng.choice([1, 1, 2])
        secs[s.site_id] = [Sector(s, j, 0, 100.0 * j, CANDIDATE)
                           for j in range(k)]
        for x in secs[s.site_id]:
            t.add_sector(x)

    def join(a, b, back):
        x, y = rng.choice(secs[a.site_id]), rng.choice(secs[b.site_id])
        for q, r, u, v in [(a, b, x, y)] + [(b, a, y, x)] * back:
            l = Link(q, r, u, v, status_type=CANDIDATE, is_wireless=True)
            l.mcs_level, l.capacity = 9, rng.choice([1.8, 1.8, 1.2, .6])
            t.add_link(l)
    base = [s for k, s in at.items() if k[0] == "b"]
    for a, b in itertools.combinations(base, 2):
        if b.site_type == DN or rng.random() < .3:
            join(a, b, 1)
    for a in base:
        for k in at.values():
            if k.site_type == CN and rng.random() < .9:
                join(a, k, 0)
    for i in range(nc):
        t.add_demand_site(DemandSite(
            GeoLocation(utm_x=5e5 + i, utm_y=1e6, utm_epsg=EPSG,
                        altitude=0.0), demand=rng.uniform(.3, 1.2),
            num_sites=1, connected_sites=[at[f"k{i}"]]))
    p = OptimizerParams(
        device_list=[devs[DN], devs[CN]], pop_capacity=10.0,
        oversubscription=1.0, maximize_common_bandwidth=rng.random() < .3)
    p.ignore_polarities = rng.random() < .4
    return t, p


def problem(ctx, rng, nmax=6, like=None):
    want = like and {k: list(d.connected_sites)
                     for k, d in like[0].demand_sites.items()}
    t, p, on = base_plan(
        ctx, rng, nmax, keen=rng.choice([.6, .9, 1]) if like is None else 1,
        cns=rng.choice([.8, .4]) if like is None else 1, like=like)
    top = max([l.capacity for l in t.links.values()] or [0])
    for d in t.demand_sites.values() if like is None else ():
        k = rng.choice([1, 1, 2])
        d.connected_sites = rng.sample(
            [t.sites[k] for k in sorted(on)] if rng.random() < .9
            else list(t.sites.values()), min(k, len(on)))
        if rng.random() < .4:
            d.demand = rng.uniform(.2, 1) * max(top, .1)
        if rng.random() < .3:
            d.demand = .02
    cn = [s for k, s in t.sites.items() if s.site_type == CN and k in on]
    for k in want or ():
        t.demand_sites[k].connected_sites = want[k]
    for d in t.demand_sites.values() if like is None else ():
        if cn and rng.random() < .5:
            d.connected_sites = [rng.choice(cn)]
    # a CN that stood where a DN now is
    if rng.random() < .3:
        for s in t.sites.values():
            if s.site_type == CN and s.status_type == CANDIDATE and any(
                    t.sites[k].site_type == DN and k in on and
                    t.sites[k].site_hash == s.site_hash for k in on):
                s._status_type = EXISTING
                for x in t.sectors.values():
                    if x.site is s:
                        x._status_type = EXISTING
                ctx.count("standing CN")
    scan = rng.choice([70.0, 180.0, 360.0])
    for s in t.sites.values():
        if s.site_type == CN:
            s.device.sector_params.horizontal_scan_range = scan
    rich = rng.choice([0, 4, 12])
    for l in t.links.values():
        if not l.is_wireless:
            continue
        dev = l.rx_site.device
        need = min([r.snr for r in dev.sector_params.mcs_map
                    if r.mbps / 1000 >= l.capacity - 1e-9], default=25.0)
        l.rsl_dbm = noise(dev) + need + rng.uniform(.05, .5) + rng.choice(
            [0, 0, rich])
        if rng.random() < .05:
            l.rsl_dbm = noise(dev) + rng.uniform(-5, 20)
    p.number_of_channels = rng.choice([1, 1, 1, 2, 3])
    p.dn_dn_sector_limit = rng.choice([1, 2, 2, 3])
    p.dn_total_sector_limit = rng.choice([1, 2, 4, 15])
    if rng.random() < .7:
        p.maximize_common_bandwidth = False
    jam = rng.choice([0, .5, 1, 1])
    if rng.random() < .3:
        p.ignore_polarities = True
    rsl = {}
    for l in t.links.values():
        if l.is_wireless and rng.random() < jam:
            rsl[(l.tx_site.site_id, l.rx_site.site_id)] = rng.choice([
                -math.inf, l.rsl_dbm - rng.uniform(0, 25),
                l.rsl_dbm - rng.uniform(0, 25),
                noise(l.rx_site.device) + rng.uniform(-10, 15)])
    pairs = {(l.tx_site.site_id, l.rx_site.site_id)
             for l in t.links.values() if l.is_wireless}
    angle = []
    share = rng.choice([0, .2, .5])
    for (i, j), (a, k) in itertools.combinations(sorted(pairs), 2):
        if i == a and rng.random() < share:
            angle.append((i, j, k))
    return t, p, on, rsl, angle


class World:
    """The problem as the planner's users would state it."""

    def __init__(self, t, p, on, rsl, angle):
        self.t, self.p, self.on, self.angle = t, p, on, angle
        self.ref = ref = Ref(t, p)
        self.dev = {k: s.device for k, s in t.sites.items()}
        links = {(l.tx_site.site_id, l.rx_site.site_id): l
                 for l in t.links.values()}
        self.links = links
        self.far = max([l.distance for l in t.links.values()] or [1.0]) or 1
        self.jam = {k: lin(v) for k, v in rsl.items()}
        self.own = {k: lin(l.rsl_dbm) for k, l in links.items()}
        self.wires = [e for e in ref.edges if e.wired and e.usable
                      and e.i in on and e.j in on]
        self.air = [e for e in ref.edges if not e.wired and e.usable
                    and e.i in on and e.j in on]
        # ways a signal comes, also where no link may be
        self.paths = [e for e in ref.edges if not e.wired and e.cap > 0
                      and e.ts is not None and e.rs is not None
                      and e.i in on and e.j in on]
        self.edge = {(e.i, e.j): e for e in ref.edges}
        self.forced = {(e.i, e.j) for e in self.air
                       if links[e.i, e.j].status_type == EXISTING}
        # the conditions on the polarity of the sites even of an existing
        # link that cannot carry anything
        self.pins = [(e.i, e.j) for e in ref.edges if not e.wired and e.dist
                     and links[e.i, e.j].status_type == EXISTING]

    def weight(self, e):
        l = self.links[e.i, e.j]
        return 1.0 if e.ts is None else 2 - l.distance / self.far

    def jammers(self, i, j):
        """Sector of a site whose signal reaches the end j of link i>j."""
        e = self.edge[i, j]
        cn = self.ref.kind[j] == CN
        scan = self.dev[j].sector_params.horizontal_scan_range
        for f in self.paths:
            if f.j != j or f.i == i:
                continue
            if not cn and f.rs != e.rs:
                continue
            if cn and scan < 360:
                a = self.links[i, j].rx_beam_azimuth
                b = self.links[f.i, j].rx_beam_azimuth
                d = abs((a - b + 180) % 360 - 180)
                if abs(d - scan / 2) < .02:
                    raise Skip("on the edge of the beam")
                if d >= scan / 2:
                    continue
            yield f

    def sinr(self, i, j, share, pol):
        """SINR (linear) at the end of a link, `share` per (site, sector)
        towards sites other than j."""
        bad = 0.0
        for f in self.jammers(i, j):
            if pol is not None and pol[f.i] != pol[i]:
                continue
            bad += self.jam.get((f.i, j), 0.0) * share(f)
        return self.own[i, j] / (lin(noise(self.dev[j])) + bad)

    # ---------------------------------------------------- sets of links
    def rules(self, A, loose=False):
        """May exactly the wireless links A be active in one channel?
        `loose`: the angle rules do not count, as if every sector could
        have any number of channels."""
        if not self.forced <= A:
            return False
        dn, all_ = {}, {}
        into = {}
        for i, j in A:
            e = self.edge[i, j]
            if self.ref.kind[j] == CN:
                into[j] = into.get(j, 0) + 1
            else:
                dn[i, e.ts] = dn.get((i, e.ts), 0) + 1
            all_[i, e.ts] = all_.get((i, e.ts), 0) + 1
        return all(v <= 1 for v in into.values()) and all(
            v <= self.p.dn_dn_sector_limit for v in dn.values()) and all(
            v <= self.p.dn_total_sector_limit for v in all_.values()) and \
            (loose or all(not ((i, j) in A and (i, k) in A) or
                (i, j) in self.forced and (i, k) in self.forced
                for i, j, k in self.angle))

    def colour(self, A):
        """Polarities of the sites given these links, None if impossible."""
        if self.p.ignore_polarities:
            return {}
        tied = {}
        for i, j in list(A) + self.pins:
            e = self.edge[i, j]
            if e.dist:
                tied.setdefault(i, set()).add(j)
                tied.setdefault(j, set()).add(i)
        pol = {}
        for k in self.ref.sites:
            if k in pol:
                continue
            pol[k], todo = 0, [k]
            while todo:
                u = todo.pop()
                for v in tied.get(u, ()):
                    if v not in pol:
                        pol[v] = 1 - pol[u]
                        todo.append(v)
                    elif pol[v] == pol[u]:
                        return None
        return pol

    def best_sets(self, loose=False):
        """All legal sets of links no legal set contains."""
        units = {}
        for e in self.air:
            units.setdefault(frozenset((e.i, e.j)), set()).add((e.i, e.j))
        units = list(units.values())
        if len(units) > 9:
            raise Skip("too many links")
        out = []
        for bits in sorted(itertools.product((0, 1), repeat=len(units)),
                           key=sum, reverse=True):
            A = frozenset(x for b, u in zip(bits, units) if b for x in u)
            if any(A < o for o in out) or not self.rules(A, loose) \
                    or self.colour(A) is None:
                continue
            out.append(A)
        return out

    def served(self, A, jammed, goal="shortage", conn=None):
        """Least shortage (largest common bandwidth) with the links A."""
        pol = self.colour(A) if not self.p.ignore_polarities else None
        es = []
        for e in self.air:
            if (e.i, e.j) in A:
                s = self.sinr(e.i, e.j, lambda f: any(
                    (f.i, q) in A and q != e.j and self.edge[
                        f.i, q].ts == f.ts for q in self.on)
                    if jammed else 0.0, pol)
                e.lim = min(e.cap, rate(
                    self.dev[e.j], 10 * math.log10(s) - 1e-7 if s else -99)
                    if jammed else rate(
                    self.dev[e.j], 10 * math.log10(s) + 1e-7 if s else -99))
                es.append(e)
        return self.ref._lp(self.on, es + self.wires, goal, conn)

    def gain(self, A):
        return sum(self.weight(self.edge[x]) for x in A)

    def value(self, A, jammed, conn=None):
        """The objective; with `conn` that of a common bandwidth."""
        if conn is None:
            return self.ref.total * self.served(A, jammed) - self.gain(A)
        return -self.ref.total * len(self.ref.demands) * self.served(
            A, jammed, "common", conn) - self.gain(A)

    def linked(self, A):
        es = [(e.i, e.j) for e in self.wires] + list(A)
        seen = reached({k for k in self.on if self.ref.kind[k] == POP}, es)
        return frozenset(k for k, _, c in self.ref.demands
                         if any(s in seen for s in c))


def show_all(t, p, rsl, angle):
    return "\n".join([
        show(t, p), f"channels={p.number_of_channels} dn_dn="
        f"{p.dn_dn_sector_limit} total={p.dn_total_sector_limit}",
        f"angle {angle}", f"jam {rsl}"] + [
        f"{k} rsl {l.rsl_dbm:.3f} {l.distance:.1f} m"
        for k, l in t.links.items()])


def tol(ref):
    return 2e-3 * (1 + ref.total)


@check.part(quick=4000, thorough=100000,
            need={"plans": 700, "bounded": 600, "channels": 60,
                  "jammed links": 40, "tight": 400, "rule binding": 300,
                  "common": 80})
def chosen(ctx, rng):
    """Every rule holds and no set of links would do better."""
    t, p, on, rsl, angle = problem(
        ctx, rng, like=crossed(rng) if rng.random() < .4 else None)
    top = max([l.capacity for l in t.links.values()] or [0])
    if any(d.demand / p.oversubscription > top
           for d in t.demand_sites.values()):
        raise Skip("demand above the largest link capacity")
    w = World(t, p, on, rsl, angle)
    ref = w.ref
    if not any(e.cap > 0 and e.j in [s for _, _, c in ref.demands
                                     for s in c] for e in ref.edges) or \
            not any(e.cap > 0 and ref.kind[e.i] == POP for e in ref.edges):
        raise Skip("nothing to serve")
    text = show_all(t, p, rsl, angle)
    before = inst(t), vars(p).copy(), dict(rsl), list(angle)
    common = p.maximize_common_bandwidth
    what = lambda x="": f"{x}\n{text}"  # noqa
    say = lambda x: (lambda: what(x))  # noqa
    net = MinInterferenceNetwork(t, p, angle, rsl)
    sol = net.solve()
    ctx.check_that((inst(t), vars(p), rsl, angle) == before,
                   "input-changed", what)
    ctx.nontrivial(text)
    sets = w.best_sets()
    loose = sets if p.number_of_channels == 1 else w.best_sets(True)
    conn = None
    if common:
        conn = frozenset(net.connected_demand_sites)
        sized = [w.linked(S) for S in sets]
        if sized:
            ctx.check_that(len(conn) >= max(map(len, sized)),
                           "connectable-demand-left-out",
                           say((sorted(conn), sized)))
            ctx.check_that(any(conn <= w.linked(S) for S in loose),
                           "demand-not-connectable", say(sorted(conn)))
    if sol is None:
        ctx.count("no plan")
        # nothing legal, or more links are worth more than traffic
        if sets:
            best = min(w.value(A, True) for A in sets)
            none = ref.total ** 2 - max(map(w.gain, loose))
            ctx.check_that(best >= none - tol(ref),
                           "no-plan-though-possible",
                           say(f"{best} against {none}"))
        if common and conn and sets:
            best = min(w.value(A, True, conn) for A in sets)
            ctx.check_that(best >= -max(map(w.gain, loose)) - tol(ref),
                           "no-common-plan-though-possible", say(best))
        return
    ctx.count("plans")
    ctx.sample({"network": text})
    # ------------------------------------------------------------ rules
    sites = {k for k, v in sol.site_decisions.items() if v == 1}
    A = {(e.i, e.j) for e in ref.edges if not e.wired
         and sol.link_decisions.get((e.i, e.j), 0) == 1}
    ctx.check_that(A <= {(e.i, e.j) for e in w.air}, "unusable-link",
                   say(A))
    ctx.check_that(sites <= on, "site-not-in-plan", say(sites - on))
    for e in ref.edges:
        if e.wired and e.cap > 0 and e.usable:
            got = sol.link_decisions.get((e.i, e.j), 0)
            ctx.check_that(got == int(e in w.wires), "wired-link",
                           say((e.i, e.j, got)))
    for i, j in A:
        ctx.check_that((j, i) in A or (j, i) not in w.edge
                       or not w.edge[j, i].usable, "one-way-link",
                       say((i, j)))
    ctx.check_that(w.forced <= A, "existing-link-dropped",
                   say(w.forced - A))
    pol = None
    if not p.ignore_polarities:
        odd = {k for k, v in sol.odd_site_decisions.items() if v == 1}
        even = {k for k, v in sol.even_site_decisions.items() if v == 1}
        for k in ref.sites:
            ctx.check_that(
                (k in odd) + (k in even) == int(
                    k in sites and ref.kind[k] in DIST),
                "polarity-of-active-sites", say(k))
        pol = {k: k in odd for k in ref.sites}
        for i, j in A:
            ctx.check_that(not w.edge[i, j].dist or pol[i] != pol[j],
                           "same-polarity-link", say((i, j)))
    for c in ref.sites:
        if ref.kind[c] == CN:
            ctx.check_that(sum(j == c for _, j in A) <= 1,
                           "two-links-into-CN", say(c))
    chan = {}
    busy = set()
    for i, j in A:
        e = w.edge[i, j]
        busy |= {(i, e.ts), (j, e.rs)}
    nodes = {(k, t.sectors[x].node_id) for k, x in busy}
    for x in t.sectors.values():
        key = (x.site.site_id, x.sector_id)
        use = (key[0], x.node_id) in nodes
        ctx.check_that(sol.sector_decisions.get(key, 0) == int(use),
                       "sector-decision", say(key))
        chan[key] = sol.channel_decisions.get(key, -1)
        ctx.check_that(chan[key] in range(p.number_of_channels)
                       if use else chan[key] == -1,
                       "channel-decision", say((key, chan[key])))
        ctx.count("idle sector of a node", use and key not in busy)
    ctx.count("channels", len(set(chan.values()) - {-1}) > 1)
    for i, j in A:
        e = w.edge[i, j]
        ctx.check_that(chan[i, e.ts] == chan[j, e.rs], "channels-differ",
                       say((i, j)))
    for k, sec in busy:
        if ref.kind[k] == CN:
            continue
        peers = [j for i, j in A if i == k and w.edge[i, j].ts == sec]
        nd = sum(ref.kind[j] != CN for j in peers)
        ctx.check_that(nd <= p.dn_dn_sector_limit
                       and len(peers) <= p.dn_total_sector_limit,
                       "too-many-links-in-sector", say((k, sec, peers)))
    for i, j, k in angle:
        if (i, j) in A and (i, k) in A and not {
                (i, j), (i, k)} <= w.forced:
            ctx.check_that(
                chan[i, w.edge[i, j].ts] != chan[i, w.edge[i, k].ts],
                "angle-rule", say((i, j, k)))
    touched = {k for x in A for k in x} | {
        k for e in w.wires for k in (e.i, e.j)} | {
        k for k in on for _, _, c in ref.demands if k in c}
    ctx.check_that(sites == on & touched, "sites-in-use",
                   say((sites, on & touched)))
    # ---------------------------------------------------------- traffic
    flow, tdm = sol.flow_decisions, sol.tdm_decisions
    share = {}
    for e in ref.edges:
        f, x = flow.get((e.i, e.j), 0.0), tdm.get((e.i, e.j), 0.0)
        ctx.check_that(f >= -EPS, "negative-flow", say((e.i, e.j, f)))
        if e.wired:
            ctx.check_that(f <= (e.cap if e in w.wires else 0) + EPS,
                           "over-capacity", say((e.i, e.j, f)))
            continue
        if (e.i, e.j) not in A:
            ctx.check_that(f <= 10 * EPS and x <= 1e-4,
                           "traffic-on-unused-link", say((e.i, e.j, f, x)))
            continue
        ctx.check_that(-EPS <= x <= 1 + EPS and f <= e.cap * x + EPS,
                       "over-time-share", say((e.i, e.j, f, x)))
        share[e.ts, "tx"] = share.get((e.ts, "tx"), 0) + x
        share[e.rs, "rx"] = share.get((e.rs, "rx"), 0) + x
    for k, v in share.items():
        ctx.check_that(v <= 1 + EPS, "sector-time", say((k, v)))
    for i, j in A:
        f = flow.get((i, j), 0.0)
        if f <= 10 * EPS:
            continue
        here = chan[i, w.edge[i, j].ts]

        def on_air(s, skip=j):
            if chan[s.i, s.ts] != here:
                return 0.0
            return sum(tdm.get((s.i, q), 0.0) for a, q in A if a == s.i
                       and q != skip and w.edge[a, q].ts == s.ts)
        s = w.sinr(i, j, on_air, pol)
        clean = w.sinr(i, j, lambda s: 0.0, pol)
        # the model bounds 1 / SINR, up to the solver's tolerance
        least = 1 / max(1 / s - 2e-5 * (1 + 1 / s), 1e-12)
        ctx.count("jammed links", s < clean * .99)
        ctx.check_that(
            f <= rate(w.dev[j], 10 * math.log10(least) + 1e-6) + EPS,
            "over-rate-of-SINR",
            say((i, j, f, 10 * math.log10(s), 10 * math.log10(clean))))
    check_flow(ctx, ref, flow, sol.shortage_decisions, "", say, EPS)
    # -------------------------------------------------------- objective
    short = sum(sol.shortage_decisions[k] for k, _, _ in ref.demands)
    gain = w.gain(A)
    least = -max(map(w.gain, loose)) if loose else 0.0
    if common:
        ctx.count("common")
        level = min([q - sol.shortage_decisions[k]
                     for k, q, _ in ref.demands if k in conn] or [0.0])
        if net.common_bandwidth is None:
            # only when links are worth more than any common bandwidth
            ctx.count("common given up")
            if sets and conn:
                ctx.check_that(
                    min(w.value(S, True, conn) for S in sets)
                    >= least - tol(ref), "common-bandwidth-given-up", what)
            conn = None
        else:
            ctx.count("common reached", level > 1e-3)
            ctx.check_that(
                -ref.total * len(ref.demands) * level - gain
                <= sol.objective_value + tol(ref), "common-level",
                say((level, sol.objective_value)))
    if conn is None:
        ctx.close(sol.objective_value, ref.total * short - gain,
                  "objective", what, rel=1e-5, abs_tol=1e-3)
    ctx.check_that(bool(loose), "plan-though-impossible", what)
    ideal = min(w.value(S, False, conn) for S in loose)
    ctx.check_that(sol.objective_value >= ideal - tol(ref),
                   "better-than-best", say((sol.objective_value, ideal)))
    if sets:
        worst = min(w.value(S, True, conn) for S in sets)
        ctx.count("bounded")
        ctx.count("tight", abs(ideal - worst) < tol(ref))
        ctx.check_that(
            sol.objective_value <= worst + tol(ref),
            "a-better-set-of-links", say((sol.objective_value, worst)))
    ctx.count("rule binding", len(A) < len(w.air))


if __name__ == "__main__":
    check.run()
