"""
Small candidate networks and an exhaustive planner for them.

`Ref` reads a topology on its own and decides, by walking over site choices and
polarity assignments and solving a linear program for the traffic of each, what
a planner could achieve at best.
"""
import itertools

import numpy as np
from scipy.optimize import linprog

from tg import *  # noqa
from vmon import Skip

INACTIVE = {UNAVAILABLE, UNREACHABLE}
DIST = {DN, POP}


# ------------------------------------------------------------- generator
def status_pick(rng, theme):
    if theme == "plain":
        return CANDIDATE
    if theme == "built":
        return rng.choice([EXISTING] * 2 + [CANDIDATE] * 4 + [PROPOSED])
    return rng.choice([EXISTING, PROPOSED, UNAVAILABLE, UNREACHABLE]
                      + [CANDIDATE] * 6)


def candidate(rng, nmax=6, themes=("plain", "plain", "built", "mixed"),
              colocated=True, wired=.12, active=ACTIVE, pops=.15,
              caps=None):
    """A random candidate network with sectors, links and demand."""
    theme = rng.choice(themes)
    n = rng.randint(2, nmax)
    sites, at = [], {}
    devs = {
        DN: dn_device(capex=rng.choice([0.0, 250.0, rng.uniform(1, 900)])),
        CN: cn_device(capex=rng.choice([0.0, 150.0, rng.uniform(1, 400)]))}
    for i in range(n):
        if i == 0:
            ty = POP
        else:
            x = rng.random()
            ty = POP if x < pops else CN if x < pops + .3 else DN
        st = status_pick(rng, theme)
        if i == 0 and st in INACTIVE:
            st = CANDIDATE
        pos = (5e5 + rng.uniform(0, 900), 1e6 + rng.uniform(0, 900))
        if colocated and i and rng.random() < .15:
            k = rng.choice(list(at))
            pos = at[k]
        sid = f"{rng.choice('abcxyz')}{i}"
        at[sid] = pos
        sites.append(make_site(ty, *pos, devs[CN if ty == CN else DN], st,
                               alt=0.0, sid=sid))
    rng.shuffle(sites)
    t = Topology(sites=sites)
    secs = {}
    for s in sites:
        k = 1 if s.site_type == CN else rng.randint(1, 3)
        per = rng.choice([1, 1, 2])
        st = s.status_type
        secs[s.site_id] = [
            Sector(s, j // per, j % per, 100.0 * j, st) for j in range(k)]
        for x in secs[s.site_id]:
            t.add_sector(x)
    dense = rng.choice([.3, .5, .8, 1.0])
    wired = rng.choice([wired, wired, wired, .5])
    keen = rng.choice([.75, .75, .2])
    tree = {}
    for i in range(1, n):
        tree[frozenset((sites[i].site_id,
                        sites[rng.randrange(i)].site_id))] = 1
    if rng.random() < .2:
        tree = {}
    caps = caps or rng.choice([
        [1.8], [.3, .9, 1.8], [.1, .2, .4, 1.0, 1.8, 2.0], [0.0, .6, 1.2]])
    pairs = list(itertools.combinations(sites, 2))
    rng.shuffle(pairs)
    for a, b in pairs:
        if frozenset((a.site_id, b.site_id)) not in tree and \
                rng.random() > dense:
            continue
        if a.site_type == b.site_type == CN:
            continue
        same = at[a.site_id] == at[b.site_id]
        is_wired = CN not in (a.site_type, b.site_type) and (
            rng.random() < (.5 if same else wired))
        if same and not is_wired:
            continue
        ok = [x for x in ALL_STATUS
              if link_status_ok(a.status_type, b.status_type, x)
              and (x not in ACTIVE or x in active)]
        if not ok:
            continue
        st = CANDIDATE if CANDIDATE in ok and rng.random() < keen \
            else rng.choice(
                [x for x in ok if x in ACTIVE] or ok)
        x, y = rng.choice(secs[a.site_id]), rng.choice(secs[b.site_id])
        if is_wired or (st not in ACTIVE and rng.random() < .05):
            x = y = None
        cap = rng.choice(caps)
        if rng.random() < .25:
            cap *= rng.uniform(.5, 1)
        ends = [(a, b, x, y), (b, a, y, x)]
        rng.shuffle(ends)
        for p, q, u, v in ends:
            if p.site_type == CN:
                continue
            l = Link(p, q, u, v, status_type=st, is_wireless=not is_wired)
            l.mcs_level = 9
            l.capacity = rng.choice([10.0, 1.0, .5]) if is_wired else (
                cap if rng.random() < .8 else cap * rng.uniform(.6, 1.2))
            t.add_link(l)
    top = max([l.capacity for l in t.links.values()] + [0.0]) or .1
    ids = list(t.sites)
    unit = min(top, rng.choice([.025, .1, .3, .6, rng.uniform(.02, 1.0)]))
    nd = rng.randint(1, 4)
    for d in range(nd):
        k = rng.choice([1, 1, 1, 2, 3])
        t.add_demand_site(DemandSite(
            GeoLocation(utm_x=5e5 + d, utm_y=1e6, utm_epsg=EPSG,
                        altitude=0.0),
            demand=unit if rng.random() < .7 else unit * rng.uniform(.3, 1),
            num_sites=rng.choice([1, 1, 1, 2]),
            connected_sites=[
                t.sites[i] for i in rng.sample(ids, min(k, len(ids)))]))
    params = OptimizerParams(
        device_list=[devs[DN], devs[CN]],
        pop_site_capex=rng.choice([0.0, 1500.0, rng.uniform(1, 3000)]),
        dn_site_capex=rng.choice([0.0, 1500.0, rng.uniform(1, 3000)]),
        cn_site_capex=rng.choice([0.0, 1500.0, rng.uniform(1, 3000)]),
        pop_capacity=rng.choice([10.0, 10.0, 2.0, rng.uniform(.1, 2)]),
        oversubscription=rng.choice([1.0, 1.0, 2.0, rng.uniform(1, 20)]),
        always_active_pops=rng.random() < .5,
        maximize_common_bandwidth=rng.random() < .35,
        min_cost_rel_stop=-1, redundancy_rel_stop=-1)
    params.ignore_polarities = rng.random() < .1
    return t, params


def show(t, p):
    out = [f"pop_capacity={p.pop_capacity} over={p.oversubscription} "
           f"always_pops={p.always_active_pops} "
           f"common={p.maximize_common_bandwidth} "
           f"ignore_pol={p.ignore_polarities} budget={p.budget} capex="
           f"{p.pop_site_capex, p.dn_site_capex, p.cn_site_capex}"]
    for s in t.sites.values():
        out.append(f"site {s.site_id} {s.site_type.name} "
                   f"{s.status_type.name} {s.utm_x:.0f},{s.utm_y:.0f}")
    for l in t.links.values():
        out.append(
            f"link {l.tx_site.site_id}>{l.rx_site.site_id} "
            f"{l.status_type.name} {l.link_type.name} cap={l.capacity:.4g} "
            f"{l.tx_sector and l.tx_sector.sector_id} "
            f"{l.rx_sector and l.rx_sector.sector_id}")
    for k, d in t.demand_sites.items():
        out.append(f"demand {k} {d.demand:.4g} x{d.num_sites} at "
                   f"{[s.site_id for s in d.connected_sites]}")
    return "\n".join(out)


# ------------------------------------------------- a plan to start from
def usable_links(t):
    """Links that could carry traffic between POPs and DNs."""
    for l in t.links.values():
        a, b = l.tx_site, l.rx_site
        if l.status_type in INACTIVE or l.capacity <= 0 or \
                a.status_type in INACTIVE or b.status_type in INACTIVE or \
                not {a.site_type, b.site_type} <= DIST or \
                l.is_wireless and (l.tx_sector is None
                                   or l.rx_sector is None):
            continue
        yield l


def base_plan(ctx, rng, nmax, keen=.6, like=None, cns=.4):
    """A candidate network with a plan: sites in use with their links."""
    for _ in range(6):
        t, p = like or candidate(
            rng, nmax=nmax, themes=("plain",), wired=.05,
            pops=rng.choice([.05, .15, .3]),
            caps=rng.choice([None, [1.8], [.5, 1.8]]))
        if len(t.sites) >= rng.randint(2, nmax) and any(
                s.site_type == DN for s in t.sites.values()):
            break
    # give everybody a chance to be served
    for d in t.demand_sites.values():
        d.connected_sites = list(t.sites.values())
    for k, s in list(t.sites.items()):
        if s.site_type == CN and rng.random() > cns:
            t.remove_site(k)
            for d in t.demand_sites.values():
                d.connected_sites = [x for x in d.connected_sites
                                     if x.site_id != k]
    # some of the network stands already or is out of reach
    shut = rng.choice([0, 0, .1])
    for s in list(t.sites.values()):
        if rng.random() < shut:
            s._status_type = rng.choice([UNAVAILABLE, UNREACHABLE])
            for l in t.links.values():
                if s in (l.tx_site, l.rx_site):
                    l._status_type = s._status_type
            for x in t.sectors.values():
                if x.site is s:
                    x._status_type = s._status_type
    pol = {k: rng.random() < .5 for k, s in t.sites.items()
           if s.site_type in DIST}
    pairs = {(l.tx_site.site_id, l.rx_site.site_id): l
             for l in t.links.values()}
    if rng.random() < .3:
        for l in t.links.values():
            i, j = l.tx_site.site_id, l.rx_site.site_id
            if l.status_type == CANDIDATE and rng.random() < .1:
                l._status_type = UNAVAILABLE
                if (j, i) in pairs:
                    pairs[j, i]._status_type = UNAVAILABLE
    on, places = set(), set()
    place = {k: (s.longitude, s.latitude, s.altitude)
             for k, s in t.sites.items()}

    def use(k):
        on.add(k)
        places.add(place[k])

    pops = [k for k, s in t.sites.items() if s.site_type == POP
            and s.status_type not in INACTIVE]
    for k in pops:
        if (not on or rng.random() < .8) and place[k] not in places:
            use(k)
    if not on:
        raise Skip("no POP")
    open_ = list(usable_links(t))
    moved = True
    while moved:
        moved = False
        rng.shuffle(open_)
        for l in open_:
            i, j = l.tx_site.site_id, l.rx_site.site_id
            if i in on and j not in on and place[j] not in places \
                    and t.sites[j].site_type == DN and (
                        not l.is_wireless or p.ignore_polarities
                        or pol[i] != pol[j]) and rng.random() < keen:
                use(j)
                moved = True
        if rng.random() < .3:
            break
    for l in t.links.values():
        # one CN per serving site at most; never where another site stands
        i, j = l.tx_site.site_id, l.rx_site.site_id
        if l.rx_site.site_type == CN and i in on and j not in on and \
                l.status_type == CANDIDATE and l.capacity > 0 and \
                l.tx_sector is not None and place[j] not in places and \
                l.rx_site.status_type not in INACTIVE and rng.random() < .7:
            use(j)
    stand = rng.choice([0, 0, .3, 1])
    built = {k for k in on if rng.random() < stand}
    for k in on:
        t.sites[k]._status_type = EXISTING if k in built else PROPOSED
        if k in pol and not p.ignore_polarities:
            t.sites[k].polarity = PolarityType.ODD if pol[k] \
                else PolarityType.EVEN
    for x in t.sectors.values():
        if x.site.site_id in on:
            x._status_type = t.sites[x.site.site_id].status_type
            x.channel = 0
    for l in t.links.values():
        i, j = l.tx_site.site_id, l.rx_site.site_id
        if i in on and j in on and l.status_type == CANDIDATE and \
                l.capacity > 0 and (not l.is_wireless or (
                    l.tx_sector is not None and l.rx_sector is not None and (
                        j not in pol or i not in pol or p.ignore_polarities
                        or pol[i] != pol[j]))):
            both = i in built and j in built
            l._status_type = EXISTING if both and rng.random() < .8 \
                else PROPOSED
            if (j, i) in pairs:
                pairs[j, i]._status_type = l.status_type
    return t, p, on


def reached(sources, edges):
    seen, grow = set(sources), True
    while grow:
        grow = False
        for i, j in edges:
            if i in seen and j not in seen:
                seen.add(j)
                grow = True
    return seen


# ------------------------------------------------------------- reference
class Edge:
    __slots__ = ("i", "j", "cap", "wired", "ts", "rs", "usable", "active",
                 "dist", "lim")


class Ref:
    def __init__(self, t, p, banned=()):
        self.t, self.p = t, p
        self.sites = list(t.sites)
        self.kind = {k: s.site_type for k, s in t.sites.items()}
        self.status = {k: s.status_type for k, s in t.sites.items()}
        self.nodes = {k: set() for k in t.sites}
        self.node_cost = {}
        for s in t.sectors.values():
            self.nodes[s.site.site_id].add(s.node_id)
            self.node_cost[s.site.site_id] = s.node_capex
        price = {POP: p.pop_site_capex, DN: p.dn_site_capex,
                 CN: p.cn_site_capex}
        self.site_price = {k: 0.0 if self.status[k] == EXISTING
                           else price[self.kind[k]] for k in t.sites}
        self.node_price = {k: 0.0 if self.status[k] == EXISTING
                           else self.node_cost.get(k, 0.0) for k in t.sites}
        self.full = {k: self.site_price[k] + self.node_price[k]
                     * len(self.nodes[k]) for k in t.sites}
        self.edges = []
        for l in t.links.values():
            e = Edge()
            e.i, e.j = l.tx_site.site_id, l.rx_site.site_id
            e.cap = e.lim = l.capacity
            e.wired = not l.is_wireless
            e.ts = l.tx_sector and l.tx_sector.sector_id
            e.rs = l.rx_sector and l.rx_sector.sector_id
            e.usable = l.capacity > 0 and l.status_type not in INACTIVE \
                and (e.wired or (e.ts is not None and e.rs is not None))
            e.active = l.status_type in ACTIVE
            e.dist = self.kind[e.i] in DIST and self.kind[e.j] in DIST
            self.edges.append(e)
        self.banned = set(banned)
        self.demands = []
        for k, d in t.demand_sites.items():
            for c in range(d.num_sites):
                self.demands.append((
                    k if c == 0 else f"{k}_{c}",
                    d.demand / p.oversubscription,
                    [s.site_id for s in d.connected_sites]))
        self.total = sum(d for _, d, _ in self.demands)
        groups = {}
        for k, s in t.sites.items():
            groups.setdefault((s.longitude, s.latitude, s.altitude),
                              []).append(k)
        self.groups = [g for g in groups.values() if len(g) > 1]
        self.single = {k for g in groups.values() if len(g) == 1 for k in g}
        self.forced = {
            k for k in t.sites if self.status[k] in ACTIVE or (
                p.always_active_pops and self.kind[k] == POP
                and self.status[k] not in INACTIVE)}
        self._cache = {}

    # -------------------------------------------------- choices of sites
    def legal(self, S):
        """May exactly the sites S stand at once?"""
        S = set(S)
        if any(self.status[k] in INACTIVE for k in S):
            return False
        if any(k not in S for k in self.forced & self.single):
            return False
        for g in self.groups:
            on = [k for k in g if k in S]
            was = [k for k in g if k in self.forced]
            if not was:
                if len(on) > 1:
                    return False
                continue
            if len(on) != 1:
                return False
            k = on[0]
            types = {self.kind[x] for x in was}
            best = POP if POP in types else DN if DN in types else CN
            if best != CN and self.kind[k] != best:
                return False
            if self.kind[k] == best and k not in was:
                return False
        return True

    def choices(self):
        if "choices" not in self._cache:
            free = [k for k in self.sites if self.status[k] not in INACTIVE]
            out = []
            for r in range(len(free) + 1):
                for c in itertools.combinations(free, r):
                    if self.legal(c):
                        out.append(frozenset(c))
            self._cache["choices"] = out
        return self._cache["choices"]

    def cost(self, S):
        return sum(self.full[k] for k in S)

    def maximal(self, sets):
        sets = sorted(set(sets), key=len, reverse=True)
        out = []
        for s in sets:
            if not any(s < o for o in out):
                out.append(s)
        return out

    # ---------------------------------------------------- polarity choices
    def polarities(self, S=None):
        """Assignments of odd/even to the dist sites (up to swapping all)."""
        if self.p.ignore_polarities:
            yield None
            return
        d = [k for k in self.sites if self.kind[k] in DIST
             and self.status[k] not in INACTIVE]
        pins = [(e.i, e.j) for e in self.edges
                if e.active and not e.wired and e.dist]
        for bits in itertools.product((0, 1), repeat=max(len(d) - 1, 0)):
            pol = dict(zip(d, (0,) + bits))
            if all(pol.get(i) != pol.get(j) for i, j in pins):
                yield pol

    def open_edges(self, S, pol):
        return [e for e in self.edges
                if e.usable and (e.i, e.j) not in self.banned
                and e.i in S and e.j in S
                and (e.wired or not e.dist or pol is None
                     or pol[e.i] != pol[e.j])]

    # --------------------------------------------------------- traffic LP
    def lp(self, S, pol, goal, share=None, connected=None):
        """
        goal "shortage": least total shortage; "common": largest bandwidth
        every site of `connected` can have at once. None when infeasible.
        """
        es = self.open_edges(S, pol)
        key = (goal, frozenset((e.i, e.j) for e in es), frozenset(S),
               connected and frozenset(connected))
        if key in self._cache:
            return self._cache[key]
        self._cache[key] = out = self._lp(S, es, goal, connected)
        return out

    def _lp(self, S, es, goal, connected):
        m = len(es)
        taps = [(s, d) for d, (_, _, c) in enumerate(self.demands)
                for s in dict.fromkeys(c) if s in S]
        pops = [k for k in S if self.kind[k] == POP]
        nd = len(self.demands)
        n = m + len(taps) + len(pops) + 1
        A, b = [], []
        Ae, be = [], []
        share = {}
        for x, e in enumerate(es):
            if e.wired:
                continue
            share.setdefault((e.ts, "tx"), []).append((x, e.cap))
            share.setdefault((e.rs, "rx"), []).append((x, e.cap))
        for v in share.values():
            row = np.zeros(n)
            for x, c in v:
                row[x] += 1 / c
            A.append(row)
            b.append(1)
        for k in S:
            row = np.zeros(n)
            out = np.zeros(n)
            for x, e in enumerate(es):
                if e.j == k:
                    row[x] += 1
                if e.i == k:
                    row[x] -= 1
                    out[x] += 1
            for x, (s, _) in enumerate(taps):
                if s == k:
                    row[m + x] -= 1
                    out[m + x] += 1
            for x, q in enumerate(pops):
                if q == k:
                    row[m + len(taps) + x] += 1
            Ae.append(row)
            be.append(0)
            if self.kind[k] == POP:
                A.append(out)
                b.append(self.p.pop_capacity)
        obj = np.zeros(n)
        for d, (name, want, _) in enumerate(self.demands):
            row = np.zeros(n)
            for x, (_, q) in enumerate(taps):
                if q == d:
                    row[m + x] += 1
            A.append(row)
            b.append(want)
            if goal == "common" and name in connected:
                r2 = -row
                r2[-1] = 1
                A.append(r2)
                b.append(0)
            if goal == "shortage":
                obj -= row
        if goal == "common":
            obj[-1] = -1
        bounds = [(0, e.lim) for e in es] + [(0, None)] * len(taps) + \
            [(0, self.p.pop_capacity)] * len(pops) + \
            [(0, min([w for k, w, _ in self.demands
                      if goal == "common" and k in connected] or [0]))]
        r = linprog(obj, A_ub=np.array(A) if A else None, b_ub=b or None,
                    A_eq=np.array(Ae) if Ae else None, b_eq=be or None,
                    bounds=bounds, method="highs")
        if r.status != 0:
            raise RuntimeError(f"reference LP: {r.message}")
        if goal == "shortage":
            return self.total + r.fun
        return -r.fun

    def best(self, S, goal, connected=None, stop=None):
        """Best value of the goal over all polarity assignments."""
        out = None
        for pol in self.polarities():
            v = self.lp(S, pol, goal, connected=connected)
            if out is None or (v < out if goal == "shortage" else v > out):
                out = v
            if stop is not None and out is not None and stop(out):
                break
        return out

    # ----------------------------------------------- connectable demand
    def connectable(self):
        """The largest sets of demand sites some assignment can connect."""
        S = {k for k in self.sites if self.status[k] not in INACTIVE}
        for g in self.groups:
            # sites that must stand keep the others of their place out
            was = [k for k in g if k in self.forced]
            if not was:
                continue
            types = {self.kind[x] for x in was}
            best = POP if POP in types else DN if DN in types else CN
            for k in g:
                if k in was:
                    # a lower active type next to a higher one is out as well
                    if best != CN and self.kind[k] != best:
                        S.discard(k)
                elif best == CN:
                    if self.kind[k] == CN:
                        S.discard(k)
                else:
                    S.discard(k)
        sets = []
        for pol in self.polarities():
            seen = {k for k in S if self.kind[k] == POP}
            es = self.open_edges(S, pol)
            grow = True
            while grow:
                grow = False
                for e in es:
                    if e.i in seen and e.j not in seen:
                        seen.add(e.j)
                        grow = True
            sets.append(frozenset(
                k for k, _, c in self.demands if any(s in seen for s in c)))
        if not sets:
            return []
        top = max(len(s) for s in sets)
        return list({s for s in sets if len(s) == top})


# ------------------------------------------------- checking a whole plan
def check_plan(ctx, ref, sol, pre, what, eps=1e-5):
    """Every planning constraint of a site plan, straight from the inputs."""
    t, p = ref.t, ref.p
    say = lambda s: (lambda: f"{s}\n{what()}")  # noqa
    on = {k for k, v in sol.site_decisions.items() if v == 1}
    ctx.check_that(
        set(sol.site_decisions) == set(ref.sites)
        and set(sol.site_decisions.values()) <= {0, 1},
        pre + "sites-decided", say(f"{sol.site_decisions}"))
    for k in on:
        ctx.check_that(ref.status[k] not in INACTIVE,
                       pre + "inactive-site-used", say(k))
    for g in ref.groups:
        ctx.check_that(len([k for k in g if k in on]) <= 1,
                       pre + "two-sites-in-one-place", say(f"{g} {on}"))
        was = [k for k in g if k in ref.forced]
        types = {ref.kind[x] for x in was}
        best = POP if POP in types else DN if DN in types else CN
        for k in g:
            if k in on and was:
                ctx.check_that(
                    k in was and ref.kind[k] == best
                    or best == CN and ref.kind[k] != CN,
                    pre + "colocated-exchange", say(f"{k} for {was}"))
    odd = {k for k, v in sol.odd_site_decisions.items() if v == 1}
    even = {k for k, v in sol.even_site_decisions.items() if v == 1}
    pol = None
    if not p.ignore_polarities:
        for k in ref.sites:
            want = k in on and ref.kind[k] in DIST
            ctx.check_that((k in odd) + (k in even) == want,
                           pre + "polarity-of-active-sites",
                           say(f"{k} odd={k in odd} even={k in even} "
                               f"on={k in on}"))
        pol = {k: k in odd for k in on}
    # links
    flow, tdm = sol.flow_decisions, sol.tdm_decisions
    fl = lambda i, j: flow.get((i, j), 0.0)  # noqa
    used_sec = set()
    busy = set()
    for e in ref.edges:
        f = fl(e.i, e.j)
        lk = sol.link_decisions.get((e.i, e.j), 0)
        can = e.usable and e.i in on and e.j in on and (
            e.wired or not e.dist or pol is None or pol[e.i] != pol[e.j]
            or e.active)
        ctx.check_that(lk == (1 if can else 0), pre + "link-decision",
                       say(f"{e.i}>{e.j} decided {lk}, can carry: {can}"))
        if lk == 1:
            busy |= {e.i, e.j}
            if not e.wired:
                used_sec |= {e.ts, e.rs}
                if e.dist and pol is not None:
                    ctx.check_that(pol[e.i] != pol[e.j],
                                   pre + "same-polarity-link",
                                   say(f"{e.i}>{e.j}"))
        ctx.check_that(f >= -eps, pre + "negative-flow", say(f"{e.i}>{e.j} {f}"))
        if f > 10 * eps:
            ctx.count("loaded_links")
            ctx.check_that(lk == 1, pre + "traffic-on-unused-link",
                           say(f"{e.i}>{e.j} {f}"))
            ctx.check_that((e.i, e.j) not in ref.banned,
                           pre + "traffic-on-adversarial-link",
                           say(f"{e.i}>{e.j} {f}"))
        ctx.check_that(f <= e.cap + eps if e.usable else f <= eps,
                       pre + "over-capacity", say(f"{e.i}>{e.j} {f} {e.cap}"))
        if not e.wired:
            x = tdm.get((e.i, e.j), 0.0)
            ctx.check_that(-eps <= x <= 1 + eps and f <= e.cap * x + eps,
                           pre + "over-time-share",
                           say(f"{e.i}>{e.j} {f} {e.cap} {x}"))
    share = {}
    for e in ref.edges:
        if e.wired or e.ts is None:
            continue
        x = tdm.get((e.i, e.j), 0.0)
        share[(e.ts, "tx")] = share.get((e.ts, "tx"), 0) + x
        share[(e.rs, "rx")] = share.get((e.rs, "rx"), 0) + x
    for k, v in share.items():
        ctx.check_that(v <= 1 + eps, pre + "sector-time", say(f"{k} {v}"))
    for k in on:
        taps = any(k in c for _, _, c in ref.demands)
        ctx.check_that(k in busy or taps, pre + "idle-site-active", say(k))
    # sectors: the nodes of the used ones
    nodes = {(s.site.site_id, s.node_id) for s in t.sectors.values()
             if s.sector_id in used_sec}
    for s in t.sectors.values():
        want = (s.site.site_id, s.node_id) in nodes
        got = sol.sector_decisions.get((s.site.site_id, s.sector_id), 0)
        ctx.check_that(got == want, pre + "sector-decision",
                       say(f"{s.sector_id} {got} want {want}"))
    # conservation
    check_flow(ctx, ref, flow, sol.shortage_decisions, pre, say, eps)
    # price
    cost = sum(ref.site_price[k] for k in on) + sum(
        ref.node_price[k] for k, _ in nodes)
    ctx.close(sol.cost, cost, pre + "cost", say("")(), rel=1e-6, abs_tol=1e-3)
    return on, nodes


def check_flow(ctx, ref, flow, shortage, pre, say, eps):
    p = ref.p
    inn, out = {}, {}
    for (i, j), f in flow.items():
        out[i] = out.get(i, 0.0) + f
        inn[j] = inn.get(j, 0.0) + f
    for k in ref.sites:
        ctx.check_that(abs(inn.get(k, 0) - out.get(k, 0)) <= 5 * eps,
                       pre + "flow-conservation",
                       say(f"{k} in {inn.get(k, 0)} out {out.get(k, 0)}"))
        if ref.kind[k] == POP:
            ctx.check_that(out.get(k, 0) <= p.pop_capacity + eps,
                           pre + "pop-capacity", say(f"{k} {out.get(k)}"))
    for k, want, conn in ref.demands:
        got = inn.get(k, 0.0)
        if shortage is not None:
            sh = shortage[k]
            ctx.check_that(-eps <= sh <= want + eps, pre + "shortage-range",
                           say(f"{k} {sh} of {want}"))
            ctx.check_that(abs(got - (want - sh)) <= 5 * eps,
                           pre + "demand-balance",
                           say(f"{k} gets {got} wants {want} short {sh}"))
        for (i, j), f in flow.items():
            if j == k and f > eps:
                ctx.check_that(i in conn, pre + "demand-from-elsewhere",
                               say(f"{i}>{k}"))
    # no circulation
    nxt = {}
    for (i, j), f in flow.items():
        if f > 2 * eps:
            nxt.setdefault(i, []).append(j)
    state = {}

    def dfs(u):
        state[u] = 1
        for v in nxt.get(u, []):
            if state.get(v) == 1 or (v not in state and dfs(v)):
                return True
        state[u] = 2
        return False
    ctx.check_that(not any(u not in state and dfs(u) for u in list(nxt)),
                   pre + "circulating-flow", say(f"{flow}"))
