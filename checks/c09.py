"""C09 LOS computation: batching, parallelism and order never matter."""
import os
import time
from collections import Counter

import numpy as np
from shapely.geometry import Polygon

import gis
from vmon import Check
from tg import *  # noqa
from terragraph_planner.common.structs import CandidateLOS
from terragraph_planner.common.topology_models.site import LOSSite
from terragraph_planner.los import core
from terragraph_planner.los.core import compute_los
from terragraph_planner.los.cylindrical_los_validator import (
    CylindricalLOSValidator,
)
from terragraph_planner.los.ellipsoidal_los_validator import (
    EllipsoidalLOSValidator,
)

check = Check(
    "C09",
    rule="random site sets (with sites sharing a position) and candidate "
         "pairs, computed with 1 to 8 processes, small and default batches, "
         "shuffled lists and random delays in the workers; non-trivial = "
         "distinct (processes, batches, order of completion seen, links)",
    assumptions=["workers that are killed from outside are not modelled",
                 "limits are widened by at most 2.5 percent and 2.5 degrees"],
    workers=4,
)

DN_D, CN_D = dn_device(), cn_device()


class Patched:
    """Delays and failures inside the workers, and a log of what ran when."""

    def __init__(self, log=None, delay=0.0, seed=0, fail=None, batch=None):
        self.a = (log, delay, seed, fail, batch)

    def __enter__(self):
        log, delay, seed, fail, batch = self.a
        self.saved = [(c, c.compute_confidence) for c in (
            CylindricalLOSValidator, EllipsoidalLOSValidator)]
        self.batch = getattr(core, "BATCH_SIZE", None)
        if batch is not None and self.batch is not None:
            core.BATCH_SIZE = batch
        if log is None:
            return self

        def wrap(orig):
            def compute_confidence(self, p, q):
                k = (p.utm_x, p.utm_y, p.altitude, q.utm_x, q.utm_y,
                     q.altitude)
                h = hash((seed, min(k[:3], k[3:]), max(k[:3], k[3:])))
                if delay and h % 5 == 0:
                    time.sleep(delay * (h // 5 % 100) / 100)
                if fail is not None and fail in (k[:2], k[3:5]):
                    raise ValueError("injected")
                fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
                os.write(fd, f"{os.getpid()} {h}\n".encode())
                os.close(fd)
                return orig(self, p, q)
            return compute_confidence
        for c, f in self.saved:
            c.compute_confidence = wrap(f)
        return self

    def __exit__(self, *a):
        for c, f in self.saved:
            c.compute_confidence = f
        if self.batch is not None:
            core.BATCH_SIZE = self.batch


def scenario(rng, nmax=22):
    n = rng.randint(3, nmax)
    left, top, size = 500000.0, 4000000.0, 220.0
    sites, pos = [], []
    # many sites at few places, which differ in one thing only
    shared = rng.random() < .35
    only = rng.choice([None, "altitude", "location", "building"])
    surf = rng.random() < (.3 if shared else .8)
    nr = np.random.RandomState(rng.getrandbits(32))
    e = None
    if surf:
        m = nr.uniform(0, 4, (55, 55)).astype(np.float32)
        for _ in range(rng.randint(0, 60)):
            m[rng.randrange(55), rng.randrange(55)] += rng.uniform(5, 40)
        e = gis.elevation(m, left, top, 4.0, EPSG)
    for k in range(n):
        t = rng.choice([DN, DN, CN, POP])
        if pos and rng.random() < (.75 if shared else .25):
            x, y, z = rng.choice(pos)
            if only in (None, "altitude") and rng.random() < .3:
                z += 3.0
        else:
            x, y = left + rng.uniform(0, size), top - rng.uniform(0, size)
            z = rng.uniform(4, 40 if shared else 30)
            pos.append((x, y, z))
        loc = rng.choice([LocationType.UNKNOWN, LocationType.ROOFTOP,
                          LocationType.STREET_LEVEL])
        if shared and only in ("altitude", "building"):
            loc = LocationType.ROOFTOP
        bld = rng.choice([-1, 0, 1]) if loc == LocationType.ROOFTOP else None
        sites.append(make_site(t, x, y, CN_D if t == CN else DN_D, alt=z,
                               loc=loc, building=bld))
    zones = []
    if rng.random() < .3:
        zones.append(Polygon(gis.star(rng, left + 110, top - 110, 5, 30, 6)))
    lo, hi = rng.choice([(5, 1000), (20, 120), (1, 60)])
    args = dict(
        surface_elevation=e, exclusion_zones=zones, max_los_distance=hi,
        min_los_distance=lo, max_el_scan_angle=rng.choice([25.0, 65.0, 90.0]),
        los_confidence_threshold=rng.choice(
            [1.0, .6, 0.0, round(rng.random(), 3)]),
        use_ellipsoidal_los_model=rng.random() < .4,
        fresnel_radius=rng.choice([1.0, 4.0]),
        carrier_frequency=rng.choice([60000.0, 2400.0]))
    pairs = []
    for i in range(n):
        for j in range(i + 1, n):
            a, b = sites[i].site_type, sites[j].site_type
            if a == CN and b == CN or rng.random() < .1:
                continue
            if a == CN:
                pairs.append(CandidateLOS(j, i, False))
            elif b == CN:
                pairs.append(CandidateLOS(i, j, False))
            elif rng.random() < .5:
                pairs.append(CandidateLOS(j, i, True))
            else:
                pairs.append(CandidateLOS(i, j, True))
    return sites, pairs, args


def by_hand(sites, pairs, a):
    """{(tx, rx): (confidence at the limits, at wider limits)}"""
    def validator(w, deg):
        hi, lo = a["max_los_distance"] * (1 + w), \
            a["min_los_distance"] * (1 - w)
        el = min(90, a["max_el_scan_angle"] + deg)
        rest = (a["exclusion_zones"], a["los_confidence_threshold"])
        if a["use_ellipsoidal_los_model"]:
            return EllipsoidalLOSValidator(
                a["surface_elevation"], hi, lo, el, a["carrier_frequency"],
                *rest)
        return CylindricalLOSValidator(
            a["surface_elevation"], hi, lo, el, a["fresnel_radius"], *rest)
    strict, loose = validator(0, 0), validator(.025, 2.5)
    ls = [LOSSite(s.utm_x, s.utm_y, s.altitude, s.location_type.value,
                  s.building_id) for s in sites]
    out = {}
    for i, j, both in pairs:
        v = (strict.compute_confidence(ls[i], ls[j]),
             loose.compute_confidence(ls[i], ls[j]))
        out[(i, j)] = v
        if both:
            out[(j, i)] = v
    return out


def compare(ctx, links, want, tag):
    n = Counter((t, r) for t, r, _ in links)
    ctx.check_that(all(v == 1 for v in n.values()), f"{tag}-link-twice",
                   lambda: [k for k, v in n.items() if v > 1][:5])
    got = {(t, r): c for t, r, c in links}
    for k, c in got.items():
        if not ctx.check_that(k in want, f"{tag}-not-asked", k):
            continue
        ctx.close(c, want[k][1], f"{tag}-confidence", k, abs_tol=1e-6)
    for k, (s, w) in want.items():
        if s > 1e-6:
            ctx.check_that(k in got, f"{tag}-link-lost", lambda: (k, s))
        ctx.count("pairs")
    return got


def run(sites, pairs, args, procs):
    return compute_los(sites, pairs, num_processors=procs, **args)


def stamps(path):
    if not os.path.exists(path):
        return 0, ""
    lines = open(path).read().split("\n")[:-1]
    return len({x.split()[0] for x in lines}), str(hash(tuple(
        x.split()[1] for x in lines)))


@check.part(quick=110, thorough=2500, share=3,
            need={"pairs": 3000, "links": 500, "several_workers": 20})
def schedules(ctx, rng):
    sites, pairs, args = scenario(rng)
    want = by_hand(sites, pairs, args)
    ref = None
    for k in range(3):
        procs = rng.choice([1, 2, 3, 5, 8])
        batch = rng.choice([1, 3, 7, 20, 1000])
        log = os.path.join(ctx.scratch, f"log{k}")
        # shuffled sites and pairs
        perm = list(range(len(sites)))
        ps = list(pairs)
        if k:
            rng.shuffle(perm)
            rng.shuffle(ps)
        inv = {p: q for q, p in enumerate(perm)}
        ps = [CandidateLOS(inv[i], inv[j], f) for i, j, f in ps]
        with Patched(log, rng.choice([0, .01, .03]), rng.getrandbits(30),
                     batch=batch):
            links = run([sites[p] for p in perm], ps, args, procs)
        links = [(perm[t], perm[r], c) for t, r, c in links]
        got = compare(ctx, links, want, "schedule")
        workers, order = stamps(log)
        if workers > 1:
            ctx.count("several_workers")
        ctx.count("links", len(got))
        if ref is None:
            ref = got
        else:
            # both ends may be swapped in a pair, so confidences may differ
            # in the last digits
            ctx.check_that(
                ref.keys() == got.keys() and all(
                    abs(ref[q] - got[q]) < 1e-9 for q in ref),
                "schedule-dependent", lambda: (
                    set(ref) ^ set(got), procs, batch))
        ctx.nontrivial(procs, batch, order, len(got))
    ctx.sample({"sites": len(sites), "pairs": len(pairs), "links": len(ref)})


@check.part(quick=6, thorough=60, share=2, need={"pairs": 5000})
def default_batches(ctx, rng):
    """Enough pairs for several batches of the default size."""
    n = rng.randint(60, 80)
    sites = [make_site(DN, 5e5 + rng.uniform(0, 300), 4e6 + rng.uniform(
        0, 300), DN_D, alt=rng.uniform(0, 30)) for _ in range(n)]
    pairs = [CandidateLOS(i, j, True) for i in range(n)
             for j in range(i + 1, n)]
    args = dict(surface_elevation=None, exclusion_zones=[],
                max_los_distance=200, min_los_distance=10,
                max_el_scan_angle=25.0, los_confidence_threshold=1.0,
                use_ellipsoidal_los_model=False, fresnel_radius=1.0,
                carrier_frequency=60000.0)
    want = by_hand(sites, pairs, args)
    # exactly at a multiple of the batch size as well
    cut = rng.choice([len(pairs), 1000, 999, 1001, 2000])
    pairs = pairs[:cut]
    want = {k: v for k, v in want.items()
            if (min(k), max(k)) in {(a, b) for a, b, _ in pairs}}
    procs = rng.choice([2, 4, None, 64])
    compare(ctx, run(sites, pairs, args, procs), want, "batch")
    ctx.nontrivial(n, cut, procs)


@check.part(quick=12, thorough=200, need={"failed": 8})
def failures(ctx, rng):
    """An error in one worker is an error of the whole computation."""
    sites, pairs, args = scenario(rng)
    if not pairs:
        return
    i, j, _ = rng.choice(pairs)
    s = sites[i]
    with Patched(os.path.join(ctx.scratch, "log"), .005, rng.getrandbits(30),
                 fail=(s.utm_x, s.utm_y), batch=rng.choice([1, 5, 1000])):
        ctx.expect_raises(Exception, lambda: run(
            sites, pairs, args, rng.choice([1, 3])), "failure-hidden")
    ctx.count("failed")
    ctx.nontrivial(i, j, len(pairs))


@check.part(once=True)
def empty(ctx, rng):
    sites, pairs, args = scenario(rng)
    ctx.check_that(list(run(sites, [], args, 2)) == [], "links-from-nothing",
                   "")
    ctx.check_that(list(run([], [], args, 2)) == [], "links-from-nothing", "")


if __name__ == "__main__":
    check.run()
