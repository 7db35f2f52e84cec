"""
Runtime-monitoring harness shared by every check in /verif/checks.

A check is a module with parts. A part is a function `part(ctx, rng)` that
drives the real planner code once under one generated workload and reports to
ctx what its oracle saw. The harness runs the parts over forked workers, each
case with its own deterministic random stream, and turns what was observed into
a three-valued verdict:

  exit 0   held on everything observed (and enough was observed)
  exit 1   VIOLATION property=<id> replay=<path>
  exit 2   inconclusive: the deciding monitor was not reached often enough, or
           the harness itself failed
"""
import hashlib
import json
import logging
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
FINDINGS_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class HarnessError(Exception):
    """The check cannot do its work (never counted as a violation)."""


class Skip(Exception):
    """The generated case does not apply; it is counted, not judged."""


class Violated(Exception):
    def __init__(self, mechanism, detail):
        super().__init__(f"{mechanism}: {detail}")
        self.mechanism = mechanism
        self.detail = detail


class Part:
    def __init__(self, fn, name, quick, thorough, share, need, once):
        self.fn = fn
        self.name = name
        self.quick = quick
        self.thorough = thorough
        self.share = share
        self.need = need or {}
        self.once = once


class Check:
    def __init__(self, prop, rule, level="exploration", assumptions=(),
                 quick_s=40.0, thorough_s=600.0, workers=6):
        self.prop = prop
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.parts = []
        self.quick_s = quick_s
        self.thorough_s = thorough_s
        self.workers = workers

    def part(self, quick=100, thorough=2000, share=1.0, need=None, once=False,
             name=None):
        """
        quick/thorough: number of cases; share: share of the time budget;
        need: counters (and minimum values) that must be reached for a verdict;
        once: directed part, run exactly once.
        """
        def deco(fn):
            self.parts.append(
                Part(fn, name or fn.__name__, 1 if once else quick,
                     1 if once else thorough, share, need, once)
            )
            return fn
        return deco

    def run(self):
        sys.exit(_main(self))


class Ctx:
    """What a running case reports to."""

    def __init__(self, check, tier, part, case_seed, scratch):
        self.check = check
        self.tier = tier
        self.quick = tier == "quick"
        self.part = part
        self.case_seed = case_seed
        self.scratch = scratch
        self.counters = Counter()
        self.signatures = set()
        self.samples = []
        self.hung = False
        self.violations = []

    def scale(self, q, t):
        return q if self.quick else t

    def count(self, key, n=1):
        self.counters[key] += n

    def nontrivial(self, *sig):
        """Register the fingerprint of a non-trivial execution."""
        h = hashlib.blake2b(repr(sig).encode(), digest_size=8).digest()
        self.signatures.add(h)

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)

    def check_that(self, cond, mechanism, detail):
        """One evaluation of the oracle; `detail` may be a callable."""
        self.counters["oracle_evaluations"] += 1
        if not cond:
            self.violate(mechanism, detail() if callable(detail) else detail)
        return cond

    def close(self, got, want, mechanism, detail="", rel=1e-9, abs_tol=1e-9):
        self.counters["oracle_evaluations"] += 1
        try:
            if got is None or want is None:
                ok = got is want
            elif got == want:
                ok = True
            else:
                ok = abs(got - want) <= max(
                    rel * max(abs(got), abs(want)), abs_tol
                )
        except TypeError:
            ok = False
        if not ok:
            d = detail() if callable(detail) else detail
            self.violate(mechanism, f"got {got!r}, expected {want!r} {d}")
        return ok

    def violate(self, mechanism, detail):
        self.counters["violations_seen"] += 1
        if len(self.violations) < 20:
            self.violations.append((mechanism, str(detail)[:4000]))

    def expect_raises(self, exc, fn, mechanism, detail=""):
        self.counters["oracle_evaluations"] += 1
        try:
            out = fn()
        except exc as e:
            return e
        except Exception as e:  # noqa
            self.violate(
                mechanism, f"raised {type(e).__name__}: {e} instead of "
                f"{exc} {detail}")
            return None
        self.violate(mechanism, f"returned {out!r} instead of raising {detail}")
        return None


def _in_planner(tb, solver=False):
    """
    Is the innermost frame that is not library code inside the planner? What
    the stand-in of the solver refuses to do (a variable of another problem, an
    answer there is none of) counts for its caller.
    """
    frames = tb if isinstance(tb, list) else traceback.extract_tb(tb)
    for f in reversed(frames):
        fn = os.path.abspath(f.filename)
        if fn.startswith(os.path.join(REPO, "terragraph_planner")):
            return f
        if fn.startswith(VERIF) and not solver:
            return None
    return None


def _result_unusable(e):
    """
    Does the monitor fail over the values it observed (a missing key, text
    that is no number, None), as opposed to its own surroundings (a changed
    signature, a full disk)?
    """
    if isinstance(e, (KeyError, IndexError, ValueError, ZeroDivisionError,
                      StopIteration, SyntaxError)):
        return True
    return isinstance(e, (TypeError, AttributeError)) and \
        "NoneType" in str(e)


class Hung(BaseException):
    """A case has used far more processor time than any case needs."""


def _hung(*_):
    raise Hung


def _run_case(check, tier, part, case_seed, scratch_root):
    scratch = tempfile.mkdtemp(prefix="case-", dir=scratch_root)
    ctx = Ctx(check, tier, part, case_seed, scratch)
    rng = random.Random(case_seed)
    import numpy as np
    np.random.seed(rng.getrandbits(32))
    random.seed(rng.getrandbits(64))
    error = None
    # processor time: a busy machine does not make a case run out of it
    signal.signal(signal.SIGPROF, _hung)
    signal.setitimer(signal.ITIMER_PROF, 60 if tier == "quick" else 300, 10)
    try:
        try:
            part.fn(ctx, rng)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.counters["cases_judged"] += 1
    except Hung as e:
        ctx.hung = True
        frames = list(traceback.extract_tb(e.__traceback__))[:-1]
        frame = _in_planner(frames)
        if frame is not None:
            ctx.violate(f"{part.name}:no-end-in-{frame.name}",
                        "".join(traceback.format_list(frames[-5:])))
        else:
            error = f"{part.name}[{case_seed}]: a case does not end"
    except Skip as e:
        ctx.counters["cases_skipped"] += 1
        ctx.counters[f"skip:{e}"] += 1
    except Violated as e:
        ctx.violate(e.mechanism, e.detail)
    except HarnessError as e:
        error = f"{part.name}[{case_seed}]: {e}"
    except Exception as e:  # noqa
        frame = _in_planner(e.__traceback__,
                            type(e).__name__ == "SolverError")
        text = "".join(
            traceback.format_exception(type(e), e, e.__traceback__)[-6:]
        )
        if frame is not None:
            ctx.violate(
                f"{part.name}:unexpected-{type(e).__name__}-in-{frame.name}",
                text,
            )
        elif _result_unusable(e):
            # the monitor could not even make sense of what it was given
            ctx.violate(f"{part.name}:unusable-result-{type(e).__name__}",
                        text)
        else:
            error = f"{part.name}[{case_seed}]: harness failure\n{text}"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return ctx, error


def _case_seed(check, seed, part, i):
    return f"{check.prop}/{part.name}/{seed}/{i}"


def _worker(check, tier, seed, rank, nworkers, deadlines, scratch_root, wfd):
    counters, sigs = Counter(), {}
    out = {"counters": Counter(), "sigs": set(), "samples": {},
           "violations": [], "errors": [], "per_part": {}}
    # authoring aid: VERIF_FAILFAST=1 ends the run at the first violation
    stop = os.path.join(scratch_root, ".stop") \
        if os.environ.get("VERIF_FAILFAST") else None
    known = load_findings(check.prop)
    try:
        for p_i, part in enumerate(check.parts):
            n = part.quick if tier == "quick" else part.thorough
            pc = Counter()
            for i in range(n):
                if (i + p_i) % nworkers != rank:
                    continue
                if time.monotonic() > deadlines[p_i] and i >= nworkers:
                    pc["cases_cut_by_time"] += 1
                    continue
                if stop and os.path.exists(stop):
                    break
                cs = _case_seed(check, seed, part, i)
                ctx, err = _run_case(check, tier, part, cs, scratch_root)
                pc["cases"] += 1
                pc.update(ctx.counters)
                out["sigs"] |= ctx.signatures
                if ctx.samples and part.name not in out["samples"]:
                    out["samples"][part.name] = ctx.samples[0]
                for mech, det in ctx.violations:
                    if len(out["violations"]) < 400:
                        out["violations"].append((mech, det, part.name, cs))
                    if stop and mech not in known:
                        open(stop, "w").close()
                if err and len(out["errors"]) < 5:
                    out["errors"].append(err)
                if ctx.hung:
                    pc["hung"] += 1
                    break
            out["per_part"][part.name] = pc
            if pc["hung"]:
                break
    except BaseException as e:  # noqa
        out["errors"].append(
            "worker: " + "".join(traceback.format_exception(e)))
    data = pickle.dumps(out)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def load_findings(prop):
    """finding: property=<id> mechanism=<key> <text>"""
    found = {}
    if os.path.exists(FINDINGS_FILE):
        with open(FINDINGS_FILE) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                w = line.split()
                p = w[1].split("=", 1)[1]
                m = w[2].split("=", 1)[1]
                if p == prop:
                    found[m] = " ".join(w[3:])
    return found


def _quiet():
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def _main(check):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    args = sys.argv[1:]
    replay = None
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    if "--replay" in args:
        replay = args[args.index("--replay") + 1]
    nworkers = int(os.environ.get("VERIF_WORKERS", check.workers))
    _quiet()
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    scratch_root = tempfile.mkdtemp(prefix=f"verif-{check.prop}-")
    os.environ["TMPDIR"] = scratch_root
    tempfile.tempdir = scratch_root
    os.chdir(scratch_root)
    try:
        if replay:
            return _replay(check, replay, scratch_root)
        return _explore(check, tier, seed, nworkers, t0, ev_dir, scratch_root)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch_root, ignore_errors=True)


def _replay(check, path, scratch_root):
    with open(path) as f:
        rec = json.load(f)
    part = next(p for p in check.parts if p.name == rec["part"])
    ctx, err = _run_case(check, rec["tier"], part, rec["case_seed"],
                         scratch_root)
    if err:
        print(err)
        return 2
    for mech, det in ctx.violations:
        print(f"{mech}: {det}")
    if ctx.violations:
        print(f"VIOLATION property={check.prop} replay={path}")
        return 1
    print("no violation on replay")
    return 0


def _explore(check, tier, seed, nworkers, t0, ev_dir, scratch_root):
    budget = check.quick_s if tier == "quick" else check.thorough_s
    total_share = sum(p.share for p in check.parts)
    start = time.monotonic()
    deadlines, acc = [], 0.0
    for p in check.parts:
        acc += p.share
        deadlines.append(start + budget * acc / total_share)
    hard = start + budget * 1.5 + 120
    procs = []
    for rank in range(nworkers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                for _, rr in procs:
                    try:
                        os.close(rr)
                    except OSError:
                        pass
                _worker(check, tier, seed, rank, nworkers, deadlines,
                        scratch_root, w)
            except BaseException:  # noqa
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(w)
        procs.append((pid, r))
    bufs = {r: b"" for _, r in procs}
    open_fds = set(bufs)
    timed_out = False
    while open_fds:
        left = hard - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select(list(open_fds), [], [], min(left, 5))
        for r in ready:
            chunk = os.read(r, 1 << 20)
            if chunk:
                bufs[r] += chunk
            else:
                open_fds.discard(r)
    errors, violations = [], []
    per_part = {p.name: Counter() for p in check.parts}
    sigs, samples = set(), {}
    for pid, r in procs:
        if timed_out and r in open_fds:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
        os.close(r)
        try:
            out = pickle.loads(bufs[r])
        except Exception:  # noqa
            errors.append("a worker ended without a result "
                          "(watchdog: %s)" % timed_out)
            continue
        errors += out["errors"]
        violations += out["violations"]
        sigs |= out["sigs"]
        for k, v in out["per_part"].items():
            per_part[k].update(v)
        for k, v in out["samples"].items():
            samples.setdefault(k, v)

    # verdict ------------------------------------------------------------
    known = load_findings(check.prop)
    by_mech = {}
    for mech, det, part, cs in violations:
        by_mech.setdefault(mech, []).append((det, part, cs))
    new = {}
    seen_known = set()
    for mech in sorted(by_mech):
        if mech in known:
            seen_known.add(mech)
        else:
            new[mech] = by_mech[mech]
    for mech in sorted(seen_known):
        print(f"KNOWN-FINDING: property={check.prop} {known[mech]} "
              f"[{mech}; {len(by_mech[mech])} cases]")
    for f in os.listdir(ev_dir):
        if f.startswith(f"replay-{check.prop}-"):
            os.unlink(os.path.join(ev_dir, f))
    rc = 0
    for k, (mech, cases) in enumerate(sorted(new.items())):
        det, part, cs = cases[0]
        path = os.path.join(ev_dir, f"replay-{check.prop}-{k}.json")
        with open(path, "w") as f:
            json.dump({"property": check.prop, "part": part, "case_seed": cs,
                       "tier": tier, "mechanism": mech, "detail": det,
                       "cases": len(cases)}, f, indent=1)
        print(f"  {mech} ({len(cases)} cases): {det[:1500]}")
        print(f"VIOLATION property={check.prop} replay={path}")
        rc = 1
    inconclusive = list(errors)
    for p in check.parts:
        # A slow machine runs fewer cases in its time: ask for as many events
        # as go with the cases that were run, but not for none at all
        done = per_part[p.name]["cases"]
        share = done / max(1, done + per_part[p.name]["cases_cut_by_time"])
        for key, minimum in p.need.items():
            if share < 1:
                minimum = max(1 if minimum > 20 else 0,
                              int(minimum * share * .6))
            if per_part[p.name][key] < minimum:
                inconclusive.append(
                    f"{p.name}: monitor counter {key} is "
                    f"{per_part[p.name][key]} < {minimum}")
        if per_part[p.name]["cases"] == 0:
            inconclusive.append(f"{p.name}: no case was run")
    if inconclusive:
        for e in inconclusive[:6]:
            print("INCONCLUSIVE:", e)
        if rc == 0:
            rc = 2
    total = Counter()
    for c in per_part.values():
        total.update(c)
    wall = time.monotonic() - t0
    ev = {
        "property": check.prop,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": int(total["cases"]),
            "distinct_nontrivial": len(sigs),
            "rule": check.rule,
            "samples": [{"part": k, "case": _jsonable(v)}
                        for k, v in sorted(samples.items())] or ["none"],
            "oracle_evaluations": int(total["oracle_evaluations"]),
            "observed": {k: dict(sorted(v.items()))
                         for k, v in per_part.items()},
            "known_findings_observed": sorted(seen_known),
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 3),
        "violations": len(new),
    }
    with open(os.path.join(ev_dir, f"{check.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{check.prop} {tier} seed={seed}: {total['cases']} cases, "
          f"{total['oracle_evaluations']} oracle evaluations, "
          f"{len(sigs)} distinct non-trivial, {len(new)} violations, "
          f"{wall:.1f}s -> exit {rc}")
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in per_part.items():
            print(" ", k, dict(sorted(v.items())))
    return rc


def _jsonable(v):
    try:
        json.dumps(v)
        return v
    except Exception:  # noqa
        return repr(v)[:2000]
