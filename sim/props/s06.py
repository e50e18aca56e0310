"""S06: whole-series reductions take frames as they come."""
import math

import numpy as np

from .. import pristine, threads
from ..core import dig, fingerprint, shrink_choice, shrink_int, shrink_list, shrink_schedule, terse
from . import streamlib as L
from .callers import Callers
from .t01 import norm, same

RUNS = {"quick": 5000, "thorough": 300000}
BUDGET = {"quick": 100, "thorough": 600}
HANG_S = 180
RULE = ("a run = one to three caller threads, parked at every line of library code, reducing shared image series (one-time and two-time correlation, speckle visibility, brightest pixel, mean intensity, kymograph) "
        "that arrive as arrays, lists, generators, marked streams or frames in recycled memory, from sources that fail at a chosen delivery and callers that are interrupted at a chosen line, each failed "
        "call being repeated; answers are compared with the definitions (speckle visibility: with a fresh process given plain arrays); non-trivial if at least one series was delivered lazily")
MEASURE = "distinct (reductions, deliveries, faults, thread interleaving) tuples"
REAL = ["skbeam/core/correlation.py:multi_tau_auto_corr, two_time_corr", "skbeam/core/speckle.py:xsvs", "skbeam/core/roi.py:roi_max_counts, kymograph, mean_intensity", "skbeam/core/mask.py:bad_to_nan_gen"]
STUB = ["frame sources", "thread scheduler"]
TIME_UNIT = "scheduling points"
KINDS = ["one", "two", "xsvs", "xsvs", "max", "kymo", "mean"]


def setup():
    threads.install()
    import skbeam.core.correlation as corr
    import skbeam.core.mask as mask
    import skbeam.core.roi as roi
    import skbeam.core.speckle as speckle

    return {"corr": corr, "mask": mask, "roi": roi, "speckle": speckle, "ref": pristine.Pristine(reference)}


def gen(rng, tier):
    sts = []
    for _ in range(rng.choice([1, 1, 2])):
        st = L.gen_stream(rng, tier, maxlen=16)
        st["n"] = min(st["n"], 24)
        st["levels"], st["bufs"] = min(st["levels"], 3), min(st["bufs"], 4)
        st["out_nan"] = False
        if sts and rng.random() < 0.5:  # much like the first series
            st = similar(sts[0], rng.choice([1, 2, 3]))
        sts.append(st)
    ts = []
    nt = rng.choice([1, 1, 2, 3])
    for t in range(nt + 1):  # the last ones come after the threads
        jobs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randrange(len(sts))
            n = sts[k]["n"]
            kind = rng.choice(KINDS)
            jobs.append({"kind": kind, "st": k, "how": rng.choice(["array", "list", "source", "source", "recycled", "marked"]),
                         "bad": sorted({rng.randrange(n) for _ in range(rng.choice([0, 0, 1, 2]))}) if kind in ("one", "xsvs") else [],
                         "sets": rng.choice([1, 1, 2, 3]), "outer": rng.choice(["list", "tuple", "gen"]), "tb": rng.choice([2, 2, 3]), "nimg": rng.choice([1, 2, 3, 4, 8, 12]),
                         "max": rng.choice([None, 13, 13, 20]), "roi": rng.randrange(3), "spare": rng.choice([0, 0, 2]),
                         "fail": rng.randrange(n * 2) if rng.random() < 0.25 else None, "cut": rng.randint(1, 150) if rng.random() < 0.12 else None})
            if sts[k].get("vals") == "large" and jobs[-1]["max"] is None and kind == "xsvs":  # long histograms
                jobs[-1].update(sets=rng.choice([1, 2]), nimg=rng.choice([1, 2, 3] if n < 9 else [1]), max=rng.choice([None, 13]))
            if kind == "mean":  # reads the first image before it goes through them
                jobs[-1]["how"] = rng.choice(["array", "list", "stack"])
        ts.append(jobs)
    last = [dict(j, fail=None, cut=None) for j in ts.pop()]
    return {"streams": sts, "threads": ts, "after": last, "swap": rng.choice([0, 1, 2, 3]), "sched": dict(threads.gen_sched(rng), op=rng.random() < 0.1)}


def similar(st, how):
    """Other frames (1), another map of the same regions (2), or both (3)."""
    st = dict(st)
    if how & 1:
        st["seed"] ^= 1
    if how & 2:
        st["labels"] = [r[::-1] for r in st["labels"][::-1]]
    return st


def frames_of(st):
    st = dict(st)
    return L.make_frames(st)


def job_frames(job, frames, lab):
    """The series the job reduces -> list of sets of frames, bad frames as they are to be taken"""
    sets = []
    m = job["sets"] if job["kind"] in ("xsvs", "max") else 1
    for s in range(m):
        fr = frames[s:] + frames[:s]
        sets.append([np.full(lab.shape, np.nan) if k in job["bad"] and s == 0 else f for k, f in enumerate(fr)])
    return sets


def xsvs_args(job, sets):
    mc = job["max"]
    return {"number_of_img": job["nimg"], "timebin_num": job["tb"], "max_cts": mc}


def reference(spec):
    """Speckle visibility of plain arrays, first call in a fresh process."""
    import skbeam.core.speckle as speckle

    job, st = spec
    frames, lab = frames_of(st)
    sets = [[np.asarray(f, dtype=float) for f in s] for s in job_frames(job, frames, lab)]
    with np.errstate(all="ignore"):
        return norm(speckle.xsvs([np.array(s) for s in sets], lab, **xsvs_args(job, sets)))


class Series:
    """Delivers frames one by one, once."""

    def __init__(self, frames, how, budget):
        self.src = L.Source(frames, 0, how == "recycled")
        self.budget = budget  # shared by all the sets of a call: deliveries left until the source fails
        self.taken = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.src.reclaim()
        if self.src.pos < len(self.src.frames) and self.budget[0] is not None:
            if self.budget[0] == 0:
                self.budget[0] = -1
                raise self.budget[1]
            self.budget[0] -= 1
        f = next(self.src)
        self.taken += 1
        return f


def deliver(ctx, job, given, sets, budget, made):
    """One set of frames in the form the job asks for."""
    out = []
    for raw, s in zip(given, sets):
        if job["how"] == "array":
            out.append(np.array([np.asarray(f, dtype=float) for f in s]))
        elif job["how"] == "stack":
            out.append(np.array(s))
        elif job["how"] == "list":
            out.append(list(s))
        elif job["how"] == "marked":
            x = Series(raw, "source", budget)
            made.append(x)
            first = s is sets[0]
            out.append(ctx["mask"].bad_to_nan_gen(x, list(job["bad"]) if first else []))
        else:
            x = Series(s, job["how"], budget)
            made.append(x)
            out.append(x)
    return out


class Cut(KeyboardInterrupt):
    pass


def call(ctx, job, st, lab, series, outer):
    k = job["kind"]
    if k == "one":
        return ctx["corr"].multi_tau_auto_corr(st["levels"], st["bufs"], lab, series[0])
    if k == "two":
        return ctx["corr"].two_time_corr(lab, series[0], st["n"] + job["spare"], st["bufs"], **terse(job["tb"] == 2, {"num_levels": st["levels"]}, num_levels=1))
    if k == "kymo":
        ids = np.unique(lab[lab > 0])
        return ctx["roi"].kymograph(series[0], lab, int(ids[job["roi"] % len(ids)]))
    if k == "mean":
        ids = np.unique(lab[lab > 0])
        i = {"list": None, "tuple": [int(x) for x in ids[::-1]], "gen": int(ids[job["roi"] % len(ids)])}[outer]
        return ctx["roi"].mean_intensity(series[0], lab, **terse(job["tb"] == 2, {"index": i}, index=None))
    s = {"list": list, "tuple": tuple, "gen": iter}[outer](series)
    if k == "max":
        return ctx["roi"].roi_max_counts(s, lab)
    return ctx["speckle"].xsvs(s, lab, **terse(job["roi"], xsvs_args(job, None), timebin_num=2, max_cts=None))


def brightest(sets, lab):
    return max([0.0] + [float(np.nan_to_num(np.asarray(f, dtype=float)[lab > 0]).max()) for s in sets for f in s])


def limit(job, frames, lab):
    """Without two counts to tell apart there is no histogram."""
    if job["kind"] == "xsvs" and job["max"] is None and brightest(job_frames(job, frames, lab), lab) < 2:
        return dict(job, max=13)
    return job


def xsvs_model(job, sets, lab):
    """Speckle visibility as the library defines it, every set on its own -> mean, standard deviation [level][region]"""
    if job["max"] is None:
        job = dict(job, max=brightest(sets, lab))
    ids = np.unique(lab[lab > 0])
    times, t = 1, job["tb"]
    while t < job["nimg"]:
        times, t = times + 1, t * job["tb"]
    zero = [[np.zeros(max(0, len(np.arange(job["max"] * 2**l)) - 1)) for _ in ids] for l in range(times)]
    tot, tot2 = [[x.copy() for x in r] for r in zero], [[x.copy() for x in r] for r in zero]
    for i, s in enumerate(sets):
        s = [np.asarray(f, dtype=float) for f in s]
        mean, mean2 = [[x.copy() for x in r] for r in zero], [[x.copy() for x in r] for r in zero]
        good = [0] * times
        for n in range(len(s)):
            for l in range(times):
                im = sum(math.comb(l, k) * s[n - k] for k in range(min(l, n) + 1))
                if not np.isnan(im[lab > 0]).any():
                    good[l] += 1
                    for j, r in enumerate(ids):
                        with np.errstate(all="ignore"):
                            h = np.nan_to_num(np.histogram(im[lab == r], bins=np.arange(job["max"] * 2**l), density=True)[0])
                        mean[l][j] += (h - mean[l][j]) / good[l]
                        mean2[l][j] += (h * h - mean2[l][j]) / good[l]
                for j in range(len(ids)):
                    tot[l][j] += (mean[l][j] - tot[l][j]) / (i + 1)
                    tot2[l][j] += (mean2[l][j] - tot2[l][j]) / (i + 1)
    return tot, [[np.sqrt(np.abs(b - a * a)) for a, b in zip(x, y)] for x, y in zip(tot, tot2)]


def judge(ctx, res, job, st, lab, sets, out, want):
    k = job["kind"]
    res.count("checks")
    if k == "one":
        class R:
            g2, lag_steps = out

        L.check_one_time(res, R, sets[0], lab, st["levels"], st["bufs"], "series-one")
    elif k == "two":
        L.check_two_time(res, out, sets[0], lab, st["levels"], st["bufs"], st["n"] + job["spare"], "series-two")
    elif k == "max":
        m = brightest(sets, lab)
        if float(out) != m:
            res.bad("series-max", "%r expected %r" % (out, m))
    elif k == "mean":
        ids = np.unique(lab[lab > 0])
        ids = {"list": list(ids), "tuple": list(ids[::-1]), "gen": [ids[job["roi"] % len(ids)]]}[job["outer"]]
        ref = np.array([[np.asarray(f, dtype=float)[lab == i].mean() for i in ids] for f in sets[0]])
        if [int(i) for i in out[1]] != [int(i) for i in ids] or np.shape(out[0]) != ref.shape or not np.allclose(out[0], ref, rtol=1e-9, atol=1e-9):
            res.bad("series-mean", "regions %s, %s expected %s, %s" % (list(out[1]), np.shape(out[0]), list(ids), ref.shape))
    elif k == "kymo":
        ids = np.unique(lab[lab > 0])
        i = int(ids[job["roi"] % len(ids)])
        ref = np.array([np.asarray(f, dtype=float)[lab == i] for f in sets[0]])
        if np.shape(out) != ref.shape or not np.array_equal(out, ref):
            res.bad("series-kymograph", "%s expected %s" % (np.shape(out), ref.shape))
    else:
        if not same(norm(out), want):
            res.bad("series-xsvs", "speckle visibility differs from that of the same frames as arrays, alone")
        mean, std = xsvs_model(job, sets, lab)
        if np.shape(out[0]) != (len(mean), len(mean[0])) or np.shape(out[1]) != np.shape(out[0]):
            res.bad("series-xsvs-shape", "%s, %s" % (np.shape(out[0]), np.shape(out[1])))
        for l in range(len(mean)):
            for j in range(len(mean[l])):
                a, b = np.asarray(out[0][l, j], dtype=float), np.asarray(out[1][l, j], dtype=float)
                if not np.allclose(a, mean[l][j], rtol=1e-9, atol=1e-12):
                    res.bad("series-xsvs-density", "integration time %d, region %d: %s expected %s" % (l, j, a, mean[l][j]))
                if not np.allclose(np.where(np.isnan(b), 0, b), std[l][j], rtol=1e-6, atol=1e-6):
                    res.bad("series-xsvs-deviation", "integration time %d, region %d: %s expected %s" % (l, j, b, std[l][j]))


def run(plan, ctx, res):
    made = [frames_of(st) for st in plan["streams"]]
    keep = [([f.copy() for f in fr], lab.copy()) for fr, lab in made]
    wants = {}
    streams = list(plan["streams"])

    def ask(groups):
        for t, jobs in groups:
            for j, job in enumerate(jobs):
                if job["kind"] == "xsvs":
                    job = limit(job, *keep[job["st"]])
                    wants[t, j] = ctx["ref"]((job, streams[job["st"]]))

    ask(enumerate(plan["threads"]))
    C = Callers(plan, res)
    out_log = {}

    def caller(t, jobs):
        def go():
            for j, job in enumerate(jobs):
                job = limit(job, *keep[job["st"]])
                st = streams[job["st"]]
                frames, lab = made[job["st"]]
                sets = job_frames(job, frames, lab)
                given = [frames[s:] + frames[:s] for s in range(len(sets))]
                err = L.source_error((job["fail"] or 0) + st["n"] + 5 * j)
                tries = [(job["fail"], job["cut"])] if job["fail"] is not None or job["cut"] else []
                for fail, cut in tries + [(None, None)]:
                    budget = [fail if job["how"] not in ("array", "list", "stack") else None, err]
                    srcs = []
                    series = deliver(ctx, job, given, sets, budget, srcs)
                    out, exc, hit = None, None, False
                    S = threads.current
                    if cut:
                        S.arm(cut, Cut())
                    try:
                        with np.errstate(all="ignore"):
                            out = call(ctx, job, st, lab, series, job["outer"])
                    except (Exception, Cut) as e:
                        e.__traceback__ = None
                        exc = e
                    if cut:
                        hit = S.disarm()
                    failed = budget[0] == -1
                    what = "%s over %s" % (job["kind"], job["how"])
                    if failed:
                        res.count("fault:delivery_failed")
                        if exc is None or (exc is not err and not isinstance(exc, Cut)):
                            res.bad("series-error-lost", "%s: the source failed, the caller got %r" % (what, exc if exc is not None else "a result"))
                    elif hit:
                        res.count("fault:interrupt")
                        if exc is None:
                            res.bad("series-interrupt-lost", what)
                    elif exc is not None:
                        res.bad("series-exception", "%s: %s: %s" % (what, type(exc).__name__, exc))
                    if exc is None and not failed and not hit:
                        for x in srcs:
                            if x.taken != len(x.src.frames):
                                res.bad("series-not-read", "%s: %d of %d frames were taken" % (what, x.taken, len(x.src.frames)))
                        judge(ctx, res, job, st, keep[job["st"]][1], job_frames(job, *keep[job["st"]]), out, wants.get((t, j)))
                        out_log.setdefault(t, []).append(dig(repr(norm(out))))
        return go

    C.run([caller(t, jobs) for t, jobs in enumerate(plan["threads"])], max_steps=3000000)

    def intact():
        for (fr, lab), (f0, l0) in zip(made, keep):
            if not np.array_equal(lab, l0) or not all(np.array_equal(a, b, equal_nan=a.dtype.kind == "f") and a.dtype == b.dtype for a, b in zip(fr, f0)):
                res.bad("series-input-modified", "")

    intact()
    if plan["after"]:
        if plan["swap"]:  # the next series and its map are in the same memory
            for i, (fr, lab) in enumerate(made):
                streams[i] = similar(streams[i], plan["swap"])
                new, newlab = frames_of(streams[i])
                lab[...] = newlab
                for a, b in zip(fr, new):
                    a[...] = b
            keep[:] = [([f.copy() for f in fr], lab.copy()) for fr, lab in made]
        ask([("after", plan["after"])])
        quiet = type("R", (), {"count": lambda *a: None, "log": lambda *a: None, "sched": None})()
        Callers(dict(plan, sched={"mode": "replay", "switches": [], "op": False}), quiet).run([caller("after", plan["after"])], max_steps=3000000)
        intact()
    res.log(sorted(out_log.items(), key=repr))
    res.nontrivial = any(j["how"] not in ("array", "list", "stack") for jobs in plan["threads"] for j in jobs)
    res.fp = fingerprint(C.rec[:500], [[(j["kind"], j["how"], j["sets"], j["bad"], j["fail"], j["cut"]) for j in jobs] for jobs in plan["threads"]])


def matches_known(k, plan, res):
    return False


def concretise(plan, res):
    p = dict(plan)
    if res.sched is not None:
        p["sched"] = res.sched
    return p


def shrinks(plan):
    yield from shrink_list(plan, ("after",))
    yield from shrink_choice(plan, ("swap",), 0)
    yield from shrink_list(plan, ("threads",), 1)
    for t, jobs in enumerate(plan["threads"]):
        yield from shrink_list(plan, ("threads", t), 0)
    yield from shrink_schedule(plan)
    for t, jobs in enumerate(plan["threads"]):
        for j, job in enumerate(jobs):
            p = ("threads", t, j)
            yield from shrink_choice(plan, p + ("cut",), None)
            yield from shrink_choice(plan, p + ("fail",), None)
            yield from shrink_list(plan, p + ("bad",))
            yield from shrink_int(plan, p + ("sets",), 1)
            yield from shrink_choice(plan, p + ("outer",), "list")
            yield from shrink_choice(plan, p + ("spare",), 0)
    for i in range(len(plan["streams"])):
        yield from shrink_int(plan, ("streams", i, "n"), 1)
        yield from shrink_int(plan, ("streams", i, "levels"), 1)
        yield from shrink_choice(plan, ("streams", i, "kind"), "i8")
