"""A02: binned statistics."""
import copy

import numpy as np

from .. import threads
from ..core import InvalidPlan, dig, fingerprint, put, shrink_choice, shrink_int, shrink_list, terse
from .callers import Callers

RUNS = {"quick": 30000, "thorough": 600000}
BUDGET = {"quick": 100, "thorough": 600}
RULE = ("a run = one or two binned-statistic objects called by one to three threads, parked at every line (or bytecode) of library code, with repeated, re-entrant and "
        "failing calls mixed in; every answer is compared with a per-bin evaluation; non-trivial if at least two calls were made")
MEASURE = "distinct (call history, thread interleaving) pairs"
REAL = ["skbeam/core/accumulators/binned_statistic.py", "skbeam/core/utils.py (grids, bin centres)"]
STUB = ["thread scheduler", "user-supplied statistics"]
TIME_UNIT = "scheduling points"
STATS = ["mean", "median", "count", "sum", "std", "ptp", "n", "sumsq"]


def setup():
    threads.install()
    import skbeam.core.accumulators.binned_statistic  # noqa: F401

    return {}


# ---------------------------------------------------------------- workload
def gen_object(rng):
    kind = rng.choice(["1d", "1d", "2d", "2d", "dd", "dd", "radial", "rphi"])
    o = {"kind": kind, "seed": rng.getrandbits(32), "default": rng.choice(STATS[:5] + ["n"]), "mask": rng.choice([None, None, "bool", "int"]),
         "range": rng.random() < 0.3, "form": rng.choice(["seq", "nd"]), "int": rng.random() < 0.2}
    if kind in ("radial", "rphi"):
        o["shape"] = [rng.randint(2, 7), rng.randint(2, 7)]
        o["N"] = o["shape"][0] * o["shape"][1]
        o["rmap"] = rng.random() < 0.3
        o["int"] = False
    else:
        o["N"] = rng.choice([1, 2, 5, 12, 40])
    D = {"1d": 1, "2d": 2, "dd": rng.choice([1, 2, 3]), "radial": 1, "rphi": 2}[kind]
    if kind == "dd" and o["N"] == 1:
        o["N"] = 2
    o["bins"] = [rng.choice([1, 2, 3, 4, 5, 10]) if rng.random() < 0.6 else sorted({rng.randrange(0, 17) / 8.0 for _ in range(rng.randint(3, 6))} | {0.25, 1.5}) for _ in range(D)]
    if kind in ("2d", "rphi") and isinstance(o["bins"][0], list) and rng.random() < 0.3:
        o["bins"][1] = list(o["bins"][0])  # the same edges in both dimensions
    return o


def gen_call(rng, nobj, seeds=()):
    r = rng.random()
    c = {"o": rng.randrange(nobj), "seed": rng.getrandbits(32), "stat": rng.choice(STATS + [None, None]), "form": rng.choice(["f8", "f8", "i8", "f4", "list"]),
         "bad": None, "scribble": rng.random() < 0.3, "like": rng.choice([None, None, None, "flip", "one"]), "buf": rng.random() < 0.3}
    if seeds and rng.random() < 0.5:
        c["seed"] = rng.choice(seeds)
    if r < 0.12:
        c["stat"] = "re:" + rng.choice(STATS)
    elif r < 0.3:
        c["bad"] = rng.choice(["short", "raise", "name", "object", "raise0"])
    return c


def gen(rng, tier):
    nobj = rng.choice([1, 1, 2])
    nt = rng.choice([1, 2, 2, 3])
    seeds = [rng.getrandbits(32) for _ in range(rng.choice([1, 2]))]  # calls with much the same values
    return {"objs": [gen_object(rng) for _ in range(nobj)], "threads": [[gen_call(rng, nobj, seeds) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(nt)],
            "after": [gen_call(rng, nobj, seeds) for _ in range(rng.choice([0, 1, 2]))], "sched": threads.gen_sched(rng)}


# ---------------------------------------------------------------- reference
class Obj:
    def __init__(self, spec, mod, res):
        r = np.random.RandomState(spec["seed"])
        self.spec, self.N, self.D = spec, spec["N"], len(spec["bins"])
        N, D = self.N, self.D
        kind = spec["kind"]
        if kind in ("radial", "rphi"):
            h, w = spec["shape"]
            org = ((h - 1) / 2.0, (w - 1) / 2.0)
            yy, xx = np.mgrid[0:h, 0:w]
            rr = np.hypot(yy - org[0], xx - org[1])
            ph = np.arctan2(yy - org[0], xx - org[1])
            self.rmap = rr * 1.5 + 0.1 if spec["rmap"] else None
            cols = [(self.rmap if spec["rmap"] else rr).ravel()] + ([ph.ravel()] if D == 2 else [])
        else:
            cols = [r.uniform(-0.25, 2.25, size=N) for _ in range(D)]
            for c, b in zip(cols, spec["bins"]):
                if not np.isscalar(b):
                    on = r.rand(N) < 0.2
                    c[on] = r.choice(b, size=on.sum())
                    tiny = r.rand(N) < 0.05
                    c[tiny] = b[-1] - 1e-9
                    near = (c > b[-1]) & (c < b[-1] + 1e-3)
                    c[near] = b[-1] + 0.01
            if spec["int"]:
                cols = [np.round(c * 2).astype(int) for c in cols]
        self.cols = cols
        self.mask = None
        if spec["mask"]:
            self.mask = r.rand(N) < 0.7
            self.mask = self.mask.astype(int) * r.randint(1, 4, size=N) if spec["mask"] == "int" else self.mask
        rng_ = None
        if spec["range"]:
            rng_ = [[0.0, 1.75] for _ in range(D)]
        bins = [b if np.isscalar(b) else np.array(b) for b in spec["bins"]]
        self.bins = bins
        self.edges = []
        for i in range(D):
            if np.isscalar(bins[i]):
                lo, hi = rng_[i] if rng_ else (float(cols[i].min()), float(cols[i].max()))
                if lo == hi:
                    lo, hi = lo - 0.5, hi + 0.5
                self.edges.append(np.linspace(lo, hi, bins[i] + 1))
            else:
                self.edges.append(bins[i])
        # bin numbers; points that rounding alone puts on one side of an edge are avoided
        self.idx = []
        for c, e in zip(cols, self.edges):
            d = np.abs(np.asarray(c, float)[:, None] - e[None, :])
            top = (c > e[-1]) & (c < e[-1] + 1e-3)
            if ((d > 0) & (d < 1e-12)).any() or top.any():
                raise InvalidPlan
            k = np.searchsorted(e, c, side="right")
            k[c == e[-1]] = len(e) - 1
            self.idx.append(k)
        if self.mask is not None:
            for k in self.idx:
                k[np.asarray(self.mask) == 0] = 0
        self.shape = tuple(len(e) - 1 for e in self.edges)
        stat = fn(spec["default"])
        if kind == "1d":
            self.sample = (cols[0], self.mask)
            self.bs = mod.BinnedStatistic1D(cols[0], **self.kw(stat, bins[0], rng_ and rng_[0], self.mask))
        elif kind == "2d":
            self.sample = (cols[0], cols[1], self.mask)
            self.bs = mod.BinnedStatistic2D(cols[0], cols[1], **self.kw(stat, bins, rng_, self.mask))
        elif kind == "dd":
            s = np.array(cols).T.copy() if spec["form"] == "nd" else cols
            self.sample = ((s,) if spec["form"] == "nd" else tuple(cols)) + (self.mask,)
            keep = copy.deepcopy(self.sample)
            self.bs = mod.BinnedStatisticDD(s, **self.kw(stat, bins, rng_, self.mask))
            self.sample_same(keep, res)
        else:
            m = None if self.mask is None else self.mask.reshape(spec["shape"])
            self.sample = (self.rmap, m) if self.rmap is not None else (m,)
            cls = mod.RadialBinnedStatistic if kind == "radial" else mod.RPhiBinnedStatistic
            self.bs = cls(tuple(spec["shape"]), **self.kw(stat, bins[0] if D == 1 else bins, rng_ and (rng_[0] if D == 1 else rng_), m, r_map=self.rmap))
        self.image = kind in ("radial", "rphi")
        self.keep = copy.deepcopy(self.sample)

    def kw(self, stat, bins, rng_, mask, **more):
        """The arguments of the constructor; half of the objects leave out what is the default."""
        kw = terse(self.N % 2 == 0, dict(statistic=stat, bins=bins, range=rng_, mask=mask, **more), statistic="mean", bins=10, range=None, mask=None, r_map=None)
        if self.N % 4 == 0 and isinstance(bins, list) and all(np.isscalar(b) and b == bins[0] for b in bins):
            kw["bins"] = bins[0]  # one number for all dimensions
            kw = terse(True, kw, bins=10)
        elif self.D == 2 and self.spec["kind"] in ("2d", "rphi") and all(isinstance(b, np.ndarray) for b in bins) and np.array_equal(*bins) and len(bins[0]) > 2:
            kw["bins"] = bins[0]
        return kw

    def sample_same(self, keep, res):
        for a, b in zip(self.sample, keep):
            if a is not None and (a.dtype != b.dtype or not np.array_equal(a, b)):
                res.bad("binned-input-modified", "the sample or mask was changed")

    def expect(self, values, stat):
        v = np.asarray(values).ravel()
        out = np.empty(self.shape)
        f = REF[stat]
        inside = np.ones(self.N, bool)
        for k, e in zip(self.idx, self.edges):
            inside &= (k >= 1) & (k <= len(e) - 1)
        for cell in np.ndindex(*self.shape):
            sel = inside.copy()
            for d, c in enumerate(cell):
                sel &= self.idx[d] == c + 1
            out[cell] = f(v[sel].astype(float))
        return out


def _ptp(a):
    return max(a) - min(a)


def _sumsq(a):
    return float(np.sum(np.asarray(a, dtype=float) ** 2))


FN = {"ptp": _ptp, "n": len, "sumsq": _sumsq}
REF = {
    "mean": lambda a: a.mean() if len(a) else np.nan,
    "median": lambda a: np.median(a) if len(a) else np.nan,
    "count": len,
    "sum": lambda a: a.sum(),
    "std": lambda a: a.std() if len(a) else 0.0,
    "ptp": lambda a: a.max() - a.min() if len(a) else np.nan,
    "n": len,
    "sumsq": lambda a: (a**2).sum(),
}


def fn(stat):
    return FN.get(stat, stat)


class UserError(Exception):
    pass


def make_values(c, o):
    r = np.random.RandomState(c["seed"])
    v = r.randint(-40, 80, size=o.N)
    if r.rand() < 0.15:
        v[:] = v[0]
    if c["form"] == "i8":
        a = v
    else:
        a = (v / 8.0).astype(c["form"] if c["form"] in ("f8", "f4") else "f8")
        if r.rand() < 0.1:
            a = a * 0 + 0.1
    if c["like"] == "flip":  # the same values on other points
        a = a[::-1].copy()
    elif c["like"] == "one":
        a[-1] += 1
    if o.image:
        return a.reshape(o.spec["shape"])
    return a.tolist() if c["form"] == "list" else a


def compare(res, got, ref, stat, what, vals):
    res.count("checks")
    got = np.asarray(got)
    tol = 1e-5 if stat in ("mean", "sum", "sumsq", "median", "ptp") else 0
    if stat == "std":  # a one-pass variance loses half of the digits
        v = np.asarray(vals)
        tol = 4 * np.sqrt(np.finfo(v.dtype if v.dtype.kind == "f" else float).eps) * (np.abs(v).max() if v.size else 1) + 1e-9
    if got.shape != ref.shape or not np.allclose(got, ref, rtol=1e-6 if tol else 0, atol=tol, equal_nan=True):
        res.bad("binned-" + what, "%s: %s expected %s" % (stat, got.tolist(), ref.tolist()))


def do_call(res, objs, c, held, who, bufs):
    o = objs[c["o"] % len(objs)]
    vals = make_values(c, o)
    stat = c["stat"]
    bad = c["bad"]
    passed = vals
    if c["buf"] and isinstance(vals, np.ndarray) and bad is None:  # a caller that keeps its values in the same memory
        passed = bufs.setdefault((who, c["o"] % len(objs), vals.dtype.str), np.empty_like(vals))
        passed[...] = vals
    arg = stat if stat is None else fn(stat)
    calls = [0]
    if bad == "short":
        if o.N < 2:
            return "skip"
        passed = np.asarray(vals).ravel()[:-1]
        if stat == "count" or (stat is None and o.spec["default"] == "count"):
            arg = "mean"
    elif bad in ("raise", "raise0"):
        at = 0 if bad == "raise0" else 2

        def arg(a):
            calls[0] += 1
            if len(a) and calls[0] > at:
                raise UserError
            return 1.0
    elif bad == "name":
        arg = "nonsense"
    elif bad == "object":
        passed = np.full(np.shape(vals), {}, dtype=object)
        arg = "mean"
    elif stat is not None and stat.startswith("re:"):
        inner = stat[3:]
        v2 = make_values(dict(c, seed=c["seed"] ^ 0xABCDEF), o)
        ref2 = o.expect(v2, inner)
        stat = "sumsq"

        def arg(a):
            compare(res, o.bs(v2, fn(inner)), ref2, inner, "reentrant", v2)
            return _sumsq(a)
    keep = copy.deepcopy(passed)
    try:
        got = o.bs(passed, arg) if arg is not None else o.bs(passed)
    except UserError:
        if bad not in ("raise", "raise0"):
            raise
        res.count("fault:statistic_raised")
        return "user-error"
    except Exception as e:
        if bad is None or type(e).__name__ == "Bad":
            raise
        res.count("fault:rejected_call")
        return type(e).__name__
    finally:
        if isinstance(keep, np.ndarray) and keep.dtype != object and not np.array_equal(passed, keep) or isinstance(keep, list) and passed != keep:
            res.bad("binned-input-modified", "the values were changed")
    if bad in ("raise", "raise0"):
        if calls[0] > 3:
            res.bad("binned-error-swallowed", "an exception of the user's statistic did not reach the caller")
        return "no-error"
    if bad is not None:
        res.bad("binned-invalid-accepted", "%s returned %r" % (bad, np.asarray(got).tolist()))
    if stat is None:
        stat = o.spec["default"]
    ref = o.expect(vals, stat)
    compare(res, got, ref, stat, "answer", vals)
    held.append((got, dig(got), stat))
    if c["scribble"]:
        keepref = got
        got[...] = 7e77
        held[-1] = (keepref, dig(keepref), stat)
    res.log(who, c["o"], stat, dig(np.round(ref, 9)))
    return "ok"


def run(plan, ctx, res):
    import skbeam.core.accumulators.binned_statistic as mod

    objs = [Obj(s, mod, res) for s in plan["objs"]]
    held = []
    outcome = []
    bufs = {}

    def caller(t, calls):
        def go():
            for c in calls:
                outcome.append((t, do_call(res, objs, c, held, t, bufs)))
        return go

    C = Callers(plan, res)
    C.run([caller(t, cs) for t, cs in enumerate(plan["threads"])])
    for c in plan["after"]:
        outcome.append(("m", do_call(res, objs, c, held, "m", bufs)))
    for got, d, stat in held:
        if dig(got) != d:
            res.bad("binned-earlier-result-changed", stat)
    for o in objs:
        o.sample_same(o.keep, res)
        bm = np.asarray(o.bs.binmap)
        if not np.array_equal(bm, np.array(o.idx)):
            k = np.argwhere(bm != np.array(o.idx))[0]
            res.bad("binned-binmap", "point %s is in bin %d, reported %d" % (k.tolist(), np.array(o.idx)[tuple(k)], bm[tuple(k)]))
        ed = [o.bs.bin_edges] if o.D == 1 and o.spec["kind"] != "dd" else o.bs.bin_edges
        for a, b in zip(ed, o.edges):
            if not np.allclose(a, b, rtol=1e-12, atol=1e-12):
                res.bad("binned-edges", "%s expected %s" % (a, b))
    res.log(outcome)
    res.nontrivial = len(outcome) > 1
    res.fp = fingerprint([o["kind"] for o in plan["objs"]], [[(c["o"], c["stat"], c["bad"]) for c in t] for t in plan["threads"]], C.rec)


def concretise(plan, res):
    return put(plan, ("sched",), res.sched) if res.sched else plan


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("after",))
    yield from shrink_list(plan, ("threads",), 1)
    for t in range(len(plan["threads"])):
        yield from shrink_list(plan, ("threads", t))
    if plan["sched"]["mode"] == "replay":
        yield from shrink_list(plan, ("sched", "switches"))
    if len(plan["objs"]) > 1:
        yield put(plan, ("objs",), plan["objs"][:1])
    for i in range(len(plan["objs"])):
        if plan["objs"][i]["kind"] not in ("radial", "rphi"):
            yield from shrink_int(plan, ("objs", i, "N"), 2)
        yield from shrink_choice(plan, ("objs", i, "mask"), None)
        yield from shrink_choice(plan, ("objs", i, "range"), False)
        yield from shrink_choice(plan, ("objs", i, "int"), False)
        for d in range(len(plan["objs"][i]["bins"])):
            yield from shrink_choice(plan, ("objs", i, "bins", d), 2)
