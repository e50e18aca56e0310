"""A03: cross-correlators."""
import copy
import os
import sys

import numpy as np

from .. import threads
from ..core import dig, fingerprint, put, shrink_choice, shrink_int, shrink_list
from .callers import Callers

RUNS = {"quick": 20000, "thorough": 400000}
BUDGET = {"quick": 100, "thorough": 600}
RULE = ("a run = one or two cross-correlators called by one to three threads, parked at every line (or bytecode) of library code, with repeated, auto-, cross- and "
        "failing calls mixed in; every answer is compared with the sum over pixel pairs; non-trivial if at least two calls were made")
MEASURE = "distinct (call history, thread interleaving) pairs"
REAL = ["skbeam/core/correlation.py:CrossCorrelator"]
STUB = ["thread scheduler", "progress bar output and its monitor thread"]
TIME_UNIT = "scheduling points"
NORMS = [None, "regular", "symavg", ["regular"], ["symavg"], ["symavg", "regular"], ["regular", "symavg"], [], "none"]


def setup():
    threads.install()
    try:
        import tqdm

        tqdm.tqdm.monitor_interval = 0
    except ImportError:
        pass
    sys.stderr = open(os.devnull, "w")
    import skbeam.core.correlation  # noqa: F401

    return {}


def gen_object(rng):
    nd = rng.choice([1, 2, 2])
    shape = [rng.randint(2, 12)] if nd == 1 else [rng.randint(1, 6), rng.randint(2, 6)]
    if rng.random() < 0.03:
        shape = [rng.randint(20, 90)] if nd == 1 else [rng.randint(7, 20), rng.randint(7, 24)]
    return {"shape": shape, "seed": rng.getrandbits(32), "mask": rng.choice([None, "ids", "ids", "bool", "float", "sparse"]), "norm": rng.choice(NORMS)}


def gen_call(rng, nobj, seeds):
    return {"o": rng.randrange(nobj), "seed": rng.choice(seeds) if rng.random() < 0.5 else rng.getrandbits(32), "like": rng.choice([None, None, None, "flip", "one"]), "buf": rng.random() < 0.3, "two": rng.random() < 0.6, "norm": rng.choice(NORMS[:7] + [None, None]),
            "dtype": rng.choice(["f8", "f8", "i8", "u2", "f4"]), "alias": rng.random() < 0.1, "nan_out": rng.random() < 0.2, "zeros": rng.random() < 0.3,
            "bad": rng.choice([None] * 8 + ["shape1", "shape2", "pixel", "pixel2", "list"]), "scribble": rng.random() < 0.3}


def gen(rng, tier):
    nobj = rng.choice([1, 1, 1, 2])
    nt = rng.choice([1, 2, 2, 3])
    seeds = [rng.getrandbits(32) for _ in range(rng.choice([1, 2]))]  # calls with much the same images
    return {"objs": [gen_object(rng) for _ in range(nobj)], "threads": [[gen_call(rng, nobj, seeds) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(nt)],
            "after": [gen_call(rng, nobj, seeds) for _ in range(rng.choice([0, 1, 2]))], "sched": threads.gen_sched(rng)}


def pairs(a, b):
    """c[d] = sum over m of a[m] b[m - d], zero shift in the middle."""
    h, w = a.shape
    out = np.zeros((2 * h - 1, 2 * w - 1))
    for y in range(h):
        for x in range(w):
            if a[y, x] == 0:
                continue
            # m = (y, x), m - d = (v, u)  ->  d + size - 1 = (y - v + h - 1, x - u + w - 1)
            out[y : y + h, x : x + w] += a[y, x] * b[::-1, ::-1]
    return out


class Obj:
    def __init__(self, spec, mod):
        r = np.random.RandomState(spec["seed"])
        self.spec = spec
        shape = tuple(spec["shape"])
        m = None
        if spec["mask"] == "ids":
            m = r.randint(0, r.randint(2, 5), size=shape)
        elif spec["mask"] == "bool":
            m = r.rand(*shape) < 0.7
        elif spec["mask"] == "float":
            m = r.randint(0, 3, size=shape).astype(float)
        elif spec["mask"] == "sparse":
            m = r.choice([0, 0, 3, 7, 70000], size=shape)
        if m is not None and not m.any():
            m.flat[r.randint(m.size)] = 1
        self.mask, self.keep = m, copy.deepcopy(m)
        self.cc = mod.CrossCorrelator(shape, mask=m, normalization=copy.deepcopy(spec["norm"]))
        full = np.ones(shape, int) if m is None else m.astype(int)
        self.full = full.reshape((1, -1)) if len(shape) == 1 else full
        self.ids = [i for i in np.unique(self.full) if i != 0]
        self.regions = []
        for i in self.ids:
            ys, xs = np.nonzero(self.full == i)
            sl = (slice(ys.min(), ys.max() + 1), slice(xs.min(), xs.max() + 1))
            self.regions.append((sl, (self.full[sl] == i).astype(float)))

    def axes(self, res):
        """The lag axes go with the correlations."""
        want = []
        for _, sub in self.regions:
            h, w = sub.shape
            y, x = np.arange(2 * h - 1) - (h - 1), np.arange(2 * w - 1) - (w - 1)
            want.append([x] if len(self.spec["shape"]) == 1 else [y, x])
        got = self.cc.positions
        got = [got] if len(want) == 1 else list(got)
        got = [[g] if len(self.spec["shape"]) == 1 else list(g) for g in got]
        if len(got) != len(want) or any(len(g) != len(v) or any(np.shape(p) != q.shape or not np.array_equal(p, q) for p, q in zip(g, v)) for g, v in zip(got, want)):
            res.bad("cc-lags", "positions %s expected %s" % (self.cc.positions, want))

    def expect(self, a, b, norm):
        if norm is None:
            norm = self.spec["norm"]
        if norm is None:
            norm = ["regular"]
        a = np.asarray(a, float).reshape(self.full.shape)
        b = a if b is None else np.asarray(b, float).reshape(self.full.shape)
        out = []
        for sl, sub in self.regions:
            av = np.where(sub > 0, a[sl], 0)
            bv = np.where(sub > 0, b[sl], 0)
            c = pairs(av, bv)
            n = pairs(sub, sub)
            n[n < 0.5] = np.nan
            if "symavg" in norm:
                c = c * n / pairs(av, sub) / pairs(sub, bv)
            if "regular" in norm:
                c = c / (n * (av.sum() / sub.sum()) * (bv.sum() / sub.sum()))
            out.append(c.reshape(-1) if len(self.spec["shape"]) == 1 else c)
        return out[0] if len(out) == 1 else out


def image(c, o, k):
    r = np.random.RandomState((c["seed"] + 77 * k) % (1 << 32))
    a = r.randint(1, 60, size=tuple(o.spec["shape"])).astype(c["dtype"])
    if c["like"] == "flip":  # the same values on other pixels
        a = np.ascontiguousarray(a[..., ::-1])
    elif c["like"] == "one":
        a.flat[-1] += 1
    norm = c["norm"] if c["norm"] is not None else o.spec["norm"]
    if c.get("zeros") and "symavg" not in (norm or []) and a.size > 1:
        # dark pixels (with symmetric averaging an average over dark pixels only has no value)
        z = r.rand(*a.shape) < 0.4
        for i in o.ids:
            z.flat[np.flatnonzero(o.full == i)[0]] = False
        a[z] = 0
    if c["nan_out"] and a.dtype.kind == "f" and o.mask is not None:
        a[np.asarray(o.mask) == 0] = np.nan  # pixels outside every region do not matter
    return a


def same_list(x, y):
    if isinstance(x, list) != isinstance(y, list) or isinstance(x, list) and len(x) != len(y):
        return False
    for p, q in zip(x, y) if isinstance(x, list) else [(x, y)]:
        p = np.asarray(p)
        if p.shape != q.shape or not np.array_equal(np.isnan(p), np.isnan(q)):
            return False
        scale = np.nanmax(np.abs(q))
        if not np.allclose(p, q, rtol=1e-7, atol=1e-9 * (scale if np.isfinite(scale) else 1), equal_nan=True):
            return False
    return True


def digs(x):
    return [dig(a) for a in x] if isinstance(x, list) else [dig(x)]


def do_call(res, objs, c, held, who, bufs):
    o = objs[c["o"] % len(objs)]
    a = image(c, o, 0)
    b = None
    if c["two"]:
        b = a if c["alias"] else image(c, o, 1)
    bad = c["bad"]
    pa, pb = a, b
    if c["buf"]:  # a caller that keeps its images in the same memory
        pa = bufs.setdefault((who, 0, c["o"] % len(objs), a.dtype.str), np.empty_like(a))
        pa[...] = a
        if b is not None:
            pb = pa if b is a else bufs.setdefault((who, 1, c["o"] % len(objs), b.dtype.str), np.empty_like(b))
            pb[...] = b
    if bad == "shape1":
        pa = np.ones(tuple(n + 1 for n in a.shape))
    elif bad == "shape2":
        pb = np.ones(a.shape + (1,))
    elif bad in ("pixel", "pixel2"):
        # one pixel of the last region is not a number: the call fails after earlier regions were done
        v = a.astype(object) if bad == "pixel" or b is None else b.astype(object)
        v.reshape(o.full.shape)[tuple(np.argwhere(o.full == o.ids[-1])[-1])] = "x"
        if bad == "pixel" or b is None:
            pa = v
        else:
            pb = v
    elif bad == "list":
        pa = a.tolist()
    keep = copy.deepcopy((pa, pb))
    args = (pa,) if pb is None else (pa, pb)
    try:
        got = o.cc(*args, normalization=copy.deepcopy(c["norm"])) if c["norm"] is not None else o.cc(*args)
    except Exception:
        if bad is None:
            raise
        res.count("fault:rejected_call")
        got = None
    for x, y in zip((pa, pb), keep):
        if isinstance(x, np.ndarray) and x.dtype != object and dig(x) != dig(y):
            res.bad("cc-input-modified", "an image was changed")
    if got is None:
        return "rejected"
    if bad == "list":
        return "list-accepted"
    if bad is not None:
        res.bad("cc-invalid-accepted", bad)
    ref = o.expect(a, b, c["norm"])
    res.count("checks")
    if not same_list(got, ref):
        res.bad("cc-answer", "norm %s two %s: %s expected %s" % (c["norm"], c["two"], got, ref))
    held.append((got, digs(got)))
    if c["scribble"]:
        for g in got if isinstance(got, list) else [got]:
            g[...] = 7e77
        held[-1] = (got, digs(got))
    res.log(who, c["o"], [dig(np.round(x, 6)) for x in (ref if isinstance(ref, list) else [ref])])
    return "ok"


def run(plan, ctx, res):
    import skbeam.core.correlation as mod

    objs = [Obj(s, mod) for s in plan["objs"]]
    held, outcome, bufs = [], [], {}

    def caller(t, calls):
        def go():
            for c in calls:
                outcome.append((t, do_call(res, objs, c, held, t, bufs)))
        return go

    C = Callers(plan, res)
    C.run([caller(t, cs) for t, cs in enumerate(plan["threads"])])
    for c in plan["after"]:
        outcome.append(("m", do_call(res, objs, c, held, "m", bufs)))
    for got, d in held:
        if digs(got) != d:
            res.bad("cc-earlier-result-changed", "")
    for o in objs:
        o.axes(res)
        if o.mask is not None and dig(o.mask) != dig(o.keep):
            res.bad("cc-input-modified", "the mask was changed")
    res.log(outcome)
    res.nontrivial = len(outcome) > 1
    res.fp = fingerprint([(o["shape"], o["mask"]) for o in plan["objs"]], [[(c["o"], c["two"], c["norm"], c["bad"]) for c in t] for t in plan["threads"]], C.rec)


def concretise(plan, res):
    return put(plan, ("sched",), res.sched) if res.sched else plan


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("after",))
    yield from shrink_list(plan, ("threads",), 1)
    for t in range(len(plan["threads"])):
        yield from shrink_list(plan, ("threads", t))
    if plan["sched"]["mode"] == "replay":
        yield from shrink_list(plan, ("sched", "switches"))
    if len(plan["objs"]) > 1:
        yield put(plan, ("objs",), plan["objs"][:1])
    for i in range(len(plan["objs"])):
        yield from shrink_choice(plan, ("objs", i, "mask"), None)
        yield from shrink_choice(plan, ("objs", i, "norm"), None)
        for d in range(len(plan["objs"][i]["shape"])):
            yield from shrink_int(plan, ("objs", i, "shape", d), 2)
