"""A01: histogram contents."""
import ctypes
import math
import os

import numpy as np

from .. import build, threads
from ..core import dig, fingerprint, put, shrink_choice, shrink_int, shrink_list, shrink_schedule, terse

RUNS = {"quick": 6000, "thorough": 300000}
BUDGET = {"quick": 100, "thorough": 600}
RULE = ("a run = one to three histograms (1 to 4 dimensions) filled by one to three caller threads in phases with accepted fills, rejected fills, failing allocations "
        "and resets; contents are compared with the exact per-bin sums after every phase; non-trivial if more than one call was made")
MEASURE = "distinct (call history, thread interleaving) pairs"
REAL = ["skbeam/core/accumulators/histogram.pyx (compiled from the current source)"]
STUB = ["memory allocator of numpy arrays (redzones, failures)", "thread scheduler (threads switch between calls and wherever native code has released the GIL)"]
TIME_UNIT = "calls and scheduling points"
CTYPES = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8"]


def prepare(scratch):
    return {"SIM_HIST": build.histogram_sim()}


class HSim:
    def __init__(self):
        path = os.environ.get("SIM_HIST") or build.histogram_sim()
        import skbeam.core.accumulators  # noqa: F401

        self.mod = build.load_ext("skbeam.core.accumulators.histogram", path)
        L = self.lib = ctypes.PyDLL(path)
        L.simctl_begin.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_uint32, ctypes.c_int, ctypes.c_uint64]
        L.simctl_fail.argtypes = [ctypes.c_void_p, ctypes.c_uint32, ctypes.c_int64]
        L.simctl_stats.argtypes = [ctypes.c_void_p]
        if L.simnp_init():
            raise RuntimeError("simnp_init failed")
        fd = os.environ.get("SIM_STATUS_FD")
        if fd:
            L.simctl_status_fd(int(fd))
        threads.native_hook(L)


def setup():
    threads.install()
    return {"h": HSim()}


# ---------------------------------------------------------------- workload
AXES = [[4, 0.0, 4.0], [3, 0.0, 0.3], [8, -2.0, 2.0], [5, 0.1, 0.7], [1, 0.0, 1.0], [10, 0, 10.01], [7, -1.0, 1.1], [16, -8, 8], [2, 0, 256], [6, 0, 3]]


def gen_points(rng, axis, n, dt):
    """Coordinates as numbers: bin centres, exact edges of dyadic axes, range ends, outside, NaN."""
    nb, lo, hi = axis
    w = (hi - lo) / nb
    out = []
    for _ in range(n):
        r = rng.random()
        if dt[0] in "iu":
            a, b = max(math.ceil(lo) - 1, 0 if dt[0] == "u" else -100), min(math.floor(hi) + 1, 100)
            out.append(rng.randint(min(a, b), max(a, b)))
        elif r < 0.55:
            out.append(lo + w * (rng.randrange(nb) + rng.uniform(0.1, 0.9)))
        elif r < 0.65:
            out.append(["top", 0])
        elif r < 0.72:
            out.append(["low", 0])
        elif r < 0.8:
            out.append(["edge", rng.randrange(nb)])
        elif r < 0.86:
            out.append(["high", 0])
        elif r < 0.9:
            out.append(["nan", 0])
        else:
            out.append(lo - w * rng.uniform(0.01, 3) if rng.random() < 0.5 else hi + w * rng.uniform(0.01, 3))
    return out


def gen_fill(rng, axes):
    nd = len(axes)
    n = rng.choice([0, 1, 1, 2, 3, 5, 9, 30]) if rng.random() < 0.99 else rng.choice([100, 300, 1200])
    form = rng.choice(["array", "array", "array", "stride", "reverse", "list", "tuple", "scalar", "readonly"])
    if form in ("list", "tuple", "scalar"):
        dts = ["f8"] * nd
    elif nd <= 2:
        dts = [rng.choice(CTYPES)] * nd
    else:
        dts = [rng.choice(["i8", "f8"]) for _ in range(nd)]
    if form == "scalar":
        n = 1
    w = rng.choice(["one", "one", "scalar", "vec", "vec", "vec", "list"])
    return {"op": "fill", "n": n, "form": form, "dt": dts, "pts": [gen_points(rng, a, n, d) for a, d in zip(axes, dts)],
            "w": w, "wdt": rng.choice(CTYPES), "wv": [rng.randrange(-32, 96) if rng.random() < 0.1 else rng.randrange(0, 96) for _ in range(n)], "bad": None}


BAD = ["dims-", "dims+", "len", "wlen", "complex", "text", "none", "2d", "mixed", "wtext", "wcomplex"]


def gen(rng, tier):
    nh = rng.choice([1, 1, 2, 3])
    hs = []
    for _ in range(nh):
        d = rng.choice([1, 1, 2, 2, 3, 4])
        if rng.random() < 0.04:
            hs.append([rng.choice([a for a in AXES if a[0] <= 3]) for _ in range(rng.randint(5, 10))])
        else:
            hs.append([rng.choice(AXES) for _ in range(d)])
        while math.prod(a[0] for a in hs[-1]) > 2000:
            hs[-1].pop()
    nt = rng.choice([1, 1, 2, 2, 3])
    phases = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        per = []
        for _t in range(nt):
            ops = []
            for _k in range(rng.choice([0, 1, 1, 2, 3, 5])):
                h = rng.randrange(nh)
                o = gen_fill(rng, hs[h])
                o["h"] = h
                if rng.random() < 0.2:
                    o["bad"] = rng.choice(BAD)
                ops.append(o)
            per.append(ops)
        phases.append({"ops": per, "reset": [h for h in range(nh) if rng.random() < 0.25], "look": [rng.random() < 0.6, rng.random() < 0.5]})
    fails = sorted({rng.randrange(40 * nt) for _ in range(rng.choice([1, 2, 5]))}) if rng.random() < 0.25 else []
    return {"hs": hs, "phases": phases, "fails": fails, "nd": rng.random() < 0.15, "sched": threads.gen_sched(rng)}


# ---------------------------------------------------------------- model
def concrete(pt, axis, dt):
    """-> numpy scalar of type dt"""
    nb, lo, hi = axis
    t = np.dtype(dt).type
    if isinstance(pt, list):
        k, j = pt
        if k == "nan":
            return t(np.nan)
        if k == "low":
            return t(lo)
        if k == "high":
            return t(hi)
        if k == "top":
            v = t(hi)
            while float(v) >= hi:
                v = np.nextafter(v, t(lo))
            return v
        return t(lo + j * (hi - lo) / nb)
    return t(pt)


def bin_of(v, axis):
    """Exact bin index, None if outside, -2 if rounding of the bin edges themselves decides."""
    from fractions import Fraction

    nb, lo, hi = axis
    v = float(v)
    if not (lo <= v < hi):
        return None
    x = (Fraction(v) - Fraction(lo)) * nb / (Fraction(hi) - Fraction(lo))
    i = math.floor(x)
    near = abs(x - round(x)) < Fraction(1, 10**12)
    if near and round(x) not in (0, nb):
        # representable edges (dyadic axis) are decided exactly
        w = (Fraction(hi) - Fraction(lo)) / nb
        e = Fraction(lo) + round(x) * w
        if Fraction(float(e)) == e and Fraction(float(w)) == w:
            return i
        return -2
    return min(i, nb - 1)


def weight_of(o, k):
    if o["w"] == "one":
        return 1.0
    v = o["wv"][0 if o["w"] == "scalar" else k]
    if o["w"] == "list" or o["w"] == "scalar":
        return v / 8.0
    if o["wdt"][0] == "f":
        return v / 8.0
    return float(v) if o["wdt"][0] == "i" or v >= 0 else float(abs(v))


def build_args(o, axes):
    cols = [np.array([concrete(p, a, d) for p in pts], dtype=d) for pts, a, d in zip(o["pts"], axes, o["dt"])]
    clean = [c.copy() for c in cols]
    f = o["form"]
    if f == "stride":
        cols = [spread(c) for c in cols]
    elif f == "reverse":
        cols = [np.ascontiguousarray(c[::-1])[::-1] for c in cols]
    elif f == "readonly":
        for c in cols:
            c.flags.writeable = False
    elif f in ("list", "tuple"):
        cols = [c.tolist() if f == "list" else tuple(c.tolist()) for c in cols]
    elif f == "scalar":
        cols = [float(c[0]) for c in cols]
    n = o["n"]
    if o["w"] == "one":
        w = 1
    elif o["w"] == "scalar":
        w = o["wv"][0] / 8.0 if n else 1
    elif o["w"] == "list":
        w = [v / 8.0 for v in o["wv"]]
    else:
        w = np.array([weight_of(o, k) for k in range(n)]).astype(o["wdt"])
    return cols, clean, w


def spread(c):
    big = np.full(2 * len(c) + 1, 3, dtype=c.dtype)
    big[: 2 * len(c) : 2] = c
    return big[: 2 * len(c) : 2]


def spoil(o, cols, w, axes):
    """-> coords, weights of a call that has to be refused (or treated as what it says)"""
    b = o["bad"]
    n = o["n"]
    arr = [np.asarray(c, dtype=float).reshape(-1) for c in cols]
    if b == "dims-":
        return cols[:-1], w
    if b == "dims+":
        return list(cols) + [cols[0]], w
    if b == "len":
        if len(arr) == 1:
            return [arr[0]], np.ones(n + 2)
        return arr[:-1] + [np.zeros(n + 1)], 1
    if b == "wlen":
        return arr, np.ones(n + 2)
    if b == "complex":
        return [a.astype(complex) for a in arr], 1
    if b == "text":
        return arr[:-1] + [np.array(["a"] * n, dtype="U1")], 1
    if b == "none":
        return [None] + arr[1:], 1
    if b == "2d":
        return [np.stack([a, a]) for a in arr], 1
    if b == "mixed":
        if len(arr) == 1:
            return [arr[0].astype(">f8")], 1
        if len(arr) == 2:
            return [arr[0].astype("f4"), arr[1].astype("f8")], 1
        return [arr[0].astype("f4")] + arr[1:], 1
    if b == "wtext":
        return arr, np.array(["x"] * max(n, 1))
    if b == "wcomplex":
        return arr, np.ones(max(n, 1), dtype=complex)
    raise ValueError(b)


class Model:
    def __init__(self, axes):
        self.axes = axes
        self.clear()

    def clear(self):
        self.v = np.zeros([a[0] for a in self.axes])
        self.loose = np.zeros(self.v.shape, dtype=bool)  # bins next to an undecidable edge

    def add(self, pts, ws):
        for p, w in zip(pts, ws):
            idx = [bin_of(x, a) for x, a in zip(p, self.axes)]
            if any(i is None for i in idx):
                continue
            if any(i == -2 for i in idx):
                sl = []
                for x, a, i in zip(p, self.axes, idx):
                    if i == -2:
                        k = round((float(x) - a[1]) * a[0] / (a[2] - a[1]))
                        sl.append(slice(k - 1, k + 1))
                    else:
                        sl.append(slice(i, i + 1))
                self.loose[tuple(sl)] = True
                continue
            self.v[tuple(idx)] += w


def run(plan, ctx, res):
    H = ctx["h"]
    L = H.lib
    L.simctl_begin(1, 1, 1, 0, 0xA5, 10**9)
    L.simctl_fail(None, 0, -1)
    L.simnp_on()
    S = None
    calls = []
    sched = dict(plan["sched"])
    recs = []
    try:
        hists = [H.mod.Histogram(*ax) for ax in plan["hs"]]
        models = [Model(ax) for ax in plan["hs"]]
        if plan["nd"]:
            for h in hists:
                h._always_use_fillnd = True
        f = np.array(plan["fails"], dtype=np.uint32)
        base = alloc_count(L)
        f = (f + base).astype(np.uint32)
        for pi, ph in enumerate(plan["phases"]):
            outcome = []

            def caller(t, ops):
                def go():
                    L.simnp_on()
                    for o in ops:
                        S.point()
                        if o["h"] >= len(hists):
                            continue
                        ax = plan["hs"][o["h"]]
                        L.simctl_fail(None, 0, -1)
                        cols, clean, w = build_args(o, ax)
                        if o["bad"]:
                            cols, w = spoil(o, cols, w, ax)
                        keep = [np.array(c, copy=True) if isinstance(c, np.ndarray) else c for c in cols]
                        kw = np.array(w, copy=True)
                        before = alloc_failed(L)
                        L.simctl_fail(f.ctypes.data, len(f), -1)
                        try:
                            hists[o["h"]].fill(*cols, **terse(o["n"] % 2, {"weights": w}, weights=1))
                            r = "ok"
                        except Exception as e:
                            r = type(e).__name__
                        L.simctl_fail(None, 0, -1)
                        if alloc_failed(L) > before:
                            res.count("fault:failed_allocation")
                        outcome.append((t, o, r, cols, clean, w, alloc_failed(L) > before))
                        for a, b in zip(cols, keep):
                            if isinstance(a, np.ndarray) and not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
                                res.bad("histogram-input-modified", "")
                        if isinstance(w, np.ndarray) and w.dtype.kind != "U" and not np.array_equal(w, kw):
                            res.bad("histogram-input-modified", "weights")
                        res.count("steps")
                return guard(go, errs)

            errs = []
            spec = dict(sched)
            if sched["mode"] == "rand":
                spec["seed"] = sched["seed"] + pi
            else:
                spec["switches"] = sched["phases"][pi] if pi < len(sched.get("phases", [])) else []
            S = threads.Sched(spec)
            S.run([caller(t, ops) for t, ops in enumerate(ph["ops"])])
            recs.append(S.rec)
            if errs:
                raise errs[0]
            res.count("switches", S.switches)
            for t, o, r, cols, clean, w, hit in outcome:
                calls.append((t, o["h"], o["bad"], r))
                res.log(t, o["h"], o["bad"], r)
                if r == "ok":
                    apply(res, o, models[o["h"]], cols, clean, w)
                elif not o["bad"] and not hit and not (plan["nd"] and not set(o["dt"]) <= {"i8", "f8"}):
                    res.bad("valid-fill-refused", "%s: %s %s %s n=%d" % (r, o["form"], o["dt"], o["w"], o["n"]))
                else:
                    res.count("fault:rejected_fill")
            # looking is part of the history: not after every step
            look = ph["look"]
            if look[0]:
                compare(res, hists, models, "phase %d" % pi)
            for h in ph["reset"]:
                if h < len(hists):
                    hists[h].reset()
                    models[h].clear()
                    res.count("probe:reset")
            if look[1]:
                compare(res, hists, models, "after reset")
        compare(res, hists, models, "at the end")
        st = np.zeros(12, dtype=np.uint64)
        L.simctl_end()
        L.simctl_stats(st.ctypes.data)
        if int(st[8]) or int(st[9]):
            res.bad("out-of-bounds-access", "oob=%d use-after-free=%d" % (int(st[8]), int(st[9])))
    finally:
        L.simctl_end()
        L.simnp_off()
        res.sched = {"mode": "replay", "switches": [], "phases": recs, "op": sched.get("op", False)}
    res.log([dig(h.values) for h in hists], recs)
    res.nontrivial = len(calls) > 1
    res.fp = fingerprint(plan["hs"], calls, recs)


def guard(fn, errs):
    def go():
        try:
            fn()
        except Exception as e:
            errs.append(e)
    return go


def alloc_count(L):
    st = np.zeros(12, dtype=np.uint64)
    L.simctl_stats(st.ctypes.data)
    return int(st[2])


def alloc_failed(L):
    st = np.zeros(12, dtype=np.uint64)
    L.simctl_stats(st.ctypes.data)
    return int(st[3])


def apply(res, o, m, cols, clean, w):
    n = o["n"]
    if not o["bad"]:
        m.add(list(zip(*clean)), [weight_of(o, k) if n else 0 for k in range(n)])
        return
    if o["bad"] in ("2d", "mixed", "complex"):
        # accepted after all: then it has to count for what it says
        try:
            arr = [np.asarray(c).real.astype(float).reshape(-1) for c in cols]
            m.add(list(zip(*arr)), [1.0] * len(arr[0]))
            res.count("probe:odd_fill_accepted")
            return
        except Exception:
            pass
    if o["bad"] == "text" and n == 0 or o["bad"] in ("wtext", "wcomplex", "text") and n == 0:
        return
    if o["bad"] == "len" and len(cols) == 1 and len(w) == 1:
        return
    res.bad("invalid-fill-accepted", o["bad"])


def compare(res, hists, models, when):
    for i, (h, m) in enumerate(zip(hists, models)):
        res.count("checks")
        got = np.asarray(h.values)
        if got.shape != m.v.shape:
            res.bad("histogram-shape", "%s" % (got.shape,))
        ok = np.where(m.loose, True, got == m.v)
        if not ok.all():
            k = np.argwhere(~ok)[0]
            res.bad("histogram-contents", "%s, histogram %d: bin %s holds %r, expected %r" % (when, i, k.tolist(), float(got[tuple(k)]), float(m.v[tuple(k)])))


def concretise(plan, res):
    if res.sched and res.sched["phases"]:
        return put(plan, ("sched",), res.sched)
    return plan


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("phases",), 1)
    for i, ph in enumerate(plan["phases"]):
        for t in range(len(ph["ops"])):
            yield from shrink_list(plan, ("phases", i, "ops", t))
    if plan["sched"]["mode"] == "replay":
        for i in range(len(plan["sched"]["phases"])):
            yield from shrink_list(plan, ("sched", "phases", i))
    yield from shrink_list(plan, ("fails",))
    for i, ph in enumerate(plan["phases"]):
        yield from shrink_list(plan, ("phases", i, "reset"))
        yield from shrink_choice(plan, ("phases", i, "look"), [True, True])
        for t, ops in enumerate(ph["ops"]):
            for k, o in enumerate(ops):
                for j in range(o["n"]):
                    q = put(plan, ("phases", i, "ops", t, k, "n"), o["n"] - 1)
                    oo = q["phases"][i]["ops"][t][k]
                    if o["form"] == "scalar":
                        continue
                    oo["pts"] = [p[:j] + p[j + 1 :] for p in oo["pts"]]
                    oo["wv"] = oo["wv"][:j] + oo["wv"][j + 1 :]
                    yield q
                yield from shrink_choice(plan, ("phases", i, "ops", t, k, "w"), "one")
                yield from shrink_choice(plan, ("phases", i, "ops", t, k, "form"), "array")
    yield from shrink_choice(plan, ("nd",), False)
