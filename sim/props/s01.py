"""S01: one-time correlation of a stream."""
import numpy as np

from ..core import dig, fingerprint, put, shrink_choice, shrink_int, shrink_list
from . import streamlib as L

RUNS = {"quick": 16000, "thorough": 400000}
BUDGET = {"quick": 100, "thorough": 600}
RULE = ("a run = one stream (random frames, region map, levels, buffers, bad frames) driven through a seeded schedule of deliveries, stops, resumptions, "
        "checkpoints, crashes inside frames and restarts, compared after every frame with the direct definition; non-trivial if it was interrupted at least once")
MEASURE = "distinct (event/position sequence, configuration, bad-frame set) tuples"
REAL = ["skbeam/core/correlation.py:lazy_one_time and helpers", "skbeam/core/mask.py:bad_to_nan_gen", "pickling of the state"]
STUB = ["frame source", "process (a restart re-imports the module and only keeps pickled state)"]
TIME_UNIT = "frames delivered"
MODS = ["skbeam.core.correlation", "skbeam.core.mask"]


def setup():
    import skbeam.core.correlation  # noqa: F401
    import skbeam.core.mask  # noqa: F401

    return {}


def gen(rng, tier):
    st = L.gen_stream(rng, tier)
    n = st["n"]
    bad = []
    r = rng.random()
    if r < 0.5:
        bad = sorted({rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3, max(1, n // 3)]))})
    return {"stream": st, "bad": bad, "via": rng.choice(["marker", "marker", "nan", "part"]), "ops": L.gen_schedule(rng, n, ["abandon"]),
            "recycle": rng.random() < 0.3, "copy": rng.choice(["pickle", "pickle", "deepcopy"])}


def run(plan, ctx, res):
    st = plan["stream"]
    frames, lab = L.make_frames(st)
    lab0, f0 = lab.copy(), [f.copy() for f in frames]
    bad = set(b for b in plan["bad"] if b < len(frames))
    truth = [np.full(lab.shape, np.nan) if k in bad else f for k, f in enumerate(f0)]
    if plan["via"] == "part":
        # some pixels of a region have no value: such a frame is bad as a whole
        given = []
        for k, f in enumerate(frames):
            if k in bad:
                f = np.array(f, dtype=float)
                pix = np.flatnonzero(lab.ravel() > 0)
                f.ravel()[pix[k * 7 % len(pix)]] = np.nan
            given.append(f)
    elif plan["via"] == "nan":
        given = [np.full(lab.shape, np.nan) if k in bad else f for k, f in enumerate(frames)]
    else:
        given = frames
    if bad:
        res.count("fault:bad_frame", len(bad))

    seen = []

    def make(mods, src, state):
        corr, mask = mods
        it = src
        if plan["via"] == "marker":
            it = mask.bad_to_nan_gen(src, [b - src.pos for b in sorted(bad) if b >= src.pos])
        return corr.lazy_one_time(it, st["levels"], st["bufs"], lab, internal_state=state)

    def check(d, item, n):
        L.check_one_time(res, item, truth[:n], lab0, st["levels"], st["bufs"], "one-time")
        res.log(n, dig(item.g2))
        seen.append((item, dig(item.g2, item.lag_steps)))

    d = L.Driver(res, given, MODS, make, lambda it: it.internal_state, check, roundtrip=plan["copy"], recycle=plan["recycle"])
    d.run(plan["ops"])
    if d.pos == len(frames) and d.item is not None and not any(o[0] != "feed" for o in plan["ops"]):
        g2, lags = d.mods[0].multi_tau_auto_corr(st["levels"], st["bufs"], lab, [t for t in truth])
        if not np.array_equal(g2, d.item.g2, equal_nan=True) or not np.array_equal(lags, d.item.lag_steps):
            res.bad("one-time-wrapper", "multi_tau_auto_corr differs from the generator")
    if any(dig(it.g2, it.lag_steps) != h for it, h in seen):
        res.bad("one-time-earlier-result-changed", "a result handed out earlier changed as the stream went on")
    if not np.array_equal(lab, lab0) or not all(np.array_equal(a, b, equal_nan=a.dtype.kind == "f") for a, b in zip(frames, f0)):
        res.bad("stream-input-modified", "")
    res.nontrivial = any(o[0] != "feed" for o in plan["ops"])
    res.fp = fingerprint(d.events, st["levels"], st["bufs"], plan["bad"], plan["via"])


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("ops",), 1)
    for i, o in enumerate(plan["ops"]):
        if len(o) > 1:
            yield from shrink_int(plan, ("ops", i, 1), 1)
    yield from shrink_list(plan, ("bad",))
    yield from shrink_int(plan, ("stream", "n"), 1)
    yield from shrink_int(plan, ("stream", "levels"), 1)
    if plan["stream"]["bufs"] > 2:
        yield put(plan, ("stream", "bufs"), plan["stream"]["bufs"] - 2)
    yield from shrink_list(plan, ("stream", "labels"), 1)
    yield from shrink_choice(plan, ("stream", "kind"), "i8")
    yield from shrink_choice(plan, ("stream", "zeros"), False)
    yield from shrink_choice(plan, ("stream", "out_nan"), False)
    yield from shrink_choice(plan, ("recycle",), False)
    yield from shrink_choice(plan, ("copy",), "deepcopy")
