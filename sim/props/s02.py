"""S02: two-time correlation of a stream."""
import copy

import numpy as np

from ..core import dig, fingerprint, put, shrink_choice, shrink_int, shrink_list, terse
from . import streamlib as L

RUNS = {"quick": 14000, "thorough": 300000}
BUDGET = {"quick": 100, "thorough": 600}
RULE = ("a run = one stream driven through a seeded schedule of deliveries, stops, resumptions, checkpoints, crashes inside frames, restarts and early "
        "conversions to results, compared after every frame with the direct definition; non-trivial if it was interrupted or looked at before the end")
MEASURE = "distinct (event/position sequence, configuration) pairs"
REAL = ["skbeam/core/correlation.py:lazy_two_time, two_time_state_to_results", "pickling of the state"]
STUB = ["frame source", "process (a restart re-imports the module and only keeps pickled state)"]
TIME_UNIT = "frames delivered"
MODS = ["skbeam.core.correlation"]


def setup():
    import skbeam.core.correlation  # noqa: F401

    return {}


def gen(rng, tier):
    st = L.gen_stream(rng, tier, maxlen=24)
    return {"stream": st, "ops": L.gen_schedule(rng, st["n"], ["look", "look", "abandon"]), "spare": rng.choice([0, 0, 1, 5]),
            "recycle": rng.random() < 0.3, "copy": rng.choice(["pickle", "pickle", "deepcopy"]), "nan": [rng.randrange(st["n"])] if rng.random() < 0.1 else []}


def run(plan, ctx, res):
    st = plan["stream"]
    frames, lab = L.make_frames(st)
    for k in plan["nan"]:
        if k < len(frames):
            frames[k] = np.full(lab.shape, np.nan)
    lab0, f0 = lab.copy(), [f.copy() for f in frames]
    nf = len(frames) + plan["spare"]

    def make(mods, src, state):
        return mods[0].lazy_two_time(lab, src, nf, st["bufs"], **terse(nf % 2, {"num_levels": st["levels"], "two_time_internal_state": state}, num_levels=1, two_time_internal_state=None))

    def check(d, item, n):
        r = d.mods[0].two_time_state_to_results(copy.deepcopy(item))
        L.check_two_time(res, r, f0[:n], lab0, st["levels"], st["bufs"], nf, "two-time")
        res.log(n, dig(r.g2))

    def look(d, op):
        if d.item is not None:
            res.count("probe:early_look")
            r = d.mods[0].two_time_state_to_results(d.item)
            L.check_two_time(res, r, f0[: d.pos], lab0, st["levels"], st["bufs"], nf, "two-time-look")
            d.state = r.internal_state

    d = L.Driver(res, frames, MODS, make, lambda it: it, check, {"look": look}, roundtrip=plan["copy"], recycle=plan["recycle"])
    d.run(plan["ops"])
    if d.pos == len(frames) and not plan["spare"] and not any(o[0] != "feed" for o in plan["ops"]):
        r = d.mods[0].two_time_corr(lab, frames, nf, st["bufs"], **terse(True, {"num_levels": st["levels"]}, num_levels=1))
        L.check_two_time(res, r, f0, lab0, st["levels"], st["bufs"], nf, "two-time-wrapper")
    if not np.array_equal(lab, lab0) or not all(np.array_equal(a, b, equal_nan=a.dtype.kind == "f") for a, b in zip(frames, f0)):
        res.bad("stream-input-modified", "")
    res.nontrivial = any(o[0] != "feed" for o in plan["ops"])
    res.fp = fingerprint(d.events, st["levels"], st["bufs"], plan["spare"], plan["nan"])


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("ops",), 1)
    for i, o in enumerate(plan["ops"]):
        if len(o) > 1:
            yield from shrink_int(plan, ("ops", i, 1), 1)
    yield from shrink_list(plan, ("nan",))
    yield from shrink_int(plan, ("stream", "n"), 1)
    yield from shrink_int(plan, ("stream", "levels"), 1)
    if plan["stream"]["bufs"] > 2:
        yield put(plan, ("stream", "bufs"), plan["stream"]["bufs"] - 2)
    yield from shrink_list(plan, ("stream", "labels"), 1)
    yield from shrink_int(plan, ("spare",), 0)
    yield from shrink_choice(plan, ("stream", "kind"), "i8")
    yield from shrink_choice(plan, ("stream", "zeros"), False)
    yield from shrink_choice(plan, ("recycle",), False)
    yield from shrink_choice(plan, ("copy",), "deepcopy")
