"""X01: the parallel pixel fit puts every pixel in its place."""
import copy

import numpy as np

from ..core import dig, fingerprint, put, shrink_choice, shrink_int, shrink_list, terse
from . import xlib

RUNS = {"quick": 2500, "thorough": 200000}
BUDGET = {"quick": 120, "thorough": 600}
RULE = ("a run = one to three calls fitting random maps on a simulated pool with a seeded number of workers and seeded pick-up and completion orders, compared "
        "pixel by pixel with a sequential fit; non-trivial if at least two rows and two workers were involved")
MEASURE = "distinct (event sequence of the pool, map shape) pairs"
REAL, STUB = xlib.REAL, xlib.STUB
TIME_UNIT = "pool events"


def setup():
    return xlib.setup()


def gen(rng, tier):
    maps = [xlib.gen_map(rng, tier)]
    if rng.random() < 0.3:
        maps.append(dict(xlib.gen_map(rng, tier), rows=maps[0]["rows"]) if rng.random() < 0.5 else xlib.gen_map(rng, tier))
    n = rng.choice([1, 2, 2]) if len(maps) == 1 else rng.choice([2, 3])
    return {"maps": maps, "pool": xlib.gen_pool(rng, tier), "calls": [{"map": rng.randrange(len(maps)), "par": rng.choice([0, 0, 1, 2]), "snip": rng.random() < 0.5, "turn": rng.choice([0, 0, 1, 2, 3])} for _ in range(n)]}


def run(plan, ctx, res):
    made = [xlib.make(m) for m in plan["maps"]]
    S = ctx["pool"].begin(plan["pool"], res)
    earlier = []
    try:
        for c in plan["calls"]:
            data, matv = made[c["map"] % len(made)]
            if c["turn"] == 1:  # the next map is in the same memory: other rows, other channels or other peak shapes
                data[...] = np.roll(data, 1, axis=0)
            elif c["turn"] == 2:
                data[...] = data[..., ::-1].copy()
            elif c["turn"] == 3:
                matv[...] = matv[::-1].copy()
            par = xlib.param(c["par"])
            d0, m0, p0 = data.copy(), matv.copy(), copy.deepcopy(par)
            want = xlib.reference(d0, m0, p0, c["snip"], ctx["snip"])
            try:
                got = ctx["X"].fit_pixel_multiprocess_nnls(data, matv, par, **terse(c["map"] % 2 == 0, {"use_snip": c["snip"]}, use_snip=False))
            except Exception as e:
                res.bad("map-exception", "%s: %s" % (type(e).__name__, e))
            got = np.asarray(got)
            res.count("checks", want.shape[0] * want.shape[1])
            if got.shape != want.shape:
                res.bad("map-shape", "%s expected %s" % (got.shape, want.shape))
            ok = np.isclose(got, want, rtol=1e-8, atol=1e-9, equal_nan=True)
            if not ok.all():
                i = np.argwhere(~ok)[0].tolist()
                res.bad("map-pixel", "pixel %s: %s expected %s" % (i[:2], got[i[0], i[1]].tolist(), want[i[0], i[1]].tolist()))
            # results of workers are floating-point values of separate processes: log them rounded
            res.log("result", dig(np.round(got, 6)))
            if not np.array_equal(data, d0) or not np.array_equal(matv, m0) or par != p0:
                res.bad("map-input-modified", "")
            for g, dg in earlier:
                if dig(g) != dg:
                    res.bad("map-earlier-result-changed", "")
            earlier.append((got, dig(got)))
    finally:
        ctx["pool"].end()
    res.nontrivial = max(m["rows"] for m in plan["maps"]) > 1 and plan["pool"]["cpus"] > 1
    res.fp = fingerprint(S.trace, [(m["rows"], m["cols"]) for m in plan["maps"]], [(c["map"], c["snip"]) for c in plan["calls"]])


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("calls",), 1)
    if len(plan["maps"]) > 1:
        yield put(plan, ("maps",), plan["maps"][:1])
    for i in range(len(plan["maps"])):
        for k, lo in (("rows", 1), ("cols", 1), ("elems", 1), ("ch", 6)):
            yield from shrink_int(plan, ("maps", i, k), lo)
        yield from shrink_choice(plan, ("maps", i, "dtype"), "f8")
        yield from shrink_choice(plan, ("maps", i, "order"), "C")
        yield from shrink_choice(plan, ("maps", i, "flat"), False)
    for i in range(len(plan["calls"])):
        yield from shrink_choice(plan, ("calls", i, "turn"), 0)
    yield from shrink_int(plan, ("pool", "cpus"), 1)
    yield from shrink_choice(plan, ("pool", "eager"), 0.0)
