"""X02: a failing worker surfaces to the caller and the pool is released."""
import copy

import numpy as np

from ..core import dig, fingerprint, put, shrink_choice, shrink_int
from ..pool import WorkerFault
from . import xlib

RUNS = {"quick": 2500, "thorough": 150000}
BUDGET = {"quick": 120, "thorough": 600}
RULE = ("a run = one call on a simulated pool with seeded worker failures (exceptions, out of memory, results that cannot travel back), rows that cannot be "
        "fitted, interruption of the waiting caller or failure to start workers, followed by a normal call; non-trivial if a fault fired")
MEASURE = "distinct (event sequence of the pool, fired faults, map shape) tuples among runs with a fired fault"
REAL, STUB = xlib.REAL, xlib.STUB
TIME_UNIT = "pool events"
ASSUMPTIONS = ["a worker process killed from outside is not simulated: the standard library's Pool never reports it, whatever its user does"]
EXPECT = {"memory": (MemoryError,), "fault": (WorkerFault,), "os": (OSError,), "fork": (OSError,), "interrupt": (KeyboardInterrupt,)}


def setup():
    return xlib.setup()


def gen(rng, tier):
    plan = {"map": xlib.gen_map(rng, tier), "pool": xlib.gen_pool(rng, tier), "bad_rows": {}}
    rows = plan["map"]["rows"]
    r = rng.random()
    if r < 0.4:
        ks = {rng.randrange(rows) for _ in range(rng.choice([1, 1, 2, 3]))}
        plan["pool"]["faults"] = {str(k): rng.choice(["memory", "fault", "os", "unpicklable"]) for k in sorted(ks)}
    elif r < 0.65:
        plan["pool"]["interrupt_at"] = rng.randrange(rows)
    elif r < 0.9:
        ks = {rng.randrange(rows) for _ in range(rng.choice([1, 1, 2]))}
        plan["bad_rows"] = {str(k): rng.choice(["short", "long", "text"]) for k in sorted(ks)}
        if rng.random() < 0.2:
            plan["pool"]["interrupt_at"] = rng.randrange(rows)
    else:
        plan["pool"]["fail_start"] = True
    return plan


def build(plan):
    data, matv = xlib.make(plan["map"])
    if not plan["bad_rows"]:
        return data, matv
    rows = [np.array(r) for r in data]
    for k, why in plan["bad_rows"].items():
        if int(k) >= len(rows):
            continue
        r = rows[int(k)]
        if why == "short":
            rows[int(k)] = r[:, :-1].copy()
        elif why == "long":
            rows[int(k)] = np.concatenate([r, r[:, :1]], axis=1)
        else:
            rows[int(k)] = np.array([["x"] * r.shape[1]] * r.shape[0])
    return rows, matv


def chain(e):
    out = []
    while e is not None and len(out) < 10:
        out.append(e)
        e = e.__cause__ or e.__context__
    return out


def run(plan, ctx, res):
    data, matv = build(plan)
    par = xlib.param()
    d0 = copy.deepcopy(data)
    m0, p0 = matv.copy(), copy.deepcopy(par)
    snip = plan["map"]["snip"]
    S = ctx["pool"].begin(plan["pool"], res)
    exc = got = None
    try:
        try:
            got = ctx["X"].fit_pixel_multiprocess_nnls(data, matv, par, use_snip=snip)
        except (Exception, KeyboardInterrupt) as e:
            if type(e).__name__ == "Bad":
                raise
            exc = e
        left = ctx["pool"].end()
        res.log("outcome", None if exc is None else type(exc).__name__, len(left), S.fired)
        res.count("checks")
        bad_rows = [k for k in plan["bad_rows"] if int(k) < plan["map"]["rows"]]
        if bad_rows:
            res.count("fault:unfittable_row", len(bad_rows))
        fired = list(S.fired)
        if fired or bad_rows:
            if exc is None:
                res.bad("fault-hidden", "faults %s bad rows %s but the call returned a map" % (fired, bad_rows))
            if fired and not bad_rows and "unpicklable" not in fired:
                types = tuple(t for f in fired for t in EXPECT[f])
                if not any(isinstance(e, types) for e in chain(exc)):
                    res.bad("fault-replaced", "faults %s reached the caller as %s: %s" % (fired, type(exc).__name__, exc))
            if not isinstance(exc, Exception) and "interrupt" not in fired:
                res.bad("fault-replaced", "%s" % type(exc).__name__)
        elif exc is not None:
            res.bad("fault-invented", "%s: %s" % (type(exc).__name__, exc))
        if left:
            res.bad("pool-leaked", "%d pool(s) with running workers after the call %s" % (len(left), "returned" if exc is None else "raised " + type(exc).__name__))
        same = all(np.array_equal(a, b) for a, b in zip(data, d0)) and len(data) == len(d0)
        if not same or not np.array_equal(matv, m0) or par != p0:
            res.bad("map-input-modified", "")
    finally:
        ctx["pool"].end()
    trace = list(S.trace)
    exc = None
    # the next call works normally
    data, matv = xlib.make(plan["map"])
    S2 = ctx["pool"].begin({"seed": plan["pool"]["seed"] ^ 1, "cpus": plan["pool"]["cpus"], "eager": plan["pool"]["eager"]}, res)
    try:
        want = xlib.reference(data, matv, par, snip, ctx["snip"])
        try:
            got = np.asarray(ctx["X"].fit_pixel_multiprocess_nnls(data, matv, par, use_snip=snip))
        except Exception as e:
            res.bad("next-call", "%s: %s" % (type(e).__name__, e))
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-8, atol=1e-9, equal_nan=True):
            res.bad("next-call", "wrong values after an earlier failure")
        res.log("next", dig(np.round(got, 6)))
        if ctx["pool"].end():
            res.bad("pool-leaked", "workers still running after a successful call")
    finally:
        ctx["pool"].end()
    res.nontrivial = bool(fired or bad_rows)
    res.fp = fingerprint(trace, fired, bad_rows, plan["map"]["cols"], snip)


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    for key in ("faults",):
        f = plan["pool"].get(key) or {}
        for k in f:
            yield put(plan, ("pool", key), {a: b for a, b in f.items() if a != k})
    for k in plan["bad_rows"]:
        yield put(plan, ("bad_rows",), {a: b for a, b in plan["bad_rows"].items() if a != k})
    for k, lo in (("rows", 1), ("cols", 1), ("elems", 1), ("ch", 6)):
        yield from shrink_int(plan, ("map", k), lo)
    yield from shrink_int(plan, ("pool", "cpus"), 1)
    yield from shrink_choice(plan, ("pool", "eager"), 0.0)
    yield from shrink_choice(plan, ("map", "dtype"), "f8")
    if "interrupt_at" in plan["pool"]:
        yield from shrink_int(plan, ("pool", "interrupt_at"), 0)
