"""C02: allocation failure in the native kernels is a clean, retryable MemoryError."""
import sys

import numpy as np

from .. import csim_api
from ..core import dig, fingerprint, shrink_choice, shrink_int, shrink_list, shrink_schedule
from . import gridlib as G
from . import qlib as Q

RUNS = {"quick": 200000, "thorough": 3000000}
BUDGET = {"quick": 120, "thorough": 600}
RULE = ("a run = one kernel call in which a random subset of the allocations (or all from the k-th on) fails, under a seeded interleaving, then the same "
        "call again without failures; non-trivial if at least one allocation actually failed")
MEASURE = "distinct (interleaving hash, failing allocation set, kernel, configuration) tuples among runs with a failure"
REAL = G.REAL + ["skbeam/core/recip.py:process_to_q"]
STUB = G.STUB
ASSUMPTIONS = ["allocations of small Python objects by the interpreter itself do not fail (only the kernel's and numpy's data allocations do)"]


def prepare(scratch):
    csim_api.prebuild()


def setup():
    sims = csim_api.all_builds()
    import skbeam.core.recip as recip

    return {"sims": sims, "recip": recip}


def gen(rng, tier):
    mx, team = G.gen_team(rng)
    plan = {"build": rng.choice(["O0", "O0", "O1", "O1", "noomp"]), "max": mx, "team": team, "poison": rng.choice([0xA5, 0xFF, 0x00, 0x7F]),
            "sched": G.gen_sched(rng), "kernel": rng.choice(["grid", "grid", "grid", "gridacc", "q", "qpy"])}
    k = plan["kernel"]
    if k in ("grid", "gridacc"):
        plan["axes"] = G.gen_axes(rng)
        plan["points"] = G.gen_points(rng, plan["axes"], G.gen_count(rng, [0, 1, 3, 8, 20]), "int")
        top = 3 * team + 8
    else:
        plan["q"] = Q.gen_q(rng, tier)
        top = 12
    r = rng.random()
    plan["fails"], plan["fail_from"] = [], -1
    if r < 0.55:
        plan["fails"] = [rng.randrange(top)]
    elif r < 0.75:
        plan["fails"] = sorted({rng.randrange(top) for _ in range(rng.randint(2, 4))})
    elif r < 0.95:
        plan["fail_from"] = rng.randrange(top)
    return plan


def run(plan, ctx, res):
    sim = ctx["sims"][plan["build"]]
    sim.activate()
    caller = []
    if plan["kernel"] in ("grid", "gridacc"):
        b = [G.axis_bounds(a) for a in plan["axes"]]
        lo, hi, n = zip(*b)
        data = G.to_array(plan["points"])
        kw = {}
        if plan["kernel"] == "gridacc":
            kw = {"gridout": np.full(n, 2.0), "grid2out": np.full(n, 4.0), "nout": np.ones(n, dtype=np.uint64)}
        caller = [data] + list(kw.values())
        fn = lambda: sim.mod.grid3d(data, lo, hi, n, **kw)  # noqa: E731
    else:
        kw = Q.kwargs(plan["q"])
        caller = [kw["setting_angles"], kw["ub"]]
        if plan["kernel"] == "qpy":
            fn = lambda: ctx["recip"].process_to_q(**kw)  # noqa: E731
        else:
            m = [None, "theta", "phi", "cart", "hkl"].index(plan["q"]["mode"]) or 4
            ub = np.linalg.inv(kw["ub"])
            fn = lambda: sim.mod.ccdToQ(kw["setting_angles"] * np.pi / 180.0, m, kw["detector_size"], kw["pixel_size"],  # noqa: E731
                                        kw["calibrated_center"], kw["dist_sample"], kw["wavelength"], ub)
    before = [c.copy() for c in caller]

    def held():
        return [sys.getrefcount(caller[i]) for i in range(len(caller))]

    refs = held()
    out, exc, info = sim.call(fn, plan["sched"], plan["max"], plan["team"], fails=plan["fails"], fail_from=plan["fail_from"], poison=plan["poison"])
    res.sched = sim.recorded()
    G.account(res, info)
    en = None if exc is None else type(exc).__name__
    ismem = isinstance(exc, MemoryError)
    ex_text = str(exc)
    res.log("call", plan["kernel"], info["il"], info["steps"], info["failed"], info["allocs"], en)
    if info["oob"] or info["uaf"] or info["badfree"]:
        res.bad("oom-memory", "out of bounds=%d use after free=%d bad free=%d" % (info["oob"], info["uaf"], info["badfree"]))
    if info["failed"]:
        res.count("checks")
        if exc is None:
            res.bad("oom-returned", "%s returned a result although %d of %d allocations failed" % (plan["kernel"], info["failed"], info["allocs"]))
        if not ismem:
            res.bad("oom-exception-type", "%s: %s" % (en, ex_text))
        for c, c0 in zip(caller, before):
            if not np.array_equal(c, c0, equal_nan=c.dtype.kind == "f"):
                res.bad("oom-caller-array", "an array of the caller changed although the call failed")
        if info["leaks"]:
            res.bad("oom-leak", "%d kernel allocations still live after the failed call" % info["leaks"])
        exc = None
        live = sim.lib.simctl_np_live()
        if live:
            res.bad("oom-leak-array", "%d numpy arrays still live after the failed call" % live)
        res.count("probe:failed_call_%s" % plan["kernel"])
    else:
        if exc is not None:
            res.bad("oom-spurious", "no allocation failed but the call raised %s: %s" % (en, ex_text))
        if info["leaks"]:
            res.bad("oom-leak", "%d kernel allocations still live after the call" % info["leaks"])
    fp = fingerprint(info["il"], plan["fails"], plan["fail_from"], plan["kernel"], plan["build"], plan["max"], plan["team"])
    failed = info["failed"]
    if failed:
        out, exc, info = sim.call(fn, plan["sched"], plan["max"], plan["team"], poison=plan["poison"])
        res.count("steps", info["steps"])
        if exc is not None:
            res.bad("oom-retry", "retry raised %s: %s" % (type(exc).__name__, exc))
        if info["oob"] or info["uaf"] or info["badfree"] or info["leaks"]:
            res.bad("oom-retry-memory", "out of bounds=%d use after free=%d bad free=%d leaks=%d" % (info["oob"], info["uaf"], info["badfree"], info["leaks"]))
    if plan["kernel"] in ("grid", "gridacc"):
        tot, tot2, cnt, sc = G.reference(plan["points"], lo, hi, n)
        if plan["kernel"] == "gridacc":
            tot, tot2, cnt = tot + 2.0, tot2 + 4.0, cnt + 1
        G.compare(res, out, (tot, tot2, cnt, sc), True, "oom-retry")
    else:
        ref, scale = Q.reference(plan["q"])
        o = np.asarray(out)
        if o.shape != ref.shape or not np.all(np.abs(o - ref) <= 2e-11 * (1 + scale)):
            res.bad("oom-retry-value", "")
    res.log("out", dig(*(out if isinstance(out, tuple) else (out,))))
    exc = o = ref = tot = tot2 = cnt = sc = c = None
    out = None
    live = sim.lib.simctl_np_live()
    if live:
        res.bad("oom-leak-array", "%d numpy arrays still live after the call and its result are gone" % live)
    if held() != refs:
        res.bad("oom-leak-array", "the call keeps hold of an array of the caller")
    res.nontrivial = failed > 0
    res.fp = fp


def matches_known(k, plan, res):
    return False


def concretise(plan, res):
    p = dict(plan)
    if res.sched is not None:
        p["sched"] = {"mode": "replay", "switches": res.sched}
    return p


def shrinks(plan):
    yield from shrink_schedule(plan)
    yield from shrink_list(plan, ("fails",))
    if "points" in plan:
        yield from shrink_list(plan, ("points",))
        for k in range(3):
            yield from shrink_int(plan, ("axes", k, 2), 1)
    else:
        yield from shrink_list(plan, ("q", "angles"))
        for k in range(2):
            yield from shrink_int(plan, ("q", "det", k), 1)
    yield from shrink_int(plan, ("team",), 1)
    if plan["max"] > plan["team"]:
        yield from shrink_int(plan, ("max",), plan["team"])
    yield from shrink_choice(plan, ("poison",), 0xA5)
