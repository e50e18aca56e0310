"""C03: angle-to-Q conversion is independent of threads and batching."""
import numpy as np

from .. import csim_api
from ..core import dig, fingerprint, shrink_choice, shrink_int, shrink_list, shrink_schedule, terse
from . import gridlib as G
from . import qlib as Q

RUNS = {"quick": 120000, "thorough": 2000000}
BUDGET = {"quick": 120, "thorough": 600}
RULE = ("a run = one conversion of a random image stack in a random geometry and frame mode with a random team size, build and seeded interleaving "
        "of all memory accesses, compared with the formulas and with every image converted alone on one thread; non-trivial if the team switched threads")
MEASURE = "distinct (interleaving hash, configuration) pairs"
REAL = G.REAL + ["skbeam/core/recip.py:process_to_q"]
STUB = G.STUB
ASSUMPTIONS = ["sequentially consistent interleaving of the instrumented accesses (weak-memory reorderings are not modelled)"]


def prepare(scratch):
    csim_api.prebuild()


def setup():
    sims = csim_api.all_builds()
    import skbeam.core.recip as recip

    return {"sims": sims, "recip": recip}


def gen(rng, tier):
    mx, team = G.gen_team(rng)
    return {"build": rng.choice(["O0", "O0", "O1", "O1", "noomp"]), "max": mx, "team": team, "poison": rng.choice([0xA5, 0xFF, 0x00, 0x7F]),
            "sched": G.gen_sched(rng), "q": Q.gen_q(rng, tier), "how": rng.choice(["C", "F", "list"]),
            "again": rng.choice([None, None, "angles", "angles", "det", "pix", "cen", "dist", "wl", "ub", "mode"])}


def similar(q, what):
    v = q[what]
    if what == "angles":
        new = [a[:] for a in v]
        new[-1][0] += 0.01
        if len(new) > 1:
            new.reverse()
    elif what == "mode":
        new = Q.MODES[(Q.MODES.index(v or "hkl") + 1) % 4]
    elif what == "ub":
        new = [[x * 1.001 for x in r] for r in v]
    elif what in ("det", "pix", "cen"):
        new = v[::-1]
    else:
        new = v * 1.001
    return dict(q, **{what: new})


def run(plan, ctx, res):
    sim = ctx["sims"][plan["build"]]
    sim.activate()
    q = plan["q"]
    f = ctx["recip"].process_to_q
    kw = Q.kwargs(q)
    kw = terse(plan["poison"] == 0xA5, kw, frame_mode=None)
    ang0, ub0 = kw["setting_angles"].copy(), kw["ub"].copy()
    if plan["how"] == "F":
        kw["setting_angles"] = np.asfortranarray(kw["setting_angles"])
    elif plan["how"] == "list" and len(ang0):
        kw["setting_angles"] = kw["setting_angles"].tolist()
    out, exc, info = sim.call(lambda: f(**kw), plan["sched"], plan["max"], plan["team"], poison=plan["poison"])
    res.sched = sim.recorded()
    G.account(res, info)
    res.log("q", info["il"], info["steps"], None if out is None else dig(out))
    if info["oob"] or info["uaf"] or info["badfree"]:
        res.bad("q-memory", "out of bounds=%d use after free=%d bad free=%d" % (info["oob"], info["uaf"], info["badfree"]))
    if exc is not None:
        res.bad("q-exception", "%s: %s" % (type(exc).__name__, exc))
    if not np.array_equal(np.asarray(kw["setting_angles"]), ang0) or not np.array_equal(kw["ub"], ub0):
        res.bad("q-input-modified", "")
    ref, scale = Q.reference(q)
    out = np.asarray(out)
    res.count("checks")
    if out.shape != ref.shape:
        res.bad("q-shape", "%s expected %s" % (out.shape, ref.shape))
    d = np.abs(out - ref)
    if not np.all(d <= 1e-12 * (1 + scale) * 20):
        i = np.argwhere(~(d <= 2e-11 * (1 + scale)))
        res.bad("q-formula", "row %s: %s expected %s" % (i[0].tolist() if len(i) else "?", out[i[0][0]].tolist() if len(i) else "", ref[i[0][0]].tolist() if len(i) else ""))
    npix = q["det"][0] * q["det"][1]
    for i in range(len(q["angles"])):
        one, exc, inf1 = sim.call(lambda: f(**Q.kwargs(q, [i])), {"mode": "rand", "seed": 1, "p": 0}, 1, 1, poison=plan["poison"])
        if exc is not None:
            res.bad("q-exception-alone", "%s: %s" % (type(exc).__name__, exc))
        if not np.array_equal(np.asarray(one), out[i * npix:(i + 1) * npix]):
            res.bad("q-batching", "image %d in the stack differs from the same image converted alone" % i)
    if plan["again"] and len(q["angles"]):  # the next conversion differs in one thing only; a caller may keep its angles in the same memory
        q2 = similar(q, plan["again"])
        kw2 = dict(Q.kwargs(q2))
        if plan["again"] == "angles" and isinstance(kw["setting_angles"], np.ndarray):
            kw["setting_angles"][...] = kw2["setting_angles"]
            kw2["setting_angles"] = kw["setting_angles"]
        two, exc, inf2 = sim.call(lambda: f(**kw2), {"mode": "rand", "seed": 1, "p": 0}, 1, 1, poison=plan["poison"])
        if exc is not None:
            res.bad("q-exception-again", "%s: %s" % (type(exc).__name__, exc))
        ref2, scale = Q.reference(q2)
        res.count("checks")
        if np.shape(two) != ref2.shape or not np.all(np.abs(two - ref2) <= 2e-11 * (1 + scale)):
            res.bad("q-history", "after the conversion of a similar stack (other %s)" % plan["again"])
    res.nontrivial = info["switches"] > plan["team"]
    res.fp = fingerprint(info["il"], plan["build"], plan["max"], plan["team"], len(q["angles"]), q["det"], q["mode"])


def matches_known(k, plan, res):
    return False


def concretise(plan, res):
    p = dict(plan)
    if res.sched is not None:
        p["sched"] = {"mode": "replay", "switches": res.sched}
    return p


def shrinks(plan):
    yield from shrink_schedule(plan)
    yield from shrink_list(plan, ("q", "angles"))
    for k in range(2):
        yield from shrink_int(plan, ("q", "det", k), 1)
    yield from shrink_int(plan, ("team",), 1)
    if plan["max"] > plan["team"]:
        yield from shrink_int(plan, ("max",), plan["team"])
    yield from shrink_choice(plan, ("how",), "C")
    yield from shrink_choice(plan, ("again",), None)
