"""C04: gridding in batches accumulates like one pass over all the data."""
import numpy as np

from .. import csim_api
from ..core import dig, fingerprint, put, shrink_choice, shrink_int, shrink_list
from . import gridlib as G

RUNS = {"quick": 80000, "thorough": 2000000}
BUDGET = {"quick": 120, "thorough": 600}
RULE = ("a run = a history of gridding batches feeding back the previous arrays, with allocation failures, refused batches and retries mixed in, each batch "
        "under its own seeded interleaving and team size, compared after every batch with one pass over the accepted data; non-trivial if at least two "
        "batches were accepted")
MEASURE = "distinct (sequence of batch kinds and outcomes, interleaving hashes) histories"
REAL, STUB = G.REAL, G.STUB
ASSUMPTIONS = ["sequentially consistent interleaving of the instrumented accesses (weak-memory reorderings are not modelled)"]


def prepare(scratch):
    csim_api.prebuild()


def setup():
    return {"sims": csim_api.all_builds()}


def gen(rng, tier):
    axes = G.gen_axes(rng)
    kind = rng.choice(["int", "int", "float"])
    ops = []
    for _ in range(rng.randint(1, 7 if tier == "quick" else 14) if rng.random() < 0.99 else 40):
        mx, team = G.gen_team(rng)
        op = {"do": "grid", "max": mx, "team": team, "sched": G.gen_sched(rng), "poison": rng.choice([0xA5, 0xFF, 0x00, 0x7F]),
              "points": G.gen_points(rng, axes, G.gen_count(rng, [0, 1, 2, 4, 7, 15]), kind), "how": G.gen_container(rng),
              "feed": rng.choice(["same", "same", "copy", "F", "list", "i8"])}
        r = rng.random()
        if r < 0.2:
            op["do"] = "oom"
            op["fails"] = sorted({rng.randrange(3 * team + 6) for _ in range(rng.randint(1, 2))})
        elif r < 0.3:
            op["do"] = "reject"
            op["why"] = rng.choice(["cols", "rank", "misfit", "misfit", "text"])
        ops.append(op)
    return {"build": rng.choice(["O0", "O1", "O1", "noomp"]), "axes": axes, "kind": kind, "ops": ops}


def feed(state, how):
    if state is None:
        return {}
    s, s2, c = state
    if how == "copy":
        s, s2, c = s.copy(), s2.copy(), c.copy()
    elif how == "F":
        s, s2, c = np.asfortranarray(s), np.asfortranarray(s2), np.asfortranarray(c)
    elif how == "list" and s.size:
        s, s2, c = s.tolist(), s2.tolist(), c.tolist()
    elif how == "i8":
        c = c.astype(np.int64).astype(np.uint64)
    return {"gridout": s, "grid2out": s2, "nout": c}


def run(plan, ctx, res):
    sim = ctx["sims"][plan["build"]]
    b = [G.axis_bounds(a) for a in plan["axes"]]
    lo, hi, n = zip(*b)
    exact = plan["kind"] == "int"
    state = None  # arrays returned by the last accepted batch
    accepted = []
    hist = []
    nok = 0
    for op in plan["ops"]:
        data = G.container(G.to_array(op["points"]), op["how"])
        kw = feed(state, op["feed"])
        before = {k: np.array(v) for k, v in kw.items()}
        d0 = np.array(data)
        if op["do"] == "reject":
            bad_data, bad_kw = data, dict(kw)
            if op["why"] == "cols":
                bad_data = np.zeros((3, 3))
            elif op["why"] == "rank":
                bad_data = np.zeros((2, 2, 4))
            elif op["why"] == "text":
                bad_data = "not an array"
            else:
                bad_kw["nout"] = np.zeros(n[0] * n[1] * n[2] + 1, dtype=np.uint64)
            fn = lambda: sim.mod.grid3d(bad_data, lo, hi, n, **bad_kw)  # noqa: E731
        else:
            fn = lambda: sim.mod.grid3d(data, lo, hi, n, **kw)  # noqa: E731
        out, exc, info = sim.call(fn, op["sched"], op["max"], op["team"], fails=op.get("fails", ()), poison=op["poison"])
        G.account(res, info)
        en = None if exc is None else type(exc).__name__
        res.log(op["do"], info["il"], info["steps"], info["failed"], en)
        hist.append((op["do"], en, info["il"]))
        if info["oob"] or info["uaf"] or info["badfree"] or info["leaks"]:
            G.memory_ok(res, info, "acc")
        if op["do"] == "reject":
            res.count("fault:refused_batch")
            if exc is None:
                res.bad("acc-not-refused", op["why"])
        elif exc is not None and not (info["failed"] and isinstance(exc, MemoryError)):
            res.bad("acc-exception", "%s: %s" % (en, exc))
        if not np.array_equal(np.array(data), d0, equal_nan=True):
            res.bad("acc-input-modified", "")
        if exc is not None:
            for k, v in kw.items():
                res.count("checks")
                if not np.array_equal(np.asarray(v), before[k], equal_nan=before[k].dtype.kind == "f"):
                    res.bad("acc-failed-batch-added", "%s changed although the batch failed (%s)" % (k, en))
            if op["do"] == "oom":
                # retry the failed batch now that memory is back
                res.count("probe:retried_batch")
                out, exc, info = sim.call(fn, op["sched"], op["max"], op["team"], poison=op["poison"])
                G.account(res, info)
                if exc is not None:
                    res.bad("acc-retry", "%s: %s" % (type(exc).__name__, exc))
            else:
                continue
        if len(out) != 4:
            res.bad("acc-shape", "%d values returned" % len(out))
        accepted += op["points"]
        nok += 1
        state = tuple(np.asarray(v) for v in out[:3])
        G.compare(res, out, G.reference(accepted, lo, hi, n), exact, "acc")
        res.log(dig(*out))
    res.nontrivial = nok >= 2
    res.fp = fingerprint(hist, n, plan["build"])


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("ops",), 1)
    for i, op in enumerate(plan["ops"]):
        yield from shrink_list(plan, ("ops", i, "points"))
        yield from shrink_int(plan, ("ops", i, "team"), 1)
        if op["max"] > op["team"]:
            yield from shrink_int(plan, ("ops", i, "max"), op["team"])
        yield from shrink_choice(plan, ("ops", i, "how"), "C")
        yield from shrink_choice(plan, ("ops", i, "feed"), "same")
        if op["sched"].get("p"):
            yield put(plan, ("ops", i, "sched", "p"), 0)
    for k in range(3):
        yield from shrink_int(plan, ("axes", k, 2), 1)
