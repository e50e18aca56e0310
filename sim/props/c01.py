"""C01: gridding is complete and schedule independent."""
import numpy as np

from .. import csim_api
from ..core import dig, fingerprint, shrink_choice, shrink_int, shrink_list, shrink_schedule, terse
from . import gridlib as G

RUNS = {"quick": 150000, "thorough": 3000000}
BUDGET = {"quick": 100, "thorough": 600}
RULE = ("a run = one gridding call (or two on shared state) with a random point set, grid, build, team size, fresh-memory pattern and a seeded "
        "interleaving of all instrumented memory accesses; non-trivial if at least one context switch happened between two threads")
MEASURE = "distinct (interleaving hash, configuration) pairs"
REAL, STUB = G.REAL, G.STUB
ASSUMPTIONS = ["sequentially consistent interleaving of the instrumented accesses (weak-memory reorderings are not modelled)"]


def prepare(scratch):
    csim_api.prebuild()


def setup():
    ctx = csim_api.all_builds()
    import skbeam.core.utils as u

    return {"sims": ctx, "u": u}


def gen(rng, tier):
    mx, team = G.gen_team(rng)
    plan = {
        "build": rng.choice(["O0", "O0", "O0", "O1", "O1", "noomp"]),
        "max": mx, "team": team, "poison": rng.choice([0xA5, 0xFF, 0x00, 0x7F, 0x41]),
        "sched": G.gen_sched(rng),
        "api": rng.choice(["raw", "raw", "utils"]), "again": rng.random() < 0.3,
    }
    kind = plan["kind"] = rng.choice(["int", "int", "float"])
    big = tier == "thorough" and rng.random() < 0.1
    npts = G.gen_count(rng, [0, 1, 2, 3, 5, 8, 13, 24, 40]) if not big else rng.randint(50, 200)
    if plan["api"] == "raw":
        plan["axes"] = G.gen_axes(rng)
        plan["points"] = G.gen_points(rng, plan["axes"], npts, kind)
        plan["ignore_nan"] = rng.choice([None, None, None, 0, 1, True, False])
        plan["how"] = G.gen_container(rng)
        if rng.random() < 0.04:
            # output arrays that do not fit the grid: must be refused, never written past
            plan["misfit"] = [rng.choice(["gridout", "grid2out", "nout"]), rng.choice([-1, 0, 1])]
        elif rng.random() < 0.03:
            # a grid without voxels: must be refused
            plan["noaxis"] = [rng.randrange(3), rng.choice([0, 0, -1])]
    else:
        # default bounds: the extremes of the data must be inside
        plan["n"] = [rng.choice([None, 1, 2, 3, 4, 6]) if rng.random() < 0.9 else None for _ in range(3)]
        plan["n"] = [v if v is not None else rng.choice([2, 5]) for v in plan["n"]]
        if rng.random() < 0.03:
            plan["n"][rng.randrange(3)] = 100  # the default
        base = [rng.choice([0.0, -7.0, 3.25, -0.001, 1e-3, -1e3]) for _ in range(3)]
        span = [rng.choice([1.0, 0.37, 12.5, 1e-4, 7.0, 0.0]) for _ in range(3)]
        ends = rng.random() < 0.3
        if ends:
            base = [-s * rng.choice([0.5, 1.0]) for s in span]
        rows, cols = rng.randint(1, 4), rng.randint(1, 4)
        nimg = rng.randint(1, 3)
        if rng.random() < 0.01:
            rows, cols, nimg = rng.randint(5, 24), rng.randint(5, 24), rng.randint(1, 5)
        npts = rows * cols * nimg
        pts = []
        for i in range(npts):
            c = []
            for k in range(3):
                r = rng.random()
                if r < 0.15:
                    f = 0.0
                elif r < 0.3:
                    f = 1.0
                else:
                    f = (rng.randrange(plan["n"][k]) + rng.uniform(0.05, 0.95)) / plan["n"][k]
                c.append(base[k] + span[k] * f)
            pts.append(c + [G.gen_intensity(rng, kind)])
        plan["points"] = pts
        plan["img"] = [nimg, rows, cols]
        plan["mask"] = rng.choice([None, None, "stack", "image"])
        plan["maskbits"] = [rng.random() < 0.7 for _ in range(npts)]
        plan["dtype"] = rng.choice(["f8", "f4", "i8", "u2"]) if kind == "int" else "f8"
        plan["qtype"] = rng.choice(["f8", "f8", "f8", "list", "f4", "i8", "i2"])
        plan["masktype"] = rng.choice(["?", "?", "i8", "u1", "f8"])
        plan["lost"] = [[rng.randrange(npts), rng.randrange(3), rng.choice(["nan", "inf", "-inf"])] for _ in range(rng.choice([0, 0, 0, 1, 2]))] if npts > 3 else []
        # some bounds of the caller's own
        plan["own"] = [rng.choice([None, None, None, 0.0, -0.1, 0.26]) if rng.random() < 0.3 else None for _ in range(6)]
    return plan


def rotated(points):
    return [p[:3] + [points[i - 1][3]] for i, p in enumerate(points)]


def run(plan, ctx, res):
    sim = ctx["sims"][plan["build"]]
    kind = plan["kind"]
    if plan["api"] == "raw":
        b = [G.axis_bounds(a) for a in plan["axes"]]
        lo, hi, n = zip(*b)
        data = G.container(G.to_array(plan["points"]), plan["how"])
        keep = np.array(data)
        if plan.get("noaxis"):
            n = tuple(plan["noaxis"][1] if k == plan["noaxis"][0] else v for k, v in enumerate(n))
            got, exc, info = sim.call(lambda: sim.mod.grid3d(data, lo, hi, n), plan["sched"], plan["max"], plan["team"], poison=plan["poison"])
            res.sched = sim.recorded()
            G.account(res, info)
            G.memory_ok(res, info, "grid")
            res.count("fault:grid_without_voxels")
            if not isinstance(exc, ValueError):
                res.bad("grid-empty", "a grid of %s voxels was not refused (%s)" % (n, type(exc).__name__))
            res.nontrivial = False
            return
        kw = {} if plan["ignore_nan"] is None else {"ignore_nan": plan["ignore_nan"]}
        misfit = plan.get("misfit")
        if misfit:
            total = n[0] * n[1] * n[2]
            size = total + misfit[1]
            if misfit[1] == 0:
                size = max(1, total // 2) if total > 1 else 3
            kw[misfit[0]] = np.zeros(max(size, 0), dtype=np.uint64 if misfit[0] == "nout" else float)
        fn = lambda: sim.mod.grid3d(data, lo, hi, n, **kw)  # noqa: E731
        ref = G.reference(plan["points"], lo, hi, n, bool(plan["ignore_nan"]))
        got, exc, info = sim.call(fn, plan["sched"], plan["max"], plan["team"], poison=plan["poison"])
        res.sched = sim.recorded()
        G.account(res, info)
        res.log("raw", info["il"], info["steps"], None if got is None else dig(*got[:4]))
        G.memory_ok(res, info, "grid")
        if not np.array_equal(keep, np.array(data), equal_nan=True):
            res.bad("grid-input-modified", "")
        if misfit:
            res.count("fault:misfit_array")
            if not isinstance(exc, ValueError):
                res.bad("grid-misfit", "an output array of the wrong size was not refused (%s)" % type(exc).__name__)
            if any(np.any(v != 0) for k, v in kw.items() if k != "ignore_nan"):
                res.bad("grid-misfit-written", "")
        elif exc is not None:
            res.bad("grid-exception", "%s: %s" % (type(exc).__name__, exc))
        else:
            G.compare(res, got, ref, kind == "int", "grid")
            if plan["again"]:  # the same positions with other intensities, in the same memory if possible
                pts = rotated(plan["points"])
                new = G.container(G.to_array(pts), plan["how"])
                if isinstance(data, np.ndarray) and data.flags.writeable:
                    data[...] = new
                else:
                    data = new
                got, exc, _ = sim.call(fn, {"mode": "rand", "seed": 1, "p": 0}, 1, 1, poison=plan["poison"])
                if exc is not None:
                    res.bad("grid-exception", "second call: %s: %s" % (type(exc).__name__, exc))
                G.compare(res, got, G.reference(pts, lo, hi, n, bool(plan["ignore_nan"])), kind == "int", "grid-again")
    else:
        run_utils(plan, ctx, sim, res)
        info = ctx["info"]
        if plan["again"]:
            first = res.sched
            run_utils(dict(plan, points=rotated(plan["points"]), max=1, team=1, sched={"mode": "rand", "seed": 1, "p": 0}), ctx, sim, res)
            res.sched = first
    res.nontrivial = info["switches"] > plan["team"]
    res.fp = fingerprint(info["il"], plan["build"], plan["max"], plan["team"], len(plan["points"]), plan["api"])


def run_utils(plan, ctx, sim, res):
    sim.activate()
    nimg, rows, cols = plan["img"]
    data = G.to_array(plan["points"])
    if len(data) != nimg * rows * cols:
        from ..core import InvalidPlan

        raise InvalidPlan
    q = data[:, :3].copy()
    if plan["qtype"] in ("i8", "i2"):
        q = np.round(np.clip(q * 4, -3000, 3000)).astype(plan["qtype"])
    elif plan["qtype"] == "f4":
        q = q.astype("f4")
    if q.dtype.kind == "f":
        for i, k, v in plan["lost"]:
            if i < len(q):
                q[i, k] = float(v)
    img = data[:, 3].reshape(nimg, rows, cols)
    nan = np.isnan(img)
    if plan["dtype"] == "u2":
        img = np.abs(img)
    if plan["dtype"][0] in "iu":
        img = np.where(nan, 0, img)
    img = img.astype(plan["dtype"])
    bits = np.array(plan["maskbits"][: img.size], dtype=bool)
    if plan["mask"] == "stack":
        mask = bits.reshape(img.shape)
        keep = bits
    elif plan["mask"] == "image":
        mask = bits[: rows * cols].reshape(rows, cols)
        keep = np.tile(mask.ravel(), nimg)
    else:
        mask, keep = None, np.ones(img.size, dtype=bool)
    if mask is not None:
        mask = mask.astype(plan["masktype"])
    q0, i0 = q.copy(), img.copy()
    m0 = None if mask is None else mask.copy()
    x0 = q0.astype(float)
    finite = np.isfinite(x0).all(axis=1)
    if not finite.any():
        from ..core import InvalidPlan

        raise InvalidPlan
    dlo, dhi = x0[finite].min(axis=0), x0[finite].max(axis=0)
    kw = {}
    for j, f in enumerate(plan["own"]):
        k = j % 3
        if f is not None and dhi[k] > dlo[k]:
            kw[("xmin", "ymin", "zmin", "xmax", "ymax", "zmax")[j]] = float(dlo[k] + f * (dhi[k] - dlo[k])) if j < 3 else float(dhi[k] - f * (dhi[k] - dlo[k]))
    sizes = dict(zip(("nx", "ny", "nz"), plan["n"]), binary_mask=mask)
    sizes = terse(True, sizes, nx=100, ny=100, nz=100, binary_mask=None)
    fn = lambda: ctx["u"].grid3d(q.tolist() if plan["qtype"] == "list" else q, img, **sizes, **kw)  # noqa: E731
    got, exc, info = sim.call(fn, plan["sched"], plan["max"], plan["team"], poison=plan["poison"])
    ctx["info"] = info
    res.sched = sim.recorded()
    G.account(res, info)
    res.log("utils", info["il"], info["steps"], None if got is None else dig(*got[:3]))
    if info["oob"] or info["uaf"] or info["badfree"]:
        G.memory_ok(res, info, "grid")
    if exc is not None:
        res.bad("grid-exception", "%s: %s" % (type(exc).__name__, exc))
    if not np.array_equal(q, q0, equal_nan=q.dtype.kind == "f") or not np.array_equal(img, i0, equal_nan=img.dtype.kind == "f") or (mask is not None and not np.array_equal(mask, m0)):
        res.bad("grid-input-modified", "")
    mean, occ, err, bounds = got
    vals = img.ravel().astype(float)
    use = keep & ~np.isnan(vals) & finite
    res.count("checks")
    if not kw and int(np.sum(occ)) != int(use.sum()):
        res.bad("grid-lost-points", "%d points counted, %d finite unmasked points given (default bounds)" % (int(np.sum(occ)), int(use.sum())))
    res.count("probe:default_bounds")
    bounds = np.asarray(bounds, dtype=float)
    lo, hi = dlo.copy(), dhi.copy()
    given = np.zeros((2, 3), bool)
    for name, v in kw.items():
        k = "xyz".index(name[0])
        (lo if name.endswith("min") else hi)[k] = v
        given[0 if name.endswith("min") else 1, k] = True
    if not (np.allclose(bounds[:, 0], lo, rtol=1e-9, atol=1e-12) and np.allclose(bounds[:, 1], hi, rtol=1e-9, atol=1e-12) and np.array_equal(bounds[:, 2], plan["n"])):
        res.bad("grid-bounds", "bounds %s for data %s..%s" % (bounds.tolist(), lo.tolist(), hi.tolist()))
    # voxel of each point, from the data's own extremes
    tot = np.zeros(plan["n"])
    tot2 = np.zeros(plan["n"])
    cnt = np.zeros(plan["n"], dtype=np.int64)
    for p, v, u in zip(x0, vals, use):
        if not u:
            continue
        idx = []
        for k in range(3):
            n = plan["n"][k]
            if hi[k] == lo[k]:
                idx.append(0)
            else:
                x = (p[k] - lo[k]) / (hi[k] - lo[k]) * n
                if p[k] == lo[k]:
                    x = 0
                elif p[k] == hi[k]:
                    x = n if given[1, k] else n - 0.5  # the caller's own bound is exclusive
                elif abs(x - round(x)) < 1e-6:
                    return  # too close to a voxel edge for the reference to decide
                if not 0 <= x < n:
                    break
                idx.append(int(x))
        if len(idx) < 3:
            continue
        tot[tuple(idx)] += v
        tot2[tuple(idx)] += v * v
        cnt[tuple(idx)] += 1
    with np.errstate(all="ignore"):
        want_mean = tot / cnt
    if not np.array_equal(np.asarray(occ).astype(np.int64), cnt):
        res.bad("grid-counts", "occupancy %s expected %s" % (np.asarray(occ).ravel().tolist(), cnt.ravel().tolist()))
    if not np.allclose(mean, want_mean, rtol=1e-11, atol=1e-11, equal_nan=True):
        res.bad("grid-mean", "mean %s expected %s" % (np.asarray(mean).ravel().tolist()[:20], want_mean.ravel().tolist()[:20]))
    e = G.ref_stderr(tot, tot2, cnt)
    slack = np.sqrt(1e-12 * (1 + tot2 / np.maximum(cnt, 1)))
    d = np.abs(err - e)
    if not np.all((d <= 1e-7 * (1 + e) + slack) | (np.isnan(err) & (e <= slack))):
        res.bad("grid-stderr", "std err %s expected %s" % (np.asarray(err).ravel().tolist()[:20], e.ravel().tolist()[:20]))


def matches_known(k, plan, res):
    return False


def concretise(plan, res):
    p = dict(plan)
    if res.sched is not None:
        p["sched"] = {"mode": "replay", "switches": res.sched}
    return p


def shrinks(plan):
    yield from shrink_schedule(plan)
    if plan["api"] == "raw":
        yield from shrink_list(plan, ("points",))
        for k in range(3):
            yield from shrink_int(plan, ("axes", k, 2), 1)
    yield from shrink_int(plan, ("team",), 1)
    if plan["max"] > plan["team"]:
        yield from shrink_int(plan, ("max",), plan["team"])
    yield from shrink_choice(plan, ("poison",), 0xA5)
    yield from shrink_choice(plan, ("again",), False)
