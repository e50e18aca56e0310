"""Workload and reference model shared by C01, C02 and C04."""
import numpy as np

P_CHOICES = [65536, 30000, 10000, 3000, 600, 100]


def gen_sched(rng):
    return {"mode": "rand", "seed": rng.getrandbits(63), "p": rng.choice(P_CHOICES)}


def gen_team(rng):
    mx = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8] * 3 + [12, 16])
    if rng.random() < 0.003:
        mx = rng.choice([24, 33, 48, 65, 130])  # a large machine
    team = mx if rng.random() < 0.8 else rng.randint(1, mx)
    return mx, team


def gen_axis(rng):
    """One axis: (start, stop, n).  Dyadic axes are exact in floating point, others use interior points only."""
    n = rng.choice([1, 1, 2, 2, 3, 4, 4, 5, 7, 8])
    if rng.random() < 0.5:
        n = rng.choice([1, 2, 4, 8])
        return [float(rng.choice([-2, -1, 0, 1])), None, n, True]
    return [rng.choice([-3.5, -0.3, 0.0, 0.1, 2.2]), rng.choice([0.7, 1.0, 3.3, 11.0]), n, False]


def gen_axes(rng):
    axes = [gen_axis(rng) for _ in range(3)]
    if rng.random() < 0.01:  # a large grid
        axes[rng.randrange(3)][2] = rng.choice([16, 32, 64])
        axes[rng.randrange(3)][2] = rng.choice([16, 32])
    return axes


def gen_count(rng, small):
    """How many points: mostly a handful, now and then hundreds or thousands."""
    r = rng.random()
    if r < 0.0015:
        return rng.randint(3000, 6000)
    if r < 0.008:
        return rng.randint(200, 1100)
    return rng.choice(small)


def axis_bounds(ax):
    start, ln, n, dyadic = ax
    if dyadic:
        return start, start + 1.0, n
    return start, start + ln, n


def gen_coord(rng, ax):
    lo, hi, n = axis_bounds(ax)
    w = hi - lo
    r = rng.random()
    if r < 0.06:
        return lo - rng.choice([0.01, 1.0, 100.0]) * w  # below
    if r < 0.12:
        return hi + rng.choice([0.0 if ax[3] else 0.01, 0.01, 50.0]) * w  # above (or exactly the open edge)
    k = rng.randrange(n)
    if ax[3]:
        # exact: cell edge, centre, quarter points
        return lo + (k + rng.choice([0.0, 0.25, 0.5, 0.75])) / n
    return lo + w * (k + rng.uniform(0.02, 0.98)) / n


def gen_intensity(rng, kind):
    r = rng.random()
    if r < 0.05:
        return None  # NaN
    if kind == "int":
        return float(rng.choice([0, 1, 2, 3, 5, 7, 100, -4, rng.randint(0, 60000)]))
    return rng.choice([rng.uniform(0, 1), rng.uniform(-5, 1e3)])


def gen_points(rng, axes, n, kind):
    pts = [[gen_coord(rng, axes[0]), gen_coord(rng, axes[1]), gen_coord(rng, axes[2]), gen_intensity(rng, kind)] for _ in range(n)]
    if n and rng.random() < 0.04:  # infinite intensities count, points at infinity or nowhere do not
        for _ in range(rng.choice([1, 1, 3])):
            p = rng.choice(pts)
            if rng.random() < 0.4:
                p[3] = rng.choice([float("inf"), float("-inf")])
            else:
                p[rng.randrange(3)] = rng.choice([float("inf"), float("-inf"), float("nan"), 1e300, -1e300])
    return pts


def to_array(points):
    a = np.array([[p[0], p[1], p[2], np.nan if p[3] is None else p[3]] for p in points], dtype=float)
    return a.reshape(-1, 4)


def reference(points, lo, hi, n, count_nan=False):
    """Direct single-threaded definition; out-of-range points and (unless count_nan) NaN points are skipped."""
    tot = np.zeros(n)
    tot2 = np.zeros(n)
    cnt = np.zeros(n, dtype=np.int64)
    scale = np.zeros(n)
    for p in to_array(points):
        if np.isnan(p[3]) and not count_nan:
            continue
        idx = []
        for k in range(3):
            if not (lo[k] <= p[k] < hi[k]):
                break
            i = int((p[k] - lo[k]) / (hi[k] - lo[k]) * n[k])
            idx.append(min(i, n[k] - 1))
        else:
            i = tuple(idx)
            tot[i] += p[3]
            tot2[i] += p[3] * p[3]
            cnt[i] += 1
            scale[i] += abs(p[3])
    return tot, tot2, cnt, scale


def ref_stderr(tot, tot2, cnt):
    c = np.maximum(cnt, 1)
    var = (tot2 - tot**2 / c) / c
    return np.where(cnt == 0, 0.0, np.sqrt(np.maximum(var, 0)) / np.sqrt(c))


def compare(res, got, ref, exact, what):
    """got = (sum, sum2, count, stderr) from the code, ref = reference(...)"""
    tot, tot2, cnt, scale = ref
    g, g2, gn, ge = [np.asarray(v) for v in got]
    res.count("checks")
    for name, v in (("sum", g), ("sum2", g2), ("count", gn), ("stderr", ge)):
        if v.shape != tot.shape:
            res.bad(what + "-shape", "%s has shape %s, expected %s" % (name, v.shape, tot.shape))
    if not np.array_equal(gn.astype(np.int64), cnt):
        res.bad(what + "-counts", "counts %s expected %s" % (gn.ravel().tolist()[:40], cnt.ravel().tolist()[:40]))
    if exact:
        if not np.array_equal(g, tot, equal_nan=True) or not np.array_equal(g2, tot2, equal_nan=True):
            res.bad(what + "-sums", "sums %s expected %s / squares %s expected %s" % (g.ravel().tolist()[:20], tot.ravel().tolist()[:20], g2.ravel().tolist()[:20], tot2.ravel().tolist()[:20]))
    else:
        tol = 1e-11 * (1 + scale)
        nan = np.isnan(tot)
        if not np.all((g == tot) | (np.abs(g - tot) <= tol) | (nan & np.isnan(g))) or not np.all((g2 == tot2) | (np.abs(g2 - tot2) <= 1e-11 * (1 + tot2)) | (nan & np.isnan(g2))):
            res.bad(what + "-sums", "sums %s expected %s" % (g.ravel().tolist()[:20], tot.ravel().tolist()[:20]))
    e = ref_stderr(tot, tot2, cnt)
    c = np.maximum(cnt, 1)
    # rounding of the variance (difference of large numbers); NaN only where the true spread is ~0
    slack = np.sqrt(1e-12 * (1 + tot2 / c)) / np.sqrt(c)
    diff = np.abs(ge - e)
    bad = ~((diff <= 1e-7 * (1 + e) + slack) | (np.isnan(ge) & (e <= slack)) | ~np.isfinite(tot2))
    bad |= (cnt == 0) & (ge != 0)
    if bad.any():
        i = np.argwhere(bad)[0]
        res.bad(what + "-stderr", "voxel %s: %r expected %r (count %d)" % (i.tolist(), float(ge[tuple(i)]), float(e[tuple(i)]), cnt[tuple(i)]))


def memory_ok(res, info, what):
    if info["oob"] or info["uaf"] or info["badfree"]:
        res.bad(what + "-memory", "out of bounds=%d use after free=%d bad free=%d" % (info["oob"], info["uaf"], info["badfree"]))
    if info["leaks"]:
        res.bad(what + "-leak", "%d blocks still allocated after the call" % info["leaks"])


def gen_container(rng):
    """How the (N, 4) data array is laid out: must not matter."""
    return rng.choice(["C", "C", "C", "F", "strided", "f4", "list"])


def container(data, how):
    if how == "F":
        return np.asfortranarray(data)
    if how == "strided":
        big = np.full((2 * len(data) + 1, 5), 7.5)
        big[: 2 * len(data) : 2, :4] = data
        return big[: 2 * len(data) : 2, :4]
    if how == "list" and len(data):
        return data.tolist()
    return data


def account(res, info):
    res.count("steps", info["steps"])
    res.count("switches", info["switches"])
    res.count("accesses", info["accesses"])
    if info["barriers"]:
        res.count("probe:barrier", info["barriers"])
    if info["failed"]:
        res.count("fault:alloc_failure", info["failed"])


REAL = ["src/ctrans.c, compiled from the repository's current source (-O0 and -O1 with OpenMP, and without OpenMP)", "numpy array layer"]
STUB = ["OpenMP runtime (threads are coroutines of one real thread)", "ThreadSanitizer runtime (only used as yield points and address checks)",
        "malloc/free of the kernel and numpy's data allocator (guarded, poisoned, failing on demand)"]
