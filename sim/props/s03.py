"""S03: differential phase contrast scan of a stream."""
import numpy as np

from ..core import dig, fingerprint, rng_for, shrink_choice, shrink_int, shrink_list, terse
from . import streamlib as L

RUNS = {"quick": 6000, "thorough": 100000}
BUDGET = {"quick": 100, "thorough": 600}
RULE = ("a run = one scan driven through a seeded schedule of deliveries, stops, resumptions, checkpoints, previews, crashes inside frames and restarts; after "
        "every frame each position is compared with the fit of its own frame made alone; non-trivial if it was interrupted or previewed")
MEASURE = "distinct (event/position sequence, scan shape, configuration) tuples"
REAL = ["skbeam/core/dpc.py:lazy_dpc, dpc_runner, reconstruct_phase_from_partial_info, recon, image_reduction", "scipy.optimize", "pickling of the state"]
STUB = ["frame source", "process (a restart re-imports the module and only keeps saved state)"]
TIME_UNIT = "frames delivered"
MODS = ["skbeam.core.dpc"]
PHYS = dict(energy=19.5, scan_xstep=0.1, scan_ystep=0.2)


def setup():
    import skbeam.core.dpc  # noqa: F401

    return {"fits": {}}


def gen(rng, tier):
    rows, cols = rng.choice([(1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (2, 2), (3, 3), (2, 5), (4, 3)])
    n = rows * cols
    # few distinct detector configurations, so that the reference fits can be shared between runs
    return {"rows": rows, "cols": cols, "cfg": rng.randrange(10 if tier == "quick" else 400), "pick": [rng.randrange(5) for _ in range(n)],
            "ops": L.gen_schedule(rng, n, ["preview", "preview", "abandon"]), "recycle": rng.random() < 0.3, "copy": rng.choice(["pickle", "deepcopy"]),
            "runner": rng.random() < 0.3, "padding": rng.choice([0, 0, 1]), "weighting": rng.choice([0.5, 0.5, 0.25, 1.0, 0.0]),
            "terse": rng.random() < 0.5, "scale": rng.choice([True, True, False, "off"]), "negate": rng.choice([True, True, False])}


def config(k):
    """Detector configuration k: reference image, pool of frames, roi, bad pixels, solver, start point."""
    r = rng_for("dpc", k)
    h, w = r.randint(4, 7), r.randint(4, 7)
    nr = np.random.RandomState(r.getrandbits(32))
    roi = None
    if r.random() < 0.5:
        roi = [r.randint(0, 1), r.randint(0, 1), h - 2, w - 2]
    bad = None
    if r.random() < 0.5:
        bad = [(r.randrange(h), r.randrange(w)) for _ in range(r.randint(1, 2))]
    ref = nr.randint(10, 200, size=(h, w)).astype("f8")
    pool = []
    for i in range(5):
        im = np.roll(ref, nr.randint(-1, 2), axis=nr.randint(2)) * nr.uniform(0.5, 1.0) + nr.randint(0, 20, size=(h, w))
        pool.append(im.astype(["f8", "i8", "f4", "u2", "f8"][i]))
    if r.random() < 0.2:
        pool[0] = np.zeros((h, w))
    if k % 2:
        pool[4] = pool[0][::-1, ::-1].copy()  # the same counts on other pixels
    return {"ref": ref, "pool": pool, "roi": roi, "bad": bad, "solver": r.choice(["Nelder-Mead", "Nelder-Mead", "Powell", "L-BFGS-B"]), "start": list(r.choice([(1.0, 0.0), (1.0, 0.0), (0.8, 0.1), (1.2, -0.05)]))}


def reduce_own(im, c):
    im = np.array(im, dtype=float)
    for y, x in c["bad"] or []:
        im[y, x] = 0
    if c["roi"]:
        a, b, hh, ww = c["roi"]
        im = im[a:a + hh, b:b + ww]
    return [np.fft.fftshift(np.fft.ifft(im.sum(axis=k))) for k in (0, 1)]


def rss_own(v, ref, dat):
    n = len(ref)
    beta = 1j * np.linspace(-(n - 1) // 2, (n - 1) // 2, n)
    return float((np.abs(dat - ref * v[0] * np.exp(v[1] * beta)) ** 2).sum())


def fits(ctx, k, mod, res):
    """(ax, ay, gx, gy) of every pool frame of configuration k, each fitted alone from a fresh state."""
    if k not in ctx["fits"]:
        from scipy.optimize import minimize

        c = config(k)
        out = []
        refs = reduce_own(c["ref"], c)
        for im in c["pool"]:
            s = list(mod.lazy_dpc(c["ref"].copy(), [im.copy()], list(c["start"]), 1, 1, c["solver"], c["roi"], c["bad"]))[-1]
            v = (float(s.ax[0, 0]), float(s.ay[0, 0]), float(s.gx[0, 0]), float(s.gy[0, 0]))
            for d, dat in enumerate(reduce_own(im, c)):
                own = minimize(rss_own, c["start"], args=(refs[d], dat), method=c["solver"], tol=1e-6, options={"maxiter": 2000}).x
                e_got, e_own = rss_own((v[d], v[2 + d]), refs[d], dat), rss_own(own, refs[d], dat)
                if not e_got <= e_own + 1e-3 * rss_own(c["start"], refs[d], dat) + 1e-9:
                    res.bad("dpc-fit", "configuration %d frame: residue %g, a direct fit reaches %g" % (k, e_got, e_own))
            out.append(v)
        ctx["fits"][k] = out
    return ctx["fits"][k]


def recon_own(gx, gy, sx, sy, padding, w):
    rows, cols = gx.shape
    p = 2 * padding + 1
    R, C = rows * p, cols * p
    ax, ay = np.zeros((R, C)), np.zeros((R, C))
    sl = (slice(padding * rows, (padding + 1) * rows), slice(padding * cols, (padding + 1) * cols))
    ax[sl], ay[sl] = gx, gy
    kx = 2 * np.pi * (np.arange(C) - C // 2) / (C * sx)
    ky = 2 * np.pi * (np.arange(R) - R // 2) / (R * sy)
    KX, KY = np.meshgrid(kx, ky)
    den = KX**2 * (1 - w) + KY**2 * w
    fx, fy = np.fft.fftshift(np.fft.fft2(ax)), np.fft.fftshift(np.fft.fft2(ay))
    num = -1j * (KX * fx * (1 - w) + KY * fy * w)
    c = np.where(den == 0, 0, num / np.where(den == 0, 1, den))
    return np.fft.ifft2(np.fft.ifftshift(c))[sl].real


def phase_args(plan):
    a = dict(PHYS, padding=plan["padding"], weighting=plan["weighting"], negate=plan["negate"])
    if plan["scale"]:
        a.update(pixel_size=55.0, focus_to_det=1.46e6)
    if plan["scale"] == "off":  # given, but to be ignored
        a.update(scale=False)
    return terse(plan["terse"], a, padding=0, weighting=0.5, negate=True)


def expected(plan, c, v, n):
    """ax, ay, gx, gy after n frames"""
    out = np.zeros((4, plan["rows"] * plan["cols"]))
    for k in range(n):
        out[:, k] = v[plan["pick"][k]]
    return out.reshape(4, plan["rows"], plan["cols"])


def expected_phase(plan, c, e):
    a = phase_args(plan)
    ax, ay, gx, gy = e
    if plan["scale"] is True:
        lx, ly = [len(x) for x in reduce_own(c["ref"], c)]
        f = a["pixel_size"] / (12.4e-4 / a["energy"] * a["focus_to_det"])
        gx, gy = gx * lx * f, gy * ly * f
    if plan["negate"]:
        gx = -gx
    return recon_own(gx, gy, a["scan_xstep"], a["scan_ystep"], plan["padding"], plan["weighting"]), (ax + ay) / 2


def check_state(res, s, e, n, what="dpc"):
    res.count("checks")
    for name, ref in zip(("ax", "ay", "gx", "gy"), e):
        got = np.asarray(getattr(s, name))
        if got.shape != ref.shape or not np.array_equal(got, ref):
            res.bad(what + "-positions", "%s after %d frames: %s expected %s" % (name, n, got.tolist(), ref.tolist()))


def check_phase(res, got, plan, c, e, what):
    ph, am = expected_phase(plan, c, e)
    res.count("checks")
    if got[0].shape != ph.shape or not np.allclose(got[0], ph, rtol=1e-7, atol=1e-9 * (1 + np.abs(ph).max())):
        res.bad(what + "-phase", "%s expected %s" % (np.asarray(got[0]).tolist(), ph.tolist()))
    if not np.allclose(got[1], am, rtol=1e-12, atol=1e-12):
        res.bad(what + "-amplitude", "%s expected %s" % (np.asarray(got[1]).tolist(), am.tolist()))


def run(plan, ctx, res):
    c = config(plan["cfg"])
    n = plan["rows"] * plan["cols"]
    if len(plan["pick"]) < n:
        from ..core import InvalidPlan

        raise InvalidPlan
    frames = [c["pool"][i] for i in plan["pick"][:n]]
    pool0 = [f.copy() for f in c["pool"]]
    ref0 = c["ref"].copy()
    start0 = list(c["start"])
    import skbeam.core.dpc as dpc

    v = fits(ctx, plan["cfg"], dpc, res)

    def make(mods, src, state):
        if not plan["terse"]:
            return mods[0].lazy_dpc(c["ref"], src, c["start"], plan["rows"], plan["cols"], c["solver"], c["roi"], c["bad"], state)
        kw = terse(plan["terse"], {"solver": c["solver"], "roi": c["roi"], "bad_pixels": c["bad"], "dpc_state": state}, solver="Nelder-Mead", roi=None, bad_pixels=None, dpc_state=None)
        return mods[0].lazy_dpc(c["ref"], src, c["start"], plan["rows"], plan["cols"], **kw)

    def check(d, item, k):
        check_state(res, item, expected(plan, c, v, k), k)
        res.log(k, dig(item.gx, item.ax))

    def preview(d, op):
        if d.state is None:
            return
        res.count("probe:preview")
        got = d.mods[0].reconstruct_phase_from_partial_info(d.state, **phase_args(plan))
        e = expected(plan, c, v, d.pos)
        check_phase(res, got, plan, c, e, "preview")
        check_state(res, d.state, e, d.pos, "preview")
        got[0][...] = 7e77  # the consumer may do as it likes with its preview
        got[1][...] = 7e77
        check_state(res, d.state, e, d.pos, "preview-aliased")

    d = L.Driver(res, frames, MODS, make, lambda it: it, check, {"preview": preview}, roundtrip=plan["copy"], recycle=plan["recycle"])
    d.run(plan["ops"])
    d.op(["feed", n])
    e = expected(plan, c, v, n)
    check_state(res, d.state, e, n, "final")
    got = d.mods[0].reconstruct_phase_from_partial_info(d.state, **phase_args(plan))
    check_phase(res, got, plan, c, e, "final")
    if plan["runner"]:
        kw = {"solver": c["solver"], "roi": c["roi"], "bad_pixels": c["bad"], "negate": plan["negate"], "padding": plan["padding"], "weighting": plan["weighting"], "scale": plan["scale"] is True}
        kw = terse(plan["terse"], kw, solver="Nelder-Mead", roi=None, bad_pixels=None, negate=True, padding=0, weighting=0.5, scale=True)
        ph, am = d.mods[0].dpc_runner(c["ref"], iter(frames), c["start"], (55.0, 55.0), 1.46e6, plan["rows"], plan["cols"], **kw, **PHYS)
        if not (np.array_equal(ph, got[0]) and np.array_equal(am, got[1])):
            res.bad("dpc-runner", "one uninterrupted run gives a different image")
    if not all(np.array_equal(x, y) for x, y in zip(c["pool"], pool0)) or not np.array_equal(ref0, c["ref"]) or c["start"] != start0:
        res.bad("stream-input-modified", "")
    res.nontrivial = any(o[0] != "feed" for o in plan["ops"])
    res.fp = fingerprint(d.events, plan["rows"], plan["cols"], plan["cfg"])


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("ops",), 1)
    for i, o in enumerate(plan["ops"]):
        if len(o) > 1:
            yield from shrink_int(plan, ("ops", i, 1), 1)
    yield from shrink_int(plan, ("rows",), 1)
    yield from shrink_int(plan, ("cols",), 1)
    for i in range(len(plan["pick"])):
        yield from shrink_int(plan, ("pick", i), 0)
    yield from shrink_choice(plan, ("runner",), False)
    yield from shrink_choice(plan, ("padding",), 0)
    yield from shrink_choice(plan, ("weighting",), 0.5)
    yield from shrink_choice(plan, ("scale",), False)
    yield from shrink_choice(plan, ("negate",), True)
    yield from shrink_choice(plan, ("terse",), False)
    yield from shrink_choice(plan, ("recycle",), False)
    yield from shrink_choice(plan, ("copy",), "deepcopy")
