"""Workload and reference for the parallel pixel fit (X01, X02)."""
import copy
import random

import numpy as np


def gen_map(rng, tier):
    rows = rng.choice([1, 2, 3, 3, 4, 5, 6, 8] * 3 + [12] + ([20, 20, 12] if tier == "thorough" else []))
    cols = rng.choice([1, 1, 2, 3, 4])
    r = rng.random()
    if r < 0.01:
        rows, cols = rng.randint(20, 60), rng.choice([1, 2])
    elif r < 0.03:
        rows, cols = rng.choice([1, 2, 3]), rng.randint(5, 40)
    return {"seed": rng.getrandbits(32), "rows": rows, "cols": cols, "ch": rng.choice([6, 12, 20, 40] * 4 + [200]), "elems": rng.randint(1, 4) if rng.random() < 0.97 else rng.randint(5, 20),
            "snip": rng.random() < 0.5, "dtype": rng.choice(["f8", "f8", "i8", "f4", "u2"]), "order": rng.choice(["C", "C", "F"]),
            "flat": rng.random() < 0.1, "dead": rng.choice([0, 0, 0, 0.1, 0.5, 1]), "twins": rng.random() < 0.2}


def gen_pool(rng, tier):
    return {"seed": rng.getrandbits(63), "cpus": rng.choice([1, 2, 2, 3, 4, 6] * 3 + [8, 16]), "eager": rng.choice([0.0, 0.3, 0.6, 0.9])}


def make(m):
    r = np.random.RandomState(m["seed"])
    matv = r.rand(m["ch"], m["elems"]) * (r.rand(m["ch"], m["elems"]) < 0.7) + 0.01
    w = r.rand(m["rows"], m["cols"], m["elems"]) * 50
    data = np.einsum("ce,xye->xyc", matv, w) + r.rand(m["rows"], m["cols"], m["ch"]) * 5
    if m["flat"]:
        data[:] = data[0, 0]
        data += np.arange(m["rows"])[:, None, None] * 3.0
    if m.get("dead"):  # pixels that saw nothing
        data[r.rand(m["rows"], m["cols"]) < m["dead"]] = 0
    if m.get("twins"):  # rows with the same pixels in another order, or in the same one
        for k in range(1, m["rows"]):
            if r.rand() < 0.7:
                data[k] = data[k - 1][::-1] if k % 2 else data[0]
    if m["dtype"][0] in "iu":
        data = np.round(data * 10)
    data = data.astype(m["dtype"])
    if m["order"] == "F":
        data = np.asfortranarray(data)
    return data, matv


def param(k=0):
    """k > 0: other calibrations and background widths."""
    return {"e_offset": {"value": 0.01 * (1 + k)}, "e_linear": {"value": 0.3 + 0.05 * k}, "e_quadratic": {"value": 1e-4 * k},
            "non_fitting_values": {"background_width": 0.5 + 0.25 * k}}


def reference_pixel(y, matv, par, snip, snip_method):
    from scipy.optimize import nnls

    y = np.array(y)
    bg_sum = 0
    if snip:
        bg = snip_method(y, par["e_offset"]["value"], par["e_linear"]["value"], par["e_quadratic"]["value"],
                         width=par["non_fitting_values"]["background_width"])
        bg_sum = np.sum(bg)
        w, r = nnls(matv, y - bg)
    else:
        w, r = nnls(matv, y)
    sst = np.sum((y - np.mean(y)) ** 2)
    return list(w) + [bg_sum, 1 - r / sst]


def reference(data, matv, par, snip, snip_method):
    return np.array([[reference_pixel(y, matv, par, snip, snip_method) for y in row] for row in data])


def setup():
    from .. import pool

    pool.install()
    import skbeam.core.fitting.xrf_model as X
    from skbeam.core.fitting.background import snip_method

    return {"X": X, "snip": snip_method, "pool": pool}


REAL = ["skbeam/core/fitting/xrf_model.py (fit_pixel_multiprocess_nnls, fit_per_line_nnls)", "skbeam/core/fitting/background.py", "scipy nnls", "pickling of tasks and results", "forked worker processes"]
STUB = ["multiprocessing.Pool / ProcessPoolExecutor (task queue, result delivery, shutdown)", "cpu count"]
