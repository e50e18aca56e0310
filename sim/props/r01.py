"""R01: coherent-diffraction reconstruction, clocks, callbacks and random streams."""
import logging

import numpy as np

from .. import threads
from ..clock import KINDS, Clock
from ..core import Bad, fingerprint, put, shrink_choice, shrink_list, terse
from .callers import Callers
from .t01 import Interrupt, NoMemory

RUNS = {"quick": 12000, "thorough": 200000}
BUDGET = {"quick": 120, "thorough": 700}
HANG_S = 120
RULE = ("a run = reconstructions made before, by one to three caller threads parked at every line of library code, and after them, on shared inputs, under one simulated clock, with progress "
        "callbacks that watch, raise, edit their own copies or start a reconstruction themselves, and calls interrupted at a chosen line; every reconstruction that ends is compared with a "
        "direct difference-map reference, every callback with the reference's object and error traces at that iteration; non-trivial if at least one reconstruction ended")
MEASURE = "distinct (reconstructions and callbacks, clock, thread interleaving) triples"
REAL = ["skbeam/core/cdi.py"]
STUB = ["thread scheduler", "clock (time and datetime modules)", "numpy's global random stream (seeded per run)"]
ASSUMPTIONS = ["a callback does not write into the arrays it is handed", "numpy.fft and scipy.ndimage.gaussian_filter are taken as correct"]
TIME_UNIT = "scheduling points"
SHAPES = [(8, 8), (6, 9), (7, 6), (4, 5, 4), (12, 10), (4, 4, 6), (5, 11)]


class CallbackFailed(Exception):
    pass


class CallbackStop(KeyboardInterrupt):
    pass


FAILURES = [CallbackFailed] + [type("Callback" + t.__name__, (t,), {"callback": True}) for t in (RuntimeError, ValueError, OSError, StopIteration, AttributeError, ZeroDivisionError, MemoryError, TypeError, Warning)]


def setup():
    import os
    import sys

    threads.install()
    sys.stderr = open(os.devnull, "w")
    import skbeam.core.cdi as cdi

    return {"cdi": cdi}


DEFAULTS = dict(beta=1.15, start_avg=0.8, pi_modulus_flag="Complex", sw_flag=True, sw_sigma=0.5, sw_threshold=0.1, sw_start=0.2, sw_end=0.8, sw_step=10, cb_step=10)


# ---------------------------------------------------------------- plans
def gen_recon(rng, data, depth=0):
    n = rng.choice([2, 3, 5, 8, 10, 12, 20])
    cb = None
    if rng.random() < 0.75:
        cb = {"step": rng.choice([1, 2, 3, 4, 5, 10, n, n + 1]), "what": rng.choice(["watch", "watch", "watch", "raise", "stop", "random", "nested"])}
        cb["at"] = rng.randrange(4)
        cb["err"] = rng.randrange(len(FAILURES))
        if cb["what"] == "nested":
            if depth:
                cb["what"] = "watch"
            else:
                cb["inner"] = gen_recon(rng, data, 1)
    avg = [a for a in (0, 0.2, 0.5, 0.8) if n - 1 > a * n]
    kw = {"n_iterations": n, "start_avg": rng.choice(avg), "beta": rng.choice([1.15, 0.9, 0.7]), "pi_modulus_flag": rng.choice(["Complex", "complex", "real", "Real"]),
          "sw_flag": rng.random() < 0.75, "sw_sigma": rng.choice([0.5, 1.0]), "sw_threshold": rng.choice([0.1, 0.2]), "sw_start": rng.choice([0, 0.2, 0.4]),
          "sw_end": rng.choice([0.8, 1.0, 0.5]), "sw_step": rng.choice([1, 2, 3, 10])}
    if rng.random() < 0.04:
        kw["pi_modulus_flag"] = "imaginary"
    return {"data": rng.choice(data), "kw": kw, "cb": cb, "irq": rng.randint(1, 40 * n) if rng.random() < 0.08 and not depth else None, "mem": rng.random() < 0.5, "draw": rng.random() < 0.2}


def gen(rng, tier):
    data = [rng.randrange(60) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.4:
        data.append(data[0] + 1000 * rng.randint(1, 3))
    return {"swap": rng.choice([None, None, 1, 2, 3]), "before": [gen_recon(rng, data) for _ in range(rng.choice([0, 0, 1]))], "threads": [[gen_recon(rng, data) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([1, 1, 2, 3]))],
            "after": [gen_recon(rng, data) for _ in range(rng.choice([1, 1, 2]))], "clock": {"kind": rng.choice(KINDS), "seed": rng.getrandbits(32)}, "log": rng.random() < 0.25,
            "readonly": rng.random() < 0.3, "stream": rng.getrandbits(31), "sched": dict(threads.gen_sched(rng), op=rng.random() < 0.05)}


def make_data(k):
    if k >= 1000:  # inputs much like those of another reconstruction
        pat, init, sup = make_data(k % 1000)
        if k // 1000 == 1:
            pat = pat[..., ::-1].copy()
        elif k // 1000 == 2:
            init = init[..., ::-1].copy()
        else:
            sup = np.roll(sup, 1, axis=-1)
        return [pat, init, sup]
    r = np.random.RandomState(k)
    shape = SHAPES[k % len(SHAPES)]
    obj = np.zeros(shape)
    obj[tuple(slice(d // 4, d // 4 + d // 2) for d in shape)] = r.rand(*[d // 2 for d in shape]) + 0.2
    pat = np.abs(np.fft.fftshift(np.fft.fftn(obj))) / np.sqrt(obj.size)
    if k % 3 == 0:
        pat.flat[r.randint(pat.size)] = 0
    init = np.fft.ifftn(pat * np.exp(2j * np.pi * r.rand(*shape))) * np.sqrt(pat.size)
    sup = np.zeros(shape, dtype=[float, int, bool][k % 3 if k % 2 else 0])
    sup[tuple(slice(d // 2 - max(1, d // 3), d // 2 + max(1, d // 3)) for d in shape)] = 1
    return [pat, init, sup]


# ---------------------------------------------------------------- reference
def modulus(obj, pat):
    q = np.fft.fftn(obj) / np.sqrt(obj.size)
    return np.fft.ifftn(np.where(pat > 0, pat * q / (np.abs(q) + 1e-12), q)) * np.sqrt(pat.size)


_cache = {}


def reference(k, kw):
    key = (k, repr(sorted(kw.items())))
    if key in _cache:
        return _cache[key]
    from scipy.ndimage import gaussian_filter

    pat, obj, sup = make_data(k)
    pat = np.fft.fftshift(pat)
    N, beta = kw["n_iterations"], kw["beta"]
    real = kw["pi_modulus_flag"].lower() == "real"
    inside = sup == 1
    objs, oe, de, se, total, cnt, previous = [], [], [], [], 0, 0, 0.0
    for n in range(N):
        m = modulus(obj, pat)
        if real:
            m = np.abs(m)
        a = np.where(inside, (1 + 1 / beta) * m - obj / beta, 0)
        b = modulus((1 - 1 / beta) * np.where(inside, obj, 0) + obj / beta, pat)
        if real:
            b = np.abs(b)
        new = obj + beta * (a - b)
        oe.append(np.linalg.norm(new - obj) / np.linalg.norm(obj))
        de.append(np.linalg.norm(np.abs(np.fft.fftn(new)) / np.sqrt(new.size) - pat) / np.linalg.norm(pat))
        obj = new
        size = 0.0
        if kw["sw_flag"] and kw["sw_start"] * N <= n <= kw["sw_end"] * N and n % kw["sw_step"] == 0:
            blur = gaussian_filter(np.abs(obj), kw["sw_sigma"])
            inside = blur >= kw["sw_threshold"] * blur.max()
            size, previous = previous, float(inside.sum())
        se.append(size)
        objs.append(obj)
        if n > kw["start_avg"] * N:
            total, cnt = total + obj, cnt + 1
    if len(_cache) > 400:
        _cache.clear()
    _cache[key] = (objs, np.array(oe), np.array(de), np.array(se), total / cnt)
    return _cache[key]


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    scale = np.abs(b).max() if b.size else 1.0
    return bool(np.all(np.abs(a - b) <= 1e-7 * scale + 1e-12))


# ---------------------------------------------------------------- runs
def run(plan, ctx, res):
    cdi = ctx["cdi"]
    data, keep, alias = {}, {}, {}
    ended, outcome = [], []
    clock = Clock(plan["clock"], (cdi,))

    def inputs(k):
        if k not in data:
            data[k] = make_data(k)
            keep[k] = [a.copy() for a in data[k]]
            if plan["readonly"]:
                for a in data[k]:
                    a.setflags(write=False)
        return data[k]

    def intact(k):
        for name, a, b in zip(("diffraction pattern", "initial sample", "support"), data[k], keep[k]):
            if not np.array_equal(a, b):
                res.bad("recon-input-modified", name)

    def swap(v):
        """The caller puts the inputs of its next reconstruction in the same memory."""
        for k in [k for k in data if k < 1000]:
            new = k + 1000 * v
            arrs = data.pop(k)
            for a, b in zip(arrs, make_data(new)):
                a.setflags(write=True)
                a[...] = b
                a.setflags(write=not plan["readonly"])
            data[new], keep[new] = arrs, [a.copy() for a in arrs]
            alias[k] = new

    def recon(c, who, sched=None):
        c = dict(c, data=alias.get(c["data"], c["data"]))
        pat, init, sup = inputs(c["data"])
        kw = dict(c["kw"])
        valid = kw["pi_modulus_flag"] != "imaginary"
        cb = c["cb"]
        calls = [0]
        failed = []
        err = None
        if valid:
            objs, oe, de, se, avg = reference(c["data"], kw)
        if cb is not None:
            def callback(*a):
                try:
                    judge(*a)
                except Bad as b:
                    failed.append(b)  # even if the library swallows it
                    raise

            def judge(obj, obj_error, diff_error, sup_error):
                calls[0] += 1
                n = calls[0] * cb["step"]
                if n > kw["n_iterations"]:
                    res.bad("recon-callback-count", "called %d times for %d iterations, every %d" % (calls[0], kw["n_iterations"], cb["step"]))
                if not near(obj, objs[n - 1]):
                    res.bad("recon-callback-object", "callback %d does not get the object after %d iterations" % (calls[0], n))
                for name, got, want in (("obj_error", obj_error, oe), ("diff_error", diff_error, de), ("sup_error", sup_error, se)):
                    if len(got) < n or not near(np.array(got[:n]), want[:n]):
                        res.bad("recon-callback-errors", "%s after %d iterations" % (name, n))
                if calls[0] - 1 == cb["at"]:
                    if cb["what"] == "raise":
                        raise err_r
                    if cb["what"] == "stop":
                        raise err_s
                if cb["what"] == "random":
                    np.random.seed(calls[0])
                    np.random.rand(3)
                if cb["what"] == "nested" and calls[0] - 1 == cb["at"] and "inner" in cb:
                    a = sched.armed.pop(sched.cur, None) if sched is not None else None
                    recon(cb["inner"], who + "/", sched)
                    if a is not None:
                        sched.armed[sched.cur] = a
            err_r, err_s = FAILURES[cb.get("err", 0)]("callback"), CallbackStop("callback")
            kw.update(cb_function=callback, cb_step=cb["step"])
        irq = c["irq"] if sched is not None else None
        if c["draw"]:
            np.random.seed(plan["stream"])
        stream = np.random.get_state()[1:3]
        if irq:
            sched.arm(irq, NoMemory("injected") if c["mem"] else Interrupt())
        hit = False
        out = None
        try:
            try:
                out = cdi.cdi_recon(pat, init, sup, **terse(kw["n_iterations"] % 2 == 0, kw, **DEFAULTS))
            finally:
                if irq:
                    hit = sched.disarm()
        except (CallbackFailed, CallbackStop, Interrupt, NoMemory, ValueError) as e:
            err = e
        except Exception as e:
            if not getattr(e, "callback", False):
                raise
            err = e
        if failed:
            raise failed[0]
        intact(c["data"])
        kind = "hit" if hit else type(err).__name__ if err is not None else "ok"
        outcome.append((who, c["data"], kind, calls[0]))
        if hit:
            res.count("fault:interrupted_call")
            return
        if not valid:
            res.count("fault:rejected_call")
            if not isinstance(err, ValueError):
                res.bad("recon-invalid-accepted", "pi_modulus_flag %r: %s" % (kw["pi_modulus_flag"], kind))
            return
        if cb is not None and cb["what"] in ("raise", "stop") and cb["at"] < kw["n_iterations"] // cb["step"]:
            res.count("fault:callback_failed")
            if err is not (err_r if cb["what"] == "raise" else err_s):
                res.bad("recon-callback-error-lost", "the callback's exception came out as %s" % kind)
            if calls[0] != cb["at"] + 1:
                res.bad("recon-callback-count", "called again after it had failed")
            return
        if err is not None:
            raise err
        res.count("checks")
        if cb is not None and calls[0] != kw["n_iterations"] // cb["step"]:
            res.bad("recon-callback-count", "called %d times in %d iterations, every %d" % (calls[0], kw["n_iterations"], cb["step"]))
        obj, errors = out
        if not near(obj, avg):
            res.bad("recon-object", "differs from the reference by %g" % np.abs(obj - avg).max() if np.shape(obj) == avg.shape else "shape")
        for name, want in (("obj_error", oe), ("diff_error", de), ("sup_error", se)):
            if not near(errors[name], want):
                res.bad("recon-errors", name)
        if len(plan["threads"]) == 1 and not (cb and cb["what"] in ("random", "nested")):
            now = np.random.get_state()[1:3]
            if now[1] != stream[1] or not np.array_equal(now[0], stream[0]):
                res.bad("recon-random-stream", "a reconstruction drew from or reset the random stream")
        ended.append((obj, obj.copy(), errors, {k: v.copy() for k, v in errors.items()}))

    def phase(k, seed):
        """The random start depends on the stream only and has the measured modulus."""
        pat = inputs(k)[0]
        a, b, c = [], [], []
        for out in (a, b):
            np.random.seed(seed)
            out.append(cdi.generate_random_phase_field(pat))
            out.append(cdi.generate_random_phase_field(pat))
        intact(k)
        for p, q in zip(a, b):
            if not np.array_equal(p, q):
                res.bad("recon-start-not-repeatable", "same stream, other start")
            if not near(np.abs(np.fft.fftn(p)) / np.sqrt(p.size), pat):
                res.bad("recon-start-modulus", "")
        if np.allclose(a[0], a[1]):
            res.bad("recon-start-constant", "two draws are the same")

    logger = logging.getLogger("skbeam.core.cdi")
    handler = logging.Handler()
    handler.emit = lambda rec: rec.getMessage()
    level = logger.level
    if plan["log"]:
        logger.addHandler(handler)
        logger.setLevel(logging.DEBUG)
    C = Callers(plan, res)
    try:
        with clock:
            np.random.seed(plan["stream"])
            if not plan["stream"] % 4:
                phase(plan["threads"][0][0]["data"] if plan["threads"] and plan["threads"][0] else 0, plan["stream"])
            for c in plan["before"]:
                recon(c, "b")

            def caller(t, cs):
                def go():
                    for c in cs:
                        recon(c, str(t), threads.current)
                return go

            C.run([caller(t, cs) for t, cs in enumerate(plan["threads"])], max_steps=3000000)
            if plan["swap"]:
                swap(plan["swap"])
            for c in plan["after"]:
                recon(c, "a")
    finally:
        logger.setLevel(level)
        logger.removeHandler(handler)
    for obj, o2, errors, e2 in ended:
        if not np.array_equal(obj, o2) or any(not np.array_equal(errors[k], e2[k]) for k in e2):
            res.bad("recon-earlier-result-changed", "")
    res.count("fault:clock_" + plan["clock"]["kind"])
    res.log(outcome, clock.reads)
    res.nontrivial = bool(ended)
    res.fp = fingerprint(outcome, plan["clock"]["kind"], [[(c["kw"], c["cb"]) for c in t] for t in plan["threads"]], C.rec)


def concretise(plan, res):
    return put(plan, ("sched",), res.sched) if res.sched else plan


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    for k in ("before", "after"):
        yield from shrink_list(plan, (k,))
    yield from shrink_list(plan, ("threads",), 1)
    for t in range(len(plan["threads"])):
        yield from shrink_list(plan, ("threads", t), 1)
    if plan["sched"]["mode"] == "replay":
        yield from shrink_list(plan, ("sched", "switches"))
    yield from shrink_choice(plan, ("log",), False)
    yield from shrink_choice(plan, ("readonly",), False)
    yield from shrink_choice(plan, ("clock", "kind"), "steady")
    for t in range(len(plan["threads"])):
        for i in range(len(plan["threads"][t])):
            yield from shrink_choice(plan, ("threads", t, i, "cb"), None)
            yield from shrink_choice(plan, ("threads", t, i, "irq"), None)
