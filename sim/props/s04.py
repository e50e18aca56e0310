"""S04: failing deliveries leave a streaming analysis resumable."""
import copy

import numpy as np

from ..core import dig, fingerprint, put, shrink_choice, shrink_int, shrink_list
from . import s03
from . import streamlib as L

RUNS = {"quick": 10000, "thorough": 250000}
BUDGET = {"quick": 100, "thorough": 600}
RULE = ("a run = one stream through one-time correlation, two-time correlation or a phase contrast scan with failing deliveries (source error, frame too small, "
        "unusable type, None, wrong rank) injected at seeded positions, compared after every good frame with the direct definition; non-trivial if a delivery failed")
MEASURE = "distinct (analysis, event/position sequence, failure kinds, configuration) tuples"
REAL = ["skbeam/core/correlation.py:lazy_one_time, lazy_two_time", "skbeam/core/dpc.py:lazy_dpc", "pickling of the state"]
STUB = ["frame source", "process restart"]
TIME_UNIT = "frames delivered"


def setup():
    import skbeam.core.correlation  # noqa: F401
    import skbeam.core.dpc  # noqa: F401

    return {"fits": {}}


KINDS = ["raise", "raise", "small", "short", "narrow", "text", "none", "object", "empty", "interrupt"]


def gen(rng, tier):
    which = rng.choice(["one", "one", "two", "two", "dpc"])
    p = {"which": which, "recycle": rng.random() < 0.3, "copy": rng.choice(["pickle", "deepcopy"])}
    if which == "dpc":
        q = s03.gen(rng, tier)
        p["scan"] = {k: q[k] for k in q if k not in ("ops", "copy")}
        n = q["rows"] * q["cols"]
    else:
        p["stream"] = L.gen_stream(rng, tier, maxlen=20)
        n = p["stream"]["n"]
    ops = L.gen_schedule(rng, n, [])
    m = rng.choice([1, 1, 2, 3, 5])
    for _ in range(m):
        # then resume from the same object, from a saved copy, or from the saved checkpoint
        ops.insert(rng.randrange(len(ops)), ["fail", rng.choice(KINDS), rng.choice(["same", "same", "copy", "restart"])])
    p["ops"] = ops
    return p


def bad_frame(kind, good, pixmax):
    if kind in ("short", "narrow"):
        if pixmax is not None:
            return np.ones(pixmax)
        h, w = good.shape
        return np.ones((h - 2, w)) if kind == "short" else np.ones((h, w - 2))
    if kind == "small":
        # too few pixels to hold the last pixel any region needs
        if pixmax is not None:
            return np.ones(pixmax)
        h, w = good.shape
        return np.ones((h - 2, w - 2))
    if kind == "text":
        return np.full(good.shape, "dark", dtype="U4")
    if kind == "object":
        return np.full(good.shape, {}, dtype=object)
    if kind == "empty":
        return np.zeros((0, 0))
    return None


def run(plan, ctx, res):
    which = plan["which"]
    if which == "dpc":
        sc = plan["scan"]
        c = s03.config(sc["cfg"])
        n = sc["rows"] * sc["cols"]
        frames = [c["pool"][i] for i in sc["pick"][:n]]
        import skbeam.core.dpc as dpc

        v = s03.fits(ctx, sc["cfg"], dpc, res)
        mods, pixmax = ["skbeam.core.dpc"], None

        def make(m, src, state):
            return m[0].lazy_dpc(c["ref"], src, c["start"], sc["rows"], sc["cols"], c["solver"], c["roi"], c["bad"], state)

        def check(d, item, k):
            s03.check_state(res, item, s03.expected(sc, c, v, k), k)
            res.log(k, dig(item.gx, item.ax))

        def state_of(it):
            return it
    else:
        st = plan["stream"]
        frames, lab = L.make_frames(st)
        f0 = [f.copy() for f in frames]
        pixmax = int(np.flatnonzero(lab.ravel() > 0).max())
        nf = len(frames)
        mods = ["skbeam.core.correlation"]
        if which == "one":
            def make(m, src, state):
                return m[0].lazy_one_time(src, st["levels"], st["bufs"], lab, internal_state=state)

            def check(d, item, k):
                L.check_one_time(res, item, f0[:k], lab, st["levels"], st["bufs"], "one-time")
                res.log(k, dig(item.g2))

            def state_of(it):
                return it.internal_state
        else:
            def make(m, src, state):
                return m[0].lazy_two_time(lab, src, nf, st["bufs"], st["levels"], two_time_internal_state=state)

            def check(d, item, k):
                r = d.mods[0].two_time_state_to_results(copy.deepcopy(item))
                L.check_two_time(res, r, f0[:k], lab, st["levels"], st["bufs"], nf, "two-time")
                res.log(k, dig(r.g2))

            def state_of(it):
                return it

    def fail(d, op):
        kind, how = op[1], op[2]
        if d.pos >= len(frames):
            return
        if kind in ("raise", "interrupt"):
            exc = L.source_error(d.pos + len(plan["ops"]) + len(frames)) if kind == "raise" else KeyboardInterrupt()
            d.src.inject = ("raise", exc)
        else:
            d.src.inject = ("frame", bad_frame(kind, frames[0], pixmax))
        before = freeze(d.state)
        try:
            next(d.gen)
        except StopIteration:
            res.bad("failed-delivery-swallowed", "%s at frame %d ended the stream as if it were complete" % (kind, d.pos))
        except BaseException as e:
            if kind in ("raise", "interrupt") and e is not exc:
                res.bad("failed-delivery-other-error", "%s at frame %d surfaced as %r" % (kind, d.pos, e))
            res.log("failed", kind, type(e).__name__)
        else:
            # a frame the analysis does accept: not a failed delivery at all
            res.count("probe:odd_frame_accepted")
            if kind in ("raise", "interrupt", "small"):
                res.bad("failed-delivery-accepted", "%s at frame %d produced a result" % (kind, d.pos))
            d.op(["rewind"])
            return
        res.count("fault:delivery_" + kind)
        failed[0] += 1
        if freeze(d.state) != before:
            res.bad("state-changed-by-failed-delivery", "%s at frame %d" % (kind, d.pos))
        if d.state is None:
            d.open(0)
            return
        if how == "copy":
            d.state = d.load(d.dump())
        elif how == "restart":
            blob = d.dump()
            d.mods = L.restart(*d.modnames)
            d.state = d.load(blob)
        d.item = None
        d.open(d.pos)

    failed = [0]
    d = L.Driver(res, frames, mods, make, state_of, check, {"fail": fail}, roundtrip=plan["copy"], recycle=plan["recycle"])
    d.run(plan["ops"])
    d.op(["feed", len(frames)])
    res.nontrivial = failed[0] > 0
    res.fp = fingerprint(which, d.events, [o[1:] for o in plan["ops"] if o[0] == "fail"], plan.get("stream", {}).get("levels"), plan.get("stream", {}).get("bufs"),
                         plan.get("scan", {}).get("cfg"))


def freeze(s):
    """Comparable image of a state (any nesting of tuples, lists, dicts and arrays)."""
    if isinstance(s, np.ndarray):
        return ("a", s.shape, s.dtype.str, s.tobytes())
    if isinstance(s, dict):
        return ("d", tuple((repr(k), freeze(s[k])) for k in s))
    if isinstance(s, (list, tuple)):
        return (type(s).__name__, tuple(freeze(x) for x in s))
    return repr(s)


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("ops",), 1)
    for i, o in enumerate(plan["ops"]):
        if o[0] != "fail" and len(o) > 1:
            yield from shrink_int(plan, ("ops", i, 1), 1)
        elif o[0] == "fail":
            yield from shrink_choice(plan, ("ops", i, 2), "same")
    if "stream" in plan:
        yield from shrink_int(plan, ("stream", "n"), 1)
        yield from shrink_int(plan, ("stream", "levels"), 1)
        if plan["stream"]["bufs"] > 2:
            yield put(plan, ("stream", "bufs"), plan["stream"]["bufs"] - 2)
        yield from shrink_list(plan, ("stream", "labels"), 1)
        yield from shrink_choice(plan, ("stream", "kind"), "i8")
    else:
        yield from shrink_int(plan, ("scan", "rows"), 1)
        yield from shrink_int(plan, ("scan", "cols"), 1)
    yield from shrink_choice(plan, ("recycle",), False)
    yield from shrink_choice(plan, ("copy",), "deepcopy")
