"""S05: stream stages are lazy, one-in one-out, and interleaved streams do not mix."""
import copy

import numpy as np

from ..core import dig, fingerprint, put, shrink_choice, shrink_int, shrink_list
from . import s03
from . import streamlib as L

RUNS = {"quick": 12000, "thorough": 300000}
BUDGET = {"quick": 100, "thorough": 600}
RULE = ("a run = two to five pipelines (bad-frame marking, hot-pixel masking, one-time, two-time, phase contrast, and chains of them) sharing frames, region map and "
        "masks, advanced in a seeded interleaving with early closes, failing deliveries and crashes of single pipelines; every output is compared with a direct "
        "model of that pipeline alone; non-trivial if at least two pipelines were interleaved")
MEASURE = "distinct (pipeline kinds, interleaving) pairs"
REAL = ["skbeam/core/mask.py:bad_to_nan_gen, threshold", "skbeam/core/correlation.py:lazy_one_time, lazy_two_time", "skbeam/core/dpc.py:lazy_dpc"]
STUB = ["frame sources", "the consumer that decides which pipeline advances"]
TIME_UNIT = "frames delivered"

KINDS = ["bad", "thr", "one", "two", "dpc", "bad+one", "bad+two", "thr+one", "bad+thr"]


def setup():
    import skbeam.core.correlation  # noqa: F401
    import skbeam.core.dpc  # noqa: F401
    import skbeam.core.mask  # noqa: F401

    return {"fits": {}}


def gen(rng, tier):
    st = L.gen_stream(rng, tier, maxlen=14)
    st["out_nan"] = False
    n = st["n"]
    pipes = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 5])):
        k = rng.choice(KINDS)
        pipes.append({"kind": k, "bad": sorted({rng.randrange(-2, n + 2) for _ in range(rng.choice([0, 1, 1, 2, 4]))}), "badtype": rng.choice(["list", "tuple", "set", "array"]),
                      "thr": rng.choice([3, 6, 9, 11, 6.5, 100]), "mask": rng.choice([None, None, 0, 1]), "levels": rng.choice([1, 2, 3]),
                      "bufs": rng.choice([2, 4, 6]), "it": rng.choice(["source", "source", "list"]), "set": rng.choice([0, 0, 0, 1]), "scribble": rng.random() < 0.4})
    ops = []
    for _ in range(rng.randint(1, (n + 2) * len(pipes))):
        r = rng.random()
        i = rng.randrange(len(pipes))
        if r < 0.9:
            ops.append(["next", i])
        elif r < 0.95:
            ops.append(["close", i])
        else:
            ops.append(["fail", i])
    for i in range(len(pipes)):
        ops += [["next", i]] * rng.choice([0, n + 1])
    # a second stream: other frames, another (or the transposed) detector, other regions
    st2 = L.gen_stream(rng, tier, maxlen=6)
    st2.update(n=n, out_nan=False)
    if rng.random() < 0.5:
        st2["labels"] = [list(c) for c in zip(*st["labels"])]
    return {"stream": st, "stream2": st2, "pipes": pipes, "ops": ops, "cfg": rng.randrange(10 if tier == "quick" else 400)}


def run(plan, ctx, res):
    import skbeam.core.correlation as corr
    import skbeam.core.dpc as dpc
    import skbeam.core.mask as mask

    st = plan["stream"]
    sets = []
    for stx in (st, dict(plan["stream2"], n=st["n"])):
        frames, lab = L.make_frames(stx)
        r = np.random.RandomState(stx["seed"] ^ 0x55)
        masks = [r.randint(0, 2, size=lab.shape), np.ones(lab.shape, dtype=bool)]
        sets.append((frames, lab, masks))
    sets0 = copy.deepcopy(sets)
    n = st["n"]
    c = v = None
    if any(p["kind"] == "dpc" for p in plan["pipes"]):
        c = s03.config(plan["cfg"])
        v = s03.fits(ctx, plan["cfg"], dpc, res)
        c0 = copy.deepcopy(c)
    class P:
        pass

    pipes = []
    for idx, pp in enumerate(plan["pipes"]):
        p = P()
        p.kind, p.spec, p.out, p.closed, p.idx = pp["kind"], pp, 0, False, idx
        frames, lab, masks = sets[pp["set"]]
        f0, lab0, masks0 = sets0[pp["set"]]
        p.lab0 = lab0
        mine = [c["pool"][k % 5] for k in range(n)] if p.kind == "dpc" else frames
        p.src = L.Source(mine)
        p.frames = mine
        badset = {b for b in pp["bad"]}
        bl = list(pp["bad"])
        p.badobj = {"list": bl, "tuple": tuple(bl), "set": set(bl), "array": np.array(bl, dtype=int)}[pp["badtype"]]
        p.truth = [np.full(lab.shape, np.nan) if ("bad" in p.kind and k in badset) else f for k, f in enumerate(f0)]
        if p.kind == "dpc":
            p.truth = [x.copy() for x in mine]
        it = p.src
        p.lazyok = True
        if pp["it"] == "list":
            it = list(mine)
            p.lazyok = False
        m = None if pp["mask"] is None else masks[pp["mask"]]
        p.kept = []
        for stage in p.kind.split("+"):
            if stage == "bad":
                it = mask.bad_to_nan_gen(it, p.badobj)
            elif stage == "thr" and p.kind == "thr+one":
                # tee: masked frames feed a correlation
                it = masked(mask, it, pp["thr"], m)
            elif stage == "thr":
                it = mask.threshold(it, pp["thr"], m)
            elif stage == "one":
                it = corr.lazy_one_time(it, pp["levels"], pp["bufs"], lab)
            elif stage == "two":
                it = corr.lazy_two_time(lab, it, n, pp["bufs"], pp["levels"])
            elif stage == "dpc":
                it = dpc.lazy_dpc(c["ref"], it, c["start"], 1, n, c["solver"], c["roi"], c["bad"])
        p.gen = it
        p.m0 = None if pp["mask"] is None else masks0[pp["mask"]].copy()
        pipes.append(p)
        if p.src.pulled:
            res.bad("stage-not-lazy", "%s pulled %d frames before any output was asked for" % (p.kind, p.src.pulled))

    order = []
    for op in plan["ops"]:
        if op[1] >= len(pipes):
            continue
        p = pipes[op[1]]
        order.append((op[0][0], op[1]))
        if p.closed:
            continue
        if op[0] == "close":
            res.count("fault:early_close")
            p.gen.close()
            p.closed = True
            continue
        if op[0] == "fail":
            if p.lazyok and p.out < n:
                exc = L.source_error(p.out + len(plan["ops"]) + n)
                p.src.inject = ("raise", exc)
                try:
                    next(p.gen)
                except StopIteration:
                    res.bad("source-error-swallowed", p.kind)
                except Exception as e:
                    if e is not exc:
                        res.bad("source-error-changed", "%s: %r came out as %r" % (p.kind, exc, e))
                else:
                    res.bad("source-error-swallowed", p.kind)
                res.count("fault:source_error")
                p.closed = True
            continue
        try:
            item = next(p.gen)
        except StopIteration:
            if p.out != n:
                res.bad("stage-count", "%s gave %d outputs for %d frames" % (p.kind, p.out, n))
            p.closed = True
            continue
        if p.out >= n:
            res.bad("stage-count", "%s gave more outputs than the %d frames" % (p.kind, n))
        k = p.out
        p.out += 1
        res.count("steps")
        if p.lazyok and p.src.pulled != p.out:
            res.bad("stage-not-lazy", "%s pulled %d frames for %d outputs" % (p.kind, p.src.pulled, p.out))
        judge(res, p, item, k, p.lab0, corr, plan, c, v)
        own = p.kind in ("thr", "bad+thr") or p.kind == "bad" and k in p.spec["bad"]
        if own and p.spec["scribble"]:
            # what was handed out (other than a good frame passed through) is the consumer's
            np.asarray(item)[...] = 0
            if p.kept and p.kept[-1][0] == k:
                p.kept.pop()
            res.count("probe:output_overwritten")
    for a, b in [(x, y) for s1, s0 in zip(sets, sets0) for x, y in zip(s1[0] + [s1[1]] + s1[2], s0[0] + [s0[1]] + s0[2])]:
        if a.dtype != b.dtype or not np.array_equal(a, b):
            res.bad("stream-input-modified", "a frame, region map or mask was changed")
    if c is not None and not all(np.array_equal(x, y) for x, y in zip(c["pool"] + [c["ref"]], c0["pool"] + [c0["ref"]])):
        res.bad("stream-input-modified", "a dpc frame or the reference was changed")
    for p in pipes:
        if list(p.badobj) != list(p.spec["bad"]) and not isinstance(p.badobj, set) or set(p.badobj) != set(p.spec["bad"]):
            res.bad("stream-input-modified", "the list of bad frames was changed")
        for k, obj, d in p.kept:
            if dig(obj) != d:
                res.bad("earlier-output-changed", "%s output %d changed later" % (p.kind, k))
    res.log(order)
    res.nontrivial = len({i for o, i in order if o == "n"}) > 1
    res.fp = fingerprint([p["kind"] for p in plan["pipes"]], order)


def masked(mask, it, thr, m):
    """frame * running mask, one frame at a time"""
    held = []

    def tap():
        for f in it:
            held.append(f)
            yield f

    for mk in mask.threshold(tap(), thr, m):
        yield held.pop() * mk


def running_mask(p, k):
    """mask after frame k"""
    base = p.m0.copy() if p.m0 is not None else np.ones(p.truth[0].shape)
    for f in p.truth[: k + 1]:
        with np.errstate(invalid="ignore"):
            base[f >= p.spec["thr"]] = 0
    return base


def judge(res, p, item, k, lab, corr, plan, c, v):
    res.count("checks")
    kind = p.kind
    if kind == "bad":
        want = p.truth[k]
        got = np.asarray(item)
        if k in p.spec["bad"]:
            if got.shape != want.shape or not np.isnan(got).all():
                res.bad("bad-frame-output", "frame %d" % k)
        elif item is not p.frames[k] and (got.dtype != want.dtype or not np.array_equal(got, want)):
            res.bad("good-frame-altered", "frame %d" % k)
        p.kept.append((k, item, dig(item)))
        res.log(p.idx, k, dig(got))
    elif kind in ("thr", "bad+thr"):
        want = running_mask(p, k)
        got = np.asarray(item)
        if got.shape != want.shape or not np.array_equal(got != 0, want != 0):
            res.bad("hot-pixel-mask", "after frame %d: %s expected %s" % (k, got.tolist(), want.tolist()))
        if not set(np.unique(got)) <= {0, 1}:
            res.bad("hot-pixel-mask-values", "%s" % np.unique(got))
        p.kept.append((k, item, dig(item)))
        res.log(p.idx, k, dig(got))
    elif kind.endswith("one"):
        tr = p.truth[: k + 1]
        if kind == "thr+one":
            tr = [p.truth[j] * running_mask(p, j) for j in range(k + 1)]
        L.check_one_time(res, item, tr, lab, p.spec["levels"], p.spec["bufs"], "interleaved-one-time")
        p.kept.append((k, item.g2, dig(item.g2)))
        res.log(p.idx, k, dig(item.g2))
    elif kind.endswith("two"):
        r = corr.two_time_state_to_results(copy.deepcopy(item))
        L.check_two_time(res, r, p.truth[: k + 1], lab, p.spec["levels"], p.spec["bufs"], len(p.truth), "interleaved-two-time")
        res.log(p.idx, k, dig(r.g2))
    else:
        e = np.zeros((4, 1, len(p.truth)))
        for j in range(k + 1):
            e[:, 0, j] = v[j % 5]
        s03.check_state(res, item, e, k + 1, "interleaved-dpc")
        res.log(p.idx, k, dig(item.gx))


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("ops",), 1)
    for i in range(len(plan["pipes"])):
        # drop a pipeline no operation uses any more
        if i == len(plan["pipes"]) - 1 and i > 0 and not any(o[1] == i for o in plan["ops"]):
            yield put(plan, ("pipes",), plan["pipes"][:-1])
        yield from shrink_list(plan, ("pipes", i, "bad"))
        yield from shrink_int(plan, ("pipes", i, "levels"), 1)
        yield from shrink_choice(plan, ("pipes", i, "mask"), None)
        yield from shrink_choice(plan, ("pipes", i, "badtype"), "list")
        yield from shrink_choice(plan, ("pipes", i, "set"), 0)
    yield from shrink_int(plan, ("stream", "n"), 1)
    yield from shrink_list(plan, ("stream", "labels"), 1)
    yield from shrink_list(plan, ("stream2", "labels"), 1)
    yield from shrink_choice(plan, ("stream", "kind"), "i8")
