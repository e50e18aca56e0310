"""Driver and reference models for the streaming analyses (S01-S05)."""
import copy
import importlib
import os
import pickle
import sys

import numpy as np

from ..core import REPO, Bad


class SimCrash(BaseException):
    """The simulated process dies here."""


class SourceError(Exception):
    """The frame source fails to deliver."""


ERRORS = [SourceError, OSError, ValueError, TypeError, IndexError, KeyError, RuntimeError, MemoryError, EOFError, AttributeError, TimeoutError, StopAsyncIteration, ArithmeticError]


def source_error(k):
    """What a source raises when it fails: sources are user code and raise all kinds of exceptions."""
    return ERRORS[k % len(ERRORS)]("the frame source failed")


def crash_after(n, fn, gen_only=False):
    """Run fn(); die at the n-th executed line of library code (or after fn if it has fewer). -> lines executed

    gen_only counts only the lines of generator bodies (the per-frame loop itself).
    """
    root = os.path.join(REPO, "skbeam") + os.sep
    left = [n]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] <= 0:
                raise SimCrash
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(root) and (not gen_only or frame.f_code.co_flags & 0x20):
            return local
        return None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        fn()
    except SimCrash:
        return n, True
    finally:
        sys.settrace(old)
    return n - left[0], False


def restart(*names):
    """A new process: the library modules are imported afresh (module-level state is gone)."""
    for m in names:
        sys.modules.pop(m, None)
    return [importlib.import_module(m) for m in names]


class Source:
    """The frames from position `pos` on; counts what was pulled and can fail on request.

    With recycle, the memory of a frame is used again as soon as its result has been handed out.
    """

    def __init__(self, frames, pos=0, recycle=False):
        self.recycle = recycle
        self.lent = None
        self.frames = frames
        self.pos = pos
        self.pulled = 0
        self.inject = None  # next delivery: ("raise", exc) or ("frame", bad frame)

    def __iter__(self):
        return self

    def __next__(self):
        if self.inject is not None:
            kind, what = self.inject
            self.inject = None
            if kind == "raise":
                raise what
            return what
        if self.pos >= len(self.frames):
            raise StopIteration
        f = self.frames[self.pos]
        self.pos += 1
        self.pulled += 1
        if self.recycle:
            f = self.lent = np.array(f)
        return f

    def reclaim(self):
        if self.lent is not None:
            self.lent[...] = 77
            self.lent = None


# ---------------------------------------------------------------- workload
def gen_labels(rng):
    h, w = rng.randint(1, 5), rng.randint(2, 5)
    nroi = rng.randint(1, 3)
    if rng.random() < 0.03:
        h, w = rng.randint(6, 14), rng.randint(6, 14)
        nroi = rng.randint(2, 9)
    ids = rng.sample([1, 2, 3, 4, 7, 12, 13, 20, 31, 300], nroi) if rng.random() < 0.4 else list(range(1, nroi + 1))
    lab = [[rng.choice([0] + ids) for _ in range(w)] for _ in range(h)]
    cells = [(y, x) for y in range(h) for x in range(w)]
    for i in ids:  # every region has at least one pixel
        y, x = cells.pop(rng.randrange(len(cells)))
        lab[y][x] = i
        if not cells:
            break
    return lab


def gen_stream(rng, tier, maxlen=40):
    lab = gen_labels(rng)
    n = rng.choice([1, 2, 3, 5, 8, 13, 21, rng.randint(4, maxlen)])
    if tier == "thorough" and rng.random() < 0.1:
        n = rng.randint(maxlen, 3 * maxlen)
    levels, bufs = rng.choice([1, 1, 2, 3, 3, 4]), rng.choice([2, 2, 4, 4, 6, 8])
    if rng.random() < 0.03:  # deep correlators, long streams
        n, levels, bufs = rng.randint(maxlen, 4 * maxlen), rng.choice([4, 5, 6, 7]), rng.choice([2, 4, 8, 10, 16])
    return {"labels": lab, "n": n, "seed": rng.getrandbits(32), "kind": rng.choice(["u2", "i8", "f8", "f4", "mixed"]),
            "zeros": rng.random() < 0.15, "levels": levels, "bufs": bufs,
            "out_nan": rng.random() < 0.1, "vals": rng.choice(["small", "small", "small", "fine", "large"])}


def make_frames(st):
    r = np.random.RandomState(st["seed"])
    lab = np.array(st["labels"])
    out = []
    for k in range(st["n"]):
        top = 60000 if st.get("vals") == "large" else 12
        a = r.randint(0 if st["zeros"] else 1, top, size=lab.shape)
        kind = st["kind"]
        if kind == "mixed":
            kind = ["u2", "i8", "f8", "f4"][k % 4]
        if kind[0] == "f":
            a = (a + (r.rand(*lab.shape) if st.get("vals") == "fine" else r.randint(0, 8, size=lab.shape) / 8.0)).astype(kind)
            if st["out_nan"] and (lab <= 0).any():
                a[lab <= 0] = np.nan
        else:
            a = a.astype(kind)
        out.append(a)
    return out, lab


# ---------------------------------------------------------------- reference: multi-tau
class LevelFrames:
    """Frames of every level: level l+1 frame k is the mean of level l frames 2k and 2k+1."""

    def __init__(self, frames, lab, levels):
        flat = lab.ravel()
        pix = np.flatnonzero(flat > 0)
        ids = np.unique(flat[pix])
        self.ids = ids
        self.R = np.stack([(flat[pix] == i) for i in ids], axis=1).astype(float)
        self.npix = self.R.sum(axis=0)
        base = np.array([np.asarray(f, dtype=float).ravel()[pix] for f in frames]).reshape(len(frames), len(pix))
        self.levels = [base]
        for _ in range(1, levels):
            a = self.levels[-1]
            m = len(a) // 2
            self.levels.append((a[0:2 * m:2] + a[1:2 * m:2]) / 2)


def lags_of(levels, bufs):
    out = [(0, i, i) for i in range(bufs)]
    for lv in range(1, levels):
        out += [(lv, i, i * 2**lv) for i in range(bufs // 2, bufs)]
    return out


def one_time_reference(frames, lab, levels, bufs):
    F = LevelFrames(frames, lab, levels)
    G, P, Q, L = [], [], [], []
    for lv, i, lag in lags_of(levels, bufs):
        a = F.levels[lv]
        fut, past = a[i:], a[: len(a) - i] if len(a) >= i else a[:0]
        if len(a) < i:
            fut = a[:0]
        good = ~(np.isnan(fut).any(axis=1) | np.isnan(past).any(axis=1))
        if good.any():
            f, p = fut[good], past[good]
            G.append(((f * p) @ F.R / F.npix).mean(axis=0))
            P.append((p @ F.R / F.npix).mean(axis=0))
            Q.append((f @ F.R / F.npix).mean(axis=0))
        else:
            z = np.zeros(len(F.ids))
            G.append(z), P.append(z), Q.append(z)
        L.append(lag)
    G, P, Q, L = np.array(G), np.array(P), np.array(Q), np.array(L)
    bad = np.where((P == 0).any(axis=1))[0]
    m = bad[0] if len(bad) else len(P)
    with np.errstate(all="ignore"):
        return G[:m] / (P[:m] * Q[:m]), L[:m]


def check_one_time(res, result, frames, lab, levels, bufs, what):
    g, lags = one_time_reference(frames, lab, levels, bufs)
    res.count("checks")
    got, gl = np.asarray(result.g2), np.asarray(result.lag_steps)
    if got.shape != g.shape or not np.array_equal(gl, lags):
        res.bad(what + "-lags", "after %d frames: g2 shape %s lags %s, expected %s %s" % (len(frames), got.shape, gl.tolist(), g.shape, lags.tolist()))
    if not np.allclose(got, g, rtol=1e-9, atol=1e-12, equal_nan=True):
        i = np.argwhere(~np.isclose(got, g, rtol=1e-9, atol=1e-12, equal_nan=True))[0]
        res.bad(what + "-g2", "after %d frames: g2%s = %r expected %r" % (len(frames), i.tolist(), float(got[tuple(i)]), float(g[tuple(i)])))


def two_time_reference(frames, lab, levels, bufs, num_frames):
    F = LevelFrames(frames, lab, levels)
    out = np.zeros((len(F.ids), num_frames, num_frames))
    with np.errstate(all="ignore"):
        for lv, i, lag in lags_of(levels, bufs):
            a = F.levels[lv]
            for k in range(i, len(a)):
                p, f = a[k - i], a[k]
                v = ((p * f) @ F.R) / ((p @ F.R) * (f @ F.R)) * F.npix
                for s in range(2**lv):
                    t1, t2 = k * 2**lv + s, (k - i) * 2**lv + s
                    out[:, t1, t2] = v
                    out[:, t2, t1] = v
    return out


def check_two_time(res, result, frames, lab, levels, bufs, num_frames, what):
    ref = two_time_reference(frames, lab, levels, bufs, num_frames)
    got = np.asarray(result.g2)
    res.count("checks")
    if got.shape != ref.shape:
        res.bad(what + "-shape", "%s expected %s" % (got.shape, ref.shape))
    if not np.array_equal(np.asarray(result.lag_steps), [lag for _, _, lag in lags_of(levels, bufs)]):
        res.bad(what + "-lags", "%s" % np.asarray(result.lag_steps).tolist())
    if not np.allclose(got, ref, rtol=1e-9, atol=1e-12, equal_nan=True):
        i = np.argwhere(~np.isclose(got, ref, rtol=1e-9, atol=1e-12, equal_nan=True))[0]
        res.bad(what + "-values", "after %d frames: C%s = %r expected %r" % (len(frames), i.tolist(), float(got[tuple(i)]), float(ref[tuple(i)])))
    if not np.array_equal(got, got.transpose(0, 2, 1), equal_nan=True):
        res.bad(what + "-asymmetric", "after %d frames" % len(frames))


# ---------------------------------------------------------------- schedules
def gen_schedule(rng, n, extra=()):
    """Operations around feeding n frames (more feeds than frames are harmless)."""
    ops = []
    fed = 0
    p_feed = rng.choice([0.5, 0.7, 0.85])
    kinds = ["stop", "save", "crash", "rewind"] + list(extra)
    enabled = [k for k in kinds if rng.random() < 0.7] or ["stop"]
    while fed < n and len(ops) < 4 * n + 20:
        if rng.random() < p_feed:
            k = min(n - fed, rng.choice([1, 1, 1, 2, 3, 7]))
            ops.append(["feed", k])
            fed += k
        else:
            k = rng.choice(enabled)
            if k == "crash":
                if rng.random() < 0.4:
                    ops.append(["crash", rng.randint(1, 30), "gen"])
                else:
                    ops.append(["crash", rng.choice([1, 2, 3, 5, 8, 12, 20, 40, rng.randint(1, 120)])])
            else:
                ops.append([k])
    ops.append(["feed", n])
    return ops


class Driver:
    """Runs a schedule of feed/stop/save/crash/rewind operations on one streaming analysis.

    make(mods, source, state) -> generator; state_of(item) -> resumable state; check(item, nframes).
    """

    def __init__(self, res, frames, mods, make, state_of, check, handlers=None, roundtrip="pickle", recycle=False):
        self.recycle = recycle
        self.res, self.frames = res, frames
        self.modnames = list(mods)
        self.mods = [importlib.import_module(m) for m in mods]
        self.make, self.state_of, self.check = make, state_of, check
        self.handlers = handlers or {}
        self.saved = (None, 0)
        self.state = None
        self.last = None
        self.item = None
        self.roundtrip = roundtrip
        self.events = []
        self.open(0)

    def open(self, pos):
        self.src = Source(self.frames, pos, self.recycle)
        self.gen = self.make(self.mods, self.src, self.state)
        self.pos = pos

    def dump(self):
        if self.roundtrip == "pickle":
            return pickle.dumps(self.state)
        return copy.deepcopy(self.state)

    def load(self, blob):
        if blob is None:
            return None
        if self.roundtrip == "pickle":
            return pickle.loads(blob)
        return copy.deepcopy(blob)

    def feed_one(self):
        """-> False at the end of the stream"""
        before = self.src.pos
        try:
            item = next(self.gen)
        except StopIteration:
            if self.src.pos < len(self.frames):
                self.res.bad("stream-ended-early", "after %d of %d frames" % (self.src.pos, len(self.frames)))
            return False
        self.res.count("steps")
        if self.recycle:
            self.src.reclaim()
            self.res.count("probe:frame_memory_reused")
        if self.src.pos != before + 1:
            self.res.bad("stream-not-one-to-one", "%d frames were pulled for one result" % (self.src.pos - before))
        self.pos = self.src.pos
        self.item = item
        self.state = self.state_of(item)
        self.check(self, item, self.pos)
        return True

    def op(self, op):
        kind = op[0]
        self.res.log(op, self.pos)
        self.events.append((kind, self.pos))
        if kind == "feed":
            for _ in range(op[1]):
                if not self.feed_one():
                    break
        elif kind == "stop":
            self.res.count("probe:stop_resume")
            self.gen.close()
            self.open(self.pos)
        elif kind == "abandon":
            self.open(self.pos)
        elif kind == "save":
            if self.state is not None:
                self.saved = (self.dump(), self.pos)
                self.res.count("probe:checkpoint")
        elif kind == "rewind":
            # go back to the saved copy without a crash
            self.res.count("probe:rewind")
            self.gen.close()
            self.item = None
            self.state = self.load(self.saved[0])
            self.open(self.saved[1])
        elif kind == "crash":
            done = {}

            def step():
                try:
                    done["item"] = next(self.gen)
                except StopIteration:
                    pass

            n, mid = crash_after(op[1], step, len(op) > 2 and op[2] == 'gen')
            self.res.count("fault:crash_in_frame" if mid else "fault:crash_between_frames")
            self.res.log("crashed", n, mid)
            self.gen = None
            self.item = None
            self.mods = restart(*self.modnames)
            self.state = self.load(self.saved[0])
            self.open(self.saved[1])
        else:
            self.handlers[kind](self, op)

    def run(self, ops):
        for op in ops:
            self.op(op)
