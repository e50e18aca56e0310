"""T01: computations depend on their arguments only."""
import copy

import numpy as np

from .. import build, pristine, threads
from ..core import fingerprint, put, shrink_choice, shrink_list
from . import catalog
from .callers import Callers

RUNS = {"quick": 6000, "thorough": 400000}
BUDGET = {"quick": 150, "thorough": 800}
HANG_S = 180
RULE = ("a run = one to three threads calling public computations on shared arguments, parked at every line (or bytecode) of library code, with rejected calls, calls "
        "interrupted at an arbitrary line, arguments overwritten between calls and results overwritten by their owner; every answer is compared with the answer of the "
        "same call made first in a fresh process; non-trivial if at least two calls were made")
MEASURE = "distinct (call history, thread interleaving) pairs"
REAL = ["the public functions of skbeam/core (see sim/props/catalog.py)", "src/ctrans.c (one OpenMP thread)", "skbeam/core/accumulators/histogram.pyx"]
STUB = ["thread scheduler", "locks of library code"]
ASSUMPTIONS = ["the answer of a first call in a process is taken as the right one: other properties judge the answers themselves"]
TIME_UNIT = "scheduling points"
SEEDS = 24
BADS = ["none", "text", "shape", "empty", "nan", "neg", "drop"]
ENDLESS = {("xsvs", 4), ("series", 0), ("snip", 2)}  # with a factor or slope of 0 or less these never end, alone or not


def prepare(scratch):
    build.histogram_sim()
    build.ctrans_plain()


def setup():
    import os
    import sys

    threads.install()
    sys.stderr = open(os.devnull, "w")
    import skbeam.ext  # noqa: F401

    build.load_ext("skbeam.ext.ctrans", build.ctrans_plain())
    build.load_ext("skbeam.core.accumulators.histogram", build.histogram_sim())
    catalog.load()
    names = []
    for n, f in catalog.CAT.items():
        try:
            f(np.random.RandomState(0))
        except KeyError:  # its module needs a dependency that is not there
            continue
        names.append(n)
    return {"ref": pristine.Pristine(reference), "names": names}


# ---------------------------------------------------------------- values
def norm(x, depth=0):
    """A picklable picture of a result."""
    if depth > 6:
        return ("deep", type(x).__name__)
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", norm(np.ma.getdata(x)), norm(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("oa", x.shape, [norm(v, depth + 1) for v in x.ravel().tolist()])
        return np.array(x)
    if isinstance(x, (np.generic,)):
        return x.item() if x.dtype.kind != "V" else repr(x)
    if isinstance(x, (bool, int, float, complex, str, bytes, type(None))):
        return x
    if isinstance(x, (list, tuple)):
        return [norm(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    if isinstance(x, dict) or hasattr(x, "keys") and hasattr(x, "__getitem__"):
        return {k if isinstance(k, (str, int, float, tuple)) else repr(k): norm(x[k], depth + 1) for k in x.keys()}
    if callable(x):
        return ("callable", getattr(x, "__name__", "?"))
    if hasattr(x, "__dict__"):
        return ("obj", type(x).__name__, {k: norm(v, depth + 1) for k, v in vars(x).items() if not k.startswith("_")})
    return ("other", type(x).__name__)


def same(a, b, exact=False):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if exact or a.dtype.kind not in "fc":
            return np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
        if a.size == 0 or np.array_equal(a, b, equal_nan=True):
            return True
        fin = np.abs(b[np.isfinite(b)])
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12 * (fin.max() if fin.size else 1.0), equal_nan=True))
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(p, q, exact) for p, q in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], exact) for k in a)
    if isinstance(a, (float, complex)):
        if a == b or (a != a and b != b):
            return True
        return not exact and abs(a - b) <= 1e-9 * abs(b)
    return a == b


def arrays(x, out, depth=0):
    if depth > 6:
        return out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays(v, out, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            arrays(v, out, depth + 1)
    return out


# ---------------------------------------------------------------- calls
def build_args(name, seed, muts):
    """-> function, argument list, names of the keyword arguments at its end"""
    fn, args, kw = catalog.CAT[name](np.random.RandomState(seed))
    names = sorted(kw)
    flat = list(args) + [kw[k] for k in names]
    for m in muts:
        apply(name, flat, names, m)
    return fn, flat, names


def apply(name, flat, names, m):
    if not flat:
        return
    i = m[1] % len(flat)
    if m[0] == "swap":
        _, a2, k2 = catalog.CAT[name](np.random.RandomState(m[2]))
        other = list(a2) + [k2[k] for k in sorted(k2)]
        if i < len(other):
            flat[i] = other[i]
    elif m[0] == "like":
        flat[i] = alike(flat[i], m[2])
    elif (name, i) not in ENDLESS:
        v = flat[i]
        kind = m[2]
        if kind == "none":
            flat[i] = None
        elif kind == "text":
            flat[i] = "x"
        elif kind == "drop":
            flat[i] = ()
        elif isinstance(v, np.ndarray) and v.ndim:
            if kind == "shape":
                flat[i] = v[:-1]
            elif kind == "empty":
                flat[i] = v[:0]
            elif kind == "nan" and v.dtype.kind == "f" and v.size:
                w = v.copy()
                w.flat[w.size // 2] = np.nan
                flat[i] = w
            elif kind == "neg" and v.dtype.kind in "if":
                flat[i] = -v
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            flat[i] = {"shape": 0, "empty": -1, "nan": float("nan"), "neg": -v}[kind]
        elif isinstance(v, (list, tuple)):
            flat[i] = v[:-1]


LIKE = ["near", "near", "permuted", "type"]


def alike(v, kind):
    """Another value that is easily taken for this one: slightly different, of another type, or the same numbers in another order."""
    if isinstance(v, tuple) and v and all(isinstance(x, (int, float, np.number)) and not isinstance(x, bool) for x in v):
        return tuple(alike(x, kind) for x in v) if kind != "permuted" else v[::-1]
    if isinstance(v, np.ndarray) and v.ndim and v.dtype.kind in "fiu" and v.size:
        if kind == "near" and v.dtype.kind == "f":
            w = v.copy()
            w.flat[v.size // 2] *= 1.001
            return w
        if kind == "permuted":
            return np.ascontiguousarray(v[::-1])
        if kind == "type":
            return v.astype({"f8": "f4", "f4": "f8", "i8": "f8", "i4": "i8"}.get(v.dtype.str[1:], v.dtype.str))
    elif isinstance(v, float) and kind == "near":
        return v * 1.001
    elif isinstance(v, int) and not isinstance(v, bool) and kind == "type":
        return float(v)
    elif isinstance(v, float) and kind == "type" and v.is_integer():
        return int(v)
    return v


def invoke(fn, flat, names):
    k = len(flat) - len(names)
    return fn(*flat[:k], **dict(zip(names, flat[k:])))


def reference(req):
    name, seed, muts = req
    fn, flat, names = build_args(name, seed, muts)
    try:
        return ("ok", norm(invoke(fn, flat, names)))
    except Exception as e:
        return ("exc", type(e).__name__)


# ---------------------------------------------------------------- runs
def gen_call(rng, focus, seeds):
    name = rng.choice(focus) if rng.random() < 0.85 else rng.choice(ALL)
    muts = []
    u = rng.random()
    if u < 0.35:
        muts.append(["swap", rng.randrange(8), rng.choice(seeds)])
    elif u < 0.45:
        muts.append(["bad", rng.randrange(8), rng.choice(BADS)])
    elif u < 0.62:
        muts.append(["like", rng.randrange(8), rng.choice(LIKE)])
    return {"f": name, "seed": rng.choice(seeds), "muts": muts, "irq": rng.choice([None] * 6 + [rng.randint(1, 12), rng.randint(1, 150)]), "mem": rng.random() < 0.5,
            "scribble": rng.random() < 0.35, "edit": [rng.randrange(8), rng.choice(seeds)] if rng.random() < 0.3 else None}


ALL = sorted(catalog.CAT)


def gen(rng, tier):
    focus = [rng.choice(ALL) for _ in range(rng.choice([1, 1, 2]))]
    seeds = [rng.randrange(SEEDS) for _ in range(rng.choice([2, 3, 4]))]
    nt = rng.choice([1, 2, 2, 3])
    return {"before": [gen_call(rng, focus, seeds) for _ in range(rng.choice([0, 1, 2]))],
            "threads": [[gen_call(rng, focus, seeds) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(nt)],
            "after": [gen_call(rng, focus, seeds) for _ in range(rng.choice([1, 2, 3]))], "sched": threads.gen_sched(rng)}


class Interrupt(KeyboardInterrupt):
    pass


class NoMemory(MemoryError):
    pass


class Shared:
    """Arguments, shared by every caller that makes the same call."""

    def __init__(self, name, seed, muts):
        self.req = [name, seed, [list(m) for m in muts]]
        self.fn, self.flat, self.names = build_args(name, seed, muts)
        self.shot()

    def shot(self):
        self.keep = norm(self.flat)
        self.arr = arrays(self.flat, [])

    def edit(self, i, seed):
        """The caller overwrites one of its arrays in place."""
        if not self.flat:
            return False
        i %= len(self.flat)
        fresh = [None] * len(self.flat)
        apply(self.req[0], fresh, self.names, ["swap", i, seed])
        a, b = self.flat[i], fresh[i]
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.flags.writeable):
            return False
        if any(m[0] == "bad" and m[1] % len(self.flat) == i for m in self.req[2]):
            return False
        a[...] = b
        self.req[2].append(["swap", i, seed])
        self.shot()
        return True


def ids_of(x, out=None):
    """Everything reachable from the arguments."""
    out = set() if out is None else out
    if id(x) in out:
        return out
    if isinstance(x, (list, tuple)):
        out.add(id(x))
        for v in x:
            ids_of(v, out)
    elif isinstance(x, dict):
        out.add(id(x))
        for v in x.values():
            ids_of(v, out)
    return out


def containers(x, out, given):
    """Lists and dictionaries of an answer that are not the caller's own arguments."""
    if type(x) in (list, dict) and id(x) not in given and not any(x is o for o in out):
        out.append(x)
    if isinstance(x, (list, tuple)):
        for v in x:
            containers(v, out, given)
    elif isinstance(x, dict):
        for v in x.values():
            containers(v, out, given)
    return out


def process_state():
    """What a process shares and no computation has to touch."""
    import os
    import random
    import warnings

    st = np.random.get_state()
    return {"numpy error handling": np.geterr(), "print options": {k: repr(v) for k, v in np.get_printoptions().items()}, "numpy random stream": (st[1].tobytes(), st[2:]),
            "random stream": random.getstate(), "working directory": os.getcwd(), "warning filters": [f[:1] for f in warnings.filters]}


def run(plan, ctx, res):
    before = process_state()
    catalog.POOL.clear()
    shared, held, outcome = {}, [], []
    ref = ctx["ref"]

    def arg(c):
        key = (c["f"], c["seed"], repr(c["muts"]))
        if key not in shared:
            shared[key] = Shared(c["f"], c["seed"], c["muts"])
        return shared[key]

    def call(c, who, sched=None, edit=False):
        if c["f"] not in ctx["names"]:
            return
        s = arg(c)
        if edit and c["edit"] and s.edit(*c["edit"]):
            res.count("fault:argument_overwritten")
        irq = c["irq"] if sched is not None else None
        if irq:
            sched.arm(irq, NoMemory("injected") if c["mem"] else Interrupt())
        hit = False
        errs = np.seterr()
        try:
            try:
                got = invoke(s.fn, s.flat, s.names)
                kind, val = "ok", norm(got)
            finally:
                if irq:
                    hit = sched.disarm()
        except Exception as e:
            kind, val = "exc", type(e).__name__
        except Interrupt:
            kind, val = "irq", ""
        if hit:
            res.count("fault:interrupted_call")
        elif np.geterr() != errs and c["f"] != "spectrum_fit":  # (lmfit does, when a fit is stopped)
            res.bad("process-state-changed", "%s left numpy's error handling of its thread at %s" % (c["f"], np.geterr()))
        np.seterr(**errs)
        if not same(norm(s.flat), s.keep, True):
            res.bad("input-modified", "%s changed its arguments" % c["f"])
        outcome.append((who, c["f"], c["seed"], c["muts"], kind if not hit else "hit"))
        if hit:
            return  # what an interrupted call returns, if anything, is not judged
        want = ref(tuple([s.req[0], s.req[1], [list(m) for m in s.req[2]]]))
        if want[0] == "died":
            res.bad("crash", "%s ends the process" % c["f"])
        res.count("checks")
        if kind == "exc":
            res.count("fault:rejected_call")
        if (kind, val) != want if kind == "exc" else kind != want[0] or not same(val, want[1]):
            res.bad("answer-depends-on-history", "%s seed %d muts %s: %s instead of %s" % (c["f"], c["seed"], s.req[2], (kind, val), want))
        if kind == "exc":
            return
        mine = [a for a in arrays(got, []) if a.size and a.dtype.kind in "bifcu" and a.flags.writeable and not any(np.shares_memory(a, b) for b in s.arr)]
        boxes = containers(got, [], ids_of(s.flat))
        if c["scribble"]:
            for a in mine:
                a[...] = True if a.dtype.kind == "b" else 77
            for b in boxes:
                if isinstance(b, list):
                    b[:] = [77] * len(b)
                else:
                    for k in list(b):
                        b[k] = 77
            res.count("fault:result_overwritten", 1 if mine or boxes else 0)
            val = norm(got)
        if not any(np.shares_memory(a, b) for a in arrays(got, []) for b in s.arr):
            held.append((c["f"], got, val))

    for c in plan["before"]:
        call(c, "b", edit=True)
    C = Callers(plan, res)

    def caller(t, calls):
        def go():
            for c in calls:
                call(c, t, threads.current)
        return go

    C.run([caller(t, cs) for t, cs in enumerate(plan["threads"])], max_steps=3000000)
    for c in plan["after"]:
        call(c, "m", edit=True)
    for f, got, val in held:
        if not same(norm(got), val, True):
            res.bad("earlier-result-changed", f)
    now = process_state()
    for k in before:
        if before[k] != now[k]:
            res.bad("process-state-changed", k)
    res.log(outcome)
    res.nontrivial = len(outcome) > 1
    res.fp = fingerprint([o[:4] for o in outcome], C.rec)


def concretise(plan, res):
    return put(plan, ("sched",), res.sched) if res.sched else plan


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("after",))
    yield from shrink_list(plan, ("before",))
    yield from shrink_list(plan, ("threads",), 1)
    for t in range(len(plan["threads"])):
        yield from shrink_list(plan, ("threads", t))
    if plan["sched"]["mode"] == "replay":
        yield from shrink_list(plan, ("sched", "switches"))
    for ph in ("before", "after"):
        for i in range(len(plan[ph])):
            for k, v in (("edit", None), ("scribble", False), ("muts", []), ("irq", None)):
                yield from shrink_choice(plan, (ph, i, k), v)
    for t in range(len(plan["threads"])):
        for i in range(len(plan["threads"][t])):
            for k, v in (("irq", None), ("scribble", False), ("muts", [])):
                yield from shrink_choice(plan, ("threads", t, i, k), v)
