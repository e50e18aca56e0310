"""Common parts of the simulator: seeds, results, shrinking helpers."""
import copy
import hashlib
import json
import os
import random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SKB_REPO", "/repo")


def install_loader():
    """Import scikit-beam from REPO's current sources only: no cached bytecode, no in-place extensions."""
    import importlib.machinery as M
    import sys

    class SrcLoader(M.SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            return self.source_to_code(self.get_data(path), path)

    root = os.path.join(REPO, "")

    def hook(path):
        if not (path + "/").startswith(root):
            raise ImportError
        return M.FileFinder(path, (SrcLoader, [".py"]))

    hook.sim = True
    if not any(getattr(h, "sim", False) for h in sys.path_hooks):
        sys.path_hooks.insert(0, hook)
        for p in list(sys.path_importer_cache):
            if (p + "/").startswith(root):
                del sys.path_importer_cache[p]


class Bad(Exception):
    """A property violation found by an oracle."""

    def __init__(self, cls, detail=""):
        super().__init__("%s: %s" % (cls, detail))
        self.cls = cls
        self.detail = str(detail)[:2000]


class InvalidPlan(Exception):
    """A (shrunk) plan that does not describe a legal run."""


def subseed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(*parts):
    return random.Random(subseed(*parts))


class Log:
    """Event log of a run: only its digest and a short tail are kept."""

    def __init__(self, keep=400):
        self.h = hashlib.blake2b(digest_size=16)
        self.n = 0
        self.keep = keep
        self.tail = []

    def __call__(self, *ev):
        s = repr(ev)
        self.h.update(s.encode())
        self.n += 1
        if len(self.tail) < self.keep:
            self.tail.append(s if len(s) <= 240 else s[:200] + '...')

    def digest(self):
        return self.h.hexdigest()


class Result:
    """What one simulated run produced."""

    def __init__(self):
        self.stats = {}
        self.log = Log()
        self.fp = None  # fingerprint of the explored case (schedule + faults + configuration)
        self.nontrivial = True
        self.violation = None  # (class, detail)
        self.sched = None  # recorded schedule, if any
        self.known = []  # classes matched by a known finding

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def bad(self, cls, detail=""):
        raise Bad(cls, detail)


def dig(*arrays):
    """Short digest of array contents, for event logs."""
    import numpy as np

    h = hashlib.blake2b(digest_size=8)
    for a in arrays:
        a = np.ascontiguousarray(a)
        h.update(repr((a.shape, a.dtype.str)).encode())
        h.update(a.tobytes() if a.dtype != object else repr(a.tolist()).encode())
    return h.hexdigest()


def fingerprint(*parts):
    return hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()


# ---------------------------------------------------------------- shrinking helpers
def put(plan, path, value):
    p = copy.deepcopy(plan)
    d = p
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = value
    return p


def get(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def shrink_list(plan, path, minlen=0):
    """Candidates with chunks of the list at `path` removed, big chunks first."""
    lst = get(plan, path)
    n = len(lst)
    size = n
    while size >= 1:
        for start in range(0, n, size):
            new = lst[:start] + lst[start + size :]
            if len(new) >= minlen and len(new) < n:
                yield put(plan, path, new)
        size //= 2


def shrink_int(plan, path, lo=0):
    v = get(plan, path)
    if v is None or v <= lo:
        return
    seen = set()
    for c in (lo, lo + (v - lo) // 2, v - 1):
        if c != v and c >= lo and c not in seen:
            seen.add(c)
            yield put(plan, path, c)


def terse(flag, kw, **defaults):
    """Keyword arguments without those that are documented to be the default (if flag is set)."""
    def is_default(k, v):
        return k in defaults and type(v) is type(defaults[k]) and v == defaults[k]

    return {k: v for k, v in kw.items() if not (flag and is_default(k, v))}


def shrink_choice(plan, path, simplest):
    v = get(plan, path)
    if v != simplest:
        yield put(plan, path, simplest)


def shrink_schedule(plan, path=("sched",)):
    """Recorded schedules are lists of [step, thread] switches: drop switches."""
    s = get(plan, path)
    if isinstance(s, dict) and s.get("mode") == "replay":
        yield from shrink_list(plan, tuple(path) + ("switches",))


# ---------------------------------------------------------------- known findings
def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as fh:
            return json.load(fh)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}
