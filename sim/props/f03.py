"""F03: readers give back stored data or an error."""
import os

import numpy as np

from .. import fsim, threads
from ..core import Bad, fingerprint, known_findings, put, shrink_choice, shrink_int, shrink_list
from . import files, formats
from .callers import Callers

RUNS = {"quick": 20000, "thorough": 1000000}
BUDGET = {"quick": 120, "thorough": 700}
HANG_S = 180
RULE = ("a run = one to three caller threads, parked at every line of library code, reading complete and torn files of every format while read, open and close calls fail, are cut short or are "
        "interrupted, then reading the files once more without faults, some of them rewritten in the meantime (what was read before is scribbled on); what each read returns is compared with the data the file was made from; non-trivial if at least one file was read")
MEASURE = "distinct (files and their tears, faults delivered, outcomes, thread interleaving) tuples"
REAL = ["skbeam/io/gsas_file_reader.py", "skbeam/io/binary.py", "skbeam/io/avizo_io.py", "skbeam/io/fit2d.py", "skbeam/io/net_cdf_io.py", "fabio, netCDF4/HDF5 (as installed)"]
STUB = ["thread scheduler", "file-system calls of libc (interposed: pass through to a scratch directory unless a fault is due)"]
ASSUMPTIONS = ["a file torn inside the digits of its last number, in a text format without an end mark, is a complete file with another last number",
               "the netCDF and HDF5 libraries get torn files, but no threads and no failing or short reads (they crash, leak a descriptor or take a short read for the end of the file)"]
TIME_UNIT = "scheduling points"
prepare = fsim.prepare
KNOWN = "F03-netcdf3-torn"  # the netCDF library fills a classic-format volume whose data are cut off with zeros
FAULTS = ["errno", "errno", "eintr", "short", "short"]


def setup():
    threads.install()
    files.load()
    return {"shim": fsim.Shim(), "root": fsim.scratch_root(), "known": {k["id"] for k in known_findings()["findings"]}}


def gen(rng, tier):
    fs = []
    for i in range(rng.choice([1, 1, 2, 3])):
        s = formats.gen_file(rng)
        if rng.random() < 0.5:
            s["tear"] = [rng.choice(["end", "end", "abs", "line"]), rng.choice([1, 2, 3, 10, rng.randrange(100), rng.randrange(2000), rng.randrange(20000)])]
        s["name"] = rng.choice(["f%d", "file %d", "x.%d"]) % i + formats.EXT[s["fmt"]]
        fs.append(s)
    nt = rng.choice([1, 1, 2, 3])
    kinds = FAULTS
    if any(f["fmt"].startswith("nc") for f in fs):  # the netCDF library is not made for threads, takes a short read for the end of the file and does not survive some read errors
        nt = 1
        kinds = []
    ts = [[rng.randrange(len(fs)) for _ in range(rng.choice([1, 2, 3]))] for _ in range(nt)]
    rewrite = {}
    for s in fs:
        if rng.random() < 0.4:  # replaced by another file of the same kind (and often the same size) before it is read again
            rewrite[s["name"]] = {"seed": (s["seed"] + 12 * rng.randint(1, 9)) % 200, "tear": s.get("tear") if rng.random() < 0.2 else None}
    return {"files": fs, "rewrite": rewrite, "threads": ts, "faults": fsim.gen_faults(rng, kinds, rng.choice([4, 12, 30])) if kinds and rng.random() < 0.6 else [], "again": rng.random() < 0.6,
            "sched": dict(threads.gen_sched(rng), op=rng.random() < 0.1)}


def cut_of(s):
    b = formats.make(s)[0]
    n = len(b)
    if not s.get("tear"):
        return n
    how, k = s["tear"]
    if how == "line":  # between two lines, if there are any
        ends = [i + 1 for i in range(n - 1) if b[i] == 10] if n < 20000 else []
        return ends[-1 - k % len(ends)] if ends else k % n
    return (n - k) % n if how == "end" else k % n


def scribble(got):
    """What a read returns is the caller's: its edits must not come back with the next read."""
    for g in got:
        if isinstance(g, np.ndarray) and g.size and g.flags.writeable:
            g[...] = 77 if g.dtype != bool else ~g
        elif isinstance(g, dict):
            g.clear()


def write(root, s):
    p = os.path.join(root, s["name"])
    with open(p, "wb") as fh:
        fh.write(formats.make(s)[0][: cut_of(s)])
    os.utime(p, (1000000000, 1000000000))  # all within one tick of the clock


def run(plan, ctx, res):
    root, shim = ctx["root"], ctx["shim"]
    fsim.wipe(root)
    fs = plan["files"]
    if len({s["name"] for s in fs}) < len(fs):
        raise AssertionError("names")
    for s in fs:
        write(root, s)
    start = fsim.snapshot(root)
    new = [dict(s, **plan["rewrite"].get(s["name"], {})) for s in fs]

    def work(send):
        box = type("R", (), {})()
        box.stats, box.events = {}, []
        box.count = lambda k, n=1: box.stats.__setitem__(k, box.stats.get(k, 0) + n)
        box.log = lambda *a: box.events.append(a)

        def one(tag, t, i):
            s = (fs if tag == "first" else new)[i]
            send(("start", tag, t, i))
            d = None
            try:
                got = formats.read(s, os.path.join(root, s["name"]))
                out = ("returned", "")
            except Exception as e:
                out = ("raised", type(e).__name__)
                e.__traceback__ = None
                del e
            else:
                try:
                    d = shim.paused(formats.differs, s, got)
                    if d == "volume" and s["fmt"] == "nc3" and not shim.paused(formats.zero_tail, s, got, cut_of(s)):
                        d = "volume, not only zeros for the missing part"
                except Exception as e:
                    d = "%s: %s" % (type(e).__name__, e)
                scribble(got)
                del got
            send(("end", tag, t, i, out, d))

        C = Callers(plan, box)
        shim.begin(root, plan["faults"], -1, 20000)
        err = None
        try:
            C.run([lambda t=t, ops=ops: [one("first", t, i) for i in ops] for t, ops in enumerate(plan["threads"])])
        except Bad as b:
            err = (b.cls, b.detail)
        trace = shim.end()
        fds = shim.open_fds()
        send(("over", err, trace, box.sched, C.rec, box.stats, fds))
        if plan["again"]:
            for s in new:
                write(root, s)
            shim.begin(root, [], -1, 20000)
            for i in range(len(fs)):
                one("again", 0, i)
            shim.end()
            send(("fds", shim.open_fds()))

    msgs, status = fsim.in_process(work)
    over = [m for m in msgs if m[0] == "over"]
    if status:
        m = [m for m in msgs if m[0] == "start"]
        s = fs[m[-1][3]] if m else None
        res.bad("read-never-returns" if status in (fsim.ENDLESS, -14) else "read-process-ended", "exit status %d while reading %r" % (status, s))
    _, err, trace, res.sched, rec, stats, fds = over[0]
    for k, v in stats.items():
        res.count(k, v)
    if err:
        raise Bad(*err)
    if fds or any(m[0] == "fds" and m[1] for m in msgs):
        res.bad("read-file-left-open", "%d descriptors; %s" % (fds, [m[3:5] for m in msgs if m[0] == "end"]))
    fsim.count_faults(res, trace)
    hist = []
    failed = 0
    faulted = fsim.hard(trace)
    for m in msgs:
        if m[0] != "end":
            continue
        _, tag, t, i, out, d = m
        s = (fs if tag == "first" else new)[i]
        cut, n = cut_of(s), len(formats.make(s)[0])
        what = "%s file of %d bytes%s" % (s["fmt"], n, "" if cut == n else " torn after byte %d" % cut)
        hist.append((tag, t, i, out))
        res.count("checks")
        if cut < n:
            res.count("fault:torn_file")
        if out[0] == "returned":
            if d == "volume" and formats.zero_filled(s, cut) and KNOWN in ctx["known"]:
                res.known.append(KNOWN)
            elif d and not formats.loose_end(s, cut):
                res.bad("read-invented-data", "%s%s: other %s" % (what, ", read again" if tag == "again" else "", d))
        elif cut == n:
            if tag == "again":
                res.bad("read-fails-without-error", "%s, read again without faults: %s" % (what, out[1]))
            failed += 1
    if failed > len(faulted):
        res.bad("read-fails-without-error", "%d reads of complete files failed, the file system reported %d errors: %r" % (failed, len(faulted), hist))
    end = fsim.snapshot(root)
    if plan["again"]:
        start = {s["name"]: formats.make(s)[0][: cut_of(s)] for s in new}
    if end != start:
        res.bad("read-changes-files", str(sorted(set(end) ^ set(start))[:3]))
    res.log(hist, trace, status)
    res.nontrivial = bool(hist)
    res.fp = fingerprint(hist, [formats.key(s) for s in fs], [cut_of(s) for s in fs], [x[:2] for x in trace], rec)


def concretise(plan, res):
    return put(plan, ("sched",), res.sched) if res.sched else plan


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("threads",), 1)
    for t in range(len(plan["threads"])):
        yield from shrink_list(plan, ("threads", t), 0)
    yield from shrink_list(plan, ("faults",))
    yield from shrink_choice(plan, ("again",), False)
    yield from shrink_choice(plan, ("rewrite",), {})
    if plan["sched"]["mode"] == "replay":
        yield from shrink_list(plan, ("sched", "switches"))
    for i in range(len(plan["files"])):
        if plan["files"][i].get("tear"):
            yield from shrink_choice(plan, ("files", i, "tear"), None)
            yield from shrink_int(plan, ("files", i, "tear", 1), 1)
        yield from shrink_int(plan, ("files", i, "n"), 2)
