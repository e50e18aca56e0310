"""F01: saved powder patterns and masks are complete, or the save reports an error."""
import os

from .. import fsim
from ..core import fingerprint, shrink_choice, shrink_int, shrink_list
from . import files

RUNS = {"quick": 20000, "thorough": 400000}
BUDGET = {"quick": 120, "thorough": 700}
HANG_S = 180
RULE = ("a run = a history of saves of powder patterns (.chi .dat .xye and GSAS STD/ESD/FXYE) and Fit2D masks into one directory by processes whose file-system calls fail, are cut short, are "
        "interrupted, run out of space or end the process at chosen calls; after every save the target is decoded by an independent decoder and read back with the library's reader; "
        "non-trivial if at least one save returned")
MEASURE = "distinct (save kind and size, faults delivered, outcome) histories"
REAL = ["skbeam/io/save_powder_output.py", "skbeam/io/fit2d.py", "skbeam/io/gsas_file_reader.py (reading back)"]
STUB = ["file-system calls of libc (interposed: pass through to a scratch directory unless a fault is due)"]
ASSUMPTIONS = ["a process that dies keeps what reached the kernel; loss of the page cache is not simulated because the library promises no durability across power loss"]
TIME_UNIT = "file-system calls"
prepare = fsim.prepare
NAMES = ["a", "b", "run 12", "x.y", "Ni_std", "longname_" * 11]
FAULTS = ["errno", "errno", "eintr", "short", "crash", "torn", "full"]


def setup():
    files.load()
    return {"shim": fsim.Shim(), "root": fsim.scratch_root()}


def gen_save(rng, kinds=None, names=NAMES):
    kind = rng.choice(kinds or [k for k in files.KINDS if k != "msk" or files.HAVE_MSK])
    n = rng.choice([2, 3, 4, 5, 6, 9, 10, 11, 20, 21, 37, rng.randint(2, 120), rng.choice([300, 700])])
    if rng.random() < 0.01:
        n = rng.choice([1500, 3000])
    return {"kind": kind, "name": rng.choice(names), "n": n, "seed": rng.randrange(1000), "big": rng.choice([0, 0, 0, 2, 3, 4, 5, 7]), "as": rng.choice(["array", "array", "list", "int"]),
            "err": rng.random() < 0.6, "q": rng.choice(["Q", "2theta"]), "dir": rng.random() < 0.7}


def gen(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        op = gen_save(rng, names=NAMES[:3] if rng.random() < 0.5 else NAMES)
        op["faults"] = fsim.gen_faults(rng, FAULTS) if rng.random() < 0.6 else []
        op["quota"] = rng.choice([0, 1, 100, 1024, rng.randrange(6000)]) if rng.random() < 0.12 else -1
        ops.append(op)
        if rng.random() < 0.3:
            ops.append(dict(op, n=rng.choice([max(2, op["n"] // 2), op["n"]]), seed=rng.randrange(1000), faults=[], quota=-1))  # a shorter file, or one of the same size, over it
    return {"ops": ops}


def attempt(ctx, op, faults, quota, where):
    """One save on the interposed file system -> (outcome, trace, descriptors left open)"""
    shim = ctx["shim"]
    os.chdir(where)
    files.L["modified"] = None
    shim.begin(ctx["root"], faults, quota)
    try:
        try:
            files.save(op, where)
            out = ("returned", "")
        except Exception as e:
            out = ("raised", type(e).__name__)
            e.__traceback__ = None
            del e
    finally:
        trace = shim.end()
    return out, trace, shim.open_fds(), files.L["modified"]


def judge(res, op, before, after, got, what):
    """The save ended (returned or raised)."""
    out, trace, fds, modified = got
    t = files.target(op)
    if modified:
        res.bad("save-input-modified", "%s: %s" % (what, modified))
    if fds:
        res.bad("save-file-left-open", "%s: %d descriptors" % (what, fds))
    if out[0] == "returned":
        lost = [x for x in fsim.hard(trace) if x[0] not in (fsim.OPEN_R, fsim.READ, fsim.FREAD, fsim.CLOSE_R)]
        if lost:
            res.bad("save-error-lost", "%s returned although call (kind %d) failed with errno %d" % (what, lost[0][0], -lost[0][2]))
        if t not in after:
            res.bad("save-returned-no-file", what)
        w = files.wrong(op, after[t])
        if w:
            res.bad("save-returned-incomplete", "%s: %s (%d bytes; faults delivered %r)" % (what, w, len(after[t]), [x for x in trace if x[1]]))
    elif not fsim.hard(trace):
        res.bad("save-failed-without-error", "%s: %s although the file system reported no error" % (what, out[1]))


def run(plan, ctx, res):
    root = ctx["root"]
    fsim.wipe(root)
    good = {}  # target -> index of the save that wrote it last
    history = []
    returned = 0
    k = 0
    ops = plan["ops"]
    while k < len(ops):
        def work(send, first=k):
            for j in range(first, len(ops)):
                op = ops[j]
                send(("start", j))
                got = attempt(ctx, op, op["faults"], op["quota"], root)
                rb = None
                if got[0][0] == "returned":
                    try:
                        rb = files.read_back(op, os.path.join(root, files.target(op)))
                    except Exception as e:
                        rb = "%s: %s" % (type(e).__name__, str(e)[:200])
                send(("end", j, got, fsim.snapshot(root), rb))
                if got[0][0] == "raised":
                    got = attempt(ctx, op, [], -1, root)
                    try:
                        rb = files.read_back(op, os.path.join(root, files.target(op))) if got[0][0] == "returned" else None
                    except Exception as e:
                        rb = "%s: %s" % (type(e).__name__, str(e)[:200])
                    send(("again", j, got, fsim.snapshot(root), rb))

        before = fsim.snapshot(root)
        msgs, status = fsim.in_process(work)
        started = None
        for m in msgs:
            if m[0] == "start":
                started = m[1]
                continue
            tag, j, got, after, rb = m
            op = ops[j]
            what = "%s save %d (%s, %d points)" % ("repeated" if tag == "again" else op["kind"], j, files.target(op)[-20:], op["n"])
            fsim.count_faults(res, got[1])
            res.count("steps", len(got[1]))
            res.count("checks")
            history.append((j, tag, got[0], [x for x in got[1]]))
            judge(res, op, before, after, got, what)
            if rb:
                res.bad("save-not-read-back", "%s: %s" % (what, rb))
            t = files.target(op)
            good.pop(t, None)
            if got[0][0] == "returned":
                good[t] = j
                returned += 1
            for t2, j2 in good.items():
                w = files.wrong(ops[j2], after[t2]) if t2 in after else "gone"
                if w:
                    res.bad("saved-file-lost", "%s destroyed the file of save %d (%s)" % (what, j2, w))
            before = after
            k = j + 1
        if status == fsim.ENDLESS or status < 0:
            res.bad("save-never-returns", "save %s: exit status %d" % (started, status))
        if status == fsim.DIED:
            # the process died inside save `started`; the next one repeats it
            res.count("fault:process_death")
            op = ops[started]
            history.append((started, "died"))
            good.pop(files.target(op), None)
            after = fsim.snapshot(root)
            for t2, j2 in good.items():
                w = files.wrong(ops[j2], after[t2]) if t2 in after else "gone"
                if w:
                    res.bad("saved-file-lost", "the death inside save %d destroyed the file of save %d (%s)" % (started, j2, w))
            ops = ops[:started] + [dict(op, faults=[], quota=-1)] + ops[started + 1 :]
            k = started
        elif status:
            res.bad("save-process-ended", "exit status %d in save %s" % (status, started))
    res.log(history)
    res.nontrivial = returned > 0
    res.fp = fingerprint([(o["kind"], o["n"], o["big"], o["as"], files.target(o)) for o in ops], [(h[0], h[1], h[2:]) for h in history])


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("ops",), 1)
    for i in range(len(plan["ops"])):
        yield from shrink_list(plan, ("ops", i, "faults"))
        yield from shrink_choice(plan, ("ops", i, "quota"), -1)
        yield from shrink_choice(plan, ("ops", i, "name"), "a")
        yield from shrink_choice(plan, ("ops", i, "as"), "array")
        yield from shrink_choice(plan, ("ops", i, "big"), 0)
        yield from shrink_int(plan, ("ops", i, "n"), 2)
