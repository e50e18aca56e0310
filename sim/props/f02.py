"""F02: rejected saves change nothing on disk and no save touches another file."""
import os

from .. import fsim, threads
from ..core import Bad, fingerprint, put, shrink_choice, shrink_int, shrink_list
from . import files
from .callers import Callers
from .f01 import FAULTS, gen_save

RUNS = {"quick": 15000, "thorough": 300000}
BUDGET = {"quick": 120, "thorough": 700}
HANG_S = 180
RULE = ("a run = one to three caller threads, parked at every line of library code, saving patterns and masks into directories with existing files; some saves have arguments that must be "
        "refused, file-system calls fail, are cut short, run out of space or end the process; the complete directory tree is compared before and after each refused save and after the run; "
        "non-trivial if at least one save was refused or two different targets were saved")
MEASURE = "distinct (saves and their outcomes, faults delivered, thread interleaving) triples"
REAL = ["skbeam/io/save_powder_output.py", "skbeam/io/fit2d.py"]
STUB = ["thread scheduler", "file-system calls of libc (interposed: pass through to a scratch directory unless a fault is due)"]
ASSUMPTIONS = ["no two callers save to the same target at the same time (the library promises nothing about that)"]
TIME_UNIT = "scheduling points"
prepare = fsim.prepare
NAMES = ["a", "b", "a.b", "A", "a_1", ".a", "sub_a", "a.tmp"]
BESIDE = [lambda f, x=x: f + x for x in ["~", ".tmp", ".bak", ".part", ".new", ".old", ".lock", ".orig", "_tmp", "_old", ".1", ".gz"]] + [
    lambda f: "~" + f, lambda f: "." + f, lambda f: "tmp_" + f, lambda f: "tmp" + f, lambda f: os.path.splitext(f)[0] + ".tmp", lambda f: os.path.splitext(f)[0] + ".bak", lambda f: os.path.splitext(f)[0],
    lambda f: f.upper(), lambda f: os.path.splitext(f)[0] + "~", lambda f: "#" + f + "#", lambda f: "." + f + ".swp"]
DIRS = ["", "sub", "sub/deeper"]
BAD = {"chi": ["length", "mode", "dir", "data", "text"], "xye": ["length", "mode", "dir", "noerr", "data", "text"], "STD": ["length", "dir", "data", "mode", "nomode", "text"],
       "ESD": ["length", "dir", "data", "mode", "nomode", "text"], "FXYE": ["length", "dir", "data", "mode", "nomode", "text"], "msk": ["dir", "data"]}
BAD["dat"] = BAD["chi"]


def setup():
    threads.install()
    files.load()
    return {"shim": fsim.Shim(), "root": fsim.scratch_root()}


def path(op):
    return os.path.normpath(os.path.join(op["sub"], files.target(op)))


def called(op):
    """The save as the library sees it: without a directory the name is relative to the current directory."""
    return op if op["dir"] else dict(op, name=os.path.join(op["sub"], op["name"]))


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 2, 3])
    targets = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        op = gen_save(rng, names=NAMES)
        op["sub"] = rng.choice(DIRS)
        if rng.random() < 0.6 and targets:  # a near namesake
            o = rng.choice(targets)
            op.update(rng.choice([{"name": o["name"]}, {"name": o["name"], "sub": o["sub"]}, {"name": o["name"], "kind": o["kind"]}]))
        if all(path(op).lower() != path(o).lower() or path(op) != path(o) for o in targets):
            targets.append(op)
    ts = [[] for _ in range(nt)]
    for i, t in enumerate(targets):
        for _ in range(rng.choice([1, 1, 2, 3])):
            op = dict(t, n=rng.choice([2, 5, 10, 11, 40]), seed=rng.randrange(1000), bad=None)
            if op["kind"] in ("STD", "ESD", "FXYE") and rng.random() < 0.3:
                op["kind"] = rng.choice(["STD", "ESD", "FXYE"])
            op["dir"] = rng.random() < 0.8
            if rng.random() < 0.35:
                op["bad"] = rng.choice(BAD[op["kind"]])
            ts[i % nt].append(op)
    for t in ts:
        rng.shuffle(t)
    old = {path(o): rng.randrange(1, 400) for o in targets if rng.random() < 0.6}
    for p in ["note.txt", "a", "a.chi~", "sub/a.gsas.bak", "b.tmp", "sub/tmp", "a.chi.tmp", "a.gsas.tmp", "sub/deeper/.a.gsas.swp"]:
        if rng.random() < 0.4:
            old[p] = rng.randrange(0, 400)
    for o in targets:  # what editors, backups and careless writers leave beside a file belongs to somebody
        d, f = os.path.split(path(o))
        for _ in range(rng.choice([0, 1, 1, 2])):
            e = rng.choice(BESIDE)
            q = os.path.join(d, e(f))
            if q not in old and all(q != path(t) for t in targets):
                old[q] = rng.randrange(0, 400)
    return {"old": old, "threads": [t for t in ts if t] or [[]], "faults": fsim.gen_faults(rng, FAULTS, 12) if rng.random() < 0.6 else [], "quota": rng.randrange(8000) if rng.random() < 0.1 else -1,
            "sched": dict(threads.gen_sched(rng), op=rng.random() < 0.1)}


def run(plan, ctx, res):
    root, shim = ctx["root"], ctx["shim"]
    fsim.wipe(root)
    for d in DIRS[1:]:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for p, n in plan["old"].items():
        with open(os.path.join(root, p), "wb") as fh:
            fh.write(bytes((7 * n + 13 * i) % 251 for i in range(n)))
    start = fsim.snapshot(root)
    ts = plan["threads"]
    alone = len(ts) == 1

    def work(send):
        os.chdir(root)
        box = type("R", (), {})()
        box.stats, box.events = {}, []
        box.count = lambda k, n=1: box.stats.__setitem__(k, box.stats.get(k, 0) + n)
        box.log = lambda *a: box.events.append(a)
        C = Callers(plan, box)

        def caller(t, ops):
            def go():
                for i, op in enumerate(ops):
                    where = os.path.join(root, op["sub"]) if op["sub"] else root
                    send(("start", t, i))
                    before = shim.paused(fsim.snapshot, root) if op["bad"] else None
                    L = files.L
                    L["modified"] = None
                    try:
                        files.save(called(op), where)
                        out = ("returned", "")
                    except Exception as e:
                        out = ("raised", type(e).__name__)
                        e.__traceback__ = None
                        del e
                    after = shim.paused(fsim.snapshot, root)
                    send(("end", t, i, out, before, after, os.getcwd()))
            return go

        shim.begin(root, plan["faults"], plan["quota"], 20000)
        err = None
        try:
            C.run([caller(t, ops) for t, ops in enumerate(ts)])
        except Bad as b:
            err = (b.cls, b.detail)
        trace = shim.end()
        send(("over", err, trace, box.sched, C.rec, box.stats, shim.open_fds()))

    msgs, status = fsim.in_process(work)
    over = [m for m in msgs if m[0] == "over"]
    if status == fsim.ENDLESS or status < 0:
        res.bad("save-never-returns", "exit status %d" % status)
    if status not in (0, fsim.DIED):
        res.bad("save-process-ended", "exit status %d" % status)
    died = status == fsim.DIED
    trace = []
    if over:
        _, err, trace, res.sched, rec, stats, fds = over[0]
        for k, v in stats.items():
            res.count(k, v)
        if err:
            raise Bad(*err)
        if fds:
            res.bad("save-file-left-open", "%d descriptors" % fds)
    else:
        rec = []
        res.count("fault:process_death")
    fsim.count_faults(res, trace)
    hard = len(fsim.hard(trace))
    full = plan["quota"] >= 0 or any(f[1] == fsim.FULL for f in plan["faults"])
    content = dict(start)  # what each file must hold; None = unknown
    failed = refused = 0
    hist = []
    begun = {}
    targets = {path(op) for ops in ts for op in ops}
    for m in msgs:
        if m[0] == "start":
            op = ts[m[1]][m[2]]
            begun[m[1]] = op
            if not op["bad"]:
                content[path(op)] = None  # in flight
            continue
        if m[0] != "end":
            continue
        _, t, i, out, before, after, cwd = m
        op = ts[t][i]
        begun.pop(t)
        p = path(op)
        what = "%s save of %s by caller %d" % (op["kind"], p, t)
        hist.append((t, i, out))
        res.count("checks")
        if os.path.realpath(cwd) != os.path.realpath(root):
            res.bad("save-changes-directory", "%s left the process in another directory" % what)
        if op["bad"]:
            res.count("fault:rejected_call")
            refused += 1
            if out[0] != "raised":
                res.bad("save-bad-accepted", "%s with a wrong %s" % (what, op["bad"]))
            # callers in the middle of a save may have files of their own
            b, a = ({q: v for q, v in x.items() if alone or q == p or (q in start and q not in targets)} for x in (before, after))
            if a != b:
                diff = sorted(q for q in set(a) | set(b) if a.get(q) != b.get(q))
                res.bad("refused-save-changed-disk", "%s with a wrong %s changed %s" % (what, op["bad"], diff[:3]))
        elif out[0] == "returned":
            if p not in after:
                res.bad("save-returned-no-file", what)
            w = files.wrong(called(op), after[p])
            if w:
                res.bad("save-returned-incomplete", "%s: %s" % (what, w))
            content[p] = after[p]
        else:
            failed += 1
            content[p] = None
    if not died and not full and failed > hard:
        res.bad("save-failed-without-error", "%d saves failed, the file system reported %d errors" % (failed, hard))
    end = fsim.snapshot(root)
    for p, v in content.items():
        if v is not None and end.get(p) != v:
            res.bad("other-file-changed", "%s is %s at the end" % (p, "gone" if p not in end else "altered"))
    extra = [p for p in end if p not in content and not (died or hard)]
    if extra:
        res.bad("save-leaves-files", "%s appeared" % extra[:3])
    res.log(hist, [x for x in trace if x[1]], status)
    res.nontrivial = refused > 0 or len({path(ts[h[0]][h[1]]) for h in hist}) > 1
    res.fp = fingerprint(hist, [[(o["kind"], path(o), o["n"], o["bad"]) for o in t] for t in ts], [x[:2] for x in trace], rec)


def concretise(plan, res):
    return put(plan, ("sched",), res.sched) if res.sched else plan


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("threads",), 1)
    for t in range(len(plan["threads"])):
        yield from shrink_list(plan, ("threads", t), 0)
    yield from shrink_list(plan, ("faults",))
    yield from shrink_choice(plan, ("quota",), -1)
    for p in list(plan["old"]):
        yield put(plan, ("old",), {k: v for k, v in plan["old"].items() if k != p})
    if plan["sched"]["mode"] == "replay":
        yield from shrink_list(plan, ("sched", "switches"))
    for t in range(len(plan["threads"])):
        for i in range(len(plan["threads"][t])):
            yield from shrink_choice(plan, ("threads", t, i, "as"), "array")
            yield from shrink_int(plan, ("threads", t, i, "n"), 2)
