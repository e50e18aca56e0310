#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--seed N] [--jobs N] [--runs N] [--replay FILE]

Exit 0: the property held on every simulated run.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import argparse
import hashlib
import json
import os
import selectors
import shutil
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"  # the interpreter scikit-beam is built for
if sys.prefix != "/opt/venv" and os.path.exists(PY):
    os.execv(PY, [PY] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
from sim.core import REPO, known_findings  # noqa: E402

PROC = []


def env_for(hashseed="0"):
    e = dict(os.environ)
    e.update(
        PYTHONPATH=HERE + os.pathsep + REPO,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED=hashseed,
        PYTHONNOUSERSITE="1",
        MPLBACKEND="Agg",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        NUMEXPR_MAX_THREADS="1",
        MKL_NUM_THREADS="1",
        LC_ALL="C.UTF-8",
        TZ="UTC",
    )
    e.pop("PYTHONSTARTUP", None)
    return e


class Harness(Exception):
    pass


def die(msg):
    sys.stderr.write("CHECK ERROR: %s\n" % msg)
    for p in PROC:
        try:
            p.kill()
        except Exception:
            pass
    sys.stderr.flush()
    os._exit(2)


def spawn(args, prop_env, hashseed="0", stdout=subprocess.PIPE):
    e = env_for(hashseed)
    e.update(prop_env)
    p = subprocess.Popen([PY, "-m", "sim.worker"] + [str(a) for a in args], stdout=stdout, stderr=subprocess.DEVNULL if not os.environ.get("SIM_DEBUG") else None,
                         stdin=subprocess.DEVNULL, cwd=HERE, env=e, start_new_session=True)
    PROC.append(p)
    return p


def killpg(p):
    try:
        os.killpg(p.pid, 9)
    except Exception:
        pass
    p.wait()


class Exec:
    """Executes plans one at a time in fresh (or reused) worker processes; crash- and hang-safe."""

    def __init__(self, prop, scratch, penv, hang):
        self.prop, self.scratch, self.penv, self.hang = prop, scratch, penv, hang
        self.n = 0

    def batch(self, plans, hashseed="0", stop_at_first=None):
        """-> list of dicts, one per plan (up to the first match if stop_at_first(class) given)."""
        out = []
        todo = list(plans)
        while todo:
            self.n += 1
            pf = os.path.join(self.scratch, "plan%d.json" % self.n)
            with open(pf, "w") as fh:
                json.dump(todo, fh)
            p = spawn(["plan", self.prop, pf], self.penv, hashseed)
            res = {}
            begun = -1
            sel = selectors.DefaultSelector()
            sel.register(p.stdout, selectors.EVENT_READ)
            os.set_blocking(p.stdout.fileno(), False)
            buf = b""
            deadline = time.monotonic() + self.hang + 60
            hung = False
            stop = False
            while True:
                if not sel.select(timeout=1.0):
                    if time.monotonic() > deadline:
                        hung = True
                        break
                    if p.poll() is not None:
                        break
                    continue
                data = p.stdout.read()
                if data == b"" or (data is None and p.poll() is not None):
                    break
                if not data:
                    continue
                buf += data
                while b"\n" in buf:
                    line, buf = buf.split(b"\n", 1)
                    m = json.loads(line)
                    if m["t"] == "begin":
                        begun = m["k"]
                        deadline = time.monotonic() + self.hang
                    elif m["t"] == "done":
                        res[m["k"]] = m
                        deadline = time.monotonic() + self.hang
                        if stop_at_first and m.get("class") and stop_at_first(m["class"]):
                            stop = True
                    elif m["t"] == "error":
                        killpg(p)
                        raise Harness(m["what"] + "\n" + m["tb"])
                if stop:
                    break
            killpg(p)
            done = sorted(res)
            for k in done:
                out.append(res[k])
            if stop:
                return out
            ndone = len(done)
            if ndone < len(todo):
                if begun == ndone:
                    status = ""
                    try:
                        status = open(pf + ".status").read().strip()
                    except OSError:
                        pass
                    cls = "hang" if hung else "crash"
                    if status:
                        cls = status_class(status)
                        if cls is None:
                            raise Harness(status)
                    out.append({"class": cls, "detail": status or ("exit %s" % p.returncode), "plan": todo[ndone], "log": cls})
                    todo = todo[ndone + 1 :]
                    if stop_at_first and stop_at_first(cls):
                        return out
                else:
                    raise Harness("worker ended early (exit %s)" % p.returncode)
            else:
                todo = []
        return out

    def one(self, plan, hashseed="0"):
        return self.batch([plan], hashseed)[0]


def status_class(status):
    if "FATAL 70" in status:
        return "deadlock"
    if "FATAL 71" in status:
        return "no-progress"
    if "FATAL 79" in status:
        return None
    return "crash"


def minimise(ex, mod, plan, cls, budget):
    t0 = time.monotonic()
    n_try = 0
    improved = True
    while improved and time.monotonic() - t0 < budget:
        improved = False
        cands = []
        for c in mod.shrinks(plan):
            cands.append(c)
            if len(cands) >= 400:
                break
        pos = 0
        while pos < len(cands) and time.monotonic() - t0 < budget:
            chunk = cands[pos : pos + 40]
            res = ex.batch(chunk, stop_at_first=lambda c: c == cls)
            n_try += len(res)
            hit = next((r for r in res if r.get("class") == cls), None)
            if hit is not None:
                new = hit["plan"]
                if json.dumps(new, sort_keys=True) != json.dumps(plan, sort_keys=True):
                    plan = new
                    improved = True
                    break
            pos += 40
    return plan, n_try


def find_chain(ex, mod, a, prop, found, jobs):
    """The violation needs what earlier runs of the same worker left behind in the process."""
    from sim.core import rng_for

    idx = list(range(found["run"] % jobs, found["run"], jobs))
    last = found.get("plan") or mod.gen(rng_for(a.seed, prop, found["run"]), a.tier)
    for k in (1, 4, 16, 64, 256, 1024, len(idx)):
        chain = {"chain": [mod.gen(rng_for(a.seed, prop, i), a.tier) for i in idx[-k:]] + [last]}
        r = ex.one(chain)
        if r.get("class"):
            return chain, r
        if k >= len(idx):
            break
    return None, None


def minimise_chain(ex, plan, cls, budget):
    from sim.core import shrink_list

    t0 = time.monotonic()
    n_try = 0
    improved = True
    while improved and time.monotonic() - t0 < budget:
        improved = False
        for c in shrink_list(plan, ("chain",), 1):
            if time.monotonic() - t0 > budget:
                break
            n_try += 1
            if ex.one(c).get("class") == cls:  # a fresh process for every candidate
                plan, improved = c, True
                break
    return plan, n_try


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--logs", help="write the event log digest of every run to this file")
    ap.add_argument("--hashseed", default="0")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="skbsim-")
    rc = 2
    try:
        rc = check(a, scratch, t0)
    except Harness as e:
        sys.stderr.write("CHECK ERROR: %s\n" % e)
        rc = 2
    finally:
        for p in PROC:
            if p.poll() is None:
                killpg(p)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def check(a, scratch, t0):
    import importlib

    prop = a.prop.upper()
    mod = importlib.import_module("sim.props." + prop.lower())
    penv = mod.prepare(scratch) if hasattr(mod, "prepare") else {}
    penv = dict(penv or {})
    penv["SIM_SCRATCH"] = scratch
    hang = getattr(mod, "HANG_S", 120)
    ex = Exec(prop, scratch, penv, hang)
    if a.replay:
        with open(a.replay) as fh:
            rep = json.load(fh)
        r = ex.one(rep["plan"])
        if r.get("class"):
            print("replayed: class=%s detail=%s log=%s" % (r["class"], r.get("detail"), r.get("log")))
            same = r["class"] == rep["class"] and r.get("log") == rep.get("log")
            print("identical to the recorded failure: %s" % same)
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("replayed: no violation")
        return 0

    runs = a.runs or mod.RUNS[a.tier]
    budget = a.budget or getattr(mod, "BUDGET", {"quick": 150, "thorough": 700})[a.tier]
    jobs = max(1, min(a.jobs, runs))
    agg = {"n": 0, "stats": {}, "nontriv": 0, "samples": []}
    fps = set()
    logs = {}
    sel = selectors.DefaultSelector()
    W = {}

    def start(w, first):
        sf = os.path.join(scratch, "w%d" % w)
        with open(sf, "wb") as fh:
            fh.write(struct.pack("qq", -1, 0) + b"\0" * 48)
        left = max(1.0, budget - (time.monotonic() - t0))
        p = spawn(["runs", prop, a.seed, a.tier, first, jobs, runs, sf, left], penv, a.hashseed)
        os.set_blocking(p.stdout.fileno(), False)
        sel.register(p.stdout, selectors.EVENT_READ, w)
        W[w] = {"p": p, "buf": b"", "sf": sf, "done": False, "idx": -1, "since": time.monotonic() + 60}

    for w in range(jobs):
        start(w, w)
    found = None
    while any(not x["done"] for x in W.values()) and found is None:
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            x = W[w]
            data = x["p"].stdout.read()
            if data:
                x["buf"] += data
            while b"\n" in x["buf"]:
                line, x["buf"] = x["buf"].split(b"\n", 1)
                m = json.loads(line)
                if m["t"] == "batch":
                    agg["n"] += m["n"]
                    agg["nontriv"] += m["nontriv"]
                    for k, v in m["stats"].items():
                        agg["stats"][k] = agg["stats"].get(k, 0) + v
                    fps.update(m["fps"])
                    for i, d in m["logs"]:
                        logs[i] = d
                    agg["samples"] += m["samples"]
                elif m["t"] == "violation":
                    found = found or m
                elif m["t"] == "end":
                    x["done"] = True
                elif m["t"] == "error":
                    raise Harness("%s\n%s" % (m["what"], m["tb"]))
            if data == b"":
                sel.unregister(key.fileobj)
                x["p"].wait()
                if not x["done"] and found is None:
                    # the worker died: attribute it to the run it was executing
                    with open(x["sf"], "rb") as fh:
                        idx = struct.unpack("q", fh.read(8))[0]
                    status = ""
                    try:
                        status = open(x["sf"] + ".status").read().strip()
                    except OSError:
                        pass
                    if idx < 0:
                        raise Harness("worker died during set-up (exit %s) %s" % (x["p"].returncode, status))
                    found = {"run": idx, "class": "crash", "detail": status or "exit %s" % x["p"].returncode}
                    if status:
                        found["class"] = status_class(status)
                        if found["class"] is None:
                            raise Harness(status)
                x["done"] = True
        now = time.monotonic()
        for x in W.values():
            if x["done"]:
                continue
            with open(x["sf"], "rb") as fh:
                idx = struct.unpack("q", fh.read(8))[0]
            if idx != x["idx"]:
                x["idx"], x["since"] = idx, now
            elif now - x["since"] > hang and found is None:
                if idx < 0:
                    raise Harness("worker hung during set-up")
                found = {"run": idx, "class": "hang", "detail": "no progress for %d s" % hang}
    for x in W.values():
        killpg(x["p"])

    violations = 0
    replay = None
    if found is not None:
        from sim.core import rng_for

        plan = found.get("plan") or mod.gen(rng_for(a.seed, prop, found["run"]), a.tier)
        cls = found["class"]
        orig = ex.one(plan)
        if not orig.get("class"):
            plan, orig = find_chain(ex, mod, a, prop, found, jobs)
        if not orig:
            raise Harness("run %s reported %s (%s) but does not reproduce" % (found["run"], cls, found.get("detail")))
        cls = orig["class"]
        plan = orig.get("plan") or plan
        tries = 0
        shrunk = plan
        if "chain" in plan:
            shrunk, tries = minimise_chain(ex, plan, cls, getattr(mod, "SHRINK_S", 60))
        elif hasattr(mod, "shrinks") and cls != "hang":
            try:
                shrunk, tries = minimise(ex, mod, plan, cls, getattr(mod, "SHRINK_S", 60))
            except Harness as e:
                sys.stderr.write("minimiser stopped: %s\n" % e)
        fin = ex.one(shrunk)
        fin2 = ex.one(shrunk, hashseed="4711")
        if fin.get("class") != cls:
            shrunk, fin = plan, orig
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        body = {"property": prop, "seed": a.seed, "run": found["run"], "class": cls, "detail": fin.get("detail"), "log": fin.get("log"),
                "trace": fin.get("tail"), "plan": shrunk, "original_plan": plan, "shrink_attempts": tries,
                "identical_in_second_process": fin.get("log") == fin2.get("log")}
        h = hashlib.sha256(json.dumps(shrunk, sort_keys=True).encode()).hexdigest()[:10]
        replay = os.path.join(HERE, "replays", "%s-%s.json" % (prop, h))
        with open(replay, "w") as fh:
            json.dump(body, fh, indent=1)
        violations = 1

    determinism = None
    if found is None:
        # prove determinism on a sample: fresh processes, another hash seed, another order
        k = min(len(logs), getattr(mod, "DET", {"quick": 16, "thorough": 128})[a.tier])
        idxs = sorted(logs)[:: max(1, len(logs) // max(1, k))][:k]
        from sim.core import rng_for

        mism = 0
        if idxs:
            r = ex.batch([mod.gen(rng_for(a.seed, prop, i), a.tier) for i in reversed(idxs)], hashseed="12345")
            for i, m in zip(reversed(idxs), r):
                if m.get("log") != logs[i]:
                    mism += 1
        determinism = {"runs_repeated_in_fresh_process_other_hashseed": len(idxs), "different_event_logs": mism}
        if mism:
            sys.stderr.write("WARNING: %d of %d repeated runs had a different event log\n" % (mism, len(idxs)))
    if a.logs:
        with open(a.logs, "w") as fh:
            for i in sorted(logs):
                fh.write("%d %s\n" % (i, logs[i]))

    wall = time.monotonic() - t0
    kf = [k for k in known_findings()["findings"] if k["property"] == prop]
    stats = agg["stats"]
    seen_known = {k[6:]: v for k, v in stats.items() if k.startswith("known:")}
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    cov = {
        "evaluations": agg["n"],
        "distinct_nontrivial": len(fps),
        "rule": mod.RULE,
        "samples": agg["samples"][:4],
        "runs_per_hour": int(agg["n"] / max(wall, 1e-3) * 3600),
        "seeds_per_hour": int(agg["n"] / max(wall, 1e-3) * 3600),
        "simulated_time": {"unit": getattr(mod, "TIME_UNIT", "scheduler steps"), "total": stats.get("steps", 0)},
        "context_switches": stats.get("switches", 0),
        "faults_injected": faults,
        "probes": probes,
        "distinct_interleavings_or_states": {"measure": mod.MEASURE, "count": len(fps)},
        "oracle_checks": stats.get("checks", 0),
        "determinism": determinism,
        "real_code": mod.REAL,
        "stubs": mod.STUB,
        "known_findings_hit": seen_known,
        "jobs": jobs,
    }
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        print("class=%s detail=%s" % (body["class"], " ".join(str(body["detail"]).split())[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    print("OK property=%s runs=%d distinct=%d steps=%d wall=%.1fs faults=%s" % (prop, agg["n"], len(fps), stats.get("steps", 0), wall, faults))
    return 0


if __name__ == "__main__":
    main()
