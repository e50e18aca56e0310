"""Worker process: executes simulated runs of one property.

Modes (argv): runs  PROP SEED TIER START STRIDE COUNT STATEFILE
              plan  PROP PLANFILE            (one plan, prints one JSON result)
"""
import importlib
import json
import mmap
import os
import struct
import sys
import time
import traceback


def _quiet():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    sys.stdout = open(os.devnull, "w")
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    try:
        import numpy as np

        np.seterr(all="ignore")
    except Exception:
        pass
    return out


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


def execute(mod, plan, ctx):
    """Run one plan; returns a Result (violations are recorded in it)."""
    from .core import Bad, InvalidPlan, Result

    if isinstance(plan, dict) and "chain" in plan:
        # several runs in one process: what an earlier one left behind is part of the history
        digs = []
        for sub in plan["chain"]:
            res = execute(mod, sub, ctx)
            digs.append(res.log.digest())
            if res.violation:
                break
        res.log("chain", digs)
        return res
    res = Result()
    try:
        mod.run(plan, ctx, res)
    except Bad as b:
        res.violation = (b.cls, b.detail)
    except InvalidPlan:
        raise
    except Exception as e:
        # the library raised (or returned something the oracle could not even take apart)
        tb = traceback.format_exc()
        res.violation = ("unexpected-%s" % type(e).__name__, tb[-1500:])
        res.log("unexpected", type(e).__name__)
    return res


def main():
    mode = sys.argv[1]
    from .core import install_loader

    install_loader()
    out = _quiet()
    try:
        if mode == "runs":
            runs(out)
        elif mode == "plan":
            one(out)
    except BaseException as e:  # harness error
        out.write(json.dumps({"t": "error", "what": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-3000:]}) + "\n")
        out.flush()
        os._exit(3)
    out.flush()
    os._exit(0)


def runs(out):
    prop, seed, tier, start, stride, count, statefile, budget = sys.argv[2:10]
    seed, start, stride, count, budget = int(seed), int(start), int(stride), int(count), float(budget)
    from .core import InvalidPlan, known_findings, rng_for

    mod = load(prop)
    fd = os.open(statefile, os.O_RDWR)
    mm = mmap.mmap(fd, 64)
    # 'status' part of the state file is written by the C runtime on fatal errors
    stf = os.open(statefile + ".status", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.environ["SIM_STATUS_FD"] = str(stf)
    os.set_inheritable(stf, True)
    ctx = mod.setup()
    known = [k for k in known_findings()["findings"] if k["property"] == prop]
    t0 = last = time.monotonic()
    batch = {"t": "batch", "n": 0, "stats": {}, "fps": [], "nontriv": 0, "logs": [], "samples": []}
    i = start
    while i < count and time.monotonic() - t0 < budget:
        mm[:16] = struct.pack("qq", i, int(time.monotonic() * 1000))
        plan = mod.gen(rng_for(seed, prop, i), tier)
        try:
            res = execute(mod, plan, ctx)
        except InvalidPlan:  # the generated case has no well-defined answer (e.g. a point rounding alone puts in a bin)
            batch["n"] += 1
            batch["stats"]["plan_discarded"] = batch["stats"].get("plan_discarded", 0) + 1
            i += stride
            continue
        if res.violation:
            hit = [k for k in known if k["class"] == res.violation[0] and mod.matches_known(k, plan, res)]
            if hit:
                batch["stats"]["known:" + hit[0]["id"]] = batch["stats"].get("known:" + hit[0]["id"], 0) + 1
                res.violation = None
        for k in res.known:
            batch["stats"]["known:" + k] = batch["stats"].get("known:" + k, 0) + 1
        batch["n"] += 1
        for k, v in res.stats.items():
            batch["stats"][k] = batch["stats"].get(k, 0) + v
        if res.nontrivial:
            batch["nontriv"] += 1
            if res.fp:
                batch["fps"].append(res.fp)
        batch["logs"].append([i, res.log.digest()])
        if len(batch["samples"]) < 1 and i < 4 * stride:
            batch["samples"].append({"run": i, "plan": plan, "log": res.log.tail[:12]})
        if res.violation:
            out.write(json.dumps(batch) + "\n")
            if hasattr(mod, "concretise"):
                plan = mod.concretise(plan, res)
            out.write(json.dumps({"t": "violation", "run": i, "plan": plan, "class": res.violation[0], "detail": res.violation[1]}) + "\n")
            out.flush()
            return
        now = time.monotonic()
        if now - last > 1.0:
            out.write(json.dumps(batch) + "\n")
            out.flush()
            batch = {"t": "batch", "n": 0, "stats": {}, "fps": [], "nontriv": 0, "logs": [], "samples": []}
            last = now
        i += stride
    out.write(json.dumps(batch) + "\n")
    out.write(json.dumps({"t": "end", "next": i}) + "\n")


def one(out):
    prop, planfile = sys.argv[2:4]
    mod = load(prop)
    stf = os.open(planfile + ".status", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.environ["SIM_STATUS_FD"] = str(stf)
    ctx = mod.setup()
    with open(planfile) as fh:
        jobs = json.load(fh)
    from .core import InvalidPlan

    for k, plan in enumerate(jobs):
        out.write(json.dumps({"t": "begin", "k": k}) + "\n")
        out.flush()
        try:
            res = execute(mod, plan, ctx)
        except InvalidPlan:
            out.write(json.dumps({"t": "done", "k": k, "invalid": True}) + "\n")
            continue
        v = res.violation
        conc = mod.concretise(plan, res) if v and hasattr(mod, "concretise") and "chain" not in plan else plan
        out.write(json.dumps({"t": "done", "k": k, "class": v and v[0], "detail": v and v[1], "plan": conc,
                              "log": res.log.digest(), "tail": res.log.tail}) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
