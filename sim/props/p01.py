"""P01: fluorescence fitting sessions."""
import copy

import numpy as np

from .. import pristine, threads
from ..core import fingerprint, put, shrink_choice, shrink_list
from .callers import Callers
from .t01 import Interrupt, NoMemory, norm

RUNS = {"quick": 3000, "thorough": 100000}
BUDGET = {"quick": 120, "thorough": 700}
HANG_S = 180
RULE = ("a run = one to three fitting sessions (parameter controller, strategies, spectrum model, fit, result written back) in threads parked at every line of library code, with "
        "rejected steps, sessions killed in the middle of a step and callers overwriting what they passed in; after every step the session's parameters are compared with a direct "
        "model and with the same session run alone in a fresh process; non-trivial if at least two steps were made")
MEASURE = "distinct (session histories, thread interleaving) pairs"
REAL = ["skbeam/core/fitting/xrf_model.py", "skbeam/core/fitting/models.py, lineshapes.py, base/parameter_data.py", "skbeam/core/constants"]
STUB = ["thread scheduler", "locks of library code and of scipy.optimize"]
TIME_UNIT = "scheduling points"
LINES = ["Ar_K", "Fe_K", "Ce_L", "Pt_M", "Pt_L", "Ca_K", "Si_Ka1-Si_Ka1", "Si_Ka1-Ce_La1", "user_peak1", "Userpeak2", "U_M"]
KINDS = ["pos", "width", "area", "ratio"]
SUFFIX = {"pos": "delta_center", "width": "delta_sigma", "ratio": "ratio_adjust", "area": "area"}
BOUNDS = ["lo", "hi", "lohi", "fixed", "none"]
DEFAULTS = {
    "area": {"bound_type": "none", "max": 1000000000.0, "min": 0.0, "value": 1000.0},
    "pos": {"bound_type": "fixed", "max": 0.005, "min": -0.005, "value": 0.0},
    "ratio": {"bound_type": "fixed", "max": 5.0, "min": 0.1, "value": 1.0},
    "width": {"bound_type": "fixed", "max": 0.02, "min": -0.02, "value": 0.0},
}
TRANSITIONS = {
    "K": ["ka1", "ka2", "ka3", "kb1", "kb2", "kb3", "kb4", "kb5"],
    "L": ["la1", "la2", "lb1", "lb2", "lb3", "lb4", "lb5", "lg1", "lg2", "lg3", "lg4", "ll", "ln"],
    "M": ["ma1", "ma2", "mb", "mg"],
}
BUILTIN = ["linear", "adjust_element", "e_calibration", "fit_with_tail", "free_more"]


def setup():
    import os
    import sys

    threads.install()
    sys.stderr = open(os.devnull, "w")
    import skbeam.core.fitting.base.parameter_data as pd
    import skbeam.core.fitting.xrf_model as xm

    tables = {k: getattr(xm, k) for k in ("K_LINE", "L_LINE", "M_LINE", "TRANSITIONS_LOOKUP", "PARAM_DEFAULTS", "_STRATEGY_REGISTRY") if isinstance(getattr(xm, k, None), (dict, list))}
    tables.update({"pd." + k: getattr(pd, k) for k in BUILTIN + ["default_param", "para_dict"] if isinstance(getattr(pd, k, None), dict)})
    ctx = {"xm": xm, "pd": pd, "tables": tables, "keep": copy.deepcopy(tables)}
    G.update(ctx)
    ctx["ref"] = pristine.Pristine(alone)
    return ctx


G = {}


# ---------------------------------------------------------------- plans
def gen_session(rng, sid):
    lines = rng.sample(LINES, rng.choice([1, 1, 2, 2, 3]))
    steps = []
    for _ in range(rng.randint(1, 5)):
        u = rng.random()
        if u < 0.3:
            st = {"op": "update", "el": rng.choice(lines + LINES[:3]), "kinds": {k: rng.choice(BOUNDS + [None]) for k in rng.sample(KINDS, rng.randint(1, 3))}}
        elif u < 0.5:
            st = {"op": "strategy", "name": rng.choice(BUILTIN + ["own"])}
        elif u < 0.58:
            st = {"op": "register", "seed": rng.randrange(1000)}
        elif u < 0.66:
            st = {"op": "value", "i": rng.randrange(100), "v": rng.choice([0.0, 0.001, 0.5, 3.0])}
        elif u < 0.79:
            st = {"op": "model"}
        elif u < 0.82:
            st = {"op": "fit", "seed": rng.randrange(50)}
        elif u < 0.95:
            st = {"op": "bad", "what": rng.choice(["strategy", "kind", "element", "overwrite", "overwrite", "params"]), "seed": rng.randrange(1000)}
        else:
            st = {"op": "caller", "what": rng.choice(["base", "lines", "get_para"])}
        st["irq"] = rng.randint(1, 120) if rng.random() < 0.05 else None
        steps.append(st)
    return {"sid": sid, "energy": rng.choice([9.0, 12.0, 12.0]), "lines": lines, "steps": steps, "mem": rng.random() < 0.5}


def gen(rng, tier):
    nt = rng.choice([1, 2, 2, 3])
    return {"sessions": [gen_session(rng, i) for i in range(nt)], "share": rng.random() < 0.3, "sched": dict(threads.gen_sched(rng), op=rng.random() < 0.03)}


# ---------------------------------------------------------------- the real session
class Session:
    def __init__(self, spec, base=None, lines=None):
        self.spec = spec
        self.base = base if base is not None else make_base(spec)
        self.lines = lines if lines is not None else list(spec["lines"])
        self.given = list(spec["lines"])  # what the caller's list holds
        self.shared = base is not None
        self.pc = G["xm"].ParamController(self.base, self.lines)
        G["made"] = G.get("made", 0) + 1
        self.key = "own%d" % G["made"]  # nobody else uses this name
        self.registered = False
        self.own = None
        self.pars = None
        self.els = list(spec["lines"])

    def step(self, st):
        xm, pc = G["xm"], self.pc
        op = st["op"]
        self.pars = None
        if op == "update":
            pc.update_element_prop([st["el"]], **st["kinds"])
            if st["el"] not in self.els:
                self.els.append(st["el"])
        elif op == "strategy":
            name = st["name"]
            if name == "own":
                if self.own is None:
                    return "skip"
                name = self.key
            pc.set_strategy(name)
        elif op == "register":
            r = np.random.RandomState(st["seed"])
            names = sorted(k for k in self.base if k != "non_fitting_values")
            self.own = {k: BOUNDS[r.randint(5)] for k in names if r.rand() < 0.7}
            mine = dict(self.own)
            if r.rand() < 0.4 and not self.registered:
                xm.register_strategy(self.key, mine, overwrite=False)  # a new name
            else:
                xm.register_strategy(self.key, mine)
            self.registered = True
            if r.rand() < 0.3:
                xm.register_strategy(self.key, mine, overwrite=False)  # the very same once more
        elif op == "value":
            names = sorted(k for k in pc.params if k not in ("non_fitting_values", "coherent_sct_energy") and "compton" not in k and "fwhm" not in k and "e_" not in k)
            if not names:
                return "skip"
            k = names[st["i"] % len(names)]
            pc.params[k]["value"] = st["v"]
            return ("value", k)
        elif op in ("model", "fit"):
            m = xm.ModelSpectrum(pc.params, self.els)
            m.assemble_models()
            if op == "model":
                self.pars = {k: (v.value, v.vary, v.min, v.max, v.expr) for k, v in m.mod.make_params().items()}
                return ("model", self.pars)
            r = np.random.RandomState(st["seed"])
            x = np.arange(100, 160)
            y = r.randint(1, 5, size=x.size) + 80 * np.exp(-(((x - 130) / 6.0) ** 2))
            out = m.model_fit(x, y, weights=1 / np.sqrt(y), max_nfev=6)
            xm.update_parameter_dict(pc.params, out)
            return ("fit", out.best_fit, {k: float(v) for k, v in out.values.items()})
        elif op == "bad":
            w = st["what"]
            try:
                if w == "strategy":
                    pc.set_strategy("no such strategy %d" % self.spec["sid"])
                elif w == "kind":
                    pc.update_element_prop(self.lines[:1], colour="lo")
                elif w == "element":
                    pc.update_element_prop(["Zz"], area="lo")
                elif w == "overwrite":
                    r = np.random.RandomState(st["seed"])
                    names = sorted(k for k in pc.params if k != "non_fitting_values") + ["Fe_ka1_delta_center", "Ce_la1_ratio_adjust", "Ar_ka1_area"]
                    over = BUILTIN + ([self.key] * 4 if self.own is not None else [])
                    xm.register_strategy(over[r.randint(len(over))], {n: BOUNDS[r.randint(5)] for n in names if r.rand() < 0.5}, overwrite=False)
                else:
                    xm.ParamController({}, self.lines)
            except Exception as e:
                return ("rejected", w, type(e).__name__)
            return ("accepted", w)
        elif op == "caller":
            if st["what"] == "base" and not self.shared:
                for v in self.base.values():
                    v["value"] = 99.0
                    v["bound_type"] = "broken"
            elif st["what"] == "lines" and not self.shared:
                self.lines.append("broken")
                self.given.append("broken")
            else:
                p = G["pd"].get_para()
                p["e_linear"]["value"] = 77.0
                p["non_fitting_values"]["epsilon"] = 9.0
        return "done"


def make_base(spec):
    p = copy.deepcopy(G["keep"]["pd.default_param"]) if spec["sid"] % 2 else copy.deepcopy(G["pd"].get_para())
    p["coherent_sct_energy"]["value"] = spec["energy"]
    p["non_fitting_values"]["element_list"] = ", ".join(spec["lines"])
    return p


def alone(req):
    """The session by itself in a fresh process -> picture after every step."""
    spec, n = req
    s = Session(spec)
    out = [("ok", norm(s.pc.params))]
    for st in spec["steps"][:n]:
        out.append((norm(s.step(st)), norm(s.pc.params)))
    return ("ok", out)


# ---------------------------------------------------------------- the direct model
class Model:
    def __init__(self, spec, xm):
        self.xm, self.E = xm, spec["energy"]
        self.params = make_base(spec)
        self.base_names = sorted(k for k in self.params if k != "non_fitting_values")
        self.constraint = {}
        self.known = {}
        self.own = None
        for el in spec["lines"]:
            for k in KINDS:
                self.update(el, k, None)

    def active(self, el):
        if el not in self.known:
            sym, line = el.split("_")
            cs = G["element"](sym).cs(self.E)
            self.known[el] = ["%s_%s" % (sym, t) for t in TRANSITIONS[line] if cs[t] != 0]
        return self.known[el]

    def names(self, el, kind):
        if "-" in el:
            return ["pileup_%s_%s" % (el.replace("-", "_"), SUFFIX[kind])]
        if "user" in el.lower():
            return ["%s_%s" % (el, SUFFIX[kind])]
        if kind == "area":
            sym, line = el.split("_")
            return ["%s_%sa1_area" % (sym, line.lower())]
        return ["%s_%s" % (n, SUFFIX[kind]) for n in self.active(el)]

    def update(self, el, kind, constraint):
        for n in self.names(el, kind):
            self.params[n] = dict(G["keep"].get("PARAM_DEFAULTS", DEFAULTS)[kind])
            if constraint is not None:
                self.constraint[n] = constraint

    def step(self, st, out, res, real):
        op = st["op"]
        if op == "update":
            for k, c in st["kinds"].items():
                self.update(st["el"], k, c)
        elif op == "strategy" and out != "skip":
            table = self.own if st["name"] == "own" else G["keep"]["pd." + st["name"]]
            for k, v in self.params.items():
                if k != "non_fitting_values":
                    v["bound_type"] = table[k] if k in table else self.constraint.get(k, "fixed")
        elif op == "register":
            r = np.random.RandomState(st["seed"])
            self.own = {k: BOUNDS[r.randint(5)] for k in self.base_names if r.rand() < 0.7}
        elif op == "value" and out != "skip":
            self.params[out[1]]["value"] = st["v"]
        elif op == "fit":
            for k, v in self.params.items():
                n = "elastic_" + k if k in ("coherent_sct_amplitude", "coherent_sct_energy") else k.replace("-", "_")
                if n in out[2]:
                    v["value"] = out[2][n]
        elif op == "bad" and st["what"] in ("strategy", "overwrite", "params") and out[0] != "rejected":
            res.bad("session-invalid-accepted", st["what"])
        elif op == "model":
            self.check_model(out[1], res, real)

    def check_model(self, pars, res, elements):
        """What the controller says about a parameter is what the spectrum model fits with."""
        names = ["compton_amplitude", "e_offset", "e_linear", "fwhm_offset", "compton_f_tail", "coherent_sct_amplitude"]
        for el in elements:
            first = self.names(el, "area")[0]
            lines = None
            if "-" not in el and "user" not in el.lower():
                lines = self.active(el)
                if first[:-5] not in lines:
                    if first in pars:
                        res.bad("session-model", "%s is in the model but cannot be excited" % el)
                    continue
            for k in KINDS:
                for n in self.names(el, k):
                    if n in self.params:
                        names.append(n)
                        if n not in pars:
                            res.bad("session-model", "%s is not a parameter of the spectrum model" % n)
        for n in names:
            p = self.params[n]
            value, vary, lo, hi, expr = pars["elastic_" + n if n == "coherent_sct_amplitude" else n]
            if expr is not None:
                continue
            b = p["bound_type"]
            wlo = p["min"] if b in ("lo", "lohi") else None
            whi = p["max"] if b in ("hi", "lohi") else None
            want = min(max(p["value"], wlo if wlo is not None else -np.inf), whi if whi is not None else np.inf)
            if n.endswith("_area") and wlo is None:
                want = max(want, lo)
            if vary != (b != "fixed") or wlo is not None and lo != wlo or whi is not None and hi != whi or abs(value - want) > 1e-9 * (1 + abs(want)):
                res.bad("session-model", "%s: value %s vary %s range [%s, %s], the controller says %s" % (n, value, vary, lo, hi, p))


def close(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(p, q) for p, q in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b or abs(a - b) <= 1e-6 * (abs(a) + abs(b)) + 1e-12
    return a == b


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if not close(a.get(k), b.get(k))}
    return (a, b)


def run(plan, ctx, res):
    from skbeam.core.constants.xrf import XrfElement

    G["element"] = XrfElement
    specs = plan["sessions"]
    energy = specs[0]["energy"] if specs else 9.0
    if plan["share"]:
        specs = [dict(s, energy=energy, lines=specs[0]["lines"], sid=s["sid"]) for s in specs]
    shared = make_base(specs[0]) if plan["share"] and specs else None
    lines = list(specs[0]["lines"]) if shared is not None else None
    pics = [[] for _ in specs]
    models = [[] for _ in specs]

    def caller(t, spec):
        def go():
            sched = threads.current
            s = Session(spec, shared, lines)
            pics[t].append(("ok", norm(s.pc.params)))
            models[t].append(list(s.els))
            for st in spec["steps"]:
                if st["irq"]:
                    sched.arm(st["irq"], NoMemory("injected") if spec["mem"] else Interrupt())
                    hit = False
                    try:
                        try:
                            out = s.step(st)
                        finally:
                            hit = sched.disarm()
                    except (Interrupt, NoMemory):
                        pass
                    if hit:
                        res.count("fault:session_killed")
                        return
                else:
                    out = s.step(st)
                if isinstance(out, tuple) and out[0] == "rejected":
                    res.count("fault:rejected_step")
                pics[t].append((norm(out), norm(s.pc.params)))
                if s.lines != s.given:
                    res.bad("session-argument-changed", "session %d, %s: the caller's list of lines holds %s instead of %s" % (t, st["op"], s.lines, s.given))
                models[t].append(list(s.els))
        return go

    C = Callers(plan, res)
    C.run([caller(t, s) for t, s in enumerate(specs)], max_steps=3000000)
    if shared is not None and norm(shared) != norm(make_base(specs[0])):
        res.bad("session-argument-changed", "the caller's parameters: %s" % diff(norm(shared), norm(make_base(specs[0]))))
    total = 0
    for t, spec in enumerate(specs):
        mod = Model(spec, ctx["xm"])
        for i, (out, params) in enumerate(pics[t]):
            if i:
                mod.step(spec["steps"][i - 1], out, res, models[t][i])
            total += 1
            res.count("checks")
            if not close(params, norm(mod.params)):
                res.bad("session-params", "session %d after step %d (%s): %s" % (t, i, spec["steps"][i - 1] if i else "created", diff(params, norm(mod.params))))
        if not pics[t]:
            continue
        ref = ctx["ref"]((spec, len(pics[t]) - 1))
        if ref[0] == "died":
            res.bad("crash", "the session ends the process")
        for i, (a, b) in enumerate(zip(pics[t], ref[1])):
            if not close(list(a), list(b)):
                res.bad("session-not-alone", "session %d step %d (%s): %s" % (t, i, spec["steps"][i - 1] if i else "created", str((diff(a[0], b[0]), diff(a[1], b[1])))[:1500]))
    reg = dict(ctx["tables"]["_STRATEGY_REGISTRY"]) if "_STRATEGY_REGISTRY" in ctx["tables"] else {}
    for k in [k for k in reg if k.startswith("own")]:
        del ctx["tables"]["_STRATEGY_REGISTRY"][k]
    for k, v in ctx["tables"].items():
        if v != ctx["keep"][k]:
            res.bad("session-defaults-changed", "%s: %s" % (k, str(diff(v, ctx["keep"][k]))[:500]))
    res.log([[str(o)[:20] if not isinstance(o, (list, tuple)) else o[0] for o, _ in p] for p in pics])
    res.nontrivial = total > 2
    res.fp = fingerprint([(s["lines"], [(st["op"], st.get("name"), st.get("el")) for st in s["steps"]]) for s in specs], C.rec)


def concretise(plan, res):
    return put(plan, ("sched",), res.sched) if res.sched else plan


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    yield from shrink_list(plan, ("sessions",), 1)
    for t in range(len(plan["sessions"])):
        yield from shrink_list(plan, ("sessions", t, "steps"))
        yield from shrink_list(plan, ("sessions", t, "lines"), 1)
    if plan["sched"]["mode"] == "replay":
        yield from shrink_list(plan, ("sched", "switches"))
    yield from shrink_choice(plan, ("share",), False)
    for t in range(len(plan["sessions"])):
        for i in range(len(plan["sessions"][t]["steps"])):
            yield from shrink_choice(plan, ("sessions", t, "steps", i, "irq"), None)
