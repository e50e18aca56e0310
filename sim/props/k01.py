"""K01: metadata and parameter dictionaries hold exactly what was stored."""
import numpy as np

from .. import threads
from ..core import fingerprint, put, shrink_choice, shrink_list
from .callers import Callers
from .t01 import Interrupt

RUNS = {"quick": 80000, "thorough": 1500000}
BUDGET = {"quick": 100, "thorough": 700}
HANG_S = 120
RULE = ("a run = a history of assignments, look-ups, deletions and walks by dotted path on one or two dictionaries (metadata or parameters), some of them refused, some interrupted at a chosen line, "
        "then one to three threads, parked at every line (or bytecode) of library code, working on paths of their own in shared branches, then another history; after every operation the "
        "leaves are compared with a flat model; non-trivial if at least three operations were made")
MEASURE = "distinct (operations and outcomes, thread interleaving) pairs"
REAL = ["skbeam/core/utils.py (MD_dict, RCParamDict, md_value)"]
STUB = ["thread scheduler"]
ASSUMPTIONS = ["threads work on different paths; walking a dictionary while another thread changes it is not covered (as with plain dictionaries)"]
TIME_UNIT = "scheduling points"
PATHS = ["a", "b", "a.x", "a.y", "b.x", "a.x.p", "a.x.q", "b.y.p", "c.c.c", "a.a", "c", "c.c"]
VALUES = [1, 2.5, "text", "", None, (5, "m"), [5, "m"], (5, None), (1, 2), [1, 2, 3], ("a", "b", "c"), (7,), [], {"u": 1}, b"z", b"zz", "arr0", "arr3", "md", "mdn", True, 0]


def setup():
    threads.install()
    import skbeam.core.utils as u

    return {"u": u}


def gen_op(rng, paths):
    what = rng.choice(["set", "set", "set", "set", "get", "get", "del", "walk", "via", "update"])
    op = {"d": rng.randrange(2), "what": what, "path": rng.choice(paths), "v": rng.randrange(len(VALUES)), "irq": rng.randint(1, 12) if rng.random() < 0.06 else None}
    if what == "update":
        op["more"] = [[rng.choice(paths), rng.randrange(len(VALUES))] for _ in range(rng.randint(1, 3))]
    return op


def gen(rng, tier):
    nt = rng.choice([0, 0, 1, 2, 2, 3])
    ts = []
    for t in range(nt):
        mine = [p + str(t) for p in rng.sample(["a.x", "a.y", "b.x.p", "n.n.n", "top", "a.x.p", "n.m"], 3)]
        mine += [mine[0] + ".sub"] if rng.random() < 0.3 else []
        ts.append([dict(gen_op(rng, mine), irq=None) for _ in range(rng.randint(1, 5))])
        for op in ts[-1]:
            if op["what"] in ("walk", "via"):
                op["what"] = rng.choice(["set", "get"])
    return {"kinds": [rng.choice(["md", "rc"]) for _ in range(2)], "before": [gen_op(rng, PATHS) for _ in range(rng.choice([0, 2, 5, 10]))], "threads": ts,
            "after": [gen_op(rng, PATHS + [o["path"] for t in ts for o in t]) for _ in range(rng.choice([1, 3, 8]))], "sched": threads.gen_sched(rng)}


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and np.array_equal(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


class Model:
    """Leaves by dotted path."""

    def __init__(self, kind, u):
        self.kind, self.u, self.leaves = kind, u, {}
        self.branches = set()  # those there may be, possibly empty

    def stored(self, v):
        if self.kind == "rc":
            return v
        md = self.u.md_value
        if isinstance(v, md):
            return v
        if isinstance(v, str):
            return md(v, "text")
        if isinstance(v, (tuple, list)) and len(v) == 2 and (v[1] is None or isinstance(v[1], str)):
            return md(v[0], v[1])
        return md(v, None)

    def blocked(self, path):
        parts = path.split(".")
        return any(".".join(parts[:i]) in self.leaves for i in range(1, len(parts)))

    def set(self, path, v):
        self.cut(path)
        self.leaves[path] = self.stored(v)

    def cut(self, path):
        self.leaves = {k: x for k, x in self.leaves.items() if not (k + ".").startswith(path + ".")}
        self.branches = {k for k in self.branches if not (k + ".").startswith(path + ".")}

    def reach(self, path):
        parts = path.split(".")
        self.branches |= {".".join(parts[:i]) for i in range(1, len(parts))}

    def has_below(self, path):
        return any(k.startswith(path + ".") for k in self.leaves)

    def copy(self):
        m = Model(self.kind, self.u)
        m.leaves, m.branches = dict(self.leaves), set(self.branches)
        return m


def run(plan, ctx, res):
    u = ctx["u"]
    objs, models = [], []
    for k in plan["kinds"]:
        objs.append(u.MD_dict() if k == "md" else u.RCParamDict())
        models.append(Model(k, u))
    hist = []

    def value(i):
        v = VALUES[i]
        if v == "arr0":
            return np.array(3.0)
        if v == "arr3":
            return np.arange(3.0)
        if v == "md":
            return u.md_value(4, "mm")
        if v == "mdn":
            return u.md_value((1, 2), None)
        return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v

    def leaf(x):
        return not isinstance(x, (u.MD_dict, u.RCParamDict))

    def audit(d, what, models=models):
        """The leaves are exactly the model's."""
        res.count("checks")
        got = {k: objs[d][k] for k in objs[d]}
        want = models[d].leaves
        if set(got) != set(want):
            res.bad("dict-keys", "%s: missing %r, extra %r" % (what, sorted(set(want) - set(got)), sorted(set(got) - set(want))))
        for k in want:
            if not same(got[k], want[k]):
                res.bad("dict-value", "%s: %r holds %r, not %r" % (what, k, got[k], want[k]))
        if len(objs[d]) != len(want):
            res.bad("dict-length", what)

    def shown(o, text, m, what):
        """The text of a parameter dictionary: one indented line for each value, under the names of its branches."""
        res.count("checks")
        if any("\n" in str(v) or not str(v) for v in m.leaves.values()):
            return
        stack, found = [], []
        for line in text.split("\n") if text else []:
            depth, rest = divmod(len(line) - len(line.lstrip(" ")), 4)
            name = line.strip().partition(":")
            if rest or not name[1] or depth > len(stack):
                res.bad("dict-text", "%s: line %r" % (what, line))
            stack = stack[:depth]
            if name[2]:
                found.append((".".join(stack + [name[0]]), name[2].strip()))
            else:
                stack.append(name[0])
        want = [(k, str(v).strip()) for k, v in m.leaves.items()]
        if sorted(found) != sorted(want):
            res.bad("dict-text", "%s shows %r, not %r" % (what, sorted(found), sorted(want)))

    def apply(m, op):
        """-> outcomes the operation may have: set of 'ok', 'refused'; the model afterwards if ok"""
        p = op["path"]
        w = op["what"]
        if w in ("set", "via"):
            if m.blocked(p):
                return "refused"
            m.set(p, value(op["v"]))
        elif w == "update":
            for q, v in op["more"]:
                if m.blocked(q):
                    return "refused"  # what came before stays
                m.set(q, value(v))
        elif w == "del":
            if p in m.leaves or m.has_below(p):
                m.cut(p)
            else:
                return "maybe"  # nothing there, or an empty branch
        return "ok"

    def do(op, who, sched=None, quiet=False):
        o, m = objs[op["d"]], models[op["d"]]
        p, w = op["path"], op["what"]
        text = "%s %s %r" % (op["what"], plan["kinds"][op["d"]], p)
        before = dict(m.leaves)
        for q in [p] if w in ("set", "via") else [q for q, _ in op["more"]] if w == "update" else []:
            m.reach(q)
        err = None
        got = None
        hit = False
        irq = op["irq"] if sched is not None else None
        if irq:
            sched.arm(irq, Interrupt())
        try:
            try:
                if w == "set":
                    o[p] = value(op["v"])
                elif w == "via":  # through the branch, if there is one
                    head, _, tail = p.rpartition(".")
                    branch = o[head] if head and any(k.startswith(head + ".") for k in before) else None
                    if branch is not None:
                        branch[tail] = value(op["v"])
                    else:
                        o[p] = value(op["v"])
                elif w == "update":
                    o.update([(q, value(v)) for q, v in op["more"]])
                elif w == "del":
                    del o[p]
                elif w == "get":
                    got = o[p]
                elif w == "walk":
                    list(o.items()), len(o)
                    got = repr(o)
            finally:
                if irq:
                    hit = sched.disarm()
        except (LookupError, TypeError, AttributeError, ValueError) as e:
            err = e
        except Interrupt as e:
            err = e
        if hit:
            # all or nothing (an update: some of its assignments)
            res.count("fault:interrupted_call")
            now = {k: o[k] for k in o}
            options = [dict(before)]
            if w == "update":
                for i in range(len(op["more"])):
                    c = m.copy()
                    apply(c, dict(op, more=op["more"][: i + 1]))
                    options.append(c.leaves)
            else:
                c = m.copy()
                apply(c, op)
                options.append(c.leaves)
            for c in options:
                if set(c) == set(now) and all(same(c[k], now[k]) for k in c):
                    m.leaves = c
                    break
            else:
                res.bad("dict-half-done", "%s, interrupted, left %r" % (text, sorted(now)))
            hist.append((who, text, "hit"))
            return
        want = apply(m, op) if w not in ("get", "walk") else "ok"
        out = "refused" if err is not None else "ok"
        hist.append((who, text, out, type(err).__name__))
        if w == "get":
            if p in m.leaves:
                if err is not None or not leaf(got) or not same(got, m.leaves[p]):
                    res.bad("dict-look-up", "%s gives %r, not %r" % (text, err if err is not None else got, m.leaves[p]))
            elif err is None and leaf(got) and got is not None:
                res.bad("dict-look-up", "%s gives %r, which was never stored there" % (text, got))
            elif err is None and not leaf(got) and not m.has_below(p) and (len(got) or p not in m.branches):
                res.bad("dict-look-up", "%s gives a branch, %r, where nothing was stored" % (text, sorted(got)))
            elif m.has_below(p) and (err is not None or leaf(got)):
                res.bad("dict-look-up", "%s does not give the branch" % text)
        elif w == "walk" and plan["kinds"][op["d"]] == "rc" and not quiet:
            if err is not None:
                res.bad("dict-text", "%s: %r" % (text, err))
            shown(o, got, m, text)
        elif want == "refused" and out == "ok":
            res.bad("dict-leaf-as-branch", "%s was accepted although part of the path is a value" % text)
        elif want == "ok" and out == "refused":
            res.bad("dict-refused", "%s: %r" % (text, err))
        if out == "refused":
            res.count("fault:rejected_call")
        if not quiet:
            audit(op["d"], "after " + text)
            audit(1 - op["d"], "after %s on the other dictionary" % text)

    C = Callers(plan, res)

    def phase(ops, who):
        # interrupts need the scheduler's trace: a single caller
        if any(op["irq"] for op in ops):
            one = Callers(dict(plan, sched={"mode": "replay", "switches": [], "op": False}), type("R", (), {"count": lambda *a: None, "log": lambda *a: None, "sched": None})())
            one.run([lambda: [do(op, who, threads.current) for op in ops]])
        else:
            for op in ops:
                do(op, who)

    phase(plan["before"], "before")
    if plan["threads"]:
        C.run([lambda t=t, ops=ops: [do(op, str(t), threads.current, quiet=True) for op in ops] for t, ops in enumerate(plan["threads"])])
        for d in (0, 1):
            audit(d, "after the threads")
    phase(plan["after"], "after")
    res.log(hist)
    res.nontrivial = len(hist) >= 3
    res.fp = fingerprint(hist, C.rec)


def concretise(plan, res):
    return put(plan, ("sched",), res.sched) if res.sched else plan


def matches_known(k, plan, res):
    return False


def shrinks(plan):
    for k in ("before", "after"):
        yield from shrink_list(plan, (k,))
    yield from shrink_list(plan, ("threads",))
    for t in range(len(plan["threads"])):
        yield from shrink_list(plan, ("threads", t))
    if plan["sched"]["mode"] == "replay":
        yield from shrink_list(plan, ("sched", "switches"))
    for k in ("before", "after"):
        for i in range(len(plan[k])):
            yield from shrink_choice(plan, (k, i, "v"), 0)
            yield from shrink_choice(plan, (k, i, "irq"), None)
