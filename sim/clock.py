"""A simulated clock behind the functions of the time and datetime modules."""
import datetime
import random
import time

NAMES = ["time", "monotonic", "perf_counter", "process_time", "thread_time"]
REAL = {n: getattr(time, n) for n in NAMES}
REAL.update({n + "_ns": getattr(time, n + "_ns") for n in NAMES})
REAL_SLEEP, REAL_DT = time.sleep, datetime.datetime
KINDS = ["steady", "stalled", "slow", "jumps", "backwards", "wild"]


class Clock:
    """spec: {"kind": one of KINDS, "seed": n}.  Every reading advances the clock as its kind says; only the wall clock (time.time) ever goes backwards."""

    def __init__(self, spec, modules=()):
        self.kind, self.rng = spec["kind"], random.Random(spec["seed"])
        self.wall = self.rng.choice([0.0, 1.7e9, 2.0e9 - 3, 1.7e9 + 0.5])
        self.mono = self.rng.choice([0.0, 12.5, 1e7])
        self.reads = 0
        self.slept = 0.0
        self.modules = modules

    def tick(self):
        self.reads += 1
        r = self.rng
        d = {"steady": 1e-3, "stalled": 0.0, "slow": r.choice([5.0, 60.0, 3600.0]), "jumps": r.choice([1e-3, 1e-3, 86400.0, 1e8]), "backwards": 1e-3, "wild": r.choice([0.0, 1e-3, 7200.0])}[self.kind]
        self.mono += d
        self.wall += d
        if self.kind == "backwards" or self.kind == "wild" and r.random() < 0.3:
            self.wall -= r.choice([1e-3, 1.0, 3600.0, 1e6])

    def _read(self, name):
        def f():
            self.tick()
            v = self.wall if name == "time" else self.mono
            return v
        return f

    def _read_ns(self, name):
        def f():
            self.tick()
            return int((self.wall if name == "time" else self.mono) * 1e9)
        return f

    def sleep(self, s):
        self.slept += s
        self.mono += s
        self.wall += s

    def __enter__(self):
        fakes = {n: self._read(n) for n in NAMES}
        fakes.update({n + "_ns": self._read_ns(n) for n in NAMES})
        me = self

        class FakeDT(REAL_DT):
            @classmethod
            def now(cls, tz=None):
                me.tick()
                return REAL_DT.fromtimestamp(max(0.0, me.wall), tz)

            @classmethod
            def utcnow(cls):
                return cls.now()

            @classmethod
            def today(cls):
                return cls.now()

        self.undo = []

        def put(mod, name, val):
            self.undo.append((mod, name, getattr(mod, name)))
            setattr(mod, name, val)

        for n, f in fakes.items():
            put(time, n, f)
        put(time, "sleep", self.sleep)
        put(datetime, "datetime", FakeDT)
        back = {id(v): fakes[n] for n, v in REAL.items()}
        back[id(REAL_SLEEP)] = self.sleep
        back[id(REAL_DT)] = FakeDT
        for m in self.modules:  # "from time import time" and the like
            for k, v in list(vars(m).items()):
                if id(v) in back:
                    put(m, k, back[id(v)])
        return self

    def __exit__(self, *a):
        for mod, name, val in reversed(self.undo):
            setattr(mod, name, val)
