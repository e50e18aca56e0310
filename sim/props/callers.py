"""Runs caller functions under the thread simulator and keeps the schedule for replay."""
from .. import threads
from ..core import Bad


class Callers:
    def __init__(self, plan, res):
        self.spec, self.res = plan["sched"], res
        self.rec = []

    def run(self, fns, max_steps=400000):
        errs = []

        def guard(f):
            def go():
                try:
                    f()
                except Exception as e:
                    errs.append(e)
            return go

        S = threads.Sched(self.spec, max_steps)
        try:
            S.run([guard(f) for f in fns])
        except threads.Stuck as e:
            raise Bad("deadlock", str(e))
        except threads.StepLimit as e:
            raise Bad("no-progress", str(e))
        finally:
            self.rec = S.rec
            self.res.sched = S.recorded()
            self.res.count("steps", S.steps)
            self.res.count("switches", S.switches)
        self.res.log(S.rec[:2000])
        if errs:
            raise errs[0]
