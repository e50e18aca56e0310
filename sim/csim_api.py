"""Python side of the simulated OpenMP runtime."""
import ctypes
import os
import sys

import numpy as np

from . import build


class CSim:
    def __init__(self, opt="-O1", openmp=True):
        path = build.ctrans_sim(opt, openmp)
        import skbeam.ext  # noqa: F401  (package from the repository's sources)

        self.mod = build.load_ext("skbeam.ext.ctrans", path)
        L = self.lib = ctypes.PyDLL(path)
        L.simctl_begin.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_uint32, ctypes.c_int, ctypes.c_uint64]
        L.simctl_replay.argtypes = [ctypes.c_void_p, ctypes.c_uint32]
        L.simctl_fail.argtypes = [ctypes.c_void_p, ctypes.c_uint32, ctypes.c_int64]
        L.simctl_stats.argtypes = [ctypes.c_void_p]
        L.simctl_record.argtypes = [ctypes.c_void_p, ctypes.c_uint32]
        L.simctl_record.restype = ctypes.c_uint32
        if L.simnp_init():
            raise RuntimeError("simnp_init failed")
        fd = os.environ.get("SIM_STATUS_FD")
        if fd:
            L.simctl_status_fd(int(fd))

    def call(self, fn, sched, max_threads=1, team=None, fails=(), fail_from=-1, poison=0xA5, max_steps=5_000_000):
        """Run fn() under the simulator.

        sched: {"mode": "rand", "seed": s, "p": 0..65536} or {"mode": "replay", "switches": [[step, tid]...]}
        -> (result or None, exception or None, info dict)
        """
        L = self.lib
        team = team or max_threads
        L.simctl_begin(sched.get("seed", 0) & (2**64 - 1), max_threads, team, sched.get("p", 0), poison, max_steps)
        if sched["mode"] == "replay":
            sw = np.array(sched["switches"], dtype=np.int64).reshape(-1, 2).astype(np.uint32)
            sw = np.ascontiguousarray(sw)
            L.simctl_replay(sw.ctypes.data, len(sw))
        f = np.array(list(fails), dtype=np.uint32)
        L.simctl_fail(f.ctypes.data, len(f), fail_from)
        out = exc = None
        L.simnp_on()
        try:
            out = fn()
        except BaseException as e:
            exc = e
        finally:
            L.simctl_end()
            L.simnp_off()
        st = np.zeros(12, dtype=np.uint64)
        L.simctl_stats(st.ctypes.data)
        s = [int(v) for v in st]
        info = dict(
            steps=s[0], switches=s[1], allocs=s[2], failed=s[3], barriers=s[4], regions=s[5], accesses=s[6], il=s[7],
            oob=s[8], uaf=s[9], badfree=s[10], npallocs=s[11], leaks=L.simctl_leaks(), np_live=L.simctl_np_live(),
        )
        if exc is not None:
            exc.__traceback__ = None
        return out, exc, info

    def recorded(self):
        n = self.lib.simctl_record(None, 0)
        n = min(n, 1 << 20)
        buf = np.zeros((n, 2), dtype=np.int32)
        if n:
            self.lib.simctl_record(buf.ctypes.data, n)
        return buf.tolist()

    def activate(self):
        """Make this build the one skbeam.ext.ctrans refers to."""
        import skbeam.ext

        sys.modules["skbeam.ext.ctrans"] = self.mod
        skbeam.ext.ctrans = self.mod


BUILDS = {"O0": ("-O0", True), "O1": ("-O1", True), "noomp": ("-O0", False)}


def all_builds():
    return {k: CSim(*v) for k, v in BUILDS.items()}


def prebuild(which=("O0", "O1", "noomp")):
    for k in which:
        build.ctrans_sim(*BUILDS[k])
