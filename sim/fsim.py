"""The interposed file system (sim/csim/fsshim.c, preloaded into the workers) and processes that die in it."""
import ctypes
import gc
import os
import pickle
import shutil
import signal
import struct

OPEN_R, OPEN_W, READ, WRITE, CLOSE, UNLINK, RENAME, SYNC, FREAD, FWRITE, FCLOSE, CLOSE_R = range(1, 13)
ERRNO, SHORT, CRASH, TORN, FULL = range(1, 6)
NAMES = {ERRNO: "errno", SHORT: "short_transfer", CRASH: "process_death", TORN: "torn_write_and_death", FULL: "disk_full"}
DIED, ENDLESS = 98, 99
EINTR, EIO, ENOSPC, EACCES, EDQUOT, EROFS, EMFILE = 4, 5, 28, 13, 122, 30, 24
_I = ctypes.c_int


class Shim:
    def __init__(self):
        self.L = ctypes.CDLL(None)
        try:
            ok = self.L.simfs_present() == 4711
        except AttributeError:
            ok = False
        if not ok:
            raise RuntimeError("the file system is not interposed")
        gc.collect()
        gc.freeze()  # collections look at what the runs made only

    def begin(self, root, faults=(), quota=-1, max_ops=5000):
        n = len(faults)
        cols = [(_I * max(n, 1))(*[f[i] for f in faults]) for i in range(3)]
        self.L.simfs_begin(root.encode(), cols[0], cols[1], cols[2], n, ctypes.c_long(quota), max_ops)

    def end(self):
        """-> [(kind, action, result)...]"""
        self.L.simfs_stop()
        buf = (_I * 15000)()
        n = min(self.L.simfs_trace(buf, 5000), 5000)
        return [(buf[3 * i], buf[3 * i + 1], buf[3 * i + 2]) for i in range(n)]

    def paused(self, fn, *args):
        """fn(*args) on the plain file system."""
        self.L.simfs_active(0)
        try:
            return fn(*args)
        finally:
            self.L.simfs_active(1)

    def open_fds(self):
        gc.collect()
        return self.L.simfs_open_fds()


def snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
        for s in dirs:
            out[os.path.relpath(os.path.join(d, s), root) + "/"] = b""
    return out


def wipe(root):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)


def in_process(fn, limit=120):
    """fn(send) in a forked process -> (messages sent, exit status; negative for a signal)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.alarm(limit)

            def send(obj):
                b = pickle.dumps(obj)
                b = struct.pack("q", len(b)) + b
                while b:
                    b = b[os.write(w, b):]

            fn(send)
            code = 0
        except BaseException as e:
            try:
                import traceback

                send(("harness", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])))
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        data += c
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    msgs = []
    while len(data) >= 8:
        n = struct.unpack("q", data[:8])[0]
        if len(data) < 8 + n:
            break
        msgs.append(pickle.loads(data[8 : 8 + n]))
        data = data[8 + n :]
    for m in msgs:
        if isinstance(m, tuple) and m and m[0] == "harness":
            raise RuntimeError("forked process: " + m[1])
    return msgs, code


def gen_faults(rng, kinds, n_ops=8):
    """kinds: any of errno eintr short crash torn full -> [[op number, action, argument]...]"""
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        k = rng.randrange(n_ops) if rng.random() < 0.8 else rng.randrange(4 * n_ops)
        w = rng.choice(kinds)
        if w == "errno":
            out.append([k, ERRNO, rng.choice([EIO, ENOSPC, EACCES, EDQUOT, EROFS, EMFILE])])
        elif w == "eintr":
            out.append([k, ERRNO, EINTR])
        elif w == "short":
            out.append([k, SHORT, rng.choice([0, 1, 7, 100, rng.randrange(5000)])])
        elif w == "crash":
            out.append([k, CRASH, 0])
        elif w == "torn":
            out.append([k, TORN, rng.randrange(5000)])
        elif w == "full":
            out.append([k, FULL, rng.choice([0, 1, rng.randrange(5000)])])
    return out


def count_faults(res, trace, status=0):
    for kind, act, r in trace:
        if act == ERRNO:
            res.count("fault:eintr" if r == -EINTR else "fault:disk_full" if r == -ENOSPC else "fault:io_error")
        elif act:
            res.count("fault:" + NAMES[act])
    if status == DIED:
        res.count("fault:process_death")


def hard(trace):
    """Errors that were reported to the caller."""
    return [t for t in trace if t[1] == ERRNO and t[2] != -EINTR]


def scratch_root():
    """The directory the simulated file system lives in."""
    p = os.path.join(os.environ["SIM_FS_ROOT"], "w%d" % os.getpid(), "disk")
    os.makedirs(p, exist_ok=True)
    return p


def prepare(scratch):
    from . import build

    d = os.path.join(scratch, "fs")
    os.makedirs(d, exist_ok=True)
    return {"LD_PRELOAD": build.fsshim(), "SIM_FS_ROOT": d}
