"""A server that executes requests in processes forked from a pristine image of this one (all modules imported, nothing called yet)."""
import os
import pickle
import signal
import struct


def _read(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _write(fd, data):
    data = struct.pack("q", len(data)) + data
    while data:
        data = data[os.write(fd, data) :]


class Pristine:
    def __init__(self, fn):
        """fn(request) -> picklable outcome, run in a fork of the process as it is now."""
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.cache = {}
        if os.fork() == 0:
            try:
                os.close(w1)
                os.close(r2)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                while True:
                    req = _read(r1, struct.unpack("q", _read(r1, 8))[0])
                    pid = os.fork()
                    if pid == 0:
                        try:
                            out = pickle.dumps(fn(pickle.loads(req)))
                        except BaseException as e:
                            out = pickle.dumps(("harness", "%s: %s" % (type(e).__name__, e)))
                        _write(w2, out)
                        os._exit(0)
                    st = os.waitpid(pid, 0)[1]
                    if st:
                        _write(w2, pickle.dumps(("died", st)))
            except EOFError:
                pass
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def __call__(self, req):
        key = pickle.dumps(req)
        if key not in self.cache:
            _write(self.w, key)
            self.cache[key] = pickle.loads(_read(self.r, struct.unpack("q", _read(self.r, 8))[0]))
        out = self.cache[key]
        if out[0] == "harness":
            raise RuntimeError("reference server: " + out[1])
        return out
