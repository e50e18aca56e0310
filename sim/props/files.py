"""Saves and files used by F01-F03: calls of the library, and independent encoders and decoders of the formats."""
import importlib.util
import math
import re

import numpy as np

from ..core import terse

KINDS = ["chi", "dat", "xye", "STD", "ESD", "FXYE", "msk"]
EXT = {"chi": ".chi", "dat": ".dat", "xye": ".xye", "STD": ".gsas", "ESD": ".gsas", "FXYE": ".gsas", "msk": ".msk"}
L = {}
HAVE_MSK = importlib.util.find_spec("fabio") is not None
HAVE_NC = importlib.util.find_spec("netCDF4") is not None


def load():
    import skbeam.io.avizo_io as av
    import skbeam.io.binary as bi
    import skbeam.io.gsas_file_reader as gr
    import skbeam.io.save_powder_output as sp

    L.update(av=av, bi=bi, gr=gr, sp=sp)
    if HAVE_MSK:
        import skbeam.io.fit2d as f2

        L["f2"] = f2
    if HAVE_NC:
        import netCDF4  # noqa: F401
        import skbeam.io.net_cdf_io as nc

        L["nc"] = nc
    return L


# ---------------------------------------------------------------- data
def powder(seed, n, big=0, span=1.0):
    r = np.random.RandomState(seed)
    tth = r.choice([0.0, 5.0, 12.5]) + span * 0.05 * np.arange(n)
    y = np.floor(r.rand(n) * 900) * 10.0 ** big
    if big == 0 and r.rand() < 0.3:
        y[r.randint(n)] = 0
    if y.max() <= 0:
        y[0] = 5 * 10.0 ** big
    e = np.floor(np.sqrt(y)) + 1
    return tth, y, e


def mask(seed, n):
    r = np.random.RandomState(seed)
    return r.rand(1 + n % 7, 1 + (n * 5) % 71) < 0.5


def as_type(x, how, counts):
    return list(x) if how == "list" else x.astype(int) if how == "int" and counts else np.array(x)


# ---------------------------------------------------------------- saving
def save(op, directory):
    """Makes the save `op` asks for, with the library."""
    kind, name, bad = op["kind"], op["name"], op.get("bad")
    d = directory if op.get("dir", True) else None
    if bad == "dir":
        d = directory + "/nowhere"
    if kind == "msk":
        m = mask(op["seed"], op["n"])
        if bad == "data":
            m = m.ravel()
        elif bad in ("length", "mode", "text"):
            m = None
        return watched([m], lambda: L["f2"].fit2d_save(m, name, d))
    tth, y, e = (as_type(v, op.get("as"), i > 0) for i, v in enumerate(powder(op["seed"], op["n"], op.get("big", 0))))
    if bad == "length":
        tth = tth[:-1]
    elif bad == "data":
        e = e[:-1] if op.get("err", True) else e
        y = y if op.get("err", True) else y[:-1]
    elif bad == "text":
        y = ["much"] * len(y)
    if kind in ("chi", "dat", "xye"):
        q = "energy" if bad == "mode" else op.get("q", "Q")
        err = e if kind == "xye" or op.get("err", True) else None
        if bad == "noerr":
            err = None
        return watched([tth, y, err], lambda: L["sp"].save_output(tth, y, name, q, **terse(op["seed"] % 2, dict(ext=EXT[kind], err=err, dir_path=d), ext=".chi", err=None, dir_path=None)))
    mode = {"mode": "XYZ", "nomode": None}.get(bad, kind)
    err = None if kind == "STD" and op.get("seed", 0) % 2 and bad not in ("mode", "nomode", "data") else e
    if kind == "STD" and err is None:
        mode = [None, "STD", "ESD"][op["seed"] % 3]
    return watched([tth, y, err], lambda: L["sp"].gsas_writer(tth, y, name, **terse(op["seed"] % 2, dict(mode=mode, err=err, dir_path=d), mode=None, err=None, dir_path=None)))


def watched(args, fn):
    kept = [None if a is None else np.array(a) for a in args]
    try:
        return fn()
    finally:
        if any(a is not None and not np.array_equal(a, b) for a, b in zip(args, kept)):
            L["modified"] = "the save changed its arguments"


def rejected(op):
    """The arguments are ones the save has to refuse."""
    b, k = op.get("bad"), op["kind"]
    if b is None:
        return False
    if b == "noerr":
        return k == "xye"
    if b == "nomode":
        return k in ("STD", "ESD", "FXYE")
    if b == "data" and k in ("chi", "dat") and not op.get("err", True):
        return True
    return True


def target(op):
    return op["name"] + EXT[op["kind"]]


# ---------------------------------------------------------------- what the file has to contain
def scale_of(y):
    return 10.0 ** min(0, int(math.floor(math.log10(999999 / max(y))))) if max(y) > 0 else 1.0


def wrong(op, data):
    """-> None if `data` is the complete file for `op`, else what is wrong with it"""
    try:
        return _wrong(op, data)
    except (ValueError, IndexError, UnicodeDecodeError) as e:
        return "cannot be decoded: %s" % e


def _wrong(op, data):
    kind, n = op["kind"], op["n"]
    if kind == "msk":
        m = mask(op["seed"], n)
        got = decode_msk(data)
        return None if got.shape == m.shape and np.array_equal(got, m) else "other mask"
    tth, y, e = powder(op["seed"], n, op.get("big", 0))
    if kind in ("chi", "dat", "xye"):
        text = data.decode("utf-8")
        if not text.endswith("\n"):
            return "last line not ended"
        lines = text.split("\n")[:-1]
        if lines[0] != op["name"]:
            return "first line is not the name"
        mark = max(i for i, x in enumerate(lines) if "#####" in x)
        m = re.search(r"Number of data points in the file : (\d+)", text)
        if m and int(m.group(1)) != n:
            return "header announces %s points" % m.group(1)
        if ("two theta" in text) != (op.get("q", "Q") == "2theta"):
            return "the header names the wrong kind of angle"
        want = [tth, y] + ([e] if kind == "xye" or op.get("err", True) else [])
        rows = [[float(v) for v in x.split()] for x in lines[mark + 1 :]]
        if len(rows) != n or any(len(r) != len(want) for r in rows):
            return "%d rows instead of %d" % (len(rows), n)
        return None if np.array_equal(np.array(rows).T, np.array(want)) else "other numbers"
    text = data.decode("utf-8")
    if not text.endswith("\r\n"):
        return "last record not ended"
    lines = text.split("\r\n")[:-1]
    s = scale_of(y)
    h = lines[1].split()
    if h[0] != "BANK" or int(h[2]) != n or h[9] != kind:
        return "header %r" % lines[1]
    if abs(float(h[5]) - tth[0] * 100) > 1e-4 or abs(float(h[6]) - (tth[-1] - tth[0]) / (n - 1) * 100) > 1e-4:
        return "angles in header"
    per = {"STD": 10, "ESD": 5, "FXYE": 1}[kind]
    if len(lines) != 2 + -(-n // per) or int(h[3]) != len(lines) - 2:
        return "%d records for %d points" % (len(lines) - 2, n)
    if any(len(x) != 80 for x in (lines[0], lines[1], lines[-1])):
        return "record length"
    if any(len(x) > 80 for x in lines):
        return "a record is longer than 80 characters"
    ys, es, xs = [], [], []
    for j in range(n):
        x = lines[2 + j // per]
        if kind == "STD":
            f = x[8 * (j % 10) :][:8]
            if int(f[:2]) != 1:
                return "number of counters"
            ys.append(float(f[2:]))
        elif kind == "ESD":
            f = x[16 * (j % 5) :][:16]
            ys.append(float(f[:8]))
            es.append(float(f[8:]))
        else:
            a, b, c = (float(v) for v in x.split())
            xs.append(a)
            ys.append(b)
            es.append(c)
    tol = 1e-9 if kind == "FXYE" else 0.5 + 1e-6
    if np.abs(np.array(ys) - y * s).max() > tol or (es and np.abs(np.array(es) - e * s).max() > tol) or (xs and np.abs(np.array(xs) - tth).max() > 1e-9):
        return "other numbers"
    return None


def decode_msk(b):
    if len(b) < 1024 or b[0:1] + b[4:5] + b[8:9] + b[12:13] != b"MASK":
        raise ValueError("no mask header")
    w, h = (int(v) for v in np.frombuffer(b[16:24], "<u4"))
    words = (w + 31) // 32
    if len(b) != 1024 + 4 * words * h:
        raise ValueError("%d bytes for %d x %d" % (len(b), h, w))
    bits = np.unpackbits(np.frombuffer(b[1024:], np.uint8).reshape(h, 4 * words), axis=1, bitorder="little")[:, :w]
    return bits == 0


def read_back(op, path):
    """The library's own reader on the file -> None or what is wrong"""
    kind, n = op["kind"], op["n"]
    if kind == "msk":
        got = L["f2"].read_fit2d_msk(path)
        return None if np.array_equal(got, mask(op["seed"], n)) else "other mask read back"
    if kind in ("chi", "dat", "xye"):
        return None
    tth, y, e = powder(op["seed"], n, op.get("big", 0))
    s = scale_of(y)
    a, b, c = L["gr"].gsas_reader(path)
    if len(a) != n or len(b) != n or len(c) != n:
        return "%d points read back instead of %d" % (len(a), n)
    tol = 1e-9 if kind == "FXYE" else 0.5 + 1e-6
    if np.abs(a - tth).max() > 1e-7 * (n + 1) + 1e-6 or np.abs(b - y * s).max() > tol:
        return "other numbers read back"
    return None
