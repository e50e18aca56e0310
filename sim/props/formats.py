"""Files for F03: written here byte by byte (netCDF: by the netCDF library), with the data a reader has to give back."""
import functools
import os
import tempfile

import numpy as np

from . import files

FORMATS = ["STD", "ESD", "FXYE", "bin", "am_le", "am_be", "am_ascii"] + (["msk"] if files.HAVE_MSK else []) + (["nc3", "nc4"] if files.HAVE_NC else [])
EXT = {"STD": ".gsas", "ESD": ".gsas", "FXYE": ".gsas", "bin": ".raw", "am_le": ".am", "am_be": ".am", "am_ascii": ".am", "msk": ".msk", "nc3": ".volume", "nc4": ".volume"}
AM = {"float": "f4", "short": "i2", "ushort": "u2", "byte": "i1"}
BIN = ["<f8", "<f4", "<i2", "<u2", "|u1", ">i4", ">f8"]

FULL = ["%12.10f", "7%12.10f", "42%12.10f", "613%12.10f", "-%12.10f", "-3%12.10f"]


def gen_file(rng):
    fmt = rng.choice(FORMATS)
    s = {"fmt": fmt, "seed": rng.randrange(200), "n": rng.choice([2, 3, 5, 6, 10, 11, 20, 33, rng.randint(2, 60)]), "eol": rng.choice(["\r\n", "\n"])}
    s["shape"] = rng.choice([[2, 3, 4], [3, 2, 2], [5, 4, 3], [2, 2, 2], [4, 6, 2], [9, 8, 12]] * 3 + [[1, 3, 4], [5, 1, 2], [3, 4, 1], [1, 1, 3]])
    s["wide"] = rng.random() < 0.4
    if rng.random() < 0.02:
        s["n"], s["shape"] = rng.choice([300, 1000, 2000]), rng.choice([[30, 25, 20], [50, 3, 40]])
    if fmt == "bin":
        s["shape"] = rng.choice([[7, 1, 1], [4, 5, 1], [3, 4, 5], [1, 6, 1], [2, 1, 3], [40, 30, 1], [12, 10, 9]] * 5 + [[120, 110, 1], [9000, 1, 1]])
        s["dtype"] = rng.randrange(len(BIN))
        s["header"] = rng.choice([0, 0, 1, 16, 100])
        s["more"] = rng.choice([0, 0, 0, 3])
    return s


def key(s):
    return tuple((k, tuple(v) if isinstance(v, list) else v) for k, v in sorted(s.items()) if k not in ("tear", "name"))


@functools.lru_cache(maxsize=400)
def _make(k):
    s = dict(k)
    return MAKE[s["fmt"]](s, np.random.RandomState(s["seed"]))


def make(s):
    """-> bytes of the file, what the reader returns"""
    return _make(key(s))


def _gsas(s, r):
    fmt, n, eol = s["fmt"], s["n"], s["eol"]
    start, step = float(r.randint(0, 5000)), [1.0, 2.5, 0.75][r.randint(3)]
    y = r.randint(0, 9999, n).astype(float)
    e = r.randint(0, 99, n).astype(float)
    per = {"STD": 10, "ESD": 5, "FXYE": 1}[fmt]
    lines = ["%-80s" % ("data set %d" % s["seed"]), "%-80s" % ("BANK %5i %8i %8i CONST %9.5f %9.5f %9.5f %9.5f %s" % (1, n, -(-n // per), start, step, 0, 0, fmt))]
    t = np.array([start / 100.0 + step / 100.0 * j for j in range(n)])
    if fmt == "STD":
        c = r.choice([1, 1, 2, 5], n)
        y[r.rand(n) < 0.1] = 0
        if s["wide"]:  # fields filled to the last column, values below one and (background taken off) below zero
            c = r.choice([1, 2, 10, 57, 99], n)
            txt = [(r.choice(FULL) % r.rand())[:6] if v else "%6.0f" % v for v in y]
            y = np.maximum([float(x) for x in txt], 0.0)
            rec = ["%2i%s" % (a, x) for a, x in zip(c, txt)]
        else:
            rec = ["%2i%6.0f" % (a, b) if not (b == 0 and a == 1) else "  %6.0f" % b for a, b in zip(c, y)]
        rec = [" " * 8 if b == 0 and i % 2 else x for i, (x, b) in enumerate(zip(rec, y))]  # a blank is a zero
        w = np.array([a / b if b > 0 else 0.0 for a, b in zip(c, y)])
    elif fmt == "ESD":
        y[r.rand(n) < 0.1], e[r.rand(n) < 0.1] = 0, 0
        if s["wide"]:
            ty, te = ([(r.choice(FULL) % r.rand())[:8] for _ in range(n)] for _ in range(2))
            y, e = (np.array([max(float(x), 0.0) for x in t8]) for t8 in (ty, te))
            rec = [a + b for a, b in zip(ty, te)]
        else:
            rec = [("%8.0f" % a if a or i % 2 else " " * 8) + ("%8.0f" % b if b or i % 3 else " " * 8) for i, (a, b) in enumerate(zip(y, e))]
        w = np.array([1 / b**2 if b > 0 else 0.0 for b in e])
    else:
        y = y + r.randint(0, 10**6, n) / 1e6
        e = np.where(r.rand(n) < 0.1, 0, e + r.randint(1, 10**6, n) / 1e6)
        t = t + r.randint(0, 10**6, n) / 1e8
        if s["wide"]:
            y, e = (r.choice([-20.0, 0.0, 0.5, 1.0, 3000.0], n) * r.randint(1, 10**6, n) / 1e6 for _ in range(2))
        rec = ["%22.10f%22.10f%24.10f" % p for p in zip(t, y, e)]
        t, y, e = (np.array([float(x.split()[i]) for x in rec]) for i in range(3))
        y = np.maximum(y, 0.0)
        w = np.array([1 / b**2 if b > 0 else 0.0 for b in e])
    lines += ["".join(rec[i : i + per]) for i in range(0, n, per)]
    lines[-1] = "%-80s" % lines[-1]
    return (eol.join(lines) + (eol if s["seed"] % 5 else "")).encode(), (t, y, w)  # the last line may do without its end


def values(s, r, dt, n, frac):
    """n values the data type holds; "wide": over its whole range, so that the file has all kinds of bytes"""
    if not s.get("wide"):
        return (r.randint(0, 120, n) + (frac if dt.kind == "f" else 0)).astype(dt)
    if dt.kind == "f":
        return (r.randint(-9999, 9999, n) * 10.0 ** r.randint(-12, 12, n)).astype(dt)
    i = np.iinfo(dt)
    v = r.randint(i.min, i.max + 1, n, dtype=np.int64)
    v[r.rand(n) < 0.2] = r.choice([0, 10, 13, 26, 32, i.min, i.max])
    return v.astype(dt)


def _bin(s, r):
    dt = np.dtype(BIN[s["dtype"]])
    shape = s["shape"]
    n = int(np.prod(shape))
    data = values(s, r, dt, n + (s["more"] if shape[1:] != (1, 1) else 0), 0.25)
    head = bytes(r.randint(32, 120, s["header"]).astype(np.uint8))
    want = data[:n]
    want = want.reshape(shape) if shape[2] != 1 else want.reshape(shape[:2]) if shape[1] != 1 else want
    return head + data.tobytes(), (want, head)


def _am(s, r):
    typ = sorted(AM)[s["seed"] % 4]
    x, y, z = s["shape"]
    kind = {"am_le": "BINARY-LITTLE-ENDIAN", "am_be": "BINARY", "am_ascii": "ASCII"}[s["fmt"]]
    box = [0.0, float(x - 1), 0.0, 2.0 * (y - 1), 1.0, 1.0 + 0.5 * (z - 1)]
    if s["seed"] % 5 == 0:
        box = [-1.0, -1.0 + 0.25 * (x - 1), 2.0, 2.0 + 0.25 * (y - 1), 0.0, 0.25 * (z - 1)]
    elif s["seed"] % 5 in (1, 2):  # one axis has another step
        st = [0.25, 0.25, 0.25]
        st[s["seed"] // 5 % 3] = 0.5 if s["seed"] % 5 == 1 else 0.125
        box = [-1.0, -1.0 + st[0] * (x - 1), 2.0, 2.0 + st[1] * (y - 1), 0.0, st[2] * (z - 1)]
    unit = ["m", "mm", "um"][s["seed"] % 3]
    lines = ["# %s %s%s 2.0" % (["Avizo", "AmiraMesh"][s["seed"] % 2], ["3D ", ""][s["seed"] % 2], kind), "", "", "define Lattice %d %d %d" % (x, y, z), "", "Parameters {", "    Units {",
             '        Coordinates "%s"' % unit, "    }",
             '    Content "%dx%dx%d %s, uniform coordinates",' % (x, y, z, typ), "    BoundingBox " + " ".join("%g" % b for b in box) + ",", '    CoordType "uniform"', "}", "",
             "Lattice { %s Data } @1" % typ, "", "# Data section follows", "@1"]
    v = values(s, r, np.dtype(AM[typ]), x * y * z, 0.5)
    if s["fmt"] == "am_ascii":
        body = ("\n".join(repr(float(a)) if typ == "float" else str(int(a)) for a in v) + "\n").encode()
    else:
        body = v.astype((">" if s["fmt"] == "am_be" else "<") + AM[typ]).tobytes() + b"\n"
    want = v.astype(AM[typ]).reshape(z, y, x)[::-1]
    steps = [(box[2 * i + 1] - box[2 * i]) / (k - 1) if k > 1 else 0 for i, k in enumerate((x, y, z))]
    one = steps[0] == steps[1] == steps[2] != 0
    md = {"array_dimensions": {"x_dimension": x, "y_dimension": y, "z_dimension": z}, "bounding_box": dict(zip(["x_min", "x_max", "y_min", "y_max", "z_min", "z_max"], box)), "data_type": typ,
          "coord_type": "uniform", "coordinates": unit, "data_format": kind, "data_format_version": "2.0", "software_src": ["Avizo", "AmiraMesh"][s["seed"] % 2],
          "resolution": {"zyx_value": steps[0] if one else tuple(steps[::-1]), "type": "isotropic" if one else "anisotropic"}}
    return ("\n".join(lines) + "\n").encode() + body, (want, md)


def _msk(s, r):
    h, w = 1 + s["n"] % (9 if s["n"] < 100 else 97), 1 + (s["n"] * 7) % (70 if s["n"] < 100 else 300)
    m = r.rand(h, w) < 0.5
    words = (w + 31) // 32
    b = bytearray(1024)
    b[0], b[4], b[8], b[12] = b"MASK"
    b[16:24] = np.array([w, h], "<u4").tobytes()
    bits = np.zeros((h, 32 * words), np.uint8)
    bits[:, :w] = m == 0
    return bytes(b) + np.packbits(bits, axis=1, bitorder="little").tobytes(), (m,)


def _nc(s, r):
    from netCDF4 import Dataset

    z, y, x = s["shape"]
    raw = r.randint(0, 3000, (z, y, x)).astype("i2")
    scale = [None, 1.0, 2.0, 4.0][s["seed"] % 4]
    fd, p = tempfile.mkstemp()
    os.close(fd)
    att = {"x_pixel_size": 0.5, "y_pixel_size": 0.5 if s["seed"] % 3 else 0.25, "z_pixel_size": 0.0, "operator": "nobody"}
    try:
        with Dataset(p, "w", format="NETCDF3_CLASSIC" if s["fmt"] == "nc3" else "NETCDF4") as d:
            for name, k in zip("zyx", (z, y, x)):
                d.createDimension(name, k)
            v = d.createVariable("VOLUME", "i2", ("z", "y", "x"))
            if scale is not None:
                v.scale_factor = scale
            for k, a in att.items():
                setattr(d, k, a)
            v.set_auto_maskandscale(False)
            v[:] = raw
        with open(p, "rb") as fh:
            b = fh.read()
    finally:
        os.remove(p)
    return b, (raw.astype(float), att)


MAKE = {"STD": _gsas, "ESD": _gsas, "FXYE": _gsas, "bin": _bin, "am_le": _am, "am_be": _am, "am_ascii": _am, "msk": _msk, "nc3": _nc, "nc4": _nc}


def read(s, path):
    """The library's reader."""
    L = files.L
    fmt = s["fmt"]
    if fmt in ("STD", "ESD", "FXYE"):
        return L["gr"].gsas_reader(path)
    if fmt == "bin":
        nx, ny, nz = s["shape"]
        return L["bi"].read_binary(path, nx, ny, nz, BIN[s["dtype"]], s["header"])
    if fmt == "msk":
        return (L["f2"].read_fit2d_msk(path),)
    if fmt in ("nc3", "nc4"):
        return L["nc"].load_netCDF(path)
    return L["av"].load_amiramesh(path)


def same(a, b, tol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a.astype(float) - b.astype(float)) <= tol * (1 + np.abs(b.astype(float)))))


def differs(s, got, data=None):
    """-> None if `got` is what the file stores"""
    fmt = s["fmt"]
    want = make(s)[1]
    if fmt in ("STD", "ESD", "FXYE"):
        if len(got) != 3 or any(len(g) != len(want[0]) for g in got):
            return "%r points instead of %d" % ([len(g) for g in got], len(want[0]))
        for name, g, w in zip(("angles", "intensities", "errors"), got, want):
            if not same(g, w, 1e-12):
                return name
        return None
    if fmt == "bin":
        if got[1] != want[1]:
            return "header"
        return None if same(got[0], want[0]) else "data %r" % (np.shape(got[0]),)
    if fmt == "msk":
        return None if np.asarray(got[0]).dtype == bool and same(got[0], want[0]) else "mask"
    if fmt in ("nc3", "nc4"):
        for k, v in want[1].items():
            if got[0].get(k) != v:
                return "attribute %s" % k
        d = np.ma.filled(np.ma.asarray(got[1]).astype(float), np.nan)
        return None if same(d, want[0], 1e-12) else "volume"
    md, d = got
    for k, v in want[1].items():
        if k == "resolution":
            if md[k]["type"] != v["type"] and any(want[0].shape[i] > 1 for i in range(3)) or not same(md[k]["zyx_value"], v["zyx_value"], 1e-12):
                return "header: %s %r instead of %r" % (k, md[k], v)
        elif md.get(k) != v:
            return "header: %s %r instead of %r" % (k, md.get(k), v)
    return None if same(d, want[0]) else "volume"


def loose_end(s, cut):
    """The file ends inside the text of its last number and nothing marks the end: it is a file with another last number."""
    if s["fmt"] not in ("FXYE", "am_ascii"):
        return False
    b = make(s)[0]
    end = len(b.rstrip())
    last = b[:end].split()[-1]
    return end - len(last) < cut < end


def zero_tail(s, got, cut):
    """A torn classic netCDF file read back with zeros, or what else is in the library's page buffer of 8192 bytes, in place of the missing values (VOLUME is the last thing in the file)."""
    b, (raw, _) = make(s)
    n = raw.size
    begin = b.rindex(raw.astype(">i2").tobytes())
    have = max(0, cut - begin) // 2
    d = np.ma.filled(np.ma.asarray(got[1]).astype(float), np.nan)
    if d.shape != raw.shape:
        return False
    d, w = d.ravel(), raw.ravel()
    if not same(d[:have], w[:have], 1e-12):
        return False
    left = np.arange(min(n, have + 1), n)
    ok = d[left] == 0
    for back in range(4096, n, 4096):
        ok |= (left >= back) & (d[left] == w[left - back])
    return bool(ok.all())


def zero_filled(s, cut):
    return s["fmt"] == "nc3" and make(s)[0].rindex(make(s)[1][0].astype(">i2").tobytes()) <= cut < len(make(s)[0])
