"""Workload and reference model of the angle-to-Q conversion (C02, C03)."""
import numpy as np

MODES = ["theta", "phi", "cart", "hkl"]


def gen_q(rng, tier="quick"):
    nimg = rng.choice([0, 1, 2, 2, 3, 4, 5, 7, 9] + ([16, 30] if tier == "thorough" else []))
    det = [rng.randint(1, 5), rng.randint(1, 5)]
    r = rng.random()
    if r < 0.003:
        nimg, det = rng.choice([17, 33, 65, 130]), [rng.randint(1, 3), rng.randint(1, 3)]
    elif r < 0.006:
        nimg, det = rng.choice([1, 2, 3]), [rng.randint(6, 40), rng.randint(6, 40)]
    ang = []
    for _ in range(nimg):
        a = [round(rng.uniform(-180, 180), 3) if rng.random() < 0.9 else rng.choice([0.0, 90.0, -90.0, 180.0]) for _ in range(6)]
        ang.append(a)
    if nimg > 1 and rng.random() < 0.2:
        ang[-1] = list(ang[0])
    while True:
        ub = [[round(rng.uniform(-1, 1), 3) + (2.0 if i == j and rng.random() < 0.7 else 0.0) for j in range(3)] for i in range(3)]
        if abs(np.linalg.det(np.array(ub))) > 0.2:
            break
    return {
        "angles": ang, "det": det, "pix": [rng.choice([0.0135, 0.1, 0.2]), rng.choice([0.0135, 0.1, 0.17])],
        "cen": [round(rng.uniform(-2, 7), 2), round(rng.uniform(-2, 7), 2)],
        "dist": rng.choice([355.0, 10.0, 1.5]), "wl": rng.choice([0.7, 1.54, 13.28]), "ub": ub,
        "mode": rng.choice(MODES + [None]),
    }


def kwargs(q, images=None):
    ang = np.array(q["angles"] if images is None else [q["angles"][i] for i in images], dtype=float).reshape(-1, 6)
    return dict(setting_angles=ang, detector_size=tuple(q["det"]), pixel_size=tuple(q["pix"]), calibrated_center=tuple(q["cen"]),
                dist_sample=q["dist"], wavelength=q["wl"], ub=np.array(q["ub"]), frame_mode=q["mode"])


def reference(q):
    """Six-circle formulas (Lohmeier & Vlieg 1993), one pixel at a time."""
    nx, ny = q["det"]
    k = 2 * np.pi / q["wl"]
    out = []
    ubinv = np.linalg.inv(np.array(q["ub"]))
    # the orientation matrix is expressed in the (z, y, -x) permuted frame of the kernel
    perm = np.stack([-ubinv[:, 2], ubinv[:, 1], ubinv[:, 0]], axis=1)
    for a in q["angles"]:
        delta, theta, chi, phi, mu, gamma = np.deg2rad(a)
        rot_chi = np.array([[np.cos(chi), 0, -np.sin(chi)], [0, 1, 0], [np.sin(chi), 0, np.cos(chi)]])
        rot_phi = np.array([[1, 0, 0], [0, np.cos(phi), np.sin(phi)], [0, -np.sin(phi), np.cos(phi)]])
        for y in range(ny):
            for x in range(nx):
                d = delta - np.arctan((y - q["cen"][1]) * q["pix"][1] / q["dist"])
                g = gamma - np.arctan((x - q["cen"][0]) * q["pix"][0] / q["dist"])
                v = k * np.array([
                    -np.sin(g) - np.sin(mu),
                    np.cos(d - theta) * np.cos(g) - np.cos(theta) * np.cos(mu),
                    np.sin(d - theta) * np.cos(g) + np.sin(theta) * np.cos(mu)])
                if q["mode"] != "theta":
                    v = rot_phi @ (rot_chi @ v)
                if q["mode"] in ("hkl", None):
                    v = perm @ v
                out.append(v)
    return np.array(out).reshape(-1, 3), k * max(1.0, np.abs(ubinv).sum())
