"""Catalogue of public computations of scikit-beam, each with seeded inputs.

An entry is a function of a RandomState returning (function, args, kwargs).  Arrays in args/kwargs are shared between callers.
"""
import numpy as np

M = {}


def load():
    import importlib

    if not hasattr(np.random.default_rng, "seeded"):  # randomness from the operating system becomes repeatable
        real = np.random.default_rng

        def default_rng(seed=None):
            return real(12345 if seed is None else seed)

        default_rng.seeded = True
        np.random.default_rng = default_rng
    for n in ("arithmetic", "calibration", "cdi", "correlation", "dpc", "feature", "image", "mask", "recip", "roi", "smoothing", "speckle", "spectroscopy", "stats",
              "utils", "fitting.background", "fitting.funcs", "fitting.lineshapes", "fitting.models", "fitting.xrf_model", "fitting.base.parameter_data",
              "constants.basic", "constants.xrf", "constants.xrs", "accumulators.binned_statistic", "accumulators.histogram"):
        try:
            M[n.split(".")[-1]] = importlib.import_module("skbeam.core." + n)
        except ImportError:  # an optional dependency is missing
            pass
    return M


CAT = {}


def entry(f):
    CAT[f.__name__] = f
    return f


POOL = {}  # objects that callers share, whatever else they ask for; emptied before each run


def pooled(kind, key, make):
    k = (kind, key)
    if k not in POOL:
        POOL.setdefault(k, make())
    return POOL[k]


def ch(r, *opts):
    return opts[r.randint(len(opts))]


def img(r, h=9, w=8):
    return r.randint(0, 50, size=(h, w)).astype(float)


def peaks(r, n=200, k=3):
    x = np.linspace(0, 10, n)
    y = np.zeros(n)
    for _ in range(k):
        y += r.uniform(1, 5) * np.exp(-((x - r.uniform(1, 9)) ** 2) / 0.02)
    return x, y + r.rand(n) * 0.01


def labels(r, h=9, w=8, n=3):
    lab = r.randint(0, n + 1, size=(h, w))
    lab.flat[: n + 1] = np.arange(n + 1)
    return lab


# ---------------------------------------------------------------- arithmetic, masks, images
@entry
def nand(r):
    return M["arithmetic"].logical_nand, (r.rand(4, 5) < 0.5, r.rand(4, 5) < 0.5), {}


@entry
def nor(r):
    return M["arithmetic"].logical_nor, (r.rand(4, 5) < 0.5, r.rand(4, 5) < 0.5), {}


@entry
def sub(r):
    return M["arithmetic"].logical_sub, (r.rand(4, 5) < 0.5, r.rand(4, 5) < 0.5), {}


@entry
def margin(r):
    return M["mask"].margin, ((r.randint(5, 9), r.randint(5, 9)), r.randint(1, 3)), {}


@entry
def binned_outlier(r):
    i = img(r)
    rr = np.hypot(*np.mgrid[-4:5, -4:4]) * ch(r, 1, 1.5)
    return M["mask"].binned_outlier, (i, rr, r.choice([1.0, 2.0]), np.linspace(0, rr.max() + 0.1, ch(r, 4, 5))), {"mask": ch(r, None, r.rand(9 * 8) < 0.9)}


@entry
def binned_outlier_tuple(r):
    i = img(r)
    rr = np.hypot(*np.mgrid[-4:5, -4:4])
    return M["mask"].binned_outlier, (i, rr, (1.0, ch(r, 2.0, 3.0)), np.linspace(0, rr.max() + 0.1, 4)), {}


@entry
def threshold(r):
    return (lambda im, t, m: [np.array(x) for x in M["mask"].threshold(im, t, m)]), (r.randint(0, 20, size=(4, 5, 5)), ch(r, 12, 15), ch(r, None, (r.rand(5, 5) < 0.9).astype(int))), {}


@entry
def bad_to_nan(r):
    return (lambda im, bad: [np.array(x) for x in M["mask"].bad_to_nan_gen(im, bad)]), (r.randint(0, 20, size=(5, 4, 4)), ch(r, [1, 3], [0], [2, 4])), {}


@entry
def ring_center(r):
    y, x = np.mgrid[0:30, 0:31]
    rr = np.hypot(y - 14 - r.rand(), x - 15 - r.rand())
    return M["image"].find_ring_center_acorr_1D, (np.exp(-((rr - 9) ** 2)) * 10,), {}


@entry
def circ_avg_image(r):
    return M["image"].construct_circ_avg_image, (np.arange(6) * 1.0, r.rand(6)), {"dims": (9, 10), "center": ch(r, (4, 5), (3, 6)), "pixel_size": ch(r, (1, 1.5), (1, 1))}


@entry
def circ_avg_image2(r):
    return M["image"].construct_circ_avg_image, (np.arange(1, 6) * 1.0, r.rand(5)), {"left": ch(r, -1, 0), "right": ch(r, 7, 0)}


@entry
def rphi_image(r):
    return M["image"].construct_rphi_avg_image, (np.arange(5) * 1.0, np.linspace(0.3, 0.3 + 2 * np.pi, 12, endpoint=False) + ch(r, 0, 0.2), r.rand(5, 12)), {"pixel_size": ch(r, (1, 1), (1, 1.3))}


@entry
def rphi_image_mask(r):
    return (M["image"].construct_rphi_avg_image, (np.arange(5) * 1.0, np.linspace(-0.5, ch(r, 3, 3, 7), 9), r.rand(5, 9)),
            {"mask": (r.rand(*ch(r, (5, 9), (5, 9), (5, 9), (9, 5), (45,))) < 0.8).astype(int), "center": ch(r, (5, 5), (4, 6)), "shape": (11, 12)})


@entry
def sgolay(r):
    return M["smoothing"].sgolay2d, (r.rand(12, 13), ch(r, 5, 7), ch(r, 2, 3)), {"derivative": [None, "col", "row", "both"][r.randint(4)]}


# ---------------------------------------------------------------- calibration, features
@entry
def d_blind(r):
    c = M["calibration"]
    x = np.linspace(0, 50, 600)
    y = np.zeros_like(x)
    n = ch(r, "Si", "LaB6")
    w = ch(r, 0.18, 0.17)
    for q in 200 * np.tan(c.calibration_standards[n].convert_2theta(w)):
        y += 100 * np.exp(-(((x - q) / 0.4) ** 2))
    return c.estimate_d_blind, (n, w, x, y, ch(r, 5, 7), ch(r, 6, 5), 0.1), {}


@entry
def refine_center(r):
    y, x = np.mgrid[0:60, 0:61]
    c = np.array((30.0, 29.0))
    rr = np.hypot(y - c[0], x - c[1])
    im = sum(100 * np.exp(-((rr - k) ** 2) / 4) for k in (8, 14, 20))
    return M["calibration"].refine_center, (im, c + r.rand(2), ch(r, (1, 1), (1.05, 1.0))), dict(phi_steps=ch(r, 6, 8), max_peaks=3, thresh=ch(r, 0, 0.2), window_size=ch(r, 3, 5), nx=ch(r, 40, 50), min_x=4, max_x=26)


@entry
def refine_quad(r):
    x = np.arange(9.0)
    return M["feature"].refine_quadratic, (x, 20 - (x - 4 - r.rand()) ** 2), {}


@entry
def refine_log_quad(r):
    x = np.arange(9.0)
    return M["feature"].refine_log_quadratic, (x, np.exp(-((x - 4 - r.rand()) ** 2) / 9)), {"Rval_thresh": ch(r, 0.5, None, 0.9)}


@entry
def peak_refinement(r):
    x = np.linspace(0, 10, 101)
    c = r.uniform(4, 6)
    y = 5 * np.exp(-((x - c) ** 2))
    return M["feature"].peak_refinement, (x, y, np.array([int(np.argmax(y))]), 5, M["feature"].refine_quadratic), {}


@entry
def peak_refinement_args(r):
    x = np.linspace(0, 10, 101)
    c = r.uniform(4, 6)
    y = 5 * np.exp(-((x - c) ** 2)) + 0.1 * r.rand(101) + 0.1
    f = M["feature"]
    return f.peak_refinement, (x, y, np.array([int(np.argmax(y)), 20]), ch(r, 5, 9), ch(r, f.refine_quadratic, f.refine_log_quadratic)), {"refine_args": ch(r, None, {}, {"Rval_thresh": 0.5}, {"Rval_thresh": 0.99})}


@entry
def n_largest(r):
    return M["feature"].filter_n_largest, (r.rand(40), np.array([3, 9, 14, 22, 31]), ch(r, 2, 3, 9)), {}


@entry
def peak_height(r):
    return M["feature"].filter_peak_height, (r.rand(60), np.array([9, 24, 32, 45]), ch(r, 0.2, 0.4)), {"window": ch(r, 3, 4)}


# ---------------------------------------------------------------- phase retrieval, phase contrast
@entry
def cdi_gauss(r):
    return M["cdi"].gauss, ((6, 7), ch(r, 1.5, 0.8, 2.0)), {}


@entry
def pi_modulus(r):
    return M["cdi"].pi_modulus, (r.rand(6, 6) + 1j * r.rand(6, 6), r.rand(6, 6)), {}


@entry
def find_support(r):
    return M["cdi"].find_support, (r.rand(8, 8) + 1j * r.rand(8, 8), ch(r, 0.7, 1.1), ch(r, 0.4, 0.6)), {}


@entry
def diff_error(r):
    return M["cdi"].cal_diff_error, (r.rand(6, 6) + 1j * r.rand(6, 6), r.rand(6, 6) + 0.1), {}


@entry
def box_support(r):
    return M["cdi"].generate_box_support, (ch(r, 1, 2, 3), ch(r, (8, 9), (9, 8))), {}


@entry
def disk_support(r):
    return M["cdi"].generate_disk_support, (ch(r, 2, 3), ch(r, (8, 9), (9, 8))), {}


@entry
def cdi_recon(r):
    s = np.zeros((8, 8))
    s[2:6, 2:6] = 1
    return (M["cdi"].cdi_recon, (r.rand(8, 8) + 0.1, r.rand(8, 8) + 1j * r.rand(8, 8), s),
            {"n_iterations": 8, "sw_step": 2, "pi_modulus_flag": ["Complex", "Real"][r.randint(2)], "sw_flag": ch(r, True, False), "beta": ch(r, 1.15, 0.9)})


@entry
def image_reduction(r):
    return M["dpc"].image_reduction, (img(r),), {"roi": ch(r, (1, 1, 5, 5), (0, 2, 4, 5), None), "bad_pixels": ch(r, [(2, 3), (4, 4)], None, [(3, 3)])}


@entry
def dpc_recon(r):
    return M["dpc"].recon, (r.rand(5, 6), r.rand(5, 6), ch(r, 0.1, 0.15), ch(r, 0.2, 0.1)), {"padding": r.randint(0, 2), "weighting": ch(r, 0.5, 0.3)}


@entry
def dpc_runner(r):
    ref = img(r, 7, 7) + 10
    ims = [ref + r.rand(7, 7) for _ in range(6)]
    return (M["dpc"].dpc_runner, (ref, ims), dict(start_point=[1, ch(r, 0, 0.2)], pixel_size=(55, 55), focus_to_det=ch(r, 1.46, 1.5), scan_rows=2, scan_cols=3, scan_xstep=0.1, scan_ystep=0.1,
            energy=19.5, padding=0, weighting=0.5, solver=ch(r, "Nelder-Mead", "Powell"), roi=ch(r, None, (1, 1, 5, 5)), bad_pixels=ch(r, [(1, 1)], [(2, 3)], None), negate=ch(r, True, False), scale=ch(r, True, False)))


# ---------------------------------------------------------------- correlation
@entry
def one_time(r):
    return M["correlation"].multi_tau_auto_corr, (ch(r, 2, 3), ch(r, 4, 6), labels(r), r.randint(1, 30, size=(10, 9, 8))), {}


@entry
def two_time(r):
    return M["correlation"].two_time_corr, (labels(r), r.randint(1, 30, size=(8, 9, 8)).astype(float), 8, ch(r, 8, 4), ch(r, 1, 2)), {}


@entry
def one_from_two(r):
    a = r.rand(2, 6, 6)
    return M["correlation"].one_time_from_two_time, (a + a.transpose(0, 2, 1),), {"calc_errors": bool(r.randint(2))}


@entry
def scat_factor(r):
    return M["correlation"].auto_corr_scat_factor, (np.arange(8.0), ch(r, 0.3, 0.2), ch(r, 0.4, 0.1), ch(r, 1, 1.1)), {}


@entry
def cross_corr(r):
    return ((lambda m, a, b, n: M["correlation"].CrossCorrelator(m.shape, mask=m, normalization=n)(a, b)),
            (labels(r), img(r) + 1, img(r) + 1, ch(r, None, "symavg", ["regular", "symavg"])), {})


# ---------------------------------------------------------------- line shapes, fluorescence
for _n in ("gaussian", "lorentzian", "lorentzian2", "voigt"):
    def _mk(n):
        def f(r):
            return getattr(M["lineshapes"], n), (np.linspace(-3, 3, 15), r.uniform(1, 3), ch(r, 0.2, 0.0), ch(r, 0.7, 1.2)), {}
        return f
    CAT[_n] = _mk(_n)


@entry
def pvoigt(r):
    return M["lineshapes"].pvoigt, (np.linspace(-3, 3, 15), 2.0, ch(r, 0.1, 0.3), ch(r, 0.6, 0.8), r.rand()), {}


@entry
def step(r):
    return M["lineshapes"].gausssian_step, (np.linspace(1, 3, 15), ch(r, 2.0, 3.0), ch(r, 1.8, 2.0), ch(r, 0.2, 0.3), ch(r, 2.5, 2.9)), {}


@entry
def tail(r):
    return M["lineshapes"].gaussian_tail, (np.linspace(1, 3, 15), ch(r, 2.0, 3.0), ch(r, 1.8, 2.0), ch(r, 0.2, 0.3), ch(r, 1.1, 0.9)), {}


@entry
def elastic(r):
    return M["lineshapes"].elastic, (np.arange(20.0), r.uniform(1, 5), ch(r, 9.0, 10.0), 0.1, 0.01, 0.0, 0.6, ch(r, 0.0, 0.001)), {}


@entry
def compton(r):
    return M["lineshapes"].compton, (np.arange(20.0), r.uniform(1, 5), ch(r, 9.0, 10.0), 0.1, 0.01, 0.0, 0.6, 0.0, ch(r, 90.0, 80.0), ch(r, 1.2, 1.5), 0.1, 0.3, 5.0, 0.1, 1.0), {}


@entry
def gamma_dist(r):
    return M["lineshapes"].gamma_dist, (np.arange(1.0, 9), ch(r, 4.0, 5.0), ch(r, 3.0, 2.0)), {}


@entry
def nbinom_dist(r):
    return M["lineshapes"].nbinom_dist, (np.arange(8), ch(r, 4.0, 5.0), ch(r, 3.0, 2.0)), {}


@entry
def poisson_dist(r):
    return M["lineshapes"].poisson_dist, (np.arange(8), ch(r, 4.0, 2.0)), {}


@entry
def quad_to_peak(r):
    x = np.arange(9.0)
    return M["funcs"].fit_quad_to_peak, (x, 20 - (x - 4 - r.rand()) ** 2), {}


@entry
def snip(r):
    return M["background"].snip_method, (peaks(r, 60)[1] * 100 + 5, ch(r, 0.0, 0.1), ch(r, 0.1, 0.08), ch(r, 0.0, 1e-4)), {"width": r.choice([0.5, 0.8]), "xmax": r.choice([40, 4096])}


@entry
def snip_binned(r):
    return M["background"].snip_method, (r.randint(1, 90, size=60), 0.0, 0.1, 0.0), {"spectral_binning": ch(r, 3, 2), "con_val": 2, "iter_num": ch(r, 4, 2), "decrease_factor": ch(r, 2, 1.5)}


@entry
def models_eval(r):
    def f(x, amp):
        m = M["models"].ElasticModel(prefix="e_")
        p = m.make_params(coherent_sct_amplitude=amp, coherent_sct_energy=9.0, fwhm_offset=0.1, fwhm_fanoprime=0.01, e_offset=0.0, e_linear=0.6, e_quadratic=0.0)
        l2 = M["models"].Lorentzian2Model()
        return m.eval(p, x=x), l2.eval(l2.make_params(area=amp, center=3, sigma=1.0), x=x)

    return f, (np.arange(20.0), r.uniform(1, 5)), {}


def xrf_param(r):
    import copy

    p = copy.deepcopy(M["parameter_data"].default_param)
    p["coherent_sct_energy"]["value"] = float(r.choice([9.0, 12.0]))
    p["e_linear"]["value"] = 0.1
    p["non_fitting_values"]["element_list"] = "Ar, Fe"
    return p


@entry
def element_peak(r):
    return M["xrf_model"].element_peak_xrf, (np.arange(40.0), 100.0, ch(r, 2.0, 2.5), ch(r, 0.0, 0.1), 0.0, 1.0, r.uniform(0.5, 1), 0.1, 0.001, 0.0, ch(r, 0.1, 0.09), 0.0), {}


@entry
def line_energy(r):
    return M["xrf_model"].get_line_energy, (["Fe_K", "Ca_Kb1", "U_M", "Eu_La1", "Fe_Ka1", "Pt_L"][r.randint(6)],), {}


@entry
def activated(r):
    return M["xrf_model"].get_activated_lines, (float(r.choice([5, 9, 12, 20])), ["Fe_K", "Ca_K", "Pt_M", "Ce_L"]), {}


@entry
def trim(r):
    return M["xrf_model"].trim, (np.arange(30), r.rand(30), ch(r, 4, 6), ch(r, 20, 25)), {}


@entry
def define_range(r):
    return M["xrf_model"].define_range, (r.rand(60), ch(r, 1.0, 1.5), ch(r, 3.0, 4.0), ch(r, 0.0, 0.1), ch(r, 0.1, 0.08)), {}


@entry
def extract_strategy(r):
    return M["xrf_model"].extract_strategy, (xrf_param(r), ["bound_type", "value", "max"][r.randint(3)]), {}


@entry
def escape(r):
    return M["xrf_model"].compute_escape_peak, (r.rand(50), ch(r, 0.01, 0.02), xrf_param(r)), {}


@entry
def linear_model(r):
    return M["xrf_model"].construct_linear_model, (np.arange(120), xrf_param(r), [["Fe_K", "Ca_K"], ["Fe_K"], ["Pt_M", "userpeak1"]][r.randint(3)]), {}


@entry
def linear_fit(r):
    return (lambda *a, **k: M["xrf_model"].linear_spectrum_fitting(*a, **k)), (np.arange(150), r.randint(1, 90, size=150).astype(float), xrf_param(r)), {"elemental_lines": ["Fe_K", "Ar_K"]}


@entry
def nnls_weighted(r):
    return M["xrf_model"].nnls_fit, (r.rand(20), r.rand(20, 3)), {"weights": r.rand(20) + 0.1}


@entry
def per_line(r):
    return M["xrf_model"].fit_per_line_nnls, (r.rand(3, 30), r.rand(30, 2), xrf_param(r), bool(r.randint(2))), {}


@entry
def area_map(r):
    return M["xrf_model"].calculate_area, (["Fe_K", "Ca_K", "compton", "elastic"], r.rand(30, 4), r.rand(2, 3, 6), xrf_param(r)), {"first_peak_area": bool(r.randint(2))}


@entry
def controller(r):
    def f(p, lines, strat):
        c = M["xrf_model"].ParamController(p, lines)
        c.update_element_prop(lines[:1], pos="lohi", area="lo")
        c.set_strategy(strat)
        return c.params

    return f, (xrf_param(r), ["Fe_K", "Ca_K", "Ce_L"][r.randint(3) :], ["linear", "free_more", "e_calibration"][r.randint(3)]), {}


@entry
def spectrum_model(r):
    def f(p, lines, x):
        m = M["xrf_model"].ModelSpectrum(p, lines)
        m.assemble_models()
        pars = m.mod.make_params()
        return {k: (v.value, v.vary, v.min, v.max, v.expr) for k, v in pars.items()}, m.mod.eval(pars, x=x)

    return f, (xrf_param(r), ["Fe_K", "Ca_K"][r.randint(2) :], np.arange(80)), {}


# ---------------------------------------------------------------- constants
@entry
def basic_element(r):
    def f(z):
        e = M["basic"].BasicElement(z)
        return e.sym, e.name, e.Z, e.mass, e.density

    return f, (["Fe", 26, "au", 12, "Ca"][r.randint(5)],), {}


@entry
def xrf_element(r):
    def f(z, en):
        e = M["xrf"].XrfElement(z)
        return (e.emission_line["ka1"], e.cs(en)["ka1"], e.csb(en)["ka1"], dict(e.cs(en).all), dict(e.emission_line.all), e.bind_energy["k"], e.jump_factor["k"], e.fluor_yield["k"],
                sorted(dict(e.line_near(6.0, 1.0, en)).items()), len(e.cs(en)), list(e.emission_line))

    return f, (["Fe", 20, "Pt", "Ca"][r.randint(4)], float(r.choice([5, 10, 14]))), {}


@entry
def shared_element(r):
    z = ["Fe", 20, "Pt"][r.randint(3)]

    def f(e, en, line):
        c, b = e.cs(en), e.csb(en)
        near = sorted(dict(e.line_near(6.0, 1.5, en)).items())
        return c[line], b[line], c.incident_energy, e.emission_line[line], near, c.all, e.sym, e.mass

    return f, (pooled("element", z, lambda: M["xrf"].XrfElement(z)), float(r.choice([5, 9, 14])), ["ka1", "la1", "kb1"][r.randint(3)]), {}


@entry
def shared_standard(r):
    n = ["Si", "CeO2"][r.randint(2)]

    def make():
        d = {"Si": [3.1, 1.9, 1.6], "CeO2": [3.2, 2.7, 1.8, 1.5]}[n]
        return M["xrs"].PowderStandard.from_d(n, d)

    def f(s, w):
        return s.name, s.convert_2theta(w), [x.q for x in s.reflections], [x.d for x in s.reflections], len(s)

    return f, (pooled("standard", n, make), ch(r, 0.15, 0.12, 1.1)), {}


@entry
def shared_model(r):
    n = ["ElasticModel", "ComptonModel", "Lorentzian2Model"][r.randint(3)]
    mod = pooled("model", n, lambda: getattr(M["models"], n)())

    def f(m, x, k):
        p = m.make_params()
        for i, name in enumerate(sorted(p)):
            if p[name].expr is None:
                p[name].set(value=k + 0.1 * i)
        return m.eval(p, x=x), sorted(p), m.name

    return f, (mod, np.linspace(1, 14, 40), ch(r, 1.0, 2.0, 3.5)), {}


@entry
def line_search(r):
    def f(e, d, en, lst):
        return {k: dict(v) for k, v in M["xrf"].emission_line_search(e, d, en, lst).items()}

    return f, (float(r.uniform(3, 8)), ch(r, 0.5, 1.5), ch(r, 12.0, 7.0), ch(r, [20, 26, 28, 30], ["Fe", "Ni"], None)), {}


@entry
def standards(r):
    def f(n, w):
        s = M["xrs"].calibration_standards[n]
        return s.name, s.convert_2theta(w), [tuple(x.hkl) if x.hkl else None for x in s.reflections], [x.q for x in s.reflections], len(s)

    return f, (["Si", "LaB6", "Al2O3"][r.randint(3)], ch(r, 0.15, 0.12)), {}


@entry
def new_standard(r):
    def f(d, hkl, w, tt):
        P = M["xrs"].PowderStandard
        a = P.from_d("a", d, hkl)
        b = P.from_lambda_2theta_hkl("b", w, tt, hkl)
        return [x.q for x in a.reflections], [x.d for x in b.reflections], [h.length for h in (x.hkl for x in a.reflections)]

    return f, (np.array([3.1, 2.0, 1.5]) + r.rand(), [(1, 1, 1), (2, 0, 0), (2, 2, 0)], ch(r, 0.7, 0.6), np.array([0.2, 0.4, 0.7])), {}


# ---------------------------------------------------------------- reciprocal space, utilities
@entry
def to_q(r):
    return (M["recip"].process_to_q, (r.rand(3, 6), (4, 5), (0.1, ch(r, 0.1, 0.12)), (2.0, ch(r, 2.5, 2.0)), ch(r, 500.0, 400.0), ch(r, 1.2, 1.0), np.eye(3) + r.rand(3, 3) * 0.1),
            {"frame_mode": ch(r, "theta", "phi", "cart", "hkl")})


@entry
def hkl_to_q(r):
    return M["recip"].hkl_to_q, (r.rand(5, 3),), {}


@entry
def gisaxs(r):
    return M["recip"].gisaxs, ((3, 4), ch(r, (5, 6), (4, 6)), (50, ch(r, 50, 60)), (8, 9), ch(r, 2.0, 1.8), ch(r, 1.1, 0.9)), {"theta_i": r.rand() * 0.1}


@entry
def grid3d(r):
    return (M["utils"].grid3d, (r.rand(40, 3), r.rand(40)), dict(nx=ch(r, 3, 4), ny=4, nz=2))


@entry
def grid3d_bounds(r):
    return (M["utils"].grid3d, (r.rand(40, 3), r.rand(40)), dict(nx=3, ny=2, nz=2, xmin=ch(r, 0.1, 0.0), xmax=ch(r, 0.9, 1.0), ymin=0, ymax=1, zmin=0, zmax=1, binary_mask=r.rand(40) < 0.8))


@entry
def sub_ref(r):
    return (lambda a, b: [np.array(x) for x in M["utils"].subtract_reference_images(a, b)]), (r.rand(5, 4, 4), ch(r, np.array([True, False, False, True, False]), np.array([True, False, True, True, False]))), {}


@entry
def relative_xyi(r):
    return M["utils"].img_to_relative_xyi, (img(r), ch(r, 3, 2), ch(r, 4, 5)), {"pixel_size_x": ch(r, 0.5, 1.0), "pixel_size_y": ch(r, 0.25, 1.0)}


@entry
def bin_1D(r):
    return M["utils"].bin_1D, (r.rand(50), r.rand(50)), {"nx": ch(r, 7, 6, None), "min_x": ch(r, 0.1, 0.2, None), "max_x": ch(r, 0.8, 0.7, None)}


@entry
def radial(r):
    return M["utils"].radial_grid, (ch(r, (3.5, 4), (2, 5.5)), ch(r, (8, 9), (9, 8))), {"pixel_size": ch(r, (1, 2), (1, 1), (2, 1))}


@entry
def angle(r):
    return M["utils"].angle_grid, (ch(r, (3.5, 4), (2, 5.5)), ch(r, (8, 9), (9, 8))), {"pixel_size": ch(r, (1, 2), (1, 1), (2, 1))}


@entry
def r_to_tt(r):
    return M["utils"].radius_to_twotheta, (ch(r, 100.0, 50.0), r.rand(6)), {}


@entry
def bin_edges(r):
    return M["utils"].bin_edges, (), {"range_min": ch(r, 1.0, 0.5), "range_max": ch(r, 4.0, 5.0), "nbins": r.randint(2, 9)}


@entry
def bin_edges_step(r):
    k = {"range_min": ch(r, 1.0, 0.5), "range_max": ch(r, 4.0, 5.0, 0.2), "nbins": r.randint(0, 9), "step": ch(r, 0.25, 0.7, 9.0)}
    k[["range_min", "range_max", "nbins", "step"][r.randint(4)]] = None
    return M["utils"].bin_edges, (), k


@entry
def relative_xyi_plain(r):
    return M["utils"].img_to_relative_xyi, (img(r), ch(r, 3, 2.5), ch(r, 4, 5)), {"pixel_size_x": ch(r, None, None, 0.5, -1), "pixel_size_y": ch(r, None, None, 0.25, 0)}


@entry
def centers(r):
    return M["utils"].bin_edges_to_centers, (np.sort(r.rand(6)),), {}


@entry
def conversions(r):
    u = M["utils"]
    return (lambda q, w: (u.q_to_d(q), u.d_to_q(q), u.q_to_twotheta(q, w), u.twotheta_to_q(q, w))), (r.rand(5) + 0.1, ch(r, 0.5, 0.4)), {}


@entry
def lags(r):
    return M["utils"].multi_tau_lags, (r.randint(1, 4), ch(r, 4, 8)), {}


@entry
def series(r):
    first = ch(r, 1, 2)  # (zero or less asks for an endless series)
    return (lambda c, n: M["utils"].geometric_series(c, n, first)), (ch(r, 2, 3), r.randint(5, 40)), {}


@entry
def bin_grid(r):
    return M["utils"].bin_grid, (img(r), np.hypot(*np.mgrid[-4:5, -4:4]), (1, 1)), {"bins": ch(r, 5, 4), "mask": ch(r, None, r.rand(9, 8) < 0.9)}


@entry
def stats_1d(r):
    return M["stats"].statistics_1D, (r.rand(50), r.rand(50)), {"nx": ch(r, 6, 5), "stat": ["mean", "std", "sum"][r.randint(3)], "min_x": ch(r, None, 0.1), "max_x": ch(r, None, 0.9)}


@entry
def containers(r):
    def f(a, b):
        d = M["utils"].MD_dict()
        d["a.b.c"] = a
        d["a.d"] = b
        d["e"] = 5
        rc = M["utils"].RCParamDict()
        rc["x.y"] = a
        rc["x.z"] = b
        rc["w"] = 1
        v = M["utils"].verbosedict({i: i for i in range(4)})
        return sorted(d), d["a.b.c"], len(d), sorted(rc), rc["x.y"], len(rc), v[3]

    return f, (int(r.randint(100)), "t%d" % r.randint(9)), {}


def _stat(b, v):
    return b(v), b.bin_edges, b.bin_centers


@entry
def element_text(r):
    def f(a, b):
        e, g = M["basic"].BasicElement(a), M["basic"].BasicElement(b)
        return str(e), repr(e), e["mass"], e == g, e < g, sorted(M["basic"].elements)[:5] if hasattr(M["basic"], "elements") else 0, str(M["xrs"].HKL(1, 0, 2))

    return f, (ch(r, "Fe", "Ca", 20), ch(r, "Fe", 12, "Ca")), {}


@entry
def mappings(r):
    def f(a, b):
        d = M["utils"].MD_dict()
        d["u.v"], d["w"] = a, b
        d["u.x"] = b
        rc = M["utils"].RCParamDict()
        rc["p.q"], rc["p.r"], rc["s"] = a, b, 3
        t = repr(d), repr(rc)
        del d["u.v"]
        del rc["p.q"]
        return t, sorted(d), len(d), sorted(rc), len(rc), repr(rc)

    return f, (int(r.randint(50)), "t%d" % r.randint(9)), {}


@entry
def cs_ratio(r):
    return M["xrf_model"].get_relative_cs_ratio, (ch(r, "Fe_K", "Ca_K", "Pt_L", "Pt_M"), ch(r, 12.0, 15.0)), {}


@entry
def default_para(r):
    return M["parameter_data"].get_para, (), {}


@entry
def sum_area(r):
    class Fit:
        pass

    def f(line, a, b):
        o = Fit()
        o.values = {"%s_%s_%s" % (e, n, k): v for e in ("Fe", "Ca") for n in ("ka1", "kb1") for k, v in (("area", a if e == "Fe" else b), ("ratio", 0.5), ("ratio_adjust", 2.0))}
        return M["xrf_model"].sum_area(line, o)

    return f, (ch(r, "Fe_K", "Ca_K"), float(r.randint(1, 9)), float(r.randint(10, 20))), {}


@entry
def spectrum_fit(r):
    def f(p, x, y):
        m = M["xrf_model"].ModelSpectrum(p, ["Fe_K"])
        m.assemble_models()
        o = m.model_fit(x, y, weights=1 / np.sqrt(y + 1), max_nfev=12)
        q = M["xrf_model"]
        return o.best_fit, q.sum_area("Fe_K", o), q.sum_area("Fe_L", o)

    x = np.arange(60, 130)
    return f, (xrf_param(r), x, 50 * np.exp(-(((x - 64) / 2.0) ** 2)) + r.randint(1, 4, size=x.size)), {}


@entry
def pyfai_q(r):
    return M["recip"].calibrated_pixels_to_q, ((6, 7), {"dist": ch(r, 0.5, 0.4), "poni1": 0.01, "poni2": ch(r, 0.02, 0.01), "wavelength": ch(r, 1e-10, 1.5e-10), "pixel1": 1e-4, "pixel2": 1e-4}), {}


@entry
def radial_stat(r):
    return ((lambda s, v, n, st, o, m: _stat(M["binned_statistic"].RadialBinnedStatistic(s, bins=n, statistic=st, origin=o, mask=m), v)),
            ((9, 8), img(r), ch(r, 3, 4), ch(r, "mean", "std", "count", "sum", "median"), ch(r, (4, 4), (3, 5), None), ch(r, None, r.rand(9, 8) < 0.8)), {})


@entry
def rphi_stat(r):
    return ((lambda s, v, m, n, o, t: _stat(M["binned_statistic"].RPhiBinnedStatistic(s, bins=n, mask=m, statistic="sum", origin=o, r_map=t), v)),
            ((9, 8), img(r), r.rand(9, 8) < 0.8, ch(r, (3, 4), (4, 3)), ch(r, (4, 4), (3, 5)), ch(r, None, r.rand(9, 8))), {})


@entry
def histogram(r):
    def f(x, y, w, n, hi):
        h = M["histogram"].Histogram((n, 0, hi), (3, 0, 1))
        h.fill(x, y, weights=w)
        return h.values, h.edges, h.centers

    return f, (r.rand(30), r.rand(30), r.rand(30), ch(r, 4, 5), ch(r, 1, 0.8)), {}


# ---------------------------------------------------------------- regions
@entry
def rectangles(r):
    return M["roi"].rectangles, (np.array([[1, 1, 2, 3], [5, 4, 3, 3]]) - ch(r, 0, 1), (9, 8)), {}


@entry
def rings(r):
    e = np.array([[1.0, 2.2], [2.5, 3.7], [4.2, 5.4]]) + ch(r, 0, 0.4)
    return M["roi"].rings, (e, ch(r, (4, 4), (5, 3)), ch(r, (11, 10), (10, 11))), {}


@entry
def ring_edges_lists(r):
    w = ch(r, 2.0, [2.0, 1.0, 1.5], (1.0, 2.0), np.array([1.0, 2.0, 1.0]))
    s = ch(r, [0.5, 1.0], np.array([1.0, 0.5]), [1.0, 0.5, 0.25], 1.0)
    return M["roi"].ring_edges, (ch(r, 1.0, 2.0), w), {"spacing": s, "num_rings": ch(r, None, 3, 4)}


@entry
def center_rings(r):
    y, x = np.mgrid[0:40, 0:41]
    rr = np.hypot(y - 19 - r.rand(), x - 20)
    return M["roi"].auto_find_center_rings, (np.exp(-((rr - 12) ** 2) / 3) + 0.7 * np.exp(-((rr - 6) ** 2) / 3),), {"sigma": ch(r, 1, 2), "no_rings": ch(r, 1, 2), "max_trials": ch(r, 20, 30)}


@entry
def ring_edges(r):
    w = ch(r, [1.0, 2.0, 1.5], [1.2, 1.0, 1.0], 1.1)
    return M["roi"].ring_edges, (ch(r, 1.0, 2.0), w), {"spacing": ch(r, 0.5, 2.0, 0), "num_rings": ch(r, 3, 4) if w == 1.1 else None}


@entry
def segmented(r):
    seg = ch(r, 4, 3, np.linspace(0, 2 * np.pi, 5), np.array([0.0, 1.0, 2.5, 4.0]), [0.5, 1.5, 3.0])
    return M["roi"].segmented_rings, (np.array([[1, 2.5], [3, 4.5]]), seg, ch(r, (5, 5), (6, 4)), (12, 11)), {"offset_angle": r.rand()}


@entry
def max_counts(r):
    return M["roi"].roi_max_counts, ((r.randint(0, 60, size=(3, 9, 8)), r.randint(0, 60, size=(2, 9, 8))), labels(r)), {}


@entry
def pixel_values(r):
    return M["roi"].roi_pixel_values, (img(r), labels(r)), {}


@entry
def mean_int(r):
    return M["roi"].mean_intensity, (r.rand(4, 9, 8), labels(r)), {"index": [None, [1, 3], 2][r.randint(3)]}


@entry
def circ_avg(r):
    return M["roi"].circular_average, (img(r), (4, 4)), {"nx": ch(r, 4, 5), "mask": ch(r, None, (r.rand(9, 8) < 0.9).astype(int)), "threshold": r.randint(0, 2), "pixel_size": ch(r, (1, 1), (1, 1.4)), "min_x": ch(r, None, 1.0)}


@entry
def kymograph(r):
    return M["roi"].kymograph, (r.rand(4, 9, 8), labels(r), ch(r, 1, 2)), {}


@entry
def label_indices(r):
    return M["roi"].extract_label_indices, (labels(r),), {}


@entry
def bar(r):
    return M["roi"].bar, (np.array([[1, 2], [4, 6]]) - ch(r, 0, 1), (9, 8)), {"horizontal": bool(r.randint(2))}


@entry
def box(r):
    return M["roi"].box, ((9, 8), np.array([[1, 2], [4, 6]]) - ch(r, 0, 1)), {"h_edges": np.array([[0, 2], [3, 7 - ch(r, 0, 1)]])}


@entry
def lines_(r):
    return M["roi"].lines, ([(1, 1, 5, ch(r, 6, 5)), (0, 7, 8, 0)], (9, 8)), {}


# ---------------------------------------------------------------- speckle, spectroscopy
@entry
def xsvs(r):
    return M["speckle"].xsvs, ([r.randint(0, 9, size=(5, 9, 8)).astype(float)], labels(r), ch(r, 4, 3)), {"max_cts": [None, 9][r.randint(2)], "timebin_num": ch(r, 2, 3)}


@entry
def norm_edges(r):
    return M["speckle"].normalize_bin_edges, (3, 2, r.rand(2) + 1, ch(r, 4, 6)), {}


@entry
def align(r):
    x = np.linspace(0, 10, 80)
    return (lambda a, b: M["spectroscopy"].align_and_scale(a, b)), ([x, x + r.rand()], [np.exp(-((x - 5) ** 2)), (1 + r.rand()) * np.exp(-((x - 5) ** 2))]), {}


@entry
def largest(r):
    x = np.linspace(0, 10, 80)
    return M["spectroscopy"].find_largest_peak, (x, np.exp(-((x - r.uniform(4, 6)) ** 2))), {"window": [None, 5][r.randint(2)]}


@entry
def roi_spectrum(r):
    return M["spectroscopy"].integrate_ROI_spectrum, (np.arange(21.0), r.rand(20), ch(r, [2.0, 5.0], [3.0, 5.0]), ch(r, [4.0, 9.0], [4.5, 11.0])), {}


@entry
def roi_integral(r):
    x = np.arange(20.0)
    x = ch(r, x, x[::-1], x, x[::-1], np.where(x == 7, 3, x))
    return M["spectroscopy"].integrate_ROI, (x, r.rand(20), ch(r, [2.0, 5.0], [3.0, 5.0], [-1.0, 5.0], 3), ch(r, [4.0, 9.0], [4.5, 11.0], [4.0, 30.0])), {}
