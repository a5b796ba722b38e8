"""C30 - the type in which counts, intensities and channel numbers are stored does not change any result.

Every call of the table below runs with its data in double precision and in every other number type that holds
the same values exactly; the results have to agree.  Values reach up to what the type can hold, so that sums,
squares, differences and logarithms taken in the narrow type show."""
import itertools

import numpy as np

from vc import catalog as C

CALLS = {}


def call(f):
    CALLS[f.__name__] = f
    return f


def wave(shape, v):
    """pattern in 0..1 reaching both ends"""
    n = int(np.prod(shape))
    k = np.arange(n)
    a = ((k * (k + 5 + 2 * v) * 7 + 3 * v) % 101) / 100.0
    a[n // 2] = 1.0
    a[n // 3] = 0.0
    return a.reshape(shape)


LAB = (np.array([[1, 1, 2], [2, 1, 0]]), np.array([[1, 2, 2], [2, 1, 1]]), np.array([[3, 1, 0, 1], [3, 1, 3, 3]]))
SH = ((21, 19), (20, 24), (23, 17))


def radius(v):
    i, j = np.indices(SH[v])
    return np.hypot(i - 9 - v, j - 8 - 0.5 * v)


def ring(v):
    r = radius(v)
    return 0.9 * np.exp(-(((r - 6 - 0.3 * v) / 2) ** 2)) + 0.1


def peak(v, n=37):
    k = np.arange(n)
    return 0.9 * np.exp(-(((k - 13.2 - 2 * v) / 3) ** 2)) + 0.05 * np.cos(k / 5.0) ** 2 + 0.02


# ------------------------------------------------------------ frames and images
@call
def one_time(c, v):
    from skbeam.core.correlation import multi_tau_auto_corr
    return multi_tau_auto_corr(2, 4, LAB[v], [c(0.1 + 0.9 * wave(LAB[v].shape, 5 * i + v)) for i in range(12)])


@call
def one_time_lazy(c, v):
    from skbeam.core.correlation import lazy_one_time
    return [r.g2.copy() for r in lazy_one_time([c(0.1 + 0.9 * wave(LAB[v].shape, 5 * i + v)) for i in range(9)], 3, 2, LAB[v])]


@call
def two_time(c, v):
    from skbeam.core.correlation import two_time_corr
    r = two_time_corr(LAB[v], np.array([c(0.1 + 0.9 * wave(LAB[v].shape, 3 * i + v)) for i in range(8)]), 8, 4, 2)
    return r.g2, r.lag_steps


@call
def diagonal(c, v):
    from skbeam.core.correlation import one_time_from_two_time
    return one_time_from_two_time(c(wave((2, 6, 6), v)), calc_errors=v != 1)


@call
def cross(c, v):
    from skbeam.core.correlation import CrossCorrelator
    m = (wave(SH[v], v) > 0.2).astype(int)
    cc = CrossCorrelator(SH[v], mask=m, normalization=[None, ["regular"], ["symavg"]][v])
    a, b = c(wave(SH[v], v + 1)), c(0.1 + 0.9 * wave(SH[v], v + 2))
    return cc(a), cc(a, b)


@call
def visibility(c, v):
    from skbeam.core.speckle import xsvs
    return xsvs([[c(wave(LAB[v].shape, 3 * i + v + 7 * j)) for i in range(8)] for j in range(2)], LAB[v], 4, 2, 6)


@call
def visibility_edges(c, v):
    from skbeam.core.roi import roi_max_counts
    from skbeam.core.speckle import normalize_bin_edges, xsvs
    imgs = [[c(0.05 * wave(LAB[v].shape, 3 * i + v)) for i in range(4)]]
    m = roi_max_counts(imgs, LAB[v])
    if m > 400:
        return m, m + 1, m * 4
    e, k = normalize_bin_edges(2, 2, [3, 4], m)
    p, s = xsvs(imgs, LAB[v], 2, 2, m)
    return (m, m + 1, m * 4, [np.asarray(x) for x in e.ravel()], [np.asarray(x) for x in k.ravel()], [np.asarray(x) for x in p.ravel()],
            [np.asarray(x) for x in s.ravel()])


@call
def region_statistics(c, v):
    from skbeam.core import roi
    imgs = np.array([c(wave(LAB[v].shape, i + v)) for i in range(5)])
    return (roi.mean_intensity(imgs, LAB[v]), roi.roi_max_counts([imgs, imgs[::-1]], LAB[v]), roi.kymograph(imgs, LAB[v], 1),
            [np.asarray(x) for x in roi.roi_pixel_values(imgs[0], LAB[v])[0]])


@call
def circular(c, v):
    from skbeam.core.roi import circular_average
    return circular_average(c(ring(v)), (9 + v, 8), nx=9), circular_average(c(ring(v)), (9 + v, 8), threshold=0.5, nx=5, min_x=1.0, max_x=8.0)


@call
def masks(c, v):
    from skbeam.core import mask
    imgs = [c(wave((4, 5), v + i)) for i in range(4)]
    t = float(c(np.array([0.5]))[0])
    return ([[np.array(m) for m in mask.threshold(imgs, u)] for u in (t, t + 0.5 if t < 1e6 else t, 3 * t + 7 if t < 1e6 else 4 * t, 1e12, -t, -0.5)], [np.array(m) for m in mask.threshold(imgs, t, wave((4, 5), 1) > 0.4)],
            [np.array(m, float) for m in mask.bad_to_nan_gen(imgs, [1, 3])])


@call
def outliers(c, v):
    from skbeam.core.mask import binned_outlier
    a = 0.5 * ring(v)
    a[3, 4] = 1.0
    return binned_outlier(c(a), radius(v), (2.0, 1.5), np.linspace(0, 18, 5)), binned_outlier(c(a), radius(v), (1.0, 2.0), np.linspace(0, 18, 4), mask=wave(SH[v], v) > 0.2)


@call
def ring_centre(c, v):
    from skbeam.core.image import find_ring_center_acorr_1D
    return find_ring_center_acorr_1D(c(ring(v)))


@call
def average_images(c, v):
    from skbeam.core import image
    return (image.construct_circ_avg_image(np.arange(9.0), c(wave((9,), v))), image.construct_circ_avg_image(np.arange(9.0), c(wave((9,), v)), dims=(7, 8), center=(2.0, 3.5)),
            image.construct_rphi_avg_image(np.arange(1.0, 7.0), np.linspace(0, 6, 8), c(wave((6, 8), v)), shape=(9, 9), center=(4.0, 4.0)))


@call
def centre_refinement(c, v):
    from skbeam.core.calibration import refine_center
    i, j = np.indices((90, 80 + 4 * v))
    r = np.hypot(i - 44.0, j - 41.0)
    a = sum(0.9 * np.exp(-(((r - q) / 2.5) ** 2)) for q in (14, 25)) + 0.02
    return refine_center(c(a), (44.5, 41.0 + 0.5 * v), (1.0, 1.0), 12, 2, 0.1, 4, nx=70, min_x=6, max_x=33)


@call
def distance(c, v):
    from skbeam.core.calibration import estimate_d_blind
    from skbeam.core.constants import calibration_standards
    tt = np.array(calibration_standards["Si"].convert_2theta(0.2))
    r = 700.0 * np.tan(tt[:6])
    x = np.linspace(0, r[-1] + 20, 600 + 50 * v)
    y = sum((0.9 - 0.01 * k) * np.exp(-(((x - q) / 1.1) ** 2)) for k, q in enumerate(r)) + 0.02
    return estimate_d_blind("Si", 0.2, x, c(y), 4, 3, 0.2)


@call
def relative_positions(c, v):
    from skbeam.core.utils import img_to_relative_xyi
    return img_to_relative_xyi(c(wave((4 + v, 5), v)), 2, 3)


@call
def references(c, v):
    from skbeam.core.utils import subtract_reference_images
    imgs = [c(wave((3, 4), v + i)) for i in range(4)]
    return [np.array(x) for x in subtract_reference_images(imgs, [[True, False, True, False], [True, False, False, False], [True, True, False, False]][v])]


@call
def binning(c, v):
    from skbeam.core import stats, utils
    r, a = radius(v), ring(v)
    return ([utils.bin_1D(r.ravel(), c(a).ravel(), nx=5)] + [stats.statistics_1D(r.ravel(), c(a).ravel(), s, nx=5) for s in ("mean", "sum", "std", "median", "min", "max", "count")]
            + [utils.bin_grid(c(a), r, (1, 1), statistic=s) for s in ("mean", "sum", "std", "median", "min", "max", "count")])


@call
def gridding(c, v):
    from skbeam.core.utils import grid3d
    r = grid3d(wave((60, 3), v + 3), c(wave((60,), v)).reshape(3, 4, 5), 3, 2 + v, 2)
    return r[:4]


@call
def binned(c, v):
    from skbeam.core.accumulators import binned_statistic as B
    o = (9.0 + v, 8.0)
    out = []
    for s in ("mean", "sum", "std", "median", "count", np.min, np.max):
        out.append(B.RadialBinnedStatistic(SH[v], bins=5, origin=o, statistic=s)(c(ring(v))))
        out.append(B.RPhiBinnedStatistic(SH[v], bins=(3, 4), origin=o, statistic=s)(c(ring(v))))
        out.append(B.BinnedStatistic1D(radius(v).ravel(), bins=4, statistic=s)(c(ring(v)).ravel()))
        out.append(B.BinnedStatistic2D(radius(v).ravel(), ring(v).ravel(), bins=(3, 2), statistic=s)(c(wave(SH[v], v)).ravel()))
    return out


@call
def binned_positions(c, v):
    from skbeam.core.accumulators import binned_statistic as B
    x, y, a = c(wave((40,), v)), c(wave((40,), v + 1)), wave((40,), v + 2)
    out = []
    for s in ("mean", "sum", "std", "median", "count"):
        b = B.BinnedStatistic1D(x, bins=4, statistic=s)
        out += [b(a), b.bin_edges, b.bin_centers]
        b = B.BinnedStatistic2D(x, y, bins=(3, 2), statistic=s)
        out += [b(a)] + list(b.bin_edges)
    return out


@call
def histogram(c, v):
    from skbeam.core.accumulators.histogram import Histogram
    m = float(c(np.array([1.0]))[0])
    h = Histogram((4, 0.0, m * 1.01))
    h.fill(c(wave((30,), v)))
    g = Histogram((4, 0.0, m * 1.01), (3, 0.0, m * 1.01))
    g.fill(c(wave((30,), v)), c(wave((30,), v + 1)))
    w = Histogram((4, 0.0, 1.01))
    w.fill(wave((30,), v), weights=c(wave((30,), v + 2)))
    return np.array(h.values), np.array(g.values), np.array(w.values)


REFUSES = {"histogram"}


@call
def smoothing(c, v):
    from skbeam.core.smoothing import sgolay2d
    a = c(wave(SH[v], v))
    return [sgolay2d(a, 5, 2), sgolay2d(a, 3, 1, "col"), sgolay2d(a, 3, 1, "row"), sgolay2d(a, 5, 3, "both")]


@call
def reduction(c, v):
    from skbeam.core.dpc import image_reduction
    return image_reduction(c(wave(SH[v], v))), image_reduction(c(wave(SH[v], v)), roi=(2, 3, 9, 7)), image_reduction(c(wave(SH[v], v)), bad_pixels=[(1, 2), (0, 0)])


@call
def reduction_tall(c, v):
    from skbeam.core.dpc import image_reduction
    return image_reduction(c(0.9 + 0.1 * wave((420 + v, 2), v))), image_reduction(c(0.9 + 0.1 * wave((3, 400 + v), v)), roi=(1, 2, 2, 380))


@call
def phase(c, v):
    from skbeam.core.dpc import dpc_runner
    i, j = np.mgrid[:7, :8]
    ref = 0.9 * np.exp(-((i - 3.0) ** 2) / 4 - (j - 3.5) ** 2 / 5) + 0.05
    imgs = [c(np.roll(np.roll(ref, (q + v) % 2, 0), q % 3 - 1, 1)) for q in range(4)]
    return dpc_runner(c(ref), imgs, [1, 0], (55, 55), 1.46e6, 2, 2, 0.1, 0.1, 19.5)


@call
def diffraction(c, v):
    from skbeam.core import cdi
    a, b = wave((6, 5 + v), v), 0.1 + 0.9 * wave((6, 5 + v), v + 1)
    return cdi.pi_modulus(c(a), b), cdi.pi_modulus(a, c(b)), cdi.find_support(c(b), 1.0, 0.3), cdi.cal_diff_error(a, c(b))


@call
def reconstruction(c, v):
    from skbeam.core import cdi
    s = np.zeros((6, 8))
    s[1:5, 2:6] = 1
    o = wave((6, 8), v) + 1j * wave((6, 8), v + 1)
    d = 0.1 + 0.9 * wave((6, 8), v + 2)
    scale = float(c(np.array([1.0]))[0])
    r, _ = cdi.cdi_recon(c(d), o * scale, s, n_iterations=5, sw_flag=False, pi_modulus_flag=["Complex", "Real", "Complex"][v])
    return r


@call
def radon_free_slope(c, v):
    from skbeam.core.dpc import recon
    return recon(c(wave((4, 5), v)), c(wave((4, 5), v + 1)), 0.1, 0.2)


# ------------------------------------------------------------ spectra
@call
def peak_search(c, v):
    from skbeam.core import feature as F
    y = c(peak(v))
    k = [5, 12 + 2 * v, 25]
    h = float(c(np.array([0.3]))[0])
    return (F.peak_refinement(np.arange(37), y, [13 + 2 * v], 3, F.refine_quadratic), F.peak_refinement(np.arange(37), y, [13 + 2 * v], 2, F.refine_log_quadratic),
            F.filter_n_largest(y, k, 2), F.filter_peak_height(y, k, h, 4))


@call
def peak_positions(c, v):
    from skbeam.core import feature as F
    from skbeam.core.spectroscopy import find_largest_peak
    x = c(np.linspace(0.2, 0.9, 20))
    xf = np.asarray(x, float)
    s = np.ptp(xf)
    y = np.exp(-(((xf - xf[8 + v]) / (0.2 * s)) ** 2)) + 0.01
    return F.peak_refinement(x, y, [8 + v], 3, F.refine_quadratic), F.peak_refinement(x, y, [8 + v], 3, F.refine_log_quadratic), find_largest_peak(x, y, window=3)


@call
def spectra(c, v):
    from skbeam.core import spectroscopy as S
    y = c(peak(v))
    return (S.find_largest_peak(np.arange(37), y, window=4), S.integrate_ROI(np.arange(37.0), y, [2.0, 10.5], [20.0, 30.5]), S.integrate_ROI_spectrum(np.arange(38.0), y, [2.0, 10.5], [20.0, 30.5]),
            S.integrate_ROI(np.arange(37.0), y, 3.0, 31.0))


@call
def alignment(c, v):
    from skbeam.core.spectroscopy import align_and_scale
    e = [np.arange(37.0) + 0.1 * i for i in range(3)]
    p = [c((0.5 + 0.25 * i) * peak(v)) for i in range(3)]
    a, b = align_and_scale(e, p)
    return [np.array(x) for x in a], [np.array(x) for x in b]


@call
def background(c, v):
    from skbeam.core.fitting.background import snip_method
    y = c(np.tile(peak(v), 6))
    return snip_method(y, 0, 0.01, 0, width=0.5), snip_method(y, 0, 0.01, 1e-6, width=0.3, decrease_factor=1.2, spectral_binning=2)


@call
def linear_fits(c, v):
    from skbeam.core.fitting import xrf_model as X
    m = np.array([np.exp(-(((np.arange(37) - q) / 4.0) ** 2)) for q in (9.0, 13.0 + v, 25.0)]).T
    y = peak(v)
    d = np.array([[peak((i + j) % 3) for i in range(2)] for j in range(3)])
    return (X.nnls_fit(c(y), m), X.nnls_fit(c(y), m, weights=c(0.2 + 0.8 * wave((37,), v))), X.nnls_fit(y, np.array([c(q) for q in m.T]).T),
            X.fit_per_line_nnls(c(d[0]), m, None, False))


@call
def escape(c, v):
    from skbeam.core.fitting import xrf_model as X
    return X.compute_escape_peak(c(peak(v)), 0.01 + v, {k: {"value": 0.5} for k in ("e_offset", "e_linear", "e_quadratic")})


@call
def trimming(c, v):
    from skbeam.core.fitting import xrf_model as X
    x = c(np.linspace(0, 1, 30))
    lo, hi = float(x[4]), float(x[20])
    return X.trim(x, c(wave((30,), v)), lo, hi), X.define_range(c(wave((120,), v)), 0.1, 0.4, 0.0, 0.01)


@call
def profiles(c, v):
    from skbeam.core.fitting import lineshapes as L
    x = c(np.linspace(0, 1, 17))
    s = float(np.asarray(x, float)[-1])
    k = (s * 0.2, s * 0.4) if v != 1 else (int(s * 0.2) + 1, int(s * 0.4))
    w, m = k
    return (L.gaussian(x, 3, m, w), L.lorentzian(x, 3, m, w), L.lorentzian2(x, 3, m, w), L.voigt(x, 3, m, w), L.voigt(x, 3, m, w, gamma=w), L.pvoigt(x, 3, m, w, 0.5),
            L.gausssian_step(x, 3, m, w, m), L.gaussian_tail(x, 3, m, w, 2))


@call
def channel_profiles(c, v):
    from skbeam.core.fitting import lineshapes as L
    from skbeam.core.fitting import xrf_model as X
    x = c(np.linspace(0, 1, 17))
    s = float(np.asarray(x, float)[-1])
    lin, quad = (12.0 / s, 3.0 / s ** 2) if v < 2 else (1, 0)
    return (L.elastic(x, 3, 10, 1, 0.1, 0, lin, quad), L.compton(x, 3, 10, 1, 0.1, 0, lin, quad, 90, 1, 1, 1, 1, 1, 1),
            X.element_peak_xrf(x, 3, 6, 0, 0, 1, 1, 1, 0.1, 0, lin, quad))


@call
def distributions(c, v):
    from skbeam.core.fitting import lineshapes as L
    b = c(np.linspace(0, 1, 18))
    s = float(np.asarray(b, float)[-1])
    if s > 1000:
        return L.gamma_dist(b, s * 0.4, 3.0)
    m = s * (0.3 + 0.1 * v)
    return L.nbinom_dist(b, m, 3.0), L.poisson_dist(b, m), L.nbinom_dist(b, int(m), 3), L.poisson_dist(b, int(m)), L.gamma_dist(b, m, 3.0)


@call
def spectrum_lines(c, v):
    from skbeam.core.fitting import xrf_model as X
    x = c(np.linspace(0, 1, 60))
    s = float(np.asarray(x, float)[-1])
    p = C.params(v)
    p["e_linear"]["value"] = 13.0 / s
    p["e_quadratic"]["value"] = 0.5 / s ** 2
    p["fwhm_offset"]["value"] = 0.4
    n, m, a = X.construct_linear_model(x, p, ["Fe_K", "Ca_K"])
    e, r, q = X.linear_spectrum_fitting(x, 100 * peak(v, 60), p, ["Fe_K", "Ca_K"])
    return n, m, a, e, r, q


# ------------------------------------------------------------ tables of numbers
@call
def reciprocal(c, v):
    from skbeam.core import recip
    a = c(wave((3, 6), v))
    if a.dtype.kind in "iu" and a.dtype.itemsize < 4:  # angles in degrees are no counts: whole degrees are ordinary integers
        a = a.astype("i4")
    s = 90.0 / float(c(np.array([1.0]))[0])
    return recip.hkl_to_q(c(wave((7, 3), v))), (recip.process_to_q(a, (2, 3), (0.1, 0.2), (1.0, 1.5), 300.0, 1.2, np.eye(3), frame_mode="cart") if s >= 0.3 else s)


@call
def conversions(c, v):
    from skbeam.core import utils as U
    q = c(0.1 + 0.9 * wave((9,), v))
    s = float(c(np.array([1.0]))[0])
    d = U.d_to_q(q)
    return (d, U.q_to_d(q), U.q_to_twotheta(q, 6.0 / s), U.radius_to_twotheta(s * 2.0, q), U.twotheta_to_q(q, 2.0 / s) if s < 1000 else 0, U.bin_edges_to_centers(np.sort(q)))


@call
def time_points(c, v):
    from skbeam.core.correlation import auto_corr_scat_factor
    t = c(wave((9,), v))
    s = float(c(np.array([1.0]))[0])
    return auto_corr_scat_factor(t, 0.3, 1.0 / s, 1.5)


TYPES = ["u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8", "f4", ">u2", ">i2", ">i4", ">f4", ">f8"]
TOP = {"u1": 255, "i1": 127, "u2": 65535, "i2": 32767, "u4": 2 ** 32 - 1, "i4": 2 ** 31 - 1, "u8": 2 ** 40, "i8": 2 ** 40, "f4": 2 ** 24, ">u2": 65535, ">i2": 32767, ">i4": 2 ** 31 - 1,
       ">f4": 2 ** 24, ">f8": 2 ** 40}


def converter(top, t):
    def c(a):
        k = np.rint(np.asarray(a, float) * top)
        r = k.astype(np.dtype(t))
        assert np.array_equal(r.astype(float), k)
        return r
    return c


def tops(t):
    """largest values: small counts, the maximum of a signed byte, and what the type holds"""
    out = [100, 127, TOP[t]]
    if TOP[t] > 65535:
        out.append(65535)
    return sorted(set(out))


def run(ck):
    types(ck)
    signed(ck)
    digits(ck)


def digits(ck):
    """double precision is used: where a result follows a change of one part in a million of the data, it follows one in a thousand million too"""
    def conv(m, eps):
        def c(a):
            b = np.asarray(np.asarray(a, float) * m, np.float32).astype(float)
            k = np.arange(b.size).reshape(b.shape)
            return b * (1 + eps * (((k * 7) % 11 - 4.5) / 5.5))
        return c

    for n, v, m in ck.cases("digits", itertools.product([q for q in CALLS if q != "phase"], (0, 1, 2), (100, 60000))):  # the phase comes from a search that stops at a tolerance
        with np.errstate(all="ignore"):
            base, coarse, fine = (C.snapshot(CALLS[n](conv(m, e), v)) for e in (0.0, 1e-6, 1e-9))
        ck.step(3)
        if not [p for p, _ in base] == [p for p, _ in coarse] == [p for p, _ in fine]:
            continue
        for (p, x), (_, y), (_, z) in zip(base, coarse, fine):
            x, y, z = np.asarray(x), np.asarray(y), np.asarray(z)
            if x.dtype.kind not in "fc" or not x.shape == y.shape == z.shape:
                continue
            s = np.abs(x[np.isfinite(x)])
            s = s.max() if s.size else 0
            d = np.abs(y - x)
            d = d[np.isfinite(d)]
            if d.size and 1e-8 * s < d.max() < 1e-3 * s:
                ck.true(not np.array_equal(x, z, equal_nan=True), "digits/" + n, lambda: "%s variant %d, result %s: data around %d that differ in the ninth digit give the very same result" % (n, v, p, m))
        ck.state("digits", n, v, m)
        ck.outcome("digits", n, v, m)
        ck.trace()


def types(ck):
    space = [(n, v, t, m) for n in CALLS for v in (0, 1, 2) for t in TYPES for m in tops(t)]
    cache = {}
    for n, v, t, m in ck.cases("types", sorted(space, key=lambda q: (q[0], q[1], q[3]))):
        if (n, v, m) not in cache:
            cache.clear()
            with np.errstate(all="ignore"):
                cache[n, v, m] = C.snapshot(CALLS[n](converter(m, "f8"), v))
        want = cache[n, v, m]
        with np.errstate(all="ignore"):
            try:
                got = C.snapshot(CALLS[n](converter(m, t), v))
            except Exception as e:
                ck.true(n in REFUSES and t[0] == ">" and isinstance(e, (TypeError, ValueError)), "refused/" + n, lambda: "%s variant %d fails on %s data up to %d: %r" % (n, v, t, m, e))
                ck.state(n, v, t, m)
                continue
        ck.step()
        single = t.endswith("f4")
        d = compare(want, got, 3e-4 if single else 1e-9)
        ck.true(d is None, "type/" + n, lambda: "%s variant %d: %s data with values up to %d give another result than the same values in double precision: %s" % (n, v, t, m, d))
        ck.state(n, v, t, m)
        ck.outcome(n, v, m)
        ck.trace()


def signed(ck):
    """data that lie on both sides of zero (differences, baseline-corrected counts)"""
    top = {"i1": 127, "i2": 32767, "i4": 2 ** 31 - 1, "i8": 2 ** 40, "f4": 2 ** 23, ">i2": 32767, ">f8": 2 ** 40}
    space = [(n, v, t, m) for n in CALLS for v in (0, 1, 2) for t in top for m in sorted({100, 127, top[t]})]
    cache = {}

    def attempt(n, v, m, t):
        inner = converter(2 * m, "f8")

        def c(a):
            k = inner(a) - m
            r = k.astype(np.dtype(t))
            assert np.array_equal(r.astype(float), k)
            return r
        with np.errstate(all="ignore"):
            try:
                return C.snapshot(CALLS[n](c, v))
            except Exception as e:
                return e
    for n, v, t, m in ck.cases("signed", sorted(space, key=lambda q: (q[0], q[1], q[3]))):
        if (n, v, m) not in cache:
            cache.clear()
            cache[n, v, m] = attempt(n, v, m, "f8")
        want = cache[n, v, m]
        got = attempt(n, v, m, t)
        ck.step()
        ck.state("signed", n, v, t, m)
        if isinstance(want, Exception):  # not meaningful below zero
            ck.outcome("signed", n, v, m, "refused")
            continue
        if isinstance(got, Exception):
            ck.true(n in REFUSES and t[0] == ">" and isinstance(got, (TypeError, ValueError)), "refused/" + n, lambda: "%s variant %d fails on %s data from -%d to %d: %r" % (n, v, t, m, m, got))
            continue
        d = compare(want, got, 3e-4 if t.endswith("f4") else 1e-9)
        ck.true(d is None, "type/" + n, lambda: "%s variant %d: %s data from -%d to %d give another result than the same values in double precision: %s" % (n, v, t, m, m, d))
        ck.outcome("signed", n, v, m)
        ck.trace()


def compare(a, b, tol):
    if [p for p, _ in a] != [p for p, _ in b]:
        return "structure %s / %s" % ([p for p, _ in a][:8], [p for p, _ in b][:8])
    for (p, x), (_, y) in zip(a, b):
        if isinstance(x, str) or x is None or callable(x):
            if not callable(x) and x != y:
                return "%s: %r / %r" % (p, x, y)
            continue
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return "%s: shape %s / %s" % (p, x.shape, y.shape)
        x, y = x.astype(complex), y.astype(complex)
        s = np.abs(x[np.isfinite(x)])
        at = tol * (s.max() if s.size else 0) + 1e-300
        if not np.allclose(x, y, rtol=tol, atol=at, equal_nan=True):
            i = np.argmax(~np.isclose(x, y, rtol=tol, atol=at, equal_nan=True))
            return "%s: %s / %s at flat index %d" % (p, x.ravel()[i], y.ravel()[i], i)
    return None
