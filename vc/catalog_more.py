"""More calls for the catalogue: defaults, masks, missing data, configurations and refusals the first part leaves out."""
import copy
import os

import numpy as np

from vc.catalog import STATS, _bs, _hist, _scratch, entry, image, labels, params, peaks, scan, stack


# ---------------------------------------------------------------- correlation
@entry("correlation")
def one_time_missing(v):
    from skbeam.core.correlation import multi_tau_auto_corr
    lab = labels(v)
    imgs = np.array(stack(12, lab.shape, v))
    imgs[[2, 7 + v]] = np.nan
    return multi_tau_auto_corr, [3, 4, lab, imgs], {}


@entry("correlation")
def two_time_missing(v):
    from skbeam.core.correlation import lazy_two_time
    lab = labels(v)
    imgs = stack(7, lab.shape, v)
    imgs[1 + v] = np.full(lab.shape, np.nan)

    def f(lab, imgs):
        for r in lazy_two_time(lab, imgs, 7, 4, 2):
            pass
        return np.array(r.g2), np.array(r.lag_steps)
    return f, [lab, imgs], {}


@entry("correlation")
def two_time_resumed(v):
    from skbeam.core.correlation import lazy_two_time
    lab = labels(v)

    def f(lab, imgs):
        st = None
        for part in (imgs[:3], imgs[3:]):
            for r in lazy_two_time(lab, part, 6, 6, 1, st):
                st = r
        return np.array(r.g2), np.array(r.lag_steps)
    return f, [lab, stack(6, lab.shape, v)], {}


@entry("correlation")
def one_time_integers(v):
    from skbeam.core.correlation import multi_tau_auto_corr
    lab = labels(v)
    return multi_tau_auto_corr, [2, 4, lab, np.array(stack(8, lab.shape, v)).astype([np.uint8, np.int16, np.uint16][v])], {}


@entry("correlation")
def cross_open(v):
    from skbeam.core.correlation import CrossCorrelator
    sh = [(4, 5), (4, 5), (6,)][v]

    def f(sh, a, b, n):
        c = CrossCorrelator(sh, normalization=n)
        return c(a), c(a, b), c(b, a)
    return f, [sh, image(sh, v), image(sh, v + 3), ["regular", "symavg", None][v]], {}


@entry("correlation")
def cross_types(v):
    from skbeam.core.correlation import CrossCorrelator
    m = np.array([[1, 1, 0, 2], [1, 1, 2, 2], [0, 2, 2, 0]])
    t = [np.uint8, np.float32, np.int16][v]
    return (lambda m, a, b: CrossCorrelator(m.shape, mask=m)(a, b)), [m, image(m.shape, v).astype(t), image(m.shape, v + 4).astype(t)], {}


@entry("correlation")
def cross_refused(v):
    from skbeam.core.correlation import CrossCorrelator
    m = np.array([[1, 1, 0, 2], [1, 1, 2, 2], [0, 2, 2, 0]])
    if v == 2:
        return CrossCorrelator, [(2, 2, 2)], {}
    return (lambda m, a, b: CrossCorrelator(m.shape, mask=m)(a, b)), [m, image((3, 4 + (v == 0))), image((3, 5))], {}


# ---------------------------------------------------------------- accumulators
@entry("histogram")
def fill_weighted(v):
    from skbeam.core.accumulators.histogram import Histogram

    def f(x, w, r):
        h = Histogram((4, 0, 30))
        h.fill(x, weights=w)
        h.fill(x, weights=2.5)
        a = _hist(h)
        h.reset()
        h.fill(x[::-1], weights=r)
        return a, _hist(h)
    return f, [image((9 + v,), v).astype([float, np.float32, np.int64][v]), image((9 + v,), v + 1).astype([np.float32, float, np.int64][v]), image((9 + v,), v + 2)], {}


@entry("binned")
def dd_masked(v):
    from skbeam.core.accumulators.binned_statistic import BinnedStatisticDD

    def f(s, a, m):
        b = BinnedStatisticDD(s, bins=2 + v, mask=m)
        return [b(a, x) for x in STATS] + [_bs(b)]
    return f, [image((12, 2), v), image((12,), v + 1), [image((12,), v + 2) > 9, (image((12,), v + 2) > 9).astype(float), image((12,), v + 3) > 3][v]], {}


@entry("binned")
def one_d_edges(v):
    from skbeam.core.accumulators.binned_statistic import BinnedStatistic1D

    def f(x, y, e, r):
        b = BinnedStatistic1D(x, statistic="sum", bins=e, range=r)
        return b(y), b(y, "mean"), _bs(b), np.array(b.binmap)
    return f, [image((12,), v), image((12,), v + 1), [np.array([0.0, 5.0, 20.0, 38.0]), 4, 3][v], [None, (2.0, 30.0), [(0.0, 25.0)]][v]], {}


@entry("binned")
def one_d_constant(v):
    from skbeam.core.accumulators.binned_statistic import BinnedStatistic1D

    def f(x, y):
        b = BinnedStatistic1D(x, bins=3)
        return [b(y, s) for s in STATS] + [_bs(b)]
    return f, [np.full(7, 2.0 + v), image((7,), v)], {}


@entry("binned")
def two_d_shared(v):
    from skbeam.core.accumulators.binned_statistic import BinnedStatistic2D

    def f(x, y, a, e):
        b = BinnedStatistic2D(x, y, bins=e)
        return [b(a, s) for s in STATS] + [_bs(b), np.array(b.binmap)]
    return f, [image((12,), v), image((12,), v + 3), image((12,), v + 1), [3, np.array([0.0, 9.0, 25.0, 40.0]), [2, np.array([0.0, 11.0, 40.0])]][v]], {}


@entry("binned")
def polar_defaults(v):
    from skbeam.core.accumulators.binned_statistic import RadialBinnedStatistic, RPhiBinnedStatistic
    sh = [(5, 6), (5, 6), (6, 4)][v]

    def f(sh, a, rm):
        b = RPhiBinnedStatistic(sh, bins=(3, 4))
        c = RPhiBinnedStatistic(sh, bins=(2, 3), r_map=rm)
        d = RadialBinnedStatistic(sh, bins=np.array([0.0, 1.5, 4.0]), statistic="sum")
        return [b(a, s) for s in STATS] + [c(a, s) for s in STATS] + [d(a)] + [_bs(b), _bs(c), _bs(d)]
    return f, [sh, image(sh, v), image(sh, v + 1)], {}


@entry("binned")
def polar_refused(v):
    from skbeam.core.accumulators.binned_statistic import BinnedStatisticDD, RadialBinnedStatistic, RPhiBinnedStatistic

    def f(a, m):
        if v == 0:
            return RPhiBinnedStatistic((5, 6), mask=m)(a)
        if v == 1:
            return RadialBinnedStatistic((5, 6))(a.T)
        return BinnedStatisticDD(a, bins=[2, 2, 2])(a[:, 0])
    return f, [image((5, 6), v), image((6, 5), v) > 5], {}


# ---------------------------------------------------------------- roi, mask, grids
@entry("roi")
def ring_forms(v):
    from skbeam.core import roi
    return (lambda a: [roi.ring_edges(*q) for q in a]), [[(1.0 + v, 2.0, 0.5, 3), (0.5, [1.0, 2.0 + v], 0.25), (0.5, [1.0, 1.0, 2.0], [0.5, 1.0 + v]), (2, 1.5, [1.0, 2.0], 3)]], {}


@entry("roi")
def segment_forms(v):
    from skbeam.core import roi
    sh = [(6, 7), (6, 7), (5, 8)][v]

    def f(e, s, c, sh, off):
        return roi.segmented_rings(e, s, c, sh, off)
    return f, [np.array([[0.5, 2.0 + 0.1 * v], [2.5, 3.5]]), [3, [0.0, 1.0, 3.0], np.array([-1.0, 0.5, 2.0])][v], (2.5, 3.0), sh, [0.3, 0.2, 0.0][v]], {}


@entry("roi")
def circular_masked(v):
    from skbeam.core import roi
    sh = [(6, 7), (6, 7), (5, 8)][v]

    def f(im, m, imgs):
        return (roi.circular_average(im, (2.5, 3.0), nx=4, mask=m), roi.circular_average(im, (2.5, 3.0), threshold=1 + v, nx=5, pixel_size=(1, 2), min_x=0.5, max_x=5.0))
    return f, [image(sh, v), (image(sh, v + 2) > 9), image((3,) + sh, v)], {}


@entry("roi")
def regions_listed(v):
    from skbeam.core import roi
    lab = labels(v)

    def f(imgs, lab):
        a = roi.mean_intensity(imgs, lab, [1])
        b = roi.mean_intensity(imgs, lab, 1)
        return np.array(a[0]), a[1], np.array(b[0]), b[1], roi.kymograph(imgs, lab, 1), roi.extract_label_indices(lab)
    return f, [np.array(stack(4, lab.shape, v)), lab], {}


@entry("roi")
def bar_boxes(v):
    from skbeam.core import roi
    sh = (5, 6)

    def f(sh, e, h, w, hv, vv):
        return roi.bar(e, sh, horizontal=bool(v % 2)), roi.box(sh, e, h_values=hv, v_values=vv) if v else roi.box(sh, e, w), roi.lines([(0, 1, 4, 5)], sh)
    return f, [sh, np.array([[0, 1], [2, 4]]), None, np.array([[1, 3]]), image(sh, v, mod=4, lo=0), image(sh, v + 1, mod=4, lo=0)], {}


@entry("roi")
def more_refused(v):
    from skbeam.core import roi
    return [(roi.rings, [[[1, 2], [1.5, 3]], (2, 2), (5, 5)], {}), (roi.rectangles, [[(0, 0, 3, 3), (1, 1, 3, 3)], (6, 6)], {}),
            (roi.ring_edges, [1.0, 2.0, 0.5], {})][v]


@entry("mask")
def outliers_open(v):
    from skbeam.core.mask import binned_outlier
    sh = [(6, 7), (6, 7), (5, 8)][v]
    im = image(sh, v)
    im[2, 3] = 900
    r = np.hypot(*np.mgrid[:sh[0], :sh[1]])

    def f(im, r, b, m):
        return binned_outlier(im, r, (2, 2), b), binned_outlier(im, r, (2, 2), b, mask=m)
    return f, [im, r, np.array([0.0, 4.0, 12.0]), (image(sh, v + 2) > 3).ravel() if v else image(sh, v + 2) > 3], {}


@entry("mask")
def many_images(v):
    from skbeam.core import mask as M
    imgs = np.array(stack(3, (4, 5), v))
    imgs[1, 2, 3] = np.nan
    imgs[2, 0, 0] = np.inf

    def f(imgs, bright):
        return [np.array(x) for x in M.bad_to_nan_gen(imgs, bright)], np.array(M.threshold_mask(imgs[0], 9 + v) if hasattr(M, "threshold_mask") else 0)
    return f, [imgs, image((4, 5), v + 1) > 4], {}


@entry("grid")
def grid_defaults(v):
    from skbeam.core.utils import grid3d
    q = np.stack([image((20,), v + i) for i in range(3)], 1)
    m = [None, (image((4, 5), v) > 9), (image((1, 4, 5), v) > 9)][v]

    def f(q, im, m):
        return tuple(np.array(x) if not isinstance(x, (list, tuple)) else [np.array(y) for y in x] for x in grid3d(q, im, nx=2, ny=3, nz=2, binary_mask=m))
    return f, [q, image((1, 4, 5), v + 3), m], {}


@entry("grid")
def grid_refused(v):
    from skbeam.core.utils import grid3d
    q = np.stack([image((20,), v + i) for i in range(3)], 1)
    return [(grid3d, [q[:, :2], image((1, 4, 5))], {}), (grid3d, [q, image((1, 4, 5))], dict(binary_mask=np.ones((3, 3), bool))), (grid3d, [q[0], image((1, 4, 5))], {})][v]


# ---------------------------------------------------------------- utilities
@entry("utils")
def edge_forms(v):
    from skbeam.core import utils as U
    return (lambda a: [U.bin_edges(**k) for k in a]), [[dict(range_max=7 + v, nbins=4, step=0.3), dict(range_min=0, range_max=1.0 + v, step=0.3), dict(range_min=-1, range_max=1, nbins=1)]], {}


@entry("utils")
def rebin_forms(v):
    from skbeam.core import utils as U
    sh = [(4, 5), (4, 5), (5, 3)][v]
    r = np.hypot(*np.mgrid[:sh[0], :sh[1]])

    def f(x, y, im, r):
        return U.bin_1D(x, y), U.bin_1D(x, y, nx=3), U.bin_grid(im, r, (1, 1)), U.bin_grid(im, r, (1, 1), statistic="sum" if v else "mean", bins=np.array([0.0, 2.0, 7.0]))
    return f, [image((11,), v), image((11,), v + 1), image(sh, v), r], {}


@entry("utils")
def stats_default(v):
    from skbeam.core import stats
    x, y = image((15 + v,), v), image((15 + v,), v + 1)
    return (lambda x, y: (stats.statistics_1D(x, y), stats.statistics_1D(x, y, nx=4, min_x=3, max_x=20 + v))), [x, y], {}


@entry("utils")
def nested_dict_changes(v):
    from skbeam.core.utils import MD_dict, RCParamDict

    def f(d, rows):
        m, r = MD_dict(), RCParamDict()
        for k, val in d:
            m[k] = val
        for k, val in rows:
            r[k] = val
        out = [(k, m[k].value, m[k].units) for k in sorted(m)], "a" in m, "zz.y" in m
        del m[d[-1][0]]
        del r[rows[0][0]]
        for bad in ("zz.y", "a.b.c.d"):
            for o in (m, r):
                try:
                    del o[bad]
                except KeyError:
                    pass
        return out, sorted(m), sorted(r), repr(m) == repr(m), len(m), len(r)
    return f, [[["a", "text%d" % v], ["b.c", (v, "s")], ["b.d", [1, 2]], ["e", 4.5 + v]], [["p.q", v], ["p.r.s", {"x": [v]}], ["t", [1, v]]]], {}


@entry("utils")
def logical_out(v):
    from skbeam.core import arithmetic as A
    sh = [(3, 4), (3, 4), (2, 2)][v]

    def f(a, b):
        o = np.zeros(a.shape, bool)
        r = []
        for op in (A.logical_nand, A.logical_nor, A.logical_sub):
            o[...] = False
            p = op(a, b, out=o) if v else op(a, b, o)
            r.append((np.array(p), o.copy()))
        return r
    return f, [image(sh, v, lo=0, mod=3), image(sh, v + 1, lo=0, mod=2)], {}


@entry("utils")
def references_signed(v):
    from skbeam.core.utils import subtract_reference_images
    pat = [[True, False, True, False, False], [True, True, False, False, True], [True, False, False]][v]
    return subtract_reference_images, [(np.array(stack(len(pat), (2, 3), v)) - 20).astype([np.int8, np.int16, np.float32][v]), np.array(pat)], {}


@entry("utils")
def utils_refused_more(v):
    from skbeam.core import utils as U
    return [(U.img_to_relative_xyi, [image((3, 4)), 1, 1], dict(pixel_size_x=-1, pixel_size_y=1)), (U.multi_tau_lags, [3, 5], {}),
            (U.img_to_relative_xyi, [image((3, 4)), 1, 1], dict(pixel_size_x=1))][v]


# ---------------------------------------------------------------- images and features
@entry("image")
def circ_image_defaults(v):
    from skbeam.core.image import construct_circ_avg_image
    return (lambda r, y, p: (construct_circ_avg_image(r, y), construct_circ_avg_image(r, y, pixel_size=p), construct_circ_avg_image(r, y, dims=(4, 5)))), [np.linspace(0, 3 + v, 5), image((5,), v), (1, 2)], {}


@entry("image")
def polar_image_defaults(v):
    from skbeam.core.image import construct_rphi_avg_image
    return (lambda r, t, a: (construct_rphi_avg_image(r, t, a), construct_rphi_avg_image(r, t, a, shape=(5, 6)))), [np.linspace(0.5, 3 + v, 5), np.linspace(0, 5.5 - v, 8), image((5, 8), v)], {}


@entry("image")
def image_refused(v):
    from skbeam.core import image as I
    r, t, a = np.linspace(0.5, 3, 5), np.linspace(0, 5, 8), image((5, 8), v)
    return [(I.construct_circ_avg_image, [r, image((5,))], dict(center=(2, 2))), (I.construct_rphi_avg_image, [r, t, a], dict(mask=np.ones((3, 3)))),
            (I.construct_rphi_avg_image, [r, np.linspace(0, 7, 8), a], {})][v]


@entry("feature")
def few_features(v):
    from skbeam.core import feature as F
    x, y = peaks(301, v)

    def f(x, y, cands, edge):
        return (F.filter_n_largest(y, cands, 6), F.filter_peak_height(y, cands, 1e6, window=5), F.peak_refinement(x, y, edge, 4, F.refine_quadratic, {"Rval_thresh": 0.999999}),
                F.peak_refinement(x, y, cands[:0], 4, F.refine_quadratic))
    return f, [x, y, np.array([60 + 3 * v, 150, 231]), np.array([2, 150, 298])], {}


@entry("feature")
def background_binned(v):
    from skbeam.core.fitting.background import snip_method
    x, y = peaks(400, v)
    return snip_method, [y + 20 + 0.1 * x, 0.01, 0.01 + 0.001 * v, 0.0], dict(width=0.3 + 0.1 * v, spectral_binning=[2, 4, 1][v])


@entry("feature")
def background_types(v):
    from skbeam.core.fitting.background import snip_method
    x, y = peaks(400, v)
    return snip_method, [(y + 20).astype([int, np.float32, np.uint16][v]), 0.01, 0.012, 0.0], dict(width=0.4, iter_num=8 + v, con_val=3)


@entry("feature")
def spectra_reversed(v):
    from skbeam.core import spectroscopy as S
    x, y = peaks(301, v)

    def f(x, y, lo, hi):
        return S.integrate_ROI(x, y, lo, hi), S.integrate_ROI(x, y, 5 + v, 30)
    return f, [x[::-1].copy(), y[::-1].copy(), np.array([5.0, 40.0 + v]), np.array([30.0, 60.0])], {}


@entry("feature")
def spectra_refused(v):
    from skbeam.core import spectroscopy as S
    x, y = peaks(50, 0)
    z = x.copy()
    z[20] = z[30]
    return [(S.integrate_ROI, [z, y, [10], [20]], {}), (S.integrate_ROI, [x, y[:-1], [10], [20]], {}), (S.integrate_ROI, [x, y, [-5, 10], [20, 400]], {})][v]


# ---------------------------------------------------------------- speckle, phase contrast, diffraction imaging
@entry("speckle")
def visibility_missing(v):
    from skbeam.core import speckle
    lab = labels(v)
    imgs = [np.array(stack(8, lab.shape, v)) % 9, np.array(stack(8, lab.shape, v + 1)) % 9]
    imgs[0][3 + v] = np.nan

    def f(sets, lab):
        p, s = speckle.xsvs(sets, lab, number_of_img=4, timebin_num=2 + v // 2)
        return [np.array(x, float) for x in p.ravel()], [np.array(x, float) for x in s.ravel()]
    return f, [imgs, lab], {}


@entry("dpc", slow=True)
def phase_stages(v):
    from skbeam.core import dpc
    ref, imgs = scan(v)

    def f(ref, imgs):
        out = []
        st = None
        for part in (imgs[:2], imgs[2:]):
            for st in dpc.lazy_dpc(ref, part, [1, 0], 2, 2, dpc_state=st):
                out.append((np.array(st.ax), np.array(st.ay), np.array(st.gx), np.array(st.gy), np.array(st.index)))
        return out
    return f, [ref, imgs], {}


@entry("dpc")
def dpc_refused(v):
    from skbeam.core import dpc
    ref, imgs = scan(v)
    if v == 0:
        return dpc.recon, [image((4, 5)), image((4, 5), 1), 0.1, 0.1], dict(weighting=1.5)
    if v == 1:
        return dpc.dpc_runner, [ref, imgs, [1, 0], (55, 50), 1.46e6, 2, 2, 0.1, 0.1, 19.5], {}
    return dpc.dpc_runner, [ref, imgs, [1, 0], (55, 55), 1.46e6, 2, 2, 0.1, 0.1, 19.5], dict(weighting=-1.0)


@entry("cdi")
def followed(v):
    from skbeam.core.cdi import cdi_recon
    sh = (6, 6)

    def f(p, o, s, **k):
        seen = []
        a, e = cdi_recon(p, o, s, cb_function=lambda ob, oe, de, se: seen.append((ob.copy(), np.array(oe), np.array(de))), **k)
        return a, seen, {q: np.array(e[q], float) for q in sorted(e) if q != "sup_error"}
    s = np.zeros(sh)
    s[1:5, 1:4] = 1
    return f, [image(sh, v + 2), image(sh, v) + 1j * image(sh, v + 1), s], dict(n_iterations=6, cb_step=1 + v, sw_flag=v == 2, sw_step=2, start_avg=0.7, beta=1.0 if v else 0.9)


@entry("cdi")
def cdi_refused(v):
    from skbeam.core.cdi import cdi_recon
    sh = (4, 4)
    return cdi_recon, [image(sh), image(sh) + 0j, np.ones(sh)], dict(n_iterations=2, pi_modulus_flag=["nothing", "", "both"][v])


# ---------------------------------------------------------------- constants
@entry("constants")
def described(v):
    from skbeam.core.constants import BasicElement, XrfElement

    def f(z, w):
        a, b, e = BasicElement(z), BasicElement(w), XrfElement(w)
        return str(a), repr(a), a == b, a < b, a["mass"], len(e.emission_line.all), [len(e.cs(q).all) for q in (5.0, 20.0)], float(e.cs(8.0)["kb1"]), str(e.emission_line.info_type) if hasattr(e.emission_line, "info_type") else ""
    return f, [["Fe", "Cu", 26][v], ["Cu", "Fe", "pb"][v]], {}


@entry("constants")
def standard_details(v):
    from skbeam.core.constants import calibration_standards
    from skbeam.core.constants.xrs import HKL
    n = ["Si", "Al2O3", "Ni"][v]

    def f(n, h):
        s = calibration_standards[n]
        k = HKL(*h)
        return str(s), len(s), k.length, tuple(k), tuple(HKL(h=h[0], k=h[1], l=h[2]))
    return f, [n, (1, 2 + v, 3)], {}


@entry("constants", slow=True)
def search_all(v):
    from skbeam.core.constants import emission_line_search
    return (lambda *a: {q: sorted(w.items()) for q, w in emission_line_search(*a).items()}), [6.4 + v, 0.05, 12.0], {}


# ---------------------------------------------------------------- peak shapes and XRF fitting
@entry("shapes")
def model_defaults(v):
    from skbeam.core.fitting import lineshapes as L
    from skbeam.core.fitting import models as M

    def f():
        out = []
        for c, g in ((M.ComptonModel, L.compton), (M.ElasticModel, L.elastic)):
            m = c(prefix="q_" if v else "")
            if v == 2:
                M.set_default(m, g)
            out.append({k: (q.value, q.min, q.max, bool(q.vary), q.expr) for k, q in m.make_params().items()})
        return out
    return f, [], {}


@entry("xrf")
def controller_peaks(v):
    from skbeam.core.fitting import xrf_model as X

    def f(p, lines, extra):
        c = X.ParamController(p, lines)
        for k in ("area", "pos", "width", "ratio"):
            for e in extra:
                c.add_param(k, e, constraint=[None, "lohi", "fixed"][v])
        c.set_strategy("linear")
        return copy.deepcopy(c.params), list(c.element_list)
    return f, [params(v), ["Fe_K", "Ca_K"], [["Ti_K", "user_peak1"], ["Fe_K-Fe_K", "Pt_L"], ["Userpeak2", "Ca_K-Fe_K", "W_M"]][v]], {}


@entry("xrf")
def bounds_extra(v):
    from skbeam.core.fitting import xrf_model as X
    o = ["free_more", "adjust_element", "linear"][v]

    def f(p, o, extra):
        q = copy.deepcopy(p)
        X.set_parameter_bound(q, o, extra)
        return q
    p = params(v)
    return f, [p, o, {k: "lohi" if q.get(o) == "fixed" else "fixed" for k, q in p.items() if k != "non_fitting_values"} | {"fwhm_offset": "lo", "another": "hi"}], {}


@entry("xrf")
def new_strategy(v):
    from skbeam.core.fitting import xrf_model as X

    def f(p, s):
        X.register_strategy("vc_%d" % v, s)
        c = X.ParamController(copy.deepcopy(p), ["Fe_K"])
        c.set_strategy("vc_%d" % v)
        try:
            X.register_strategy("vc_%d" % v, dict(s), overwrite=False)
            r = "kept"
        except RuntimeError:
            r = "refused"
        return copy.deepcopy(c.params), r
    return f, [params(v), {"e_offset": "fixed", "e_linear": ["lohi", "fixed", "none"][v], "fwhm_offset": "fixed"}], {}


@entry("xrf", slow=True)
def special_peaks(v):
    from skbeam.core.fitting import xrf_model as X
    x = np.arange(300, 1400).astype(float)

    def f(p, lines, x):
        c = X.ParamController(p, ["Fe_K"])
        for e in lines:
            for k in ("pos", "width", "ratio"):
                if "-" not in e or k != "ratio":
                    c.add_param(k, e, constraint=["lohi", "fixed", "lo"][v])
        c.set_strategy("linear")
        m = X.ModelSpectrum(c.params, ["Fe_K"] + lines)
        m.assemble_models()
        pars = m.mod.make_params()
        return m.mod.eval(pars, x=x), {k: (q.value, q.min, q.max, bool(q.vary), q.expr) for k, q in pars.items()}
    return f, [params(v), [["user_peak1", "Fe_K-Fe_K"], ["Pt_M"], ["Ca_K", "userpeak2"]][v], x], {}


@entry("xrf", slow=True)
def fitted(v):
    from skbeam.core.fitting import xrf_model as X
    x = np.arange(560, 760, 10)
    y = 5 + 300 * np.exp(-((x - 640.0 - v) / 12) ** 2)

    def f(p, x, y, w):
        m = X.ModelSpectrum(p, ["Fe_K"])
        m.assemble_models()
        r = m.model_fit(x, y, weights=w, max_nfev=3)
        q = copy.deepcopy(p)
        X.update_parameter_dict(q, r)
        return bool(X.sum_area("Fe_K", r) > 0), r.nvarys, sorted(r.best_values), sorted(q), np.array(r.best_fit).shape
    return f, [params(v), x.astype(float), y, None if v == 0 else 1 / np.sqrt(1 + y)], {}


@entry("xrf")
def areas(v):
    from skbeam.core.fitting import xrf_model as X

    def f(p, m, r):
        return (X.calculate_area(["Fe_K", "compton", "Pb_L"], m, r, p), X.calculate_area(["Fe_K", "compton", "Pb_L"], m, r, p, first_peak_area=True),
                [X.get_line_energy(q) for q in ("Ca_Ka", "Ca_kb1", "Ca_K", "Pb_La")], [X.get_relative_cs_ratio(q, 20.0 + v) for q in ("Pb_L", "U_M")])
    return f, [params(20 + v), image((7, 3), v), image((2, 3, 5), v)], {}


@entry("xrf", slow=True)
def image_rows(v):
    from skbeam.core.fitting import xrf_model as X
    k = np.arange(120)
    mat = np.array([np.exp(-((k - c) / 9.0) ** 2) for c in (40.0 + v, 80.0)]).T
    d = np.array([[mat @ np.array([3.0 + i, j + 1.0]) + 2 for j in range(2)] for i in range(3)])

    def f(d, mat, p):
        return np.array([X.fit_per_line_nnls(row, mat, p, v == 1) for row in d])
    return f, [d, mat, params(v)], {}


# ---------------------------------------------------------------- files
@entry("io")
def volumes(v):
    from skbeam.io import load_amiramesh
    from skbeam.io.binary import read_binary
    a = image((2, 3, 4), v).astype("<f4")

    def f(a):
        def g(d):
            p = os.path.join(d, "a.am")
            with open(p, "wb") as h:
                h.write(b"# AmiraMesh 3D BINARY-LITTLE-ENDIAN 2.1\n\ndefine Lattice 4 3 2\n\nParameters {\n    Content \"4x3x2 float, uniform coordinates\",\n"
                        b"    BoundingBox 0 3 0 2 0 1,\n    CoordType \"uniform\"\n}\n\nLattice { float Data } @1\n\n# Data section follows\n@1\n" + a.tobytes())
            md, data = load_amiramesh(p)
            q = os.path.join(d, "b.bin")
            a.tofile(q)
            return np.array(data), md["array_dimensions"], [np.array(read_binary(q, *s, "float32", 0)[0]) for s in ((4, 3, 2), (4, 6, 1), (24, 1, 1))]
        return _scratch(g)
    return f, [a], {}


@entry("io")
def powder_modes(v):
    from skbeam.io.gsas_file_reader import gsas_reader
    from skbeam.io.save_powder_output import gsas_writer, save_output
    t, y, e = np.linspace(1, 4, 13), image((13,), v), image((13,), v + 1)

    def f(t, y, e):
        def g(d):
            for mode in ("STD", "ESD", "FXYE"):
                gsas_writer(t, y, mode, mode, e, dir_path=d)
            for ext in (".chi", ".dat", ".xye"):
                save_output(t, y, "o", ["Q", "2theta", "Q"][v], ext=ext, err=e, dir_path=d)
                save_output(t, 2 * y, "o", "2theta", ext=ext, err=e, dir_path=d)
            names = sorted(os.listdir(d))
            return names, [open(os.path.join(d, q), "rb").read() for q in names], [tuple(np.array(z) for z in gsas_reader(os.path.join(d, q))) for q in names if q.endswith("gsas")]
        return _scratch(g)
    return f, [t, y, e], {}


@entry("io")
def io_refused_more(v):
    from skbeam.io.gsas_file_reader import gsas_reader
    from skbeam.io.save_powder_output import gsas_writer, save_output

    def f(t, y, e):
        def g(d):
            if v == 0:
                save_output(t, y, "a", "nothing", dir_path=d)
            elif v == 1:
                gsas_writer(t, y, "a", "ESD", e[:-1], dir_path=d)
            else:
                gsas_reader(os.path.join(d, "a.txt"))
            return sorted(os.listdir(d))
        return _scratch(g)
    return f, [np.linspace(1, 2, 5), image((5,), v), image((5,), v + 1)], {}


# ---------------------------------------------------------------- calls that end in an exception, given arrays
def _attempts(calls, args):
    out = []
    for f in calls:
        try:
            r = f(*args)
            out.append(("accepted", r))
        except Exception as e:  # which exception is part of the outcome
            out.append((type(e).__name__, None))
    return out


@entry("roi", slow=True)
def refused_arrays(v):
    from skbeam.core import roi
    bad = [np.array([[3.0, 1.0], [2.0, 4.0]]), np.array([5.0, 2.0, 1.0, 6.0]), np.array([1.0, 3.0, 2.0])][v]

    def f(e, lab, im, hv, vv):
        calls = [lambda e, lab, im, hv, vv: roi.rings(e, (2, 2), (6, 6)), lambda e, lab, im, hv, vv: roi.segmented_rings(e, 3, (2, 2), (6, 6)),
                 lambda e, lab, im, hv, vv: roi.bar(e, (6, 6)), lambda e, lab, im, hv, vv: roi.box((6, 6), e),
                 lambda e, lab, im, hv, vv: roi.box((6, 6), np.array([[0, 1]]), h_values=hv, v_values=vv),
                 lambda e, lab, im, hv, vv: roi.roi_pixel_values(im, lab), lambda e, lab, im, hv, vv: roi.mean_intensity([im], lab),
                 lambda e, lab, im, hv, vv: roi.roi_max_counts([im], lab), lambda e, lab, im, hv, vv: roi.extract_label_indices(lab.astype(float) * np.nan),
                 lambda e, lab, im, hv, vv: roi.ring_edges(1.0, e, e, 7), lambda e, lab, im, hv, vv: roi.rectangles(e, (6, 6)),
                 lambda e, lab, im, hv, vv: roi.kymograph([im], lab, 1)]
        return _attempts(calls, (e, lab, im, hv, vv))
    return f, [bad, labels(v), image((2, 3), v), image((3, 4), v), image((4, 3), v)], {}


@entry("spectroscopy", slow=True)
def refused_arrays_spectra(v):
    from skbeam.core import spectroscopy as S
    x = np.arange(12.0)

    def f(x, y, lo, hi):
        return _attempts([lambda *a: S.integrate_ROI(x, y, lo, hi), lambda *a: S.integrate_ROI(x[::-1] * (1 + (x % 2)), y, lo, hi),
                          lambda *a: S.integrate_ROI(x, y, hi, lo), lambda *a: S.integrate_ROI(x, y, lo, hi[:1]),
                          lambda *a: S.integrate_ROI(x[:5], y, lo[:1], hi[:1]), lambda *a: S.integrate_ROI_spectrum(x, y, lo, hi),
                          lambda *a: S.integrate_ROI_spectrum(x[:3], y, lo, hi), lambda *a: S.align_and_scale([x, x], [y, y[:4]])], ())
    lo, hi = [(np.array([-3.0, 2.0]), np.array([4.0, 5.0])), (np.array([1.0, 2.0]), np.array([4.0, 99.0])), (np.array([6.0, 2.0]), np.array([4.0, 5.0]))][v]
    return f, [x, image((12,), v), lo, hi], {}


@entry("image", slow=True)
def refused_arrays_image(v):
    from skbeam.core import feature, utils
    from skbeam.core.correlation import CrossCorrelator
    from skbeam.core.recip import process_to_q
    from skbeam.core.smoothing import sgolay2d

    def f(y, im, lab, grid, val, pos):
        return _attempts([lambda *a: feature.peak_refinement(y, y, [0, len(y) - 1], 3, feature.refine_quadratic), lambda *a: feature.filter_n_largest(y, pos, -1),
                          lambda *a: feature.filter_n_largest(y, pos, 0), lambda *a: feature.refine_quadratic(y[:2], y[:2]),
                          lambda *a: utils.bin_1D(y, y[:3], 4), lambda *a: utils.wedge_integration(im, (0, 0), 1, 2),
                          lambda *a: utils.subtract_reference_images([im, im], np.array([False, True])),
                          lambda *a: utils.subtract_reference_images([im, im], np.array([True])), lambda *a: utils.grid3d(grid, val[:2]),
                          lambda *a: utils.grid3d(grid, val, nx=-1, ny=2, nz=2), lambda *a: utils.img_to_relative_xyi(im, (1, 2, 3)),
                          lambda *a: CrossCorrelator(im.shape, mask=lab)(im, im[:1]), lambda *a: CrossCorrelator((2, 2, 2)),
                          lambda *a: process_to_q(y, (4, 4), (1, 1), (2, 2), 10, 1, np.eye(2)), lambda *a: process_to_q(grid, (4, 4), (1, 1), (2, 2), 10, 1, np.ones((2, 3))),
                          lambda *a: sgolay2d(im, 4, 2), lambda *a: sgolay2d(im, 3, 9), lambda *a: sgolay2d(im, 5, 2, derivative="no")], ())
    return f, [image((9,), v), image((4, 5), v), labels(v), image((7, 3), v), image((7,), v + 1), np.array([1, 4, 6])], {}


@entry("histogram", slow=True)
def refused_arrays_fill(v):
    from skbeam.core.accumulators import binned_statistic as B
    from skbeam.core.accumulators.histogram import Histogram

    def f(x, y, w, pts, vals):
        def hist(*xs, **k):
            h = Histogram(*[(4, 0.0, 40.0)] * [1, 1, 2][v])
            try:
                h.fill(*xs, **k)
            except Exception as e:
                return type(e).__name__, np.array(h.values)
            return "accepted", np.array(h.values)
        return [hist(x, y), hist(x), hist(x, weights=w), hist(x, y, weights=w), hist(x, y, x)], _attempts([
            lambda: B.BinnedStatistic1D(x, statistic="nothing", bins=4), lambda: B.BinnedStatistic1D(x, bins=4)(w),
            lambda: B.BinnedStatistic2D(x, y[:3], bins=4), lambda: B.BinnedStatisticDD(pts, bins=[4]), lambda: B.BinnedStatistic1D(x, bins=4, mask=np.ones(3, bool)),
            lambda: np.array(B.BinnedStatistic1D(x, bins=np.array([30.0, 3.0, 9.0]))(y)), lambda: B.RadialBinnedStatistic((5, 6), bins=3, mask=np.ones((2, 2), bool)),
            lambda: B.RPhiBinnedStatistic((5, 6), bins=(3, 2))(vals), lambda: B.RadialBinnedStatistic((5, 6), bins=3)(vals)], ())
    return f, [image((8,), v), image((8,), v + 1), image((3,), v), image((6, 2), v), image((4, 4), v)], {}


@entry("cdi", slow=True)
def refused_arrays_fields(v):
    from skbeam.core import cdi, dpc
    sh = (6, 6)

    def f(d, s, ref, img, obj):
        return _attempts([lambda: cdi.cdi_recon(d, obj, s, beta=1.0, start_avg=0.5, pi_modulus_flag="no", n_iterations=3, sw_flag=False),
                          lambda: dpc.recon(img, img, 0.1, 0.1, weighting=[2.0, -1.0, 1.5][v]), lambda: dpc.recon(img, img, 0.1, 0.1, 1, -0.1),
                          lambda: dpc.dpc_runner(ref, [img] * 4, [1.0, 0.5], (1.0, 2.0), 1.0, 2, 2, 0.1, 0.1, 5.0),
                          lambda: dpc.dpc_runner(ref, [img] * 4, [1.0, 0.5], (1.0, 1.0), 1.0, 2, 2, 0.1, 0.1, 5.0, weighting=3.0),
                          lambda: dpc.dpc_runner(ref, [img] * 3 + [img[:2]], [1.0, 0.5], (1.0, 1.0), 1.0, 2, 2, 0.1, 0.1, 5.0)], ())
    return f, [image(sh, v), np.pad(np.ones((3, 3)), ((2, 1), (1, 2))), image(sh, v + 1), image(sh, v + 2), image(sh, v + 3) * (1 + 0.5j)], {}
