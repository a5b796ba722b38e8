"""A catalogue of calls covering the public interface.

Every entry builds, for each variant, a fresh call (function, positional
arguments, keyword arguments).  Variant 0 and 1 have the same shapes and other
values, variant 2 another shape or another configuration.  Functions return plain
structures (numbers, arrays, strings, tuples, dicts) so that results can be
compared, kept and overwritten."""
import copy
import io
import math
import os
import shutil
import tempfile

import numpy as np

ENTRIES = {}
SLOW = set()
VARIANTS = (0, 1, 2)


def entry(group, slow=False):
    def deco(f):
        name = group + "." + f.__name__
        assert name not in ENTRIES, name
        ENTRIES[name] = f
        if slow:
            SLOW.add(name)
        return f
    return deco


def image(shape, v=0, lo=1, mod=37):
    n = int(np.prod(shape))
    k = np.arange(n, dtype=np.int64)
    return ((k * (k + 7 + 2 * v) * 3 + 11 * v + 5) % mod + lo).astype(float).reshape(shape)


def stack(n, shape, v=0):
    return [image(shape, v + 3 * i) for i in range(n)]


def labels(v):
    return np.array([[[1, 1, 2, 0], [0, 2, 2, 1], [3, 3, 0, 1]], [[2, 1, 2, 0], [1, 2, 0, 1], [3, 0, 3, 3]],
                     [[1, 5, 5], [5, 1, 0], [1, 1, 5], [0, 5, 5]]][v])


# ---------------------------------------------------------------- correlation
@entry("correlation")
def one_time(v):
    from skbeam.core.correlation import multi_tau_auto_corr
    lab = labels(v)
    return multi_tau_auto_corr, [[2, 2, 3][v], 4, lab, np.array(stack(11, lab.shape, v))], {}


@entry("correlation")
def one_time_lazy(v):
    from skbeam.core.correlation import lazy_one_time
    lab = labels(v)

    def f(imgs, lev, buf, lab):
        return [(r.g2.copy(), r.lag_steps.copy()) for r in lazy_one_time(imgs, lev, buf, lab)]
    return f, [stack(9, lab.shape, v), 2, 4, lab], {}


@entry("correlation")
def one_time_resumed(v):
    from skbeam.core.correlation import lazy_one_time
    lab = labels(v)

    def f(imgs, lab):
        st = None
        for r in lazy_one_time(imgs[:4], 2, 4, lab):
            st = r.internal_state
        for r in lazy_one_time(imgs[4:], 2, 4, lab, st):
            pass
        return r.g2.copy(), r.lag_steps.copy()
    return f, [stack(9, lab.shape, v), lab], {}


@entry("correlation")
def two_time(v):
    from skbeam.core.correlation import two_time_corr
    lab = labels(v)

    def f(*a, **k):
        r = two_time_corr(*a, **k)
        return np.asarray(r.g2), np.asarray(r.lag_steps)
    return f, [lab, np.array(stack(6, lab.shape, v)), 6], dict(num_bufs=6 if v < 2 else 4, num_levels=1 if v < 2 else 2)


@entry("correlation")
def diagonal_average(v):
    from skbeam.core.correlation import one_time_from_two_time
    a = image((2 + (v == 2), 5, 5), v)
    return one_time_from_two_time, [a + a.transpose(0, 2, 1)], dict(calc_errors=v != 1)


@entry("correlation")
def scat_factor(v):
    from skbeam.core.correlation import auto_corr_scat_factor
    return auto_corr_scat_factor, [np.arange(1.0, 6.0 + v), 0.3 + v, 1.5, 1.0 + v], {}


@entry("correlation")
def cross(v):
    from skbeam.core.correlation import CrossCorrelator
    m = [np.array([[1, 1, 0, 2], [1, 1, 2, 2], [0, 2, 2, 0]]), np.array([[1, 0, 1, 2], [1, 1, 2, 2], [0, 2, 2, 2]]),
         np.array([[1, 1, 1, 0, 2], [0, 1, 0, 2, 2]])][v]

    def f(shape, m, a, b, norm):
        cc = CrossCorrelator(shape, mask=m, normalization=norm)
        x = cc(a)
        y = cc(a, b)
        return x, y, cc(b, a)
    return f, [m.shape, m, image(m.shape, v), image(m.shape, v + 4), [None, ["regular"], ["symavg"]][v]], {}


@entry("correlation")
def cross_1d(v):
    from skbeam.core.correlation import CrossCorrelator
    m = np.array([[1, 1, 0, 1, 2, 2, 2], [0, 1, 1, 1, 2, 0, 2], [1, 1, 1, 1, 1, 0, 0]][v])
    return (lambda s, m, a, b: CrossCorrelator(s, mask=m)(a, b)), [m.shape, m, image(m.shape, v), image(m.shape, v + 2)], {}


@entry("correlation")
def refused(v):
    from skbeam.core.correlation import lazy_one_time, two_time_corr
    lab = labels(v)
    if v == 0:
        return (lambda i, l: list(lazy_one_time(i, 2, 3, l))), [stack(2, lab.shape), lab], {}
    if v == 1:
        return (lambda i, l: list(lazy_one_time(i, 2, 4, l))), [stack(2, lab.shape), lab.astype(float)[:1]], {}
    return two_time_corr, [lab, stack(6, lab.shape), 6, 5], {}


# ---------------------------------------------------------------- accumulators
def _hist(h):
    return np.array(h.values), [np.array(e) for e in h.edges], [np.array(c) for c in h.centers]


@entry("histogram")
def fill_1d(v):
    from skbeam.core.accumulators.histogram import Histogram

    def f(spec, x, w):
        h = Histogram(spec)
        h.fill(x, weights=w)
        h.fill(x)
        return _hist(h)
    return f, [(4 + (v == 2), 0.0, 12.0 + v), image((9,), v), image((9,), v + 1)], {}


@entry("histogram")
def fill_2d(v):
    from skbeam.core.accumulators.histogram import Histogram

    def f(s, t, x, y, w):
        h = Histogram(s, t)
        h.fill(x, y, weights=w)
        a = _hist(h)
        h.reset()
        h.fill(y, x)
        return a, _hist(h)
    return f, [(3, 0, 30 + v), (2 + (v == 2), 1, 20), image((8,), v), image((8,), v + 2), image((8,), v + 5)], {}


@entry("histogram")
def fill_3d(v):
    from skbeam.core.accumulators.histogram import Histogram

    def f(s, x, y, z):
        h = Histogram(*s)
        h.fill(x, y, z)
        return _hist(h)
    return f, [[(3, 0, 30), (2, 0, 40 + v), (2 + (v == 2), 0.5, 38)], image((8,), v), image((8,), v + 2), image((8,), v + 5)], {}


@entry("histogram")
def fill_refused(v):
    from skbeam.core.accumulators.histogram import Histogram

    def f(s, x, y):
        h = Histogram(*s)
        h.fill(*((x, y) if v != 1 else (x,)))
        return _hist(h)
    return f, [[(3, 0, 30)] if v == 0 else [(3, 0, 30), (2, 0, 3)], image((4,), v), image((4 - (v == 2),), v)], {}


def _bs(b):
    e, c = b.bin_edges, b.bin_centers
    return (np.array(e) if isinstance(e, np.ndarray) else [np.array(x) for x in e]), (np.array(c) if isinstance(c, np.ndarray) else [np.array(x) for x in c])


STATS = ["mean", "sum", "std", "count", "median", max]


@entry("binned")
def one_d(v):
    from skbeam.core.accumulators.binned_statistic import BinnedStatistic1D

    def f(x, y, m, z):
        b = BinnedStatistic1D(x, bins=4 + (v == 2), mask=m)
        return [b(y, s) for s in STATS] + [b(z, s) for s in STATS] + [_bs(b)]
    return f, [image((12,), v), image((12,), v + 1), (image((12,), v + 2) > 8), image((12,), v + 6)], {}


@entry("binned")
def two_d(v):
    from skbeam.core.accumulators.binned_statistic import BinnedStatistic2D

    def f(x, y, a, r):
        b = BinnedStatistic2D(x, y, bins=(3, 2 + (v == 2)), range=r)
        return [b(a, s) for s in STATS] + [_bs(b)]
    return f, [image((12,), v), image((12,), v + 3), image((12,), v + 1), [None, [[0, 30], [5, 40]], None][v]], {}


@entry("binned")
def dd(v):
    from skbeam.core.accumulators.binned_statistic import BinnedStatisticDD

    def f(s, a, e):
        b = BinnedStatisticDD(s, bins=e)
        r = [b(a, x) for x in STATS]
        b.statistic = "sum"
        return r + [b(a), _bs(b)]
    return f, [image((10, 2 + (v == 2)), v), image((10,), v + 1), [2] * (2 + (v == 2)) if v != 1 else [np.array([0.0, 9.0, 40.0]), np.array([0.0, 20.0, 40.0])]], {}


@entry("binned")
def radial(v):
    from skbeam.core.accumulators.binned_statistic import RadialBinnedStatistic
    sh = [(5, 6), (5, 6), (6, 4)][v]

    def f(sh, m, a, o, rm):
        b = RadialBinnedStatistic(sh, bins=4, mask=m, origin=o, r_map=rm)
        return [b(a, s) for s in STATS] + [_bs(b)]
    return f, [sh, image(sh, v + 2) > 5, image(sh, v), [None, (1.5, 2.0), None][v], image(sh, v + 1) if v == 2 else None], {}


@entry("binned")
def rphi(v):
    from skbeam.core.accumulators.binned_statistic import RPhiBinnedStatistic
    sh = [(5, 6), (5, 6), (6, 4)][v]

    def f(sh, m, a, o):
        b = RPhiBinnedStatistic(sh, bins=(3, 4), mask=m, origin=o)
        return [b(a, s) for s in STATS] + [_bs(b)]
    return f, [sh, image(sh, v + 2) > 5, image(sh, v), [(2.0, 2.5), (1.5, 2.25), (2.3, 1.2)][v]], {}


@entry("binned")
def binned_refused(v):
    from skbeam.core.accumulators.binned_statistic import BinnedStatistic1D, RadialBinnedStatistic

    def f(x, y, m):
        if v == 0:
            return BinnedStatistic1D(x, "nothing")(y)
        if v == 1:
            return RadialBinnedStatistic((3, 4), mask=m.reshape(4, 3))(y.reshape(3, 4))
        return BinnedStatistic1D(x, bins=[1.0, 2.0, 2.0], mask=m)(y)
    return f, [image((12,), v), image((12,), v + 1), image((12,), v + 1) > 7], {}


# ---------------------------------------------------------------- roi and mask
@entry("roi")
def rectangles(v):
    from skbeam.core.roi import rectangles
    return rectangles, [[[(0, 0, 2, 3), (3, 2, 4, 4)], [(1, 0, 2, 2), (3, 3, 9, 9)], [(0, 0, 1, 1)]][v], (5, 6 + v // 2)], {}


@entry("roi")
def rings(v):
    from skbeam.core.roi import rings
    return rings, [np.array([[0.0, 1.5 + v], [2.5 + v, 4.5 + v]]), (2.5 + 0.25 * v, 3.0), (6 + v // 2, 7)], {}


@entry("roi")
def ring_edges(v):
    from skbeam.core.roi import ring_edges
    a = [(1, 2, 1, 3), (2, [1, 2, 1.5], 0.5, None), (0.5, [1, 2], [0.25], 2)][v]
    return ring_edges, list(a[:2]), dict(spacing=a[2], num_rings=a[3])


@entry("roi")
def segmented(v):
    from skbeam.core.roi import segmented_rings
    return segmented_rings, [np.array([[0.5, 2.0 + v], [2.5 + v, 4.0 + v]]), [3, 4, 1][v], (3.1, 2.9), (7, 6 + v // 2)], dict(offset_angle=0.3 * v)


@entry("roi")
def bars(v):
    from skbeam.core.roi import bar, box

    def f(e, sh, vals):
        return bar(e, sh), bar(e, sh, horizontal=False), bar(e, sh, values=vals), box(sh, e), box(sh, e, e)
    sh = [(8, 8), (8, 8), (8, 10)][v]
    return f, [np.array([[0, 2], [3 + v % 2, 5]]), sh, image(sh, v, lo=0, mod=7)], {}


@entry("roi")
def line(v):
    from skbeam.core.roi import lines
    return lines, [[[0, 1, 4, 5], [3, 0, 1, 2 + v]], (6, 7 + v // 2)], {}


@entry("roi")
def region_values(v):
    from skbeam.core import roi
    lab = labels(v)
    ids = sorted(set(lab.ravel()) - {0})

    def f(imgs, lab, ids):
        a, b = roi.roi_pixel_values(imgs[0], lab), roi.roi_pixel_values(imgs[1], lab, ids[:1])
        return ([[np.array(x) for x in y] if isinstance(y, list) else y for y in a], [[np.array(x) for x in y] if isinstance(y, list) else y for y in b],
                roi.mean_intensity(imgs, lab), roi.mean_intensity(imgs, lab, ids[-1:]), roi.roi_max_counts([imgs], lab),
                roi.kymograph(imgs, lab, int(ids[0])), roi.extract_label_indices(lab))
    return f, [np.array(stack(4, lab.shape, v)), lab, [int(i) for i in ids]], {}


@entry("roi")
def circular(v):
    from skbeam.core.roi import circular_average
    sh = [(6, 7), (6, 7), (5, 9)][v]
    return circular_average, [image(sh, v), (2.5, 3.25)], dict(nx=5, pixel_size=(1, 1 + 0.5 * v), min_x=0.5, max_x=4.0)


@entry("roi")
def roi_refused(v):
    from skbeam.core import roi
    return [(roi.rings, [[[3, 1], [2, 4]], (2, 2), (5, 5)], {}), (roi.segmented_rings, [[[3, 1]], 3, (2, 2), (5, 5)], {}),
            (roi.roi_pixel_values, [image((3, 4)), labels(2)], {})][v]


@entry("mask")
def masks(v):
    from skbeam.core import mask
    sh = [(5, 6), (5, 6), (6, 4)][v]

    def f(imgs, m, bad):
        return ([np.array(x) for x in mask.bad_to_nan_gen(imgs, bad)], [np.array(x) for x in mask.threshold(imgs, 30, m)],
                [np.array(x) for x in mask.threshold(imgs, 25)], mask.margin(imgs[0].shape, 1 + v % 2))
    return f, [stack(5, sh, v), image(sh, v) > 3, [1, 3 - v]], {}


@entry("mask")
def outliers(v):
    from skbeam.core.mask import binned_outlier
    sh = [(6, 7), (6, 7), (8, 5)][v]
    a = image(sh, v)
    a[1, 2] = 900.0
    r = np.hypot(*np.mgrid[:sh[0], :sh[1]])
    return binned_outlier, [a, r, (2.0, 1.5 + v), np.linspace(0, 11, 4)], dict(mask=(image(sh, v + 1) > 4).astype(bool))


# ---------------------------------------------------------------- scattering geometry, gridding
def angles(n, v):
    return np.array([[3.0 + i + v, 20.0 + 2 * i, 5.0 * v - 7, 11.0, 1.0 + v, 4.0 - i] for i in range(n)])


@entry("recip")
def to_q(v):
    from skbeam.core.recip import process_to_q
    ub = np.array([[0.1, 1.2, 0.3], [1.1, -0.2, 0.1], [0.0, 0.3, 0.9]]) + 0.1 * v
    return process_to_q, [angles(2 + v // 2, v), (3, 4), (0.1, 0.2), (1.0, 2.0 + v), 300.0, 1.2 + v, ub], dict(frame_mode=["hkl", "cart", "theta"][v])


@entry("recip")
def hkl(v):
    from skbeam.core.recip import hkl_to_q
    return hkl_to_q, [image((5 + v // 2, 3), v)], {}


@entry("recip")
def grazing(v):
    from skbeam.core.recip import gisaxs
    return (lambda *a, **k: tuple(np.array(x) for x in gisaxs(*a, **k))), [(2.0 + v, 1.0), (3.0, 4.0), (0.1, 0.2), (4, 5 + v // 2), 500.0, 1.1], dict(theta_i=0.01 * v)


@entry("recip")
def to_q_refused(v):
    from skbeam.core.recip import process_to_q
    ub = np.eye(3)
    return process_to_q, [[angles(2, 0)[:, :5], angles(1, 0), np.zeros((0, 6))][v], (2, 2), (0.1, 0.2), (1.0, 2.0), 300.0, 1.2, ub if v != 2 else ub[:2]], dict(frame_mode="nothing" if v == 1 else None)


@entry("grid")
def grid(v):
    from skbeam.core.utils import grid3d
    q = image((24, 3), v) / 4.0
    m = image((1, 4, 6), v + 1) > 6 if v == 1 else None
    kw = dict(nx=3, ny=2 + v // 2, nz=2)
    if v == 2:
        kw.update(xmin=0.5, xmax=9.0, ymin=0.0, ymax=8.0, zmin=1.0, zmax=9.0)
    return (lambda *a, **k: tuple(np.array(x) if not isinstance(x, (list, tuple)) else [np.array(y) for y in x] for x in grid3d(*a, **k))), [q, image((1, 4, 6), v + 3)], dict(kw, binary_mask=m)


# ---------------------------------------------------------------- utilities
@entry("utils")
def grids(v):
    from skbeam.core import utils as U
    sh = [(4, 5), (4, 5), (3, 3)][v]

    def f(c, sh, px):
        return U.radial_grid(c, sh, px), U.angle_grid(c, sh, px)
    return f, [(1.25, 2.0 + v), sh, [None, (0.5, 2), (1, 1)][v]], {}


@entry("utils")
def xyi(v):
    from skbeam.core.utils import img_to_relative_xyi
    n = 4 + v // 2
    return img_to_relative_xyi, [image((n, n), v), 1.5, 2 + v], dict(pixel_size_x=1 + v, pixel_size_y=0.5) if v else {}


@entry("utils")
def edges(v):
    from skbeam.core import utils as U

    def f(a):
        e = [U.bin_edges(**k) for k in a]
        return e, [U.bin_edges_to_centers(x) for x in e], [list(U.pairwise(x)) for x in e]
    return f, [[dict(range_min=0 + v, range_max=5 + 2 * v, nbins=5), dict(range_min=1, range_max=9, step=1.5 + v), dict(range_min=v, nbins=3, step=0.5)]], {}


@entry("utils")
def conversions(v):
    from skbeam.core import utils as U

    def f(q, lam):
        d, t = U.q_to_d(q), U.q_to_twotheta(q, lam)
        return d, U.d_to_q(d), t, U.twotheta_to_q(t, lam), U.radius_to_twotheta(100.0 + v, q)
    return f, [np.linspace(0.3 + v, 2.5 + v, 6 + v // 2), 0.5 + 0.1 * v], {}


@entry("utils")
def taus(v):
    from skbeam.core import utils as U

    def f(l, c):
        a, b, d = U.multi_tau_lags(l, c)
        return a, np.array(b), dict(d), U.geometric_series(2 + v // 2, 40 + v)
    return f, [2 + v, 4 + 4 * (v // 2)], {}


@entry("utils")
def binning(v):
    from skbeam.core import stats
    from skbeam.core import utils as U

    def f(x, y, sh, img, r, m):
        return (U.bin_1D(x, y, nx=4, min_x=2, max_x=30 + v), [stats.statistics_1D(x, y, stat=s, nx=3) for s in ("mean", "sum", "count", "std", "median")],
                U.bin_grid(img, r, (1, 2), mask=m, bins=3))
    sh = [(4, 5), (4, 5), (5, 3)][v]
    return f, [image((11,), v), image((11,), v + 1), sh, image(sh, v), np.hypot(*np.mgrid[:sh[0], :sh[1]]), image(sh, v + 2) > 5], {}


@entry("utils")
def references(v):
    from skbeam.core.utils import subtract_reference_images
    pat = [[True, False, True, False, False], [True, True, False, False, True], [True, False, False]][v]
    return subtract_reference_images, [np.array(stack(len(pat), (2, 3), v)).astype([float, np.uint8, int][v]), pat], {}


@entry("utils")
def logical(v):
    from skbeam.core import arithmetic as A
    sh = [(3, 4), (3, 4), (2, 2)][v]

    def f(a, b):
        return A.logical_nand(a, b), A.logical_nor(a, b), A.logical_sub(a, b), A.add(a, b), A.logical_xor(a, b)
    return f, [image(sh, v, lo=0, mod=3), image(sh, v + 1, lo=0, mod=2)], {}


def md_value(v, u):
    from skbeam.core.utils import md_value
    return md_value(v, u)


@entry("utils")
def nested_dict(v):
    from skbeam.core.utils import MD_dict, RCParamDict

    def f(d, rows):
        m = MD_dict()
        for k, val in d:
            m[k] = val
        r = RCParamDict()
        for k, val in rows:
            r[k] = val
        return ([(k, m[k].value, m[k].units) for k in sorted(m)], len(m), len(r), sorted(r), [r[k] for k in sorted(r)], str(r))
    return f, [[["a", md_value(3 + v, "K")], ["b.c", md_value(v, "s")]], [["p.q", v], ["p.r.s", 2], ["t", [1, v]]]], {}


@entry("utils")
def utils_refused(v):
    from skbeam.core import utils as U
    return [(U.bin_edges, [], dict(range_min=3, range_max=1, nbins=2)), (U.bin_edges, [], dict(range_min=3)),
            (U.subtract_reference_images, [np.array(stack(3, (2, 2))), [False, True, False]], {})][v]


# ---------------------------------------------------------------- images, features, smoothing, calibration
@entry("image")
def circ_image(v):
    from skbeam.core.image import construct_circ_avg_image
    return construct_circ_avg_image, [np.linspace(0, 6 + v, 7), image((7,), v)], dict(dims=(5, 6 + v // 2), center=(2.0, 2.5 + v), pixel_size=(1, 1.5), left=v, right=2)


@entry("image")
def polar_image(v):
    from skbeam.core.image import construct_rphi_avg_image
    a = image((5, 8), v)
    m = image((5, 8), v + 2) > 5 if v else None
    return construct_rphi_avg_image, [np.linspace(0.5, 6, 5), np.linspace(-3.0, 3.0 - v * 0.3, 8), a], dict(mask=m, center=(3.0, 3.2), shape=(7, 8 - v // 2), pixel_size=(1, 1))


@entry("image")
def ring_center(v):
    from skbeam.core.image import find_ring_center_acorr_1D
    sh = [(40, 44), (40, 44), (48, 36)][v]
    r = np.hypot(np.arange(sh[0])[:, None] - sh[0] / 2 - 2 - v, np.arange(sh[1])[None] - sh[1] / 2 + 1)
    return find_ring_center_acorr_1D, [np.exp(-((r - 9) / 2.0) ** 2)], {}


def peaks(n, v):
    x = np.linspace(0, 100, n)
    return x, sum((40 + 10 * i + 7 * v) * np.exp(-((x - c) / 3.0) ** 2) for i, c in enumerate((20 + v, 50, 77)))


@entry("feature")
def features(v):
    from skbeam.core import feature as F
    x, y = peaks(301 + 50 * (v // 2), v)

    def f(x, y, cands):
        return (F.filter_n_largest(y, cands, 2), F.filter_peak_height(y, cands, 5.0, window=5), F.peak_refinement(x, y, cands, 4, F.refine_quadratic),
                F.peak_refinement(x, y, cands, 4, F.refine_log_quadratic, {"Rval_thresh": 0.5} if v else None))
    c = np.array([int(np.argmin(abs(x - p))) for p in (20 + v, 50, 77)])
    return f, [x, y, c], {}


@entry("feature")
def distance(v):
    from skbeam.core import calibration as C
    cal = C.calibration_standards["Si"]
    tt = np.asarray(cal.convert_2theta(0.18))[:4]
    rs = (200 + 20 * v) * np.tan(tt)
    x = np.linspace(0, max(rs) * 1.2, 700 + 100 * (v // 2))
    y = sum(100 * np.exp(-((x - r) / 0.4) ** 2) for r in rs)
    return C.estimate_d_blind, ["Si", 0.18, x, y, 5, 3, 0.1], {}


@entry("feature", slow=True)
def centre(v):
    from skbeam.core.calibration import refine_center
    sh = [(150, 160), (150, 160), (160, 140)][v]
    i, j = np.mgrid[:sh[0], :sh[1]]
    r = np.hypot(i - sh[0] / 2 - 2, j - sh[1] / 2 + 3 + v)
    im = sum(100 * np.exp(-((r - q) / 3.0) ** 2) for q in (20, 35, 50))
    return refine_center, [im, (sh[0] / 2.0, sh[1] / 2.0), (1, 1)], dict(phi_steps=12, max_peaks=3, thresh=0.1, window_size=5, nx=150, min_x=8, max_x=62)


@entry("feature")
def quadratic(v):
    from skbeam.core.fitting.funcs import fit_quad_to_peak
    x = np.linspace(-1, 2 + v, 6 + v // 2)
    return fit_quad_to_peak, [x, 3 - (x - 0.4) ** 2 * (1 + v) + 0.01 * np.sin(9 * x)], {}


@entry("feature")
def smoothing(v):
    from skbeam.core.smoothing import sgolay2d
    return sgolay2d, [image((9, 10 + v // 2), v), 5, 2 + v // 2], {}


@entry("feature")
def smoothing_derivative(v):
    from skbeam.core.smoothing import sgolay2d
    return sgolay2d, [image((9, 10), v), 5, 3], dict(derivative=["col", "row", "both"][v])


@entry("feature")
def background(v):
    from skbeam.core.fitting.background import snip_method
    x, y = peaks(400 + 100 * (v // 2), v)
    return snip_method, [y + 20 + 0.1 * x, 0.01, 0.01 + 0.001 * v, 0.0], dict(width=0.3 + 0.1 * v, con_val=None, spectral_binning=None)


@entry("feature")
def spectra(v):
    from skbeam.core import spectroscopy as S
    x, y = peaks(301, v)

    def f(x, y, y2):
        e, c = S.align_and_scale([x, x + 1], [y, y2])
        return (S.integrate_ROI(x, y, [5, 40 + v], [30, 60]), S.integrate_ROI_spectrum(np.append(x, 101), y, 10 + v, 30), S.find_largest_peak(x, y, 5),
                [np.array(q) for q in e], [np.array(q) for q in c])
    return f, [x, y, 2 * y], {}


@entry("feature")
def feature_refused(v):
    from skbeam.core import feature as F
    from skbeam.core import spectroscopy as S
    x, y = peaks(50, 0)
    return [(F.filter_n_largest, [y, np.array([3, 4]), -1], {}), (S.integrate_ROI, [x, y, [30], [20]], {}),
            (F.peak_refinement, [x, y, np.array([20]), 3, lambda a, b: 1 / 0], {})][v]


# ---------------------------------------------------------------- speckle, phase contrast, diffraction imaging
@entry("speckle")
def visibility(v):
    from skbeam.core import speckle
    lab = labels(v)
    imgs = [np.array(stack(8, lab.shape, v)) % 9, np.array(stack(8, lab.shape, v + 1)) % 9]

    def f(sets, lab, n):
        p, s = speckle.xsvs(sets, lab, number_of_img=n, max_cts=[None, 9, None][v])
        return [np.array(x, float) for x in p.ravel()], [np.array(x, float) for x in s.ravel()]
    return f, [imgs, lab, 4], {}


@entry("speckle")
def normalized_edges(v):
    from skbeam.core.speckle import normalize_bin_edges

    def f(*a):
        e, c = normalize_bin_edges(*a)
        return [np.array(x, float) for x in e.ravel()], [np.array(x, float) for x in c.ravel()]
    return f, [2 + v // 2, 2, np.array([1.5 + v, 3.0]), 5], {}


def scan(v):
    sh = (7, 8 - (v == 2))
    r, c = np.mgrid[:sh[0], :sh[1]]
    ref = 100 * np.exp(-((r - 3.0) ** 2) / 4 - (c - 3.5) ** 2 / 5) + 1
    return ref, [np.roll(np.roll(ref, (i + v) % 2, 0), i % 3 - 1, 1) * (1 - 0.05 * i) for i in range(4)]


@entry("dpc")
def reduction(v):
    from skbeam.core.dpc import image_reduction
    return image_reduction, [image((5, 6 + v // 2), v)], dict(roi=[None, (1, 1, 3, 4), np.array([0, 2, 2, 2])][v], bad_pixels=[[(1, 2), (0, 0)], None, [(2, 2)]][v])


@entry("dpc", slow=True)
def phase(v):
    from skbeam.core.dpc import dpc_runner
    ref, imgs = scan(v)
    return dpc_runner, [ref, imgs, [1, 0], (55, 55), 1.46e6, 2, 2, 0.1, 0.1 + 0.1 * v, 19.5], dict(padding=v % 2, roi=[None, (1, 1, 5, 5), None][v], bad_pixels=[None, [(2, 2)], None][v])


@entry("dpc")
def integration(v):
    from skbeam.core.dpc import recon
    return recon, [image((4, 5 - v // 2), v), image((4, 5 - v // 2), v + 2), 0.1, 0.2], dict(padding=v, weighting=0.5)


@entry("cdi")
def parts(v):
    from skbeam.core import cdi
    sh = [(6, 5), (6, 5), (4, 4, 3)][v]

    def f(o, p, sh):
        return (cdi.pi_modulus(o, p), cdi.find_support(o, 1.0, 0.2 + 0.1 * v), cdi.cal_diff_error(o, p), cdi.gauss(sh, 1.5),
                cdi.generate_box_support(1 + v, sh), cdi.generate_disk_support(1.5, sh))
    return f, [image(sh, v) + 1j * image(sh, v + 1), image(sh, v + 2, lo=0), sh], {}


@entry("cdi")
def reconstruction(v):
    from skbeam.core.cdi import cdi_recon
    sh = [(6, 6), (6, 6), (8, 6)][v]
    o, err = image(sh, v) + 1j * image(sh, v + 1), None

    def f(p, o, s, **k):
        a, e = cdi_recon(p, o, s, **k)
        return a, {q: np.array(e[q], float) for q in sorted(e) if q != "sup_error"}
    s = np.zeros(sh)
    s[1:5, 1:4 + v % 2] = 1
    return f, [image(sh, v + 2), o, s], dict(n_iterations=8, sw_step=3, sw_flag=v != 1, pi_modulus_flag=["Complex", "Complex", "Real"][v], start_avg=0.5)


@entry("cdi")
def phase_field(v):
    from skbeam.core.cdi import generate_random_phase_field

    def f(p):
        st = np.random.get_state()
        np.random.seed(5)
        try:
            return generate_random_phase_field(p)
        finally:
            np.random.set_state(st)
    return f, [image((4, 5 + v // 2), v)], {}


# ---------------------------------------------------------------- constants
@entry("constants")
def element(v):
    from skbeam.core.constants import BasicElement, XrfElement
    z = ["Fe", "Cu", "pb"][v]

    def f(z):
        b, e = BasicElement(z), XrfElement(z)
        return (b.sym, b.Z, b.name, b.mass, b.density, b.properties if hasattr(b, "properties") else 0, sorted(e.emission_line.all), e.emission_line["Ka1"],
                sorted(e.cs(12.0 + v).all), e.cs(12.0 + v)["ka1"], sorted(e.csb(11.0).all), e.bind_energy["k"], e.jump_factor["l3"], e.fluor_yield["K"],
                sorted(e.line_near(6.4, 0.3, 10.0 + v).items()))
    return f, [z], {}


@entry("constants", slow=True)
def search(v):
    from skbeam.core.constants import emission_line_search
    return (lambda *a, **k: {q: sorted(w.items()) for q, w in emission_line_search(*a, **k).items()}), [6.4 + v, 0.3, 12.0 + v], dict(element_list=["Fe", "Cr", "Mn", "Co", "Ni", "Cu", "W"])


@entry("constants")
def standards(v):
    from skbeam.core.constants import calibration_standards
    n = ["Si", "CeO2", "LaB6"][v]
    return (lambda n, l: (np.array(calibration_standards[n].convert_2theta(l)), [tuple(r.hkl) if r.hkl else None for r in calibration_standards[n].reflections], str(calibration_standards[n].name))), [n, 0.2 + 0.1 * v], {}


@entry("constants")
def own_standard(v):
    from skbeam.core.constants.xrs import HKL, PowderStandard

    def f(d, h, tt):
        a, b = PowderStandard.from_d("mine", d, hkl=h), PowderStandard.from_lambda_2theta_hkl("other", 0.2, tt)
        return [(r.d, tuple(r.hkl), r.q) for r in a.reflections], [(r.d, r.q) for r in b.reflections], np.array(a.convert_2theta(0.4))
    return f, [[3.1 + v, 1.9, 1.2], [(1, 1, 1), (2, 2, 0), (3, 1, 1 + v)], np.array([0.1, 0.2 + 0.1 * v])], {}


@entry("constants")
def unknown(v):
    from skbeam.core.constants import BasicElement, XrfElement
    return [(BasicElement, ["Xx"], {}), (BasicElement, [-3], {}), (lambda: XrfElement("Fe").emission_line["nothing"], [], {})][v]


# ---------------------------------------------------------------- peak shapes and XRF fitting
@entry("shapes")
def shapes(v):
    from skbeam.core.fitting import lineshapes as L
    x = np.linspace(-3, 8, 15 + v // 2)

    def f(x, a, c, s):
        return (L.gaussian(x, a, c, s), L.lorentzian(x, a, c, s), L.lorentzian2(x, a, c, s), L.voigt(x, a, c, s), L.voigt(x, a, c, s, gamma=0.3), L.pvoigt(x, a, c, s, 0.3),
                L.gausssian_step(x, a, c, s, 4.0), L.gaussian_tail(x, a, c, s, 2.0))
    return f, [x, 3.0 + v, 2.0 - v, 0.7], {}


@entry("shapes")
def scatter(v):
    from skbeam.core.fitting import lineshapes as L
    x = np.arange(0.0, 700.0 + 50 * (v // 2))

    def f(x):
        return (L.elastic(x, 30.0 + v, 10.0, 0.0, 0.01, 0.0, 0.1, 0.001), L.compton(x, 20.0, 10.0 + v * 0.1, 0.0, 0.01, 0.0, 0.1, 0.001, 90, 1.5, 0.01, 0.05, 5.0, 0.01, 4.0))
    return f, [x], {}


@entry("shapes")
def distributions(v):
    from skbeam.core.fitting import lineshapes as L
    return (lambda b, k, m: (L.nbinom_dist(b, k, m), L.poisson_dist(b, k), L.gamma_dist(b, k, m))), [np.arange(1.0, 12.0 + v), 2.0 + v, 3.5], {}


@entry("shapes")
def models(v):
    from skbeam.core.fitting import models as M
    x = np.linspace(0.5, 9, 11 + v // 2)

    def f(x):
        out = []
        for n in ("GaussianModel", "LorentzianModel", "Lorentzian2Model", "QuadraticModel"):
            if hasattr(M, n):
                m = getattr(M, n)(prefix="p_" if v else "")
                p = m.make_params()
                for i, k in enumerate(sorted(p)):
                    if p[k].expr is None:
                        p[k].value = 1.5 + i + v
                out.append(m.eval(p, x=x))
        return out
    return f, [x], {}


def params(v=0):
    from skbeam.core.fitting.base.parameter_data import get_para
    p = copy.deepcopy(get_para())
    p["coherent_sct_energy"]["value"] = 12.0 + v
    p["non_fitting_values"]["background_width"] = 0.4
    return p


@entry("xrf")
def controller(v):
    from skbeam.core.fitting import xrf_model as X

    def f(p, lines):
        c = X.ParamController(p, lines)
        c.add_param("pos", lines[0], constraint="lohi")
        c.add_param("width", lines[-1], constraint="fixed") if v else c.add_param("ratio", lines[-1])
        c.update_element_prop([lines[0]], pos="free", width="lohi")
        c.set_strategy("adjust_element")
        return copy.deepcopy(c.params)
    return f, [params(v), [["Fe_K", "Ca_K"], ["Cu_K", "Ca_K"], ["Ce_L", "Pt_M", "Fe_K"]][v]], {}


@entry("xrf")
def bounds(v):
    from skbeam.core.fitting import xrf_model as X

    def f(p, o):
        X.set_parameter_bound(p, o)
        return copy.deepcopy(p), X.extract_strategy({k: q for k, q in p.items() if k == "non_fitting_values" or o in q}, o)
    g = f

    def f2(p, o):
        return g(copy.deepcopy(p), o)
    return f2, [params(v), ["free_more", "adjust_element", "linear"][v]], {}


@entry("xrf", slow=True)
def linear_model(v):
    from skbeam.core.fitting import xrf_model as X
    return X.construct_linear_model, [np.arange(300 + 100 * (v // 2)), params(v), [["Fe_K", "Ca_K"], ["Cu_K", "Ce_L"], ["Pt_M", "Fe_K"]][v]], {}


@entry("xrf", slow=True)
def linear_fit(v):
    from skbeam.core.fitting import xrf_model as X
    x = np.arange(1400)
    y = 20 + 100 * np.exp(-((x - 640.0) / 12) ** 2) + 40 * np.exp(-((x - 370.0 - 40 * v) / 12) ** 2)
    return (lambda *a, **k: X.linear_spectrum_fitting(*a, **k)), [x, y, params(v), [["Fe_K", "Ca_K"], ["Fe_K", "Ti_K"], ["Fe_K", "V_K", "Pt_M"]][v]], dict(weights=1 / (1 + y) if v else None)


@entry("xrf", slow=True)
def spectrum_model(v):
    from skbeam.core.fitting import xrf_model as X
    x = np.arange(200, 900 - 100 * (v // 2))

    def f(p, lines, x):
        m = X.ModelSpectrum(p, lines)
        m.assemble_models()
        pars = m.mod.make_params()
        return m.mod.eval(pars, x=x), {k: (q.value, q.min, q.max, bool(q.vary), q.expr) for k, q in pars.items()}
    return f, [params(v), [["Fe_K", "Ca_K"], ["Cu_K", "Ca_K"], ["Fe_K", "Ce_L"]][v], x.astype(float)], {}


@entry("xrf")
def rows(v):
    from skbeam.core.fitting import xrf_model as X
    k = np.arange(200 + 40 * (v // 2))
    mat = np.array([np.exp(-((k - c) / 9.0) ** 2) for c in (60.0 + v, 130.0)]).T
    d = np.array([mat @ np.array([3.0 + i, 5.0 * v + 1]) + 2 + i for i in range(3)])

    def f(d, mat, p):
        return X.fit_per_line_nnls(d, mat, p, v != 1), X.nnls_fit(d[0], mat), X.nnls_fit(d[1], mat, weights=1 / (1 + d[1]))
    return f, [d, mat, params(v)], {}


@entry("xrf")
def helpers(v):
    from skbeam.core.fitting import xrf_model as X
    x = np.arange(60.0 + v)
    y = image((60 + v,), v)

    def f(x, y, p, m, r):
        return (X.trim(x, y, 5 + v, 40), X.define_range(y, 0.1, 0.4, 0.0, 0.01), X.compute_escape_peak(y, 0.1 + v, p), X.get_activated_lines(12.0 + v, ["Fe_K", "Pb_L", "U_M", "Ag_K"]),
                X.get_line_energy(["Fe_K", "Cu_K", "Ce_L"][v]), X.get_relative_cs_ratio("Fe_K", 12.0 + v), X.calculate_area(["Fe_K", "compton"], m, r, p))
    return f, [x, y, params(v), image((5, 2), v), image((2, 3, 4), v)], {}


@entry("xrf")
def xrf_refused(v):
    from skbeam.core.fitting import xrf_model as X
    p = params(0)
    return [(X.ParamController(copy.deepcopy(p), ["Fe_K"]).add_param, ["nothing", "Fe_K"], {}), (X.get_line_energy, ["Fe_X"], {}),
            (X.nnls_fit, [np.arange(4.0), np.ones((5, 2))], {})][v]


# ---------------------------------------------------------------- files
def _scratch(f):
    d = tempfile.mkdtemp(prefix="vc-io-")
    try:
        return f(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@entry("io")
def powder_files(v):
    from skbeam.io.gsas_file_reader import gsas_reader
    from skbeam.io.save_powder_output import gsas_writer, save_output
    n = 12 + 3 * (v // 2)
    tth, y = np.linspace(1, 5 + v, n), image((n,), v)
    err = image((n,), v + 1) if v else None

    def f(t, y, e):
        def g(d):
            save_output(t, y, "a", "2theta", ext=".xye" if v else ".chi", err=e, dir_path=d)
            mode = ["STD", "ESD", "FXYE"][v]
            gsas_writer(t, y, "b", mode, e if mode != "STD" else None, dir_path=d)
            names = sorted(os.listdir(d))
            gs = [q for q in names if q.endswith(".gsas")]
            return names, [open(os.path.join(d, q), "rb").read() for q in names], [tuple(np.array(z) for z in gsas_reader(os.path.join(d, q))) for q in gs]
        return _scratch(g)
    return f, [tth, y, err], {}


@entry("io")
def binary_file(v):
    from skbeam.io.binary import read_binary

    def f(a, hs):
        def g(d):
            p = os.path.join(d, "x.bin")
            with open(p, "wb") as h:
                h.write(b"h" * hs + a.tobytes())
            data, head = read_binary(p, a.shape[2], a.shape[1], a.shape[0], str(a.dtype), hs)
            return np.array(data), head
        return _scratch(g)
    return f, [image((2, 3, 4 + v // 2), v).astype("int32" if v else "float64"), 3 + v], {}


@entry("io")
def mask_file(v):
    from skbeam.io.fit2d import fit2d_save, read_fit2d_msk

    def f(m):
        def g(d):
            fit2d_save(m, "m", d)
            names = sorted(os.listdir(d))
            return names, np.array(read_fit2d_msk(os.path.join(d, names[0])))
        return _scratch(g)
    return f, [image((5, 8 + 32 * (v // 2)), v) > 9], {}


@entry("io")
def io_refused(v):
    from skbeam.io.save_powder_output import gsas_writer, save_output

    def f(t, y):
        def g(d):
            if v == 0:
                save_output(t, y, "a", "2theta", ext=".xye", dir_path=d)
            elif v == 1:
                gsas_writer(t, y, "a", "nothing", y, dir_path=d)
            else:
                save_output(t, y[:-1], "a", "Q", dir_path=d)
            return sorted(os.listdir(d))
        return _scratch(g)
    return f, [np.linspace(1, 2, 5), image((5,), v)], {}


# ---------------------------------------------------------------- running and comparing
def call(name, v, transform=None):
    """run the call afresh; exceptions are results too"""
    fn, args, kw = ENTRIES[name](v)
    if transform is not None:
        args, kw = transform(args), transform(kw)
    return fn, args, kw, lambda: outcome(fn, args, kw)


def outcome(fn, args, kw):
    try:
        return fn(*args, **kw)
    except Exception as e:
        return ("raised", type(e).__name__)


def leaves(o, path=""):
    """(path, leaf) pairs of a nested structure"""
    if isinstance(o, np.ndarray) and o.dtype == object:
        for i, x in enumerate(o.ravel()):
            yield from leaves(x, "%s{%d}" % (path, i))
    elif isinstance(o, dict):
        for k in sorted(o, key=str):
            yield from leaves(o[k], "%s[%r]" % (path, k))
    elif isinstance(o, (list, tuple)):
        yield path + "#len", len(o)
        for i, x in enumerate(o):
            yield from leaves(x, "%s[%d]" % (path, i))
    else:
        yield path, o


def snapshot(o):
    return [(p, np.array(x) if isinstance(x, np.ndarray) else copy.copy(x)) for p, x in leaves(o)]


def differs(a, b, exact=False):
    """first difference between two snapshots, or None"""
    if [p for p, _ in a] != [p for p, _ in b]:
        return "structure %s / %s" % ([p for p, _ in a][:8], [p for p, _ in b][:8])
    for (p, x), (_, y) in zip(a, b):
        if isinstance(x, (np.ndarray, np.generic)) or isinstance(y, (np.ndarray, np.generic)) or isinstance(x, (float, complex)):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape:
                return "%s: shape %s / %s" % (p, x.shape, y.shape)
            if exact:
                if x.dtype != y.dtype or x.tobytes() != y.tobytes():
                    return "%s: %s / %s" % (p, x.ravel()[:6], y.ravel()[:6])
                continue
            if x.dtype.kind in "fciub" and y.dtype.kind in "fciub":
                s = np.abs(np.asarray(x, complex))
                s = s[np.isfinite(s)]
                at = 1e-10 * (s.max() if s.size else 0) + 1e-300
                if not np.allclose(np.asarray(x, complex), np.asarray(y, complex), rtol=1e-8, atol=at, equal_nan=True):
                    return "%s: %s / %s" % (p, x.ravel()[:6], y.ravel()[:6])
            elif not np.array_equal(x, y):
                return "%s: %s / %s" % (p, x, y)
        elif callable(x):
            continue
        elif x != y:
            return "%s: %.200r / %.200r" % (p, x, y)
    return None


def arrays(o, seen=None):
    for _, x in leaves(o):
        if isinstance(x, np.ndarray):
            yield x


from vc import catalog_more  # noqa: E402,F401  (registers its entries)
