"""C25 - radial/1-D binning, background estimation and smoothing: every sample counted once, stated filters computed exactly."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from vc.harness import fmean, freeze, unchanged


def run(ck):
    from skbeam.core import smoothing, stats, utils
    from skbeam.core.fitting import background
    bins1d(ck, utils, stats)
    radial(ck, utils)
    snip(ck, background)
    sgolay(ck, smoothing)


def place(x, edges):
    """bin of x: left edge included, right edge excluded, last bin closed"""
    n = len(edges) - 1
    if x < edges[0] or x > edges[-1]:
        return None
    for i in range(n):
        if edges[i] <= x < edges[i + 1]:
            return i
    return n - 1


def median(v):
    v = sorted(v)
    k = len(v)
    return v[k // 2] if k % 2 else (v[k // 2 - 1] + v[k // 2]) / 2


STAT = {"mean": lambda v: fmean(v) if v else math.nan, "median": lambda v: median(v) if v else math.nan, "sum": lambda v: math.fsum(v),
        "count": lambda v: float(len(v)), "min": lambda v: min(v) if v else math.nan, "max": lambda v: max(v) if v else math.nan,
        "std": lambda v: math.sqrt(fmean([(a - fmean(v)) ** 2 for a in v])) if v else math.nan}


def bins1d(ck, utils, stats):
    al = [0.0, 0.5, 1.0, 2.0, 3.25, 4.0]
    seqs = [s for n in (1, 2, 3, 4) for s in itertools.product(al, repeat=n)]
    ranges = [(1, 0.0, 4.0), (4, 0.0, 4.0), (8, 0.0, 4.0), (2, 1.0, 3.0), (3, -1.0, 0.5), (2, 6.0, 8.0), (4, None, 4.0), (4, 0.0, None), (2, None, None)]
    for s in ck.cases("binned samples", seqs):
        x = np.array(s)
        y = np.array([(7 * i * i + 3) % 11 - 2.0 for i in range(len(s))])
        for nx, lo, hi in ranges:
            a, b = (min(s) if lo is None else lo), (max(s) if hi is None else hi)
            if not a < b:
                continue
            edges = [F(a) + (F(b) - F(a)) * k / nx for k in range(nx + 1)]
            inside = [[] for _ in range(nx)]
            for xv, yv in zip(s, y):
                k = place(F(xv), edges)
                if k is not None:
                    inside[k].append(float(yv))
            before = freeze(x, y)
            kw = dict(nx=nx)
            if lo is not None:
                kw["min_x"] = lo
            if hi is not None:
                kw["max_x"] = hi
            e, v, c = utils.bin_1D(x, y, **kw)
            what = "x=%s nx=%s range %s..%s" % (s, nx, lo, hi)
            ck.close(e, [float(q) for q in edges], "bin_1D/edges", what)
            ck.close(v, [math.fsum(q) for q in inside], "bin_1D/sums", what)
            ck.equal([int(q) for q in c], [len(q) for q in inside], "bin_1D/counts", what)
            for st, ref in STAT.items():
                e, v = stats.statistics_1D(x, y, stat=st, **kw)
                ck.close(e, [float(q) for q in edges], "statistics_1D/edges", what)
                ck.close(v, [ref(q) for q in inside], "statistics_1D/" + st, what)
            ck.true(unchanged(before, x, y), "binning/input modified", what)
            ck.step(8)
        ck.state("b1", s)
    for s in ck.cases("order and defaults", [q for q in seqs if len(q) == 3 and len(set(q)) == 3]):
        x, y = np.array(s), np.array([1.0, 5.0, -2.0])
        base = utils.bin_1D(x, y, nx=4, min_x=0, max_x=4)
        for perm in itertools.permutations(range(3)):
            r = utils.bin_1D(x[list(perm)], y[list(perm)], nx=4, min_x=0, max_x=4)
            for g, w in zip(r, base):
                ck.close(g, w, "bin_1D/order of samples", "%s" % (s,))
            ck.step()
        r2 = utils.bin_1D(x, y.astype(int), nx=4, min_x=0, max_x=4)
        ck.close(r2[1], base[1], "bin_1D/integers", "%s" % (s,))
        e, v = stats.statistics_1D(x, y)
        ck.equal((len(e), len(v)), (101, 100), "statistics_1D/default bins", "%s" % (s,))
        ck.close([e[0], e[-1]], [min(s), max(s)], "statistics_1D/default range", "%s" % (s,))
        ck.close(sorted(q for q in v if not math.isnan(q)), sorted(y), "statistics_1D/default", "%s" % (s,))
        e, v = stats.statistics_1D(x, y, stat=lambda q: len(q) * 10.0, nx=2, min_x=0, max_x=4)
        ck.close(v, [10.0 * sum(1 for q in s if q < 2), 10.0 * sum(1 for q in s if q >= 2)], "statistics_1D/function", "%s" % (s,))


    # many samples: repeated values, zeros, negative values, values on edges, other containers and types
    for n, nx, (lo, hi), kind in ck.cases("many samples", itertools.product((100, 257, 1000, 70000), (1, 4, 64, 300), ((0.0, 64.0), (-8.0, 8.0), (3.0, 35.0), (None, None)), range(3))):
        if n == 70000 and (nx == 4 or kind == 2):
            continue
        k = np.arange(n)
        x = ((k * 37 + k // 7) % 160) * 0.5 - 10.0
        y = [((k * 11) % 7 - 2.0), ((k * 11) % 5).astype(float) * (k % 3), np.where(k % 4 == 0, 0.0, 1e6 + k % 11)][kind]
        a, b = (x.min() if lo is None else lo), (x.max() if hi is None else hi)
        e = np.linspace(a, b, nx + 1)
        if np.any((np.abs(x[:320, None] - e[None]) < 1e-9) & (x[:320, None] != e[None])):
            continue  # a sample on an edge that is not representable may fall on either side
        at = np.minimum(np.searchsorted(e, x, "right") - 1, nx - 1)
        ok = (x >= a) & (x <= b)
        cnt = np.bincount(at[ok], minlength=nx)
        sm = np.bincount(at[ok], y[ok], minlength=nx)
        kw = dict(nx=nx)
        if lo is not None:
            kw.update(min_x=lo, max_x=hi)
        what = "%d samples in %d bins, range %s, values %d" % (n, nx, (lo, hi), kind)
        for X, Y in ((x, y), (x.tolist(), y.tolist()), (x, y.astype("i4"))):
            ge, gv, gc = utils.bin_1D(X, Y, **kw)
            ck.close(ge, e, "bin_1D/edges", what)
            ck.equal([int(q) for q in gc], cnt.tolist(), "bin_1D/counts", what)
            ck.close(gv, sm, "bin_1D/sums", what, rtol=1e-9, atol=1e-9)
            ck.step()
        with np.errstate(all="ignore"):
            mean = sm / cnt
            ref = {"mean": mean, "sum": sm, "count": cnt.astype(float)}
        order = np.lexsort((y, at))
        order = order[ok[order]]
        start = np.concatenate([[0], np.cumsum(cnt)])
        ys = y[order]
        grp = [ys[start[q]:start[q + 1]] for q in range(nx)]
        ref["min"] = np.array([g[0] if len(g) else math.nan for g in grp])
        ref["max"] = np.array([g[-1] if len(g) else math.nan for g in grp])
        ref["median"] = np.array([median(list(g)) if len(g) else math.nan for g in grp])
        ref["std"] = np.array([math.sqrt(np.mean((g - np.mean(g)) ** 2)) if len(g) else math.nan for g in grp])
        for st, w in ref.items():
            ge, gv = stats.statistics_1D(x, y, stat=st, **kw)
            ck.close(gv, w, "statistics_1D/" + st, what, rtol=1e-9, atol=1e-9)
            ck.step()
        ck.state("many", n, nx, lo, hi, kind)


    # ranges that end at or below zero
    for lo, hi, nx in ck.cases("ranges below zero", itertools.product((-8.0, -4.0, -2.0, None), (0.0, -1.0, 0, None), (1, 4, 8))):
        x = np.array([-7.75, -4.0, -3.0, -2.0, -1.25, -1.0, -0.5, 0.0, 0.5, 3.0, 5.0, -6.0])
        y = np.arange(12.0) * 3 % 7 + 1
        a, b = (x.min() if lo is None else lo), (x.max() if hi is None else hi)
        edges = [F(a) + (F(b) - F(a)) * k / nx for k in range(nx + 1)]
        inside = [[] for _ in range(nx)]
        for xv, yv in zip(x, y):
            k = place(F(xv), edges)
            if k is not None:
                inside[k].append(float(yv))
        kw = {k: v for k, v in (("min_x", lo), ("max_x", hi)) if v is not None}
        what = "range %s..%s in %d bins" % (lo, hi, nx)
        e, v, c = utils.bin_1D(x, y, nx=nx, **kw)
        ck.close(e, [float(q) for q in edges], "bin_1D/edges", what)
        ck.close(v, [math.fsum(q) for q in inside], "bin_1D/sums", what)
        ck.equal([int(q) for q in c], [len(q) for q in inside], "bin_1D/counts", what)
        for st, ref in STAT.items():
            e, v = stats.statistics_1D(x, y, stat=st, nx=nx, **kw)
            ck.close(e, [float(q) for q in edges], "statistics_1D/edges", what)
            ck.close(v, [ref(q) for q in inside], "statistics_1D/" + st, what)
        ck.step(8)
        ck.state("neg", lo, hi, nx)
    # decimal ranges: the ends of the range are the given numbers, and samples exactly there are counted
    for lo, hi in ck.cases("decimal ranges", itertools.product((0.1, -0.7, 1e-3, 2.3, -1e5 / 3), (0.3, 0.7, 1.1, 12.9, 1e6 / 7))):
        if not lo < hi - 0.1:
            continue
        lo, hi = min(lo, hi), max(lo, hi)
        x = np.array([lo, hi, (lo + hi) / 2.0 + 0.0123 * (hi - lo)])
        y = np.array([5.0, 7.0, 11.0])
        for nx in range(1, 61):
            what = "%r..%r in %d bins" % (lo, hi, nx)
            for kw in (dict(min_x=lo, max_x=hi), {}):
                e, v, c = utils.bin_1D(x, y, nx=nx, **kw)
                ck.true(e[0] == lo and e[-1] == hi, "bin_1D/ends", what)
                ck.true(int(np.sum(c)) == 3 and c[0] >= 1 and c[-1] >= 1, "bin_1D/samples at the ends", lambda: "%s: counts %s" % (what, c))
                ck.close(np.sum(v), 23.0, "bin_1D/samples at the ends", what)
                for st in ("count", "sum"):
                    e, v = stats.statistics_1D(x, y, stat=st, nx=nx, **kw)
                    ck.true(e[0] == lo and e[-1] == hi, "statistics_1D/ends", what)
                    ck.close(np.sum(v), 3.0 if st == "count" else 23.0, "statistics_1D/samples at the ends", what)
                ck.step(3)
        ck.state("dec", lo, hi)
    # samples on or next to the reported edges: sums, counts and statistics agree on the bin, and it is the one between those edges
    for lo, hi, nx in ck.cases("samples on edges", itertools.product((0.0, 0.1, -0.7, 2.3), (1.0, 1.1, 3.3, 12.9), (3, 7, 10, 11, 30, 49))):
        if lo >= hi:
            continue
        e0 = np.asarray(utils.bin_1D(np.array([lo, hi]), np.ones(2), nx=nx, min_x=lo, max_x=hi)[0])
        x = np.concatenate([e0, np.nextafter(e0, -np.inf)[1:], np.nextafter(e0, np.inf)[:-1], [lo + k * (hi - lo) / nx for k in range(nx)]])
        y = np.arange(len(x)) * 0.5 + 1
        want = [np.nonzero((x >= a) & ((x < b) if k < nx - 1 else (x <= b)))[0] for k, (a, b) in enumerate(zip(e0, e0[1:]))]
        e, v, c = utils.bin_1D(x, y, nx=nx, min_x=lo, max_x=hi)
        what = "%r..%r in %d bins" % (lo, hi, nx)
        ck.equal([int(q) for q in c], [len(w) for w in want], "bin_1D/counts on edges", what)
        ck.close(v, [y[w].sum() for w in want], "bin_1D/sums on edges", what)
        e, v = stats.statistics_1D(x, y, stat="sum", nx=nx, min_x=lo, max_x=hi)
        ck.close(v, [y[w].sum() for w in want], "statistics_1D/sums on edges", what)
        ck.step(2)
        ck.state("one", lo, hi, nx)
    # an undefined value shows in its own bin and in no other
    for big in ck.cases("one huge value", (1e17, 1e300, -1e20, math.inf)):
        for at in range(6):
            x = np.arange(12) % 6 + 0.5
            y = np.arange(12.0) % 5 + 1.25
            y[at] = big
            e, v, c = utils.bin_1D(x, y, nx=6, min_x=0, max_x=6)
            ck.close(v, [y[i] + y[i + 6] for i in range(6)], "bin_1D/huge value", "%g in bin %d" % (big, at))
            e, v = stats.statistics_1D(x, y, stat="sum", nx=6, min_x=0, max_x=6)
            ck.close(v, [y[i] + y[i + 6] for i in range(6)], "statistics_1D/huge value", "%g in bin %d" % (big, at))
            ck.step(2)
    for n, at, dt in ck.cases("undefined values", itertools.product((6, 40), (0, 3, 5), ("f8", "f4"))):
        x = np.arange(n) % 6 + 0.5
        y = (np.arange(n) % 5 + 1.0).astype(dt)
        y[at] = np.nan
        k = at % 6
        e, v, c = utils.bin_1D(x, y, nx=6, min_x=0, max_x=6)
        good = [math.fsum(float(q) for q in y[x == i + 0.5]) for i in range(6)]
        ck.close(v, good, "bin_1D/undefined", "value %d of %d" % (at, n))
        ck.equal([int(q) for q in c], [int(np.sum(x == i + 0.5)) for i in range(6)], "bin_1D/undefined", "counts")
        for st in ("mean", "sum"):
            e, v = stats.statistics_1D(x, y, stat=st, nx=6, min_x=0, max_x=6)
            ck.true([i for i in range(6) if math.isnan(v[i])] == [k], "statistics_1D/undefined", lambda: "%s: value %d of %d: %s" % (st, at, n, v))
            cen, w = utils.bin_grid(y.reshape(2, -1), x.reshape(2, -1), (1, 1), statistic=st, bins=np.arange(7.0))
            ck.true([i for i in range(6) if math.isnan(w[i])] == [k], "bin_grid/undefined", lambda: "%s: value %d of %d: %s" % (st, at, n, w))
        ck.step(4)
        ck.state("nan", n, at, dt)


def radial(ck, utils):
    shapes = [(1, 1), (1, 4), (3, 2), (3, 3), (4, 5), (2, 7)]
    for shape, c, px, mi in ck.cases("radial bins", itertools.product(shapes, [(0, 0), (1, 1.5), (0.25, -2)], [(1, 1), (0.5, 2), (3, 4), (0.3, 0.3)], range(4))):
        r = np.array([[math.hypot((i - c[0]) * px[0], (j - c[1]) * px[1]) for j in range(shape[1])] for i in range(shape[0])])
        img = np.array([[(5 * i + 3 * j * j) % 13 + 0.5 for j in range(shape[1])] for i in range(shape[0])])
        keep = np.ones(shape, bool) if mi == 0 else np.array([[(i * 3 + j + mi) % (mi + 1) != 0 or (i, j) == (0, 0) for j in range(shape[1])] for i in range(shape[0])])
        kw = {} if mi == 0 else {"mask": keep}
        flat = [(float(a), float(b)) for a, b, k in zip(r.ravel(), img.ravel(), keep.ravel()) if k]
        before = freeze(img, r, keep)
        for bins in (None, np.array([0.0, 0.75, 2.0, 5.0]), np.array([0.6, 1.1, 30.0])):
            for st in ("mean", "sum", "count", "median", "max"):
                cen, val = utils.bin_grid(img, r, px, statistic=st, bins=bins, **kw)
                what = "%s center %s pixels %s mask %d bins %s" % (shape, c, px, mi, bins)
                res = math.hypot(*px)
                if bins is None:
                    # equally wide bins of one pixel diagonal, starting half a diagonal below, covering every pixel
                    n = len(cen)
                    e = [float(cen[0]) - res / 2 + res * k for k in range(n + 1)] if n else [0, 0]
                    ck.true(n >= 1 and abs(e[0] - (r.min() - res / 2)) < 1e-9, "bin_grid/default start", what)
                    ck.close(cen, [(a + b) / 2 for a, b in zip(e, e[1:])], "bin_grid/default spacing", what)
                    ck.true(e[-1] >= r.max() - 1e-9, "bin_grid/default covers all pixels", lambda: "%s: last edge %r, largest radius %r" % (what, e[-1], r.max()))
                    ck.true(e[-2] <= r.max() + 1e-9, "bin_grid/default no empty bins", what)
                else:
                    e = [float(q) for q in bins]
                    ck.close(cen, [(a + b) / 2 for a, b in zip(e, e[1:])], "bin_grid/centers", what)
                if any(abs(a - q) < 1e-9 for a, _ in flat for q in e) and bins is None:
                    if st == "count":
                        ck.equal(int(np.nansum(val)), len(flat), "bin_grid/every pixel once", what)
                    continue  # a radius on a computed edge may fall on either side
                inside = [[] for _ in range(len(e) - 1)]
                for a, b in flat:
                    k = place(a, e)
                    if k is not None:
                        inside[k].append(b)
                ck.close(val, [STAT[st](q) for q in inside], "bin_grid/" + st, what)
                ck.step()
        ck.true(unchanged(before, img, r, keep), "bin_grid/input modified", "%s" % (shape,))
        ck.state("bg", shape, c, px, mi)
    for shape, px, mi, dt in ck.cases("large radial bins", itertools.product([(40, 61), (300, 5), (128, 120)], [(1, 1), (0.5, 2)], range(3), ("f8", "u1", "u2", "i4"))):
        i, j = np.indices(shape)
        r = np.hypot((i - 17.3) * px[0], (j - 2.7) * px[1])
        img = ((i * 7 + j * j * 3) % 251).astype(dt)
        keep = [np.ones(shape, bool), (i * 5 + j) % 3 != 0, (i + j) % 11 == 0][mi]
        kw = {} if mi == 0 else {"mask": keep}
        e = np.linspace(0.37, r.max() + 1.1, 40)
        at = np.searchsorted(e, r[keep], "right") - 1
        ok = at >= 0
        cnt = np.bincount(at[ok], minlength=39)[:39]
        sm = np.bincount(at[ok], img[keep].astype(float)[ok], minlength=39)[:39]
        with np.errstate(all="ignore"):
            ref = {"mean": sm / cnt, "sum": sm, "count": cnt.astype(float)}
        what = "%s %s image, pixels %s, mask %d" % (shape, dt, px, mi)
        for st, w in ref.items():
            cen, val = utils.bin_grid(img, r, px, statistic=st, bins=e, **kw)
            ck.close(val, w, "bin_grid/" + st, what, rtol=1e-9)
            ck.close(cen, (e[1:] + e[:-1]) / 2, "bin_grid/centers", what)
            ck.step()
        cen, val = utils.bin_grid(img, r, px, statistic="count", **kw)
        ck.equal(int(np.nansum(val)), int(keep.sum()), "bin_grid/every pixel once", what)
        cen, val = utils.bin_grid(img, r, px, statistic="sum", **kw)
        ck.close(np.nansum(val), float(img[keep].astype(float).sum()), "bin_grid/every pixel once", what)
        ck.state("lbg", shape, px, mi, dt)


def ref_snip(y, e_off, e_lin, e_quad, xmin, xmax, epsilon, width, dec, binning, con, iters, thr):
    """None when a window border falls on a rounding boundary"""
    n = len(y)
    std = 2 * math.sqrt(2 * math.log(2))
    lead = (con - 1) // 2  # centred moving average with zeros outside
    # scipy 'same': output k is sum of y[k+lead-j], j=0..con-1
    sm = [math.fsum(y[k + lead - j] for j in range(con) if 0 <= k + lead - j < n) / con for k in range(n)]
    win = []
    for k in range(n):
        p = k * (binning if binning is not None else 1)
        e = e_off + p * e_lin + p * p * e_quad
        f = std * math.sqrt(max(0.0, (e_off / std) ** 2 + e * epsilon * e_lin))
        w = width * f / e_lin
        win.append(w / 2 if binning else w)
    b = [math.log(math.log(v + 1) + 1) for v in sm]
    lo, hi = max(xmin, 0), min(xmax, n - 1)
    edge = False

    def once(b, win):
        nonlocal edge
        out = []
        for k in range(n):
            q = []
            for p in (k - win[k], k + win[k]):
                if lo < p < hi and abs(p - round(p)) < 1e-8 and win[k] != 0:
                    edge = True
                q.append(int(min(max(p, lo), hi)))
            m = (b[q[0]] + b[q[1]]) / 2
            out.append(min(b[k], m))
        return out
    for _ in range(iters):
        b = once(b, win)
    while max(win) >= thr:
        b = once(b, win)
        win = [w / dec for w in win]
    return None if edge else [math.exp(math.exp(v) - 1) - 1 for v in b]


def spectra(n):
    out = {"flat": [20.0] * n, "zero": [0.0] * n, "slope": [5.0 + 0.5 * k for k in range(n)],
           "peak": [3 + 400 * math.exp(-((k - n / 2) / 3.0) ** 2) for k in range(n)],
           "two": [50 * math.exp(-k / 30.0) + 90 * math.exp(-((k - n / 4) / 2.0) ** 2) + 200 * math.exp(-((k - 3 * n / 4) / 4.0) ** 2) for k in range(n)],
           "counts": [float((k * k * 7 + 3 * k) % 17) for k in range(n)], "below zero": [[0.4, -0.3, 2.0, -0.2, 0.0, -0.45, 7.0][k % 7] if k % 20 < 12 else -0.25 for k in range(n)],
           "huge": [2e9 + 3e10 * math.exp(-((k - n / 2) / 3.0) ** 2) for k in range(n)],
           "spike": [0.0] * (n // 3) + [1000.0] + [0.0] * (n - n // 3 - 1)}
    return out


def snip(ck, B):
    base = dict(e_off=0.0, e_lin=0.0123, e_quad=0.0, xmin=0, xmax=4096, epsilon=2.96, width=0.5, decrease_factor=math.sqrt(2), spectral_binning=None, con_val=None, iter_num=None, width_threshold=0.5)
    alts = [{}] + [{k: v} for k, vs in dict(e_off=[0.11, -0.05], e_lin=[0.031, 1.0, 12.7], e_quad=[1e-6], xmin=[5], xmax=[30, 7], epsilon=[3.61], width=[0.2, 1.3], decrease_factor=[2.0, 1.2],
                                            spectral_binning=[2, 1], con_val=[1, 2, 7, 8, 11], iter_num=[0, 1, 4, 12], width_threshold=[0.1, 3.0]).items() for v in vs]
    alts += [{"xmin": 3, "xmax": 25}, {"spectral_binning": 2, "con_val": 5}, {"spectral_binning": 3, "iter_num": 5}, {"e_off": 0.2, "e_quad": 1e-5, "width": 0.7}, {"e_lin": 7.3, "e_quad": 0.01, "e_off": 3.1},
             {"e_lin": 1.7, "e_quad": -0.003}, {"xmin": -4, "xmax": 39}, {"xmin": 6, "xmax": 5000, "width": 2.1}]
    lens = (1, 2, 3, 7, 40, 61, 257)
    used = 0
    for n, name, alt in ck.cases("snip", itertools.product(lens, sorted(spectra(4)), alts)):
        o = dict(base, **alt)
        y = np.array(spectra(n)[name])
        binned = o["spectral_binning"] is not None
        con = o["con_val"] if o["con_val"] is not None else (5 if binned else 3)
        it = o["iter_num"] if o["iter_num"] is not None else (5 if binned else 3)
        before = freeze(y)
        kw = {k: v for k, v in alt.items() if k not in ("e_off", "e_lin", "e_quad")}
        if n < con:
            continue
        got = np.asarray(B.snip_method(y, o["e_off"], o["e_lin"], o["e_quad"], **kw))
        ck.true(unchanged(before, y), "snip/input modified", name)
        ck.equal(got.shape, (n,), "snip/shape", "%s %s" % (name, alt))
        want = ref_snip(y.tolist(), o["e_off"], o["e_lin"], o["e_quad"], o["xmin"], o["xmax"], o["epsilon"], o["width"], o["decrease_factor"], o["spectral_binning"], con, it, o["width_threshold"])
        if want is not None:
            used += 1
            ck.close(got, want, "snip/value", "%d channels %s %s" % (n, name, alt), rtol=1e-8 if name != "huge" else 1e-7, atol=1e-8)
        lead = (con - 1) // 2
        sm = [math.fsum(y[k + lead - j] for j in range(con) if 0 <= k + lead - j < n) / con for k in range(n)]
        ck.true(all(g <= s + 1e-8 * (1 + s) and (g >= -1e-9 or name == "below zero") for g, s in zip(got, sm)), "snip/above the spectrum", "%d channels %s %s" % (n, name, alt))
        if name in ("counts", "flat", "slope"):
            yi = np.round(y).astype(int)
            ck.close(B.snip_method(yi, o["e_off"], o["e_lin"], o["e_quad"], **kw), B.snip_method(yi.astype(float), o["e_off"], o["e_lin"], o["e_quad"], **kw), "snip/integers", name)
        ck.close(B.snip_method(list(y), o["e_off"], o["e_lin"], o["e_quad"], **kw), got, "snip/list", name)
        ck.state("snip", n, name, sorted(alt.items()))
        ck.step()
    ck.note("snip: cases compared with the reference: see states; window borders on a rounding boundary only checked for bounds")


def lsq_rows(w, order):
    """exact least squares weights for value, d/drow, d/dcol at the window centre"""
    h = w // 2
    pts = [(r, c) for r in range(-h, h + 1) for c in range(-h, h + 1)]
    ex = [(k - n, n) for k in range(order + 1) for n in range(k + 1)]
    A = np.array([[float(r) ** a * float(c) ** b for a, b in ex] for r, c in pts])
    P = np.linalg.solve(A.T @ A, A.T)
    return pts, P[0], P[ex.index((1, 0))] if order else None, P[ex.index((0, 1))] if order else None


def sgolay(ck, S):
    images = {}
    shape = (11, 13)
    for a, b in [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (3, 0), (1, 2), (0, 4)]:
        images["poly%d%d" % (a, b)] = np.array([[1 + (0.3 * i) ** a * (0.2 * j) ** b for j in range(shape[1])] for i in range(shape[0])])
    images["pattern"] = np.array([[float((i * i * 5 + j * 3 + i * j) % 19) for j in range(shape[1])] for i in range(shape[0])])
    d = np.zeros(shape)
    d[5, 6] = 1
    images["delta"] = d
    images["const"] = np.full(shape, 7.0)
    images["raised"] = 3e6 + images["pattern"]
    images["faint"] = 1e-9 * images["pattern"]
    for name, w, order in ck.cases("smoothing", itertools.product(sorted(images), (3, 5, 7), (1, 2, 3))):
        if order >= w - 1:
            continue
        im = images[name]
        before = freeze(im)
        pts, p0, pr, pc = lsq_rows(w, order)
        h = w // 2
        outs = {None: np.asarray(S.sgolay2d(im, w, order))}
        outs["col"] = np.asarray(S.sgolay2d(im, w, order, derivative="col"))
        outs["row"] = np.asarray(S.sgolay2d(im, w, order, derivative="row"))
        both = S.sgolay2d(im, w, order, derivative="both")
        ck.close(both[0], outs["row"], "smoothing/both", "row derivative", rtol=1e-9, atol=1e-9)
        ck.close(both[1], outs["col"], "smoothing/both", "column derivative", rtol=1e-9, atol=1e-9)
        ck.true(unchanged(before, im), "smoothing/input modified", name)
        for k, wt in ((None, p0), ("col", pr), ("row", pc)):
            o = outs[k]
            ck.equal(o.shape, im.shape, "smoothing/shape", "%s window %d" % (name, w))
            for i in range(h, shape[0] - h):
                for j in range(h, shape[1] - h):
                    v = math.fsum(q * im[i + r, j + c] for q, (r, c) in zip(wt, pts))
                    ck.true(abs(o[i, j] - v) < 1e-9 * np.max(np.abs(im)), "smoothing/value", lambda: "%s window %d order %d derivative %s pixel %s: %r, is %r" % (name, w, order, k, (i, j), o[i, j], v))
            if name == "const":
                ck.close(o, np.full(shape, 7.0 if k is None else 0.0), "smoothing/constant", "derivative %s" % k, rtol=1e-9, atol=1e-8)
        if name in ("pattern", "const"):
            for dt in ("uint32", "int32", "uint16", "int16", "uint8"):
                top = np.iinfo(dt).max - int(np.max(im)) - 1
                v = (im.astype(np.int64) + top).astype(dt)
                ck.close(S.sgolay2d(v, w, order), S.sgolay2d(v.astype(float), w, order), "smoothing/pixel type", "%s at the limit of %s" % (name, dt), rtol=1e-9, atol=1e-9)
                ck.step()
        if name in ("pattern", "const", "delta"):
            for dt in ("uint8", "uint16", "int32", "float32"):
                for k in (None, "col", "row"):
                    kw = {} if k is None else {"derivative": k}
                    ck.close(S.sgolay2d(im.astype(dt), w, order, **kw), outs[k], "smoothing/pixel type", "%s %s derivative %s" % (name, dt, k), rtol=1e-6, atol=1e-5)
                    ck.step()
        ck.state("sg", name, w, order)
        ck.step(4)
    for (rows, cols), w, order, k in ck.cases("smoothing sizes", itertools.product([(7, 7), (5, 40), (40, 5), (64, 30), (3, 3), (9, 300), (30, 64)], (3, 5, 9, 11), (1, 2, 4), (None, "col", "row"))):
        if order >= w - 1 or w > min(rows, cols):
            continue
        i, j = np.indices((rows, cols))
        im = ((i * i * 5 + j * 3 + i * j) % 19) * 1.0 + 100
        pts, p0, pr, pc = lsq_rows(w, order)
        wt = {None: p0, "col": pr, "row": pc}[k]
        h = w // 2
        o = np.asarray(S.sgolay2d(im, w, order) if k is None else S.sgolay2d(im, w, order, derivative=k))
        want = sum(q * im[h + r:rows - h + r, h + c:cols - h + c] for q, (r, c) in zip(wt, pts))
        ck.equal(o.shape, im.shape, "smoothing/shape", "%s window %d" % ((rows, cols), w))
        ck.close(o[h:rows - h, h:cols - h], want, "smoothing/value", "%s window %d order %d derivative %s" % ((rows, cols), w, order, k), rtol=1e-8, atol=1e-6)
        ck.state("sgs", rows, cols, w, order, k)
        ck.step()
    # a plane that rises along both axes comes back unchanged up to the very edge
    for (rows, cols), w, order, (a, b) in ck.cases("rising planes", itertools.product([(9, 9), (15, 40), (30, 12)], (3, 5, 7), (1, 2, 3), [(1.0, 1.0), (0.5, 2.0), (3.0, 0.0), (0.0, 0.25)])):
        if order >= w - 1:
            continue
        i, j = np.indices((rows, cols))
        im = 4.0 + a * i + b * j
        ck.close(S.sgolay2d(im, w, order), im, "smoothing/plane", "%s window %d order %d slopes %s" % ((rows, cols), w, order, (a, b)), rtol=1e-8, atol=1e-8)
        gr, gc = S.sgolay2d(im, w, order, derivative="both")
        slopes = sorted([float(np.mean(np.abs(gr))), float(np.mean(np.abs(gc)))])
        ck.close(slopes, sorted([a, b]), "smoothing/plane slopes", "%s window %d order %d slopes %s" % ((rows, cols), w, order, (a, b)), rtol=1e-7, atol=1e-7)
        ck.close([np.ptp(gr), np.ptp(gc)], [0, 0], "smoothing/plane slopes", "not the same everywhere", atol=1e-7)
        ck.state("plane", rows, cols, w, order, a, b)
        ck.step(2)
    for w in ck.cases("smoothing refused", (2, 4, 6)):
        ck.raises(lambda: S.sgolay2d(images["const"], w, 1), ValueError, "smoothing/even window", "%d" % w)
    for w, o in ck.cases("smoothing order", [(w, o) for w in (3, 5, 7) for o in range(w, 2 * w)]):
        if w * w < (o + 1) * (o + 2) / 2:
            ck.raises(lambda: S.sgolay2d(images["const"], w, o), ValueError, "smoothing/order", "%d %d" % (w, o))
