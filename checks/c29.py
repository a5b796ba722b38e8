"""C29 - peak finding and calibration: exact selection, exact refinement, true geometry recovered."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from vc.harness import freeze, unchanged


def run(ck):
    from skbeam.core import calibration, feature
    from skbeam.core.fitting import funcs
    quad(ck, funcs, feature)
    windows(ck, feature)
    refine(ck, feature)
    largest(ck, feature)
    heights(ck, feature)
    distance(ck, calibration)
    center(ck, calibration)


def solve3(M, v):
    M = [list(r) + [b] for r, b in zip(M, v)]
    n = 3
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            return None
        M[i], M[p] = M[p], M[i]
        M[i] = [q / M[i][i] for q in M[i]]
        for r in range(n):
            if r != i:
                M[r] = [a - M[r][i] * b for a, b in zip(M[r], M[i])]
    return [M[i][3] for i in range(n)]


def ref_quad(xs, ys):
    """exact least squares parabola; (curvature, centre, height), R2"""
    xs, ys = [F(x) for x in xs], [F(y) for y in ys]
    S = [sum(x ** k for x in xs) for k in range(5)]
    T = [sum(y * x ** k for x, y in zip(xs, ys)) for k in range(3)]
    s = solve3([[S[4], S[3], S[2]], [S[3], S[2], S[1]], [S[2], S[1], F(len(xs))]], [T[2], T[1], T[0]])
    if s is None or s[0] == 0:
        return None
    a, b, c = s
    err = sum((a * x * x + b * x + c - y) ** 2 for x, y in zip(xs, ys))
    m = sum(ys) / len(ys)
    tot = sum((y - m) ** 2 for y in ys)
    if tot == 0:
        return None
    return (float(a), float(-b / (2 * a)), float(c - b * b / (4 * a))), float(1 - err / tot)


def quad(ck, funcs, feature):
    al = (0.0, 1.0, 4.0)
    grids = [[0.0, 1.0, 2.0], [-1.0, 0.5, 3.0], [2.0, 3.0, 4.0, 5.0], [0.0, 0.5, 2.0, 2.5, 4.0]]
    for g, ys in ck.cases("parabolas", [(g, y) for g in grids for y in itertools.product(al, repeat=len(g))]):
        ref = ref_quad(g, ys)
        if ref is None or abs(ref[0][0]) < 1e-6:
            continue
        x, y = np.array(g), np.array(ys)
        before = freeze(x, y)
        b, r2 = funcs.fit_quad_to_peak(x, y)
        ck.close(list(b), list(ref[0]), "parabola", "x=%s y=%s" % (g, ys), rtol=1e-6, atol=1e-7)
        ck.close(r2, ref[1], "parabola/R2", "x=%s y=%s" % (g, ys), rtol=1e-7, atol=1e-9)
        ck.true(unchanged(before, x, y), "parabola/input modified", "")
        ck.close(feature.refine_quadratic(x, y), [ref[0][1], ref[0][2]], "refine quadratic", "x=%s y=%s" % (g, ys), rtol=1e-6, atol=1e-7)
        for th in (-1.0, 0.3, 0.9, 1.5):
            if abs(th - ref[1]) < 1e-6:
                continue
            if ref[1] < th:
                ck.raises(lambda: feature.refine_quadratic(x, y, Rval_thresh=th), feature.PeakRejection, "refine/rejected", "R2 %s threshold %s" % (ref[1], th))
            else:
                ck.close(feature.refine_quadratic(x, y, Rval_thresh=th), [ref[0][1], ref[0][2]], "refine/accepted", "R2 %s threshold %s" % (ref[1], th), rtol=1e-6, atol=1e-7)
        ck.state("q", g, ys)
        ck.step(2)
    for n in ck.cases("too few", (1, 2)):
        ck.raises(lambda: funcs.fit_quad_to_peak(np.arange(n) * 1.0, np.arange(n) * 1.0), Exception, "parabola/few points", "%d points" % n)


def windows(ck, feature):
    """the refine function sees exactly the samples around each candidate, in candidate order"""
    cases = [(n, w, c) for n in range(1, 7) for w in range(0, 5) for k in range(0, 3) for c in itertools.product(range(n), repeat=k)]
    for n, w, cands in ck.cases("windows", cases):
        x = np.array([0.5 * k * k + k for k in range(n)])
        y = np.array([(7 * k) % 5 + 0.25 for k in range(n)])
        for rej in ((), (0,), (1,), (0, 1)):
            seen = []

            def fn(a, b, tag=None):
                seen.append((np.asarray(a).tolist(), np.asarray(b).tolist(), tag))
                if len(seen) - 1 in rej:
                    raise feature.PeakRejection()
                return float(len(seen)), float(np.sum(b))
            before = freeze(x, y)
            for cont in (list, tuple, lambda q: np.array(q, dtype=int)):
                seen.clear()
                r = feature.peak_refinement(x, y, cont(cands), w, fn, refine_args={"tag": 7})
                want = [(x[max(0, c - w):c + w + 1].tolist(), y[max(0, c - w):c + w + 1].tolist(), 7) for c in cands]
                ck.equal(seen, want, "window", "%d samples window %d candidates %s" % (n, w, cands))
                kept = [k for k in range(len(cands)) if k not in rej]
                ck.equal(len(r), 2, "window/two results", "candidates %s rejected %s" % (cands, rej))
                ck.close(r[0], [k + 1.0 for k in kept], "window/locations", "candidates %s rejected %s" % (cands, rej))
                ck.close(r[1], [math.fsum(want[k][1]) for k in kept], "window/heights", "candidates %s rejected %s" % (cands, rej))
                ck.step()
            ck.true(unchanged(before, x, y), "window/input modified", "")
        ck.state("w", n, w, cands)


    # only a rejection drops a candidate: any other failure of the refinement reaches the caller
    for n, k, exc in ck.cases("failing refinement", itertools.product((1, 2, 5), range(5), (ValueError, RuntimeError, ZeroDivisionError, TypeError, KeyError, np.linalg.LinAlgError))):
        if k >= n:
            continue
        x = np.arange(9.0)

        def bad(a, b, calls=[]):
            if float(a[0]) == float(k):
                raise exc("no")
            return float(a[0]), 1.0
        ck.raises(lambda: feature.peak_refinement(x, x * 2, list(range(n)), 0, bad), exc, "refinement failure", "%s for candidate %d of %d" % (exc.__name__, k, n))
        ck.step()
    for n, w, step in ck.cases("large windows", itertools.product((300, 1000, 70000), (0, 1, 6, 127, 128, 300), (1, 97))):
        k = np.arange(n, dtype=np.int64)
        x, y = k * 0.5 - 20, ((k * 7919) % 1009).astype(float)
        cands = list(range(0, n, step))[: 400] + [n - 1, n - 2, 0]
        seen = []

        def fn2(a, b):
            seen.append((float(a[0]), float(a[-1]), len(a), float(b[0]), float(b[-1]), len(b)))
            return float(a[0]), float(np.sum(b))
        r = feature.peak_refinement(x, y, cands, w, fn2)
        cut = [(max(0, c - w), min(n, c + w + 1)) for c in cands]
        ck.true(seen == [(x[a], x[b - 1], b - a, y[a], y[b - 1], b - a) for a, b in cut], "window/large", "%d samples window %d" % (n, w))
        ck.close(r[0], [x[a] for a, b in cut], "window/large", "locations")
        ck.close(r[1], [math.fsum(y[a:b]) for a, b in cut], "window/large", "heights")
        ck.step()
        ck.state("large", n, w, step)


def refine(ck, feature):
    n = 120
    for c, s, w in ck.cases("gaussian peaks", itertools.product([20.0, 20.3, 60.5, 90.77], (3.0, 8.0), (3, 6, 10))):
        for grid in (np.arange(n) * 1.0, 0.1 * np.arange(n) - 4, np.arange(n)):
            step = float(grid[1] - grid[0])
            cc = float(grid[0]) + c * step
            y = 50 * np.exp(-((grid - cc) / (s * step)) ** 2)
            k = int(round(c))
            for cand in (k, k - 1, k + 1):
                loc, h = feature.peak_refinement(grid, y, [cand], w, feature.refine_log_quadratic)
                ck.close([loc[0], h[0]], [cc, 50.0], "log refinement", "centre %s width %s window %s candidate %s" % (cc, s, w, cand), rtol=1e-5, atol=1e-6)
                ck.step()
            ck.close(feature.refine_log_quadratic(grid[k - w:k + w + 1], y[k - w:k + w + 1]), [cc, 50.0], "log refinement", "direct", rtol=1e-5, atol=1e-6)
            ck.raises(lambda: feature.refine_log_quadratic(grid[k - w:k + w + 1], y[k - w:k + w + 1], Rval_thresh=1.1), feature.PeakRejection, "log refinement/rejected", "")
        ck.state("gp", c, s, w)


def largest(ck, feature):
    vals = (1.0, 3.0, 2.0)
    for ys in ck.cases("largest", [y for n in range(1, 6) for y in itertools.product(vals, repeat=n)]):
        y = np.array(ys)
        n = len(ys)
        subs = [s for k in range(0, n + 1) for s in itertools.combinations(range(n), k)]
        for c in subs:
            for N in range(1, n + 2):
                for cont in (list, lambda q: np.array(q, dtype=int)):
                    r = feature.filter_n_largest(y, cont(c), N)
                    got = [int(v) for v in np.asarray(r)]
                    k = min(N, len(c))
                    ck.equal(len(got), k, "largest/number", "y=%s candidates %s N=%d" % (ys, c, N))
                    ck.true(len(set(got)) == k and set(got) <= set(c), "largest/members", lambda: "y=%s candidates %s N=%d: %s" % (ys, c, N, got))
                    ck.equal([ys[v] for v in got], sorted((ys[v] for v in c), reverse=True)[:k], "largest/descending", "y=%s candidates %s N=%d" % (ys, c, N))
                    ck.step()
        for N in (0, -1, -5):
            ck.raises(lambda: feature.filter_n_largest(y, [0], N), ValueError, "largest/refused", "N=%d" % N)
        ck.state("lg", ys)


    for n, m, N, dt in ck.cases("largest of many", itertools.product((300, 5000), (1, 3, 9), (1, 2, 254, 255, 256, 257, 299, 300, 6000), ("f8", "u1", "u2", "i2"))):
        k = np.arange(n, dtype=np.int64)
        y = ((k * 7919 + 13) % 251).astype(dt) if dt == "u1" else ((k * 7919 + 13) % 4999).astype(dt)
        c = list(range(n - 1, -1, -m)) if m == 3 else list(range(0, n, m))
        got = [int(v) for v in np.asarray(feature.filter_n_largest(y, c, N))]
        q = min(N, len(c))
        ck.true(len(got) == q and len(set(got)) == q and set(got) <= set(c), "largest/members", "%d candidates N=%d %s" % (len(c), N, dt))
        ck.equal([int(y[v]) for v in got], sorted((int(y[v]) for v in c), reverse=True)[:q], "largest/descending", "%d candidates N=%d %s" % (len(c), N, dt))
        for w in (1, 40, 200):
            th = 240 if dt == "u1" else 4500
            want = [v for v in c if int(y[max(0, v - w):v + w + 1].max()) - int(y[max(0, v - w):v + w + 1].min()) > th]
            if N == 1:
                ck.equal([int(v) for v in feature.filter_peak_height(y, c, th, window=w)], want, "heights/many", "%d candidates window %d %s" % (len(c), w, dt))
        ck.step()
        ck.state("many", n, m, N, dt)
    # heights that differ by little, and huge integers
    for n, N, (kind, base, d) in ck.cases("close heights", itertools.product((2, 5, 40), (1, 2, 4, 39, 40), (("f8", 1.0, 2.0 ** -50), ("f8", 1e6, 1e-8), ("i8", 2 ** 60, 1),
                                                                                               ("f8", -5.0, 1e-14), ("f4", 1.0, 2.0 ** -20), ("u8", 2 ** 63, 1)))):
        for mul in (1, 3, 7, n - 1):
            y = np.array([base + ((mul * k) % (n + 1)) * d for k in range(n)], dtype=kind)
            ys = y.tolist()
            for c in (list(range(n)), list(range(n))[::-1], list(range(0, n, 2))):
                got = [int(v) for v in np.asarray(feature.filter_n_largest(y, c, N))]
                ck.equal([ys[v] for v in got], sorted((ys[v] for v in c), reverse=True)[:N], "largest/close", "%s %s steps of %s N=%d" % (kind, base, d, N))
                ck.step()
        ck.state("close", n, N, kind, base)


def heights(ck, feature):
    vals = (0.0, 1.0, 3.0)
    for ys in ck.cases("heights", [y for n in range(1, 6) for y in itertools.product(vals, repeat=n)]):
        y = np.array(ys)
        n = len(ys)
        for c in [tuple(range(n)), tuple(range(n))[::-1], (), (n - 1,), (0,)]:
            for w in (0, 1, 2, 9):
                for th in (-1.0, 0.0, 0.5, 1.0, 2.5):
                    for yy in (y, list(ys)):
                        r = feature.filter_peak_height(yy, list(c), th, window=w)
                        want = [k for k in c if max(ys[max(0, k - w):k + w + 1]) - min(ys[max(0, k - w):k + w + 1]) > th]
                        ck.equal([int(v) for v in np.asarray(r)], want, "heights", "y=%s candidates %s threshold %s window %s" % (ys, c, th, w))
                    ck.step()
        ck.equal([int(v) for v in feature.filter_n_largest(y, feature.filter_peak_height(y, [0, n - 1], 1e9), 2)], [], "heights/none left", "y=%s" % (ys,))
        r = feature.filter_peak_height(y, list(range(n)), 0.5)
        ck.equal([int(v) for v in r], [k for k in range(n) if max(ys[max(0, k - 5):k + 6]) - min(ys[max(0, k - 5):k + 6]) > 0.5], "heights/default window", "y=%s" % (ys,))
        ck.state("h", ys)
    # without a window the surroundings reach five samples to either side, no more and no less
    for n, k, d in ck.cases("default window", [(n, k, d) for n in (9, 13) for k in range(n) for d in range(n)]):
        y = np.full(n, 2.0)
        y[d] = 0.0
        want = [k] if abs(k - d) <= 5 else []
        ck.equal([int(v) for v in feature.filter_peak_height(y, [k], 1.0)], want, "heights/default window", "dip at %d, candidate %d of %d" % (d, k, n))
        ck.step()


def distance(ck, C):
    names = sorted(C.calibration_standards)
    for name, lam, D in ck.cases("detector distance", itertools.product(names, (0.18, 0.12, 0.3), (120.0, 200.0, 311.0))):
        cal = C.calibration_standards[name]
        tt = [t for t in np.asarray(cal.convert_2theta(lam)).tolist() if not math.isnan(t) and 0.02 < t < 1.2]
        if len(tt) < 3:
            continue
        rs = [D * math.tan(t) for t in tt]
        gap = min(b - a for a, b in zip([0] + rs, rs[1:] + [rs[-1] + 1]) if b > a)
        rs_all = [D * math.tan(t) for t in tt]
        top = rs[min(len(rs) - 1, 5)]
        near = min([b - a for a, b in zip(rs, rs[1:7])] + [rs[0]])
        wd = near / 12
        n = int(top * 1.02 / (wd / 8))
        if n > 40000 or gap <= 0:
            continue
        x = np.linspace(0, top + near / 2, n)
        y = np.zeros(n)
        for r in rs_all:
            y = y + 100 * np.exp(-((x - r) / wd) ** 2)
        if y.max() > 101:
            continue
        before = freeze(x, y)
        count = sum(1 for r in rs_all if r < x[-1] - 3 * wd)
        for mp in {1, 2, min(3, count), count, count + 4}:
            d, sd = C.estimate_d_blind(name, lam, x, y, 5, mp, 0.1)
            ck.true(abs(d - D) < 1e-3 * D and sd < 1e-3 * D, "distance", lambda: "%s wavelength %s distance %s, %d peaks: %s +- %s" % (name, lam, D, mp, d, sd))
            ck.step()
            # small bumps in between are no rings: the threshold is relative to the highest ring
            if rs_all[0] > 8 * wd:
                yb = y + 4 * np.exp(-((x - rs_all[0] / 2) / wd) ** 2)
                d, sd = C.estimate_d_blind(name, lam, x, yb, 5, mp, 0.1)
                ck.true(abs(d - D) < 1e-3 * D and sd < 1e-3 * D, "distance/threshold", lambda: "%s wavelength %s distance %s, %d peaks and a bump: %s +- %s" % (name, lam, D, mp, d, sd))
                for fac in (1e-3, 1e4):
                    d2, sd2 = C.estimate_d_blind(name, lam, x, yb * fac, 5, mp, 0.1)
                    ck.close(d2, d, "distance/scale", "intensities times %g" % fac, rtol=1e-6)
        ck.true(unchanged(before, x, y), "distance/input modified", name)
        ck.state("d", name, lam, D)
    # a pattern whose rings are off by known factors: the result is mean and standard deviation of the single estimates
    name = names[0]
    for name, k in ck.cases("distance spread", itertools.product(["Si"], range(1, 9))):
        tt = np.asarray(C.calibration_standards[name].convert_2theta(0.18))[:8]
        fac = [1.0, 1.01, 0.985, 1.02, 0.99, 1.005, 1.015, 0.995]
        rs = [200 * f * math.tan(t) for f, t in zip(fac, tt)]
        x = np.linspace(0, max(rs) * 1.2137, 2100)
        y = sum(100 * np.exp(-((x - r) / 0.3) ** 2) for r in rs)
        d, sd = C.estimate_d_blind(name, 0.18, x, y, 5, k, 0.1)
        e = [200 * f for f in fac[:k]]
        m = math.fsum(e) / k
        ck.close([d, sd], [m, math.sqrt(math.fsum((q - m) ** 2 for q in e) / k)], "distance/mean and deviation", "%d peaks" % k, rtol=1e-4, atol=1e-3)
    # every line of a standard shown, further peaks beyond the last: all lines are used and nothing else
    for name, extra, mp in ck.cases("all lines shown", itertools.product(names, (0, 1, 3), (None, 1, 2, 50))):
        cal = C.calibration_standards[name]
        lines = np.asarray(cal.convert_2theta(0.18)).tolist()
        if len(lines) > 12 or any(math.isnan(t) for t in lines) or len(lines) < 2:
            continue
        fac = [1.0 + 0.003 * ((5 * k) % 7 - 3) for k in range(len(lines))]
        rs = [900 * f * math.tan(t) for f, t in zip(fac, lines)]
        if any(b - a < 2 for a, b in zip(rs, rs[1:])) or max(lines) > 1.3:
            continue
        rs += [rs[-1] + 5.0 * (k + 1) for k in range(extra)]
        x = np.arange(0, rs[-1] + 6.1, 0.05)
        y = sum(100 * np.exp(-((x - r) / 0.3) ** 2) for r in rs)
        k = min(len(lines), 60 if mp is None else mp)
        d, sd = C.estimate_d_blind(name, 0.18, x, y, 5, 60 if mp is None else mp, 0.1)
        e = [900 * f for f in fac[:k]]
        m = math.fsum(e) / k
        ck.close([d, sd], [m, math.sqrt(math.fsum((q - m) ** 2 for q in e) / k)], "distance/all lines", "%s, %d peaks beyond its %d lines, at most %s" % (name, extra, len(lines), mp), rtol=1e-4, atol=1e-3)
        ck.step()
        ck.state("lines", name, extra, mp)


def center(ck, C):
    """the centre of noiseless rings is recovered, wherever it lies relative to the estimate"""
    shifts = [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (2, -1), (-1, 2), (-2, -2), (3, 0), (0.5, -1.5)]
    sizes = [((300, 301), (1, 1)), ((280, 340), (1, 1)), ((300, 300), (2, 2)), ((300, 240), (1.0, 1.5))]
    if ck.thorough:
        shifts += [(a, b) for a in (-2, -1, 0, 1, 2) for b in (-2, -1, 0, 1, 2) if (a, b) not in shifts]
    for (shape, px), sh in ck.cases("beam centre", itertools.product(sizes, shifts), limit=120):
        true = (shape[0] / 2 + 3.0, shape[1] / 2 - 4.0)
        ii, jj = np.mgrid[:shape[0], :shape[1]]
        r = np.hypot((ii - true[0]) * px[0], (jj - true[1]) * px[1])
        s = max(px)
        im = sum(100 * np.exp(-((r - q * s) / (3 * s)) ** 2) for q in (30, 50, 75, 95))
        est = (true[0] + sh[0], true[1] + sh[1])
        before = freeze(im)
        out = C.refine_center(im, est, px, phi_steps=24, max_peaks=4, thresh=0.1, window_size=5, nx=250, min_x=12 * s, max_x=110 * s)
        ck.true(unchanged(before, im), "centre/input modified", "")
        e0 = math.hypot(*sh)
        e1 = math.hypot(out[0] - true[0], out[1] - true[1])
        ck.true(e1 < 0.15 + 0.1 * e0, "centre", lambda: "image %s pixels %s, estimate off by %s: refined centre off by %s" % (shape, px, sh, (out[0] - true[0], out[1] - true[1])))
        # faint rings below the threshold and the brightness do not move the result
        faint = im + 5 * np.exp(-((r - 40 * s) / (2 * s)) ** 2)
        kw = dict(phi_steps=24, max_peaks=4, thresh=0.1, window_size=5, min_x=12 * s, max_x=110 * s)
        for txt, o in (("faint ring", C.refine_center(faint, est, px, nx=250, **kw)),
                       ("brighter", C.refine_center(im * 50, np.array(est), px, nx=250, **kw))):
            e2 = math.hypot(o[0] - true[0], o[1] - true[1])
            ck.true(e2 < 0.2 + 0.1 * e0, "centre/" + txt, lambda: "image %s pixels %s, estimate off by %s (%s): refined centre off by %s" % (shape, px, sh, txt, (o[0] - true[0], o[1] - true[1])))
            ck.step()
        ck.state("c", shape, px, sh)
        ck.step()
    # only the innermost max_peaks rings count: the outer ones belong to another centre
    for shape, mp, off in ck.cases("innermost rings", itertools.product([(300, 301), (280, 340)], (1, 2, 3), ((6, 0), (0, -6), (4, 4))), limit=120):
        true = (shape[0] / 2 + 3.0, shape[1] / 2 - 4.0)
        ii, jj = np.mgrid[:shape[0], :shape[1]]
        im = np.zeros(shape)
        for k, q in enumerate((30, 50, 75, 95)):
            c0 = true if k < mp else (true[0] + off[0], true[1] + off[1])
            im = im + 100 * np.exp(-((np.hypot(ii - c0[0], jj - c0[1]) - q) / 3) ** 2)
        out = C.refine_center(im, (true[0] + 0.5, true[1] - 0.5), (1, 1), phi_steps=24, max_peaks=mp, thresh=0.1, window_size=5, nx=250, min_x=12, max_x=115)
        ck.true(math.hypot(out[0] - true[0], out[1] - true[1]) < 0.3, "centre/innermost rings",
                lambda: "image %s, %d rings used, the others off by %s: refined centre off by %s" % (shape, mp, off, (out[0] - true[0], out[1] - true[1])))
        ck.step()
        ck.state("inner", shape, mp, off)
