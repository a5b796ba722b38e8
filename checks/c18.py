"""C18 - spectrum integration covers exactly the requested regions; peak estimation and alignment are exact for Gaussians."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from vc.harness import freeze, unchanged


def run(ck):
    from skbeam.core import spectroscopy as sp
    integrate(ck, sp)
    fine(ck, sp)
    large(ck, sp)
    refused(ck, sp)
    histogram(ck, sp)
    peaks(ck, sp)
    align(ck, sp)


GRIDS = {
    "unit": [0, 1, 2, 3, 4, 5, 6, 7],
    "quarter": [-1.0 + 0.25 * k for k in range(9)],
    "uneven": [0.0, 0.5, 0.75, 2.0, 3.5, 4.0, 4.25, 6.0, 6.5],
    "four": [1.0, 2.5, 3.0, 5.0],
    "two": [1.0, 2.5],
    "shift": [1000.0 + 0.125 * k * k for k in range(8)],
}
POLYS = [(1, 0, 0), (0, 1, 0), (2, -1, 0), (0, 0, 1), (-3, 2, 1)]


def poly_int(p, a, b):
    a, b = F(a), F(b)
    return p[0] * (b - a) + F(p[1]) * (b * b - a * a) / 2 + F(p[2]) * (b ** 3 - a ** 3) / 3


def first_at_or_above(xs, v):
    for i, x in enumerate(xs):
        if x >= v:
            return i
    raise AssertionError


def bounds_of(xs):
    cand = []
    for a, b in zip(xs, xs[1:]):
        cand += [a, a + (b - a) / 4, a + 3 * (b - a) / 4]
    return cand + [xs[-1]]


def integrate(ck, sp):
    for (gname, rev, cont) in ck.cases("regions", itertools.product(sorted(GRIDS), (0, 1), ("array", "list", "int"))):
        xs = GRIDS[gname]
        cand = bounds_of(xs)
        single = {}
        for p in POLYS:
            ys = [p[0] + p[1] * x + p[2] * x * x for x in xs]
            X, Y = (xs[::-1], ys[::-1]) if rev else (list(xs), list(ys))
            if cont == "array":
                X, Y = np.array(X, float), np.array(Y, float)
            elif cont == "int":
                if gname != "unit":
                    continue
                X, Y = np.array(X, int), np.array(Y, int)
            before = freeze(X, Y)
            for a, b in itertools.combinations(cand, 2):
                i, j = first_at_or_above(xs, a), first_at_or_above(xs, b)
                if j - i == 1 and p[2]:
                    want = F(ys[i] + ys[j]) * (F(xs[j]) - F(xs[i])) / 2
                else:
                    want = poly_int(p, xs[i], xs[j])
                try:
                    got = sp.integrate_ROI(X, Y, a, b)
                except Exception as e:
                    ck.fail("integrate/error", "grid %s rev %d region %s..%s: %r" % (gname, rev, a, b, e))
                    continue
                tol = 1e-9 * max(1.0, max(abs(v) for v in ys) * (xs[-1] - xs[0]))
                ck.true(np.ndim(got) == 0 and abs(float(got) - float(want)) <= tol, "integrate/value",
                        lambda: "grid %s reversed %d poly %s region %s..%s: got %r, expected %s" % (gname, rev, p, a, b, got, float(want)))
                single[a, b] = float(got)
                ck.step()
            ck.true(unchanged(before, X, Y), "integrate/inputs", "arrays modified")
            # several regions: the sum, overlaps counted twice
            keys = sorted(single)
            keys = keys[:: max(1, len(keys) // 9)]
            for combo in itertools.chain(itertools.product(keys, repeat=2), itertools.permutations(keys[:5], 3)):
                lo, hi = [c[0] for c in combo], [c[1] for c in combo]
                for conv in (list, np.array, lambda v: np.array([v]).T):
                    got = sp.integrate_ROI(X, Y, conv(lo), conv(hi))
                    want = sum(single[c] for c in combo)
                    ck.true(abs(float(got) - want) <= tol, "integrate/regions", lambda: "regions %s: got %r, expected %r" % (combo, got, want))
                    ck.step()
        # every single sample inside the region counts and none outside does
        n = len(xs)
        for k in range(n):
            ys = np.zeros(n)
            ys[k] = 1.0
            for a, b in itertools.combinations(cand, 2):
                i, j = first_at_or_above(xs, a), first_at_or_above(xs, b)
                got = float(sp.integrate_ROI(np.array(xs, float), ys, a, b))
                if k < i or k > j:
                    ck.true(got == 0.0, "integrate/outside", lambda: "grid %s: sample %d contributes %r to region %s..%s" % (gname, k, got, a, b))
                elif j > i:
                    ck.true(got != 0.0 or gname in ("uneven", "shift"), "integrate/inside", lambda: "grid %s: sample %d does not contribute to region %s..%s" % (gname, k, a, b))
                ck.step()
        ck.state("grid", gname, rev, cont)


def fine(ck, sp):
    """bounds a hair above or below a sample"""
    for gname, d in ck.cases("bounds next to samples", itertools.product(sorted(GRIDS), (1e-10, 1e-7, 1e-5))):
        xs = GRIDS[gname]
        X = np.array(xs, float)
        for i, j in itertools.combinations(range(len(xs)), 2):
            for sa, sb in itertools.product((-1, 0, 1), repeat=2):
                a, b = xs[i] + sa * d, xs[j] + sb * d
                if a < xs[0] or b > xs[-1] or not a < b:
                    continue
                i2, j2 = first_at_or_above(xs, a), first_at_or_above(xs, b)
                want = xs[j2] - xs[i2]
                for x, y in ((X, np.ones(len(xs))), (X[::-1], np.ones(len(xs)))):
                    got = float(sp.integrate_ROI(x, y, a, b))
                    ck.true(abs(got - want) <= 1e-9, "integrate/next to samples", lambda: "grid %s region %r..%r: got %r, expected %r" % (gname, a, b, got, want))
                    ck.step()
        ck.state("fine", gname, d)


def large(ck, sp):
    """long spectra, many regions: a quadratic is integrated exactly between the samples that bound each region"""
    for n, k, rev, g in ck.cases("long spectra", itertools.product((40, 301, 1024, 5000), (1, 2, 17, 70, 400), (0, 1), (0, 1))):
        xs = np.arange(n) * 0.5 - 20.0 if g == 0 else np.arange(n) * 0.25 + (np.arange(n) % 2) * 0.125 + 1000
        ys = 2.0 - 0.5 * (xs - xs[0]) + 0.01 * (xs - xs[0]) ** 2
        lo = [(i * 37) % (n - 12) for i in range(k)]
        hi = [a + 2 + (i * 5) % 9 for i, a in enumerate(lo)]
        anti = lambda x: 2.0 * (x - xs[0]) - 0.25 * (x - xs[0]) ** 2 + 0.01 / 3 * (x - xs[0]) ** 3
        want = math.fsum(anti(xs[b]) - anti(xs[a]) for a, b in zip(lo, hi))
        X, Y = (xs[::-1], ys[::-1]) if rev else (xs, ys)
        scale = math.fsum(abs(anti(xs[b])) + abs(anti(xs[a])) for a, b in zip(lo, hi))
        got = sp.integrate_ROI(X, Y, xs[lo], xs[hi])
        ck.true(abs(float(got) - want) <= 1e-10 * scale + 1e-9, "integrate/long", lambda: "%d samples, %d regions, reversed %d: got %r, expected %r" % (n, k, rev, got, want))
        got = sp.integrate_ROI(list(X), list(Y), list(xs[lo]), list(xs[hi]))
        ck.true(abs(float(got) - want) <= 1e-10 * scale + 1e-9, "integrate/long", lambda: "%d samples, %d regions, lists: got %r, expected %r" % (n, k, got, want))
        got = sp.integrate_ROI(X, Y, xs.min(), xs.max())
        ck.true(abs(float(got) - anti(xs[-1])) <= 1e-10 * abs(anti(xs[-1])) + 1e-9, "integrate/long", lambda: "%d samples, everything: got %r, expected %r" % (n, got, anti(xs[-1])))
        # the malformed one is found wherever it stands
        for bad in {0, k // 2, k - 1}:
            a, b = xs[lo].copy(), xs[hi].copy()
            b[bad] = a[bad]
            ck.raises(lambda: sp.integrate_ROI(X, Y, a, b), ValueError, "bounds/refused", "empty region %d of %d" % (bad, k))
            a, b = xs[lo].copy(), xs[hi].copy()
            a[bad] = xs[0] - 1e-6
            ck.raises(lambda: sp.integrate_ROI(X, Y, a, b), ValueError, "bounds/refused", "region %d of %d starts below the spectrum" % (bad, k))
            a, b = xs[lo].copy(), xs[hi].copy()
            b[bad] = xs[-1] + 1e-6
            ck.raises(lambda: sp.integrate_ROI(X, Y, a, b), ValueError, "bounds/refused", "region %d of %d ends above the spectrum" % (bad, k))
        for at in {1, 2, n // 2, n - 2, n - 1}:
            z = np.array(X)
            z[at] = z[at - 1]
            ck.raises(lambda: sp.integrate_ROI(z, Y, xs[lo], xs[hi]), ValueError, "monotonic/refused", "repeated position %d of %d" % (at, n))
        ck.step(3)
        ck.state("long", n, k, rev, g)
    SIG = (2.0, 3.0, 0.004, 6.0, 900.0, 4.0, 2e-5)
    for k in ck.cases("many spectra", (5, 9, 33, 70, 300)):
        E = [np.arange(5.0 + i % 4) * (1 + i % 3) for i in range(k)]
        C = [np.arange(5.0 + i % 4) + i for i in range(k)]
        cal = []

        def fn(e, c):
            cal.append((e, c))
            i = len(cal) - 1
            return 1.5 + i, 3.0, SIG[i % 7]
        oe, oc = sp.align_and_scale(E, C, fn)
        ck.equal((len(oe), len(oc), len(cal)), (k, k, k), "align/number", "outputs")
        for i in range(k):
            ck.close(oe[i], (E[i] - 1.5 - i) * 2.0 / SIG[i % 7], "align/energy", "spectrum %d of %d" % (i, k))
            ck.true(np.array_equal(oc[i], C[i]), "align/counts", "counts of spectrum %d changed" % i)
            ck.true(np.array_equal(cal[i][0], E[i]) and np.array_equal(cal[i][1], C[i]), "align/peak search", "what the peak search saw of spectrum %d" % i)
        ck.step()
        ck.state("many", k)
    # the largest of several peaks, anywhere in a long spectrum, also on a falling axis
    for n, at, rev, w in ck.cases("long peaks", itertools.product((64, 300, 2000), (0, 1, 7, 31, 62), (0, 1), (3, 10))):
        x = np.arange(n) * 0.5 - 40.0
        at = at * (n - 1) // 63
        y = gauss(x, 1000.0, x[at], 2.0) + 1e-9
        for j in (n // 5, n // 2, 4 * n // 5):
            if abs(j - at) > 40:
                y = y + gauss(x, 400.0, x[j], 1.0)
        X, Y = (x[::-1], y[::-1]) if rev else (x, y)
        g = sp.find_largest_peak(X, Y, w)
        ck.close([g[0], g[1], g[2]], [x[at], 1000.0, 2.0], "peaks/long", "%d samples, peak at %d, reversed %d, window %d" % (n, at, rev, w), rtol=1e-5, atol=1e-5)
        ck.step()
        ck.state("lp", n, at, rev, w)


def refused(ck, sp):
    """every permutation of four abscissae and every kind of bad bound"""
    for perm in ck.cases("monotonic", list(itertools.product(range(4), repeat=4))):
        x = np.array(perm, float)
        d = np.sign(np.diff(x))
        y = np.ones(4)
        mono = bool(np.all(d == d[0]))
        lo, hi = float(min(perm)), float(max(perm))
        if mono and lo < hi:
            ck.close(sp.integrate_ROI(x, y, lo, hi), hi - lo, "monotonic/accepted", "x=%s" % (perm,))
        elif not mono:
            ck.raises(lambda: sp.integrate_ROI(x, y, lo, hi if hi > lo else lo + 1), ValueError, "monotonic/refused", "x=%s" % (perm,))
        ck.state("perm", perm)
        ck.step()
    x = np.arange(6.0)
    y = np.arange(6.0) + 1
    vals = [-1, -1e-9, 0, 2.5, 3, 5, 5 + 1e-9, 7]
    for lo, hi, rev in ck.cases("bounds", itertools.product(vals, vals, (0, 1))):
        ok = lo < hi and lo >= 0 and hi <= 5
        X, Y = (x[::-1], y[::-1]) if rev else (x, y)
        for lo2, hi2 in ((lo, hi), ([1, lo], [2, hi]), ([lo, 1], [hi, 2])):
            if ok:
                sp.integrate_ROI(X, Y, lo2, hi2)
            else:
                ck.raises(lambda: sp.integrate_ROI(X, Y, lo2, hi2), ValueError, "bounds/refused", "region %s..%s" % (lo2, hi2))
            ck.step()
        ck.state("bounds", lo, hi, rev)
    for nx, ny in ck.cases("shapes", [(a, b) for a in range(1, 6) for b in range(1, 6) if a != b]):
        ck.raises(lambda: sp.integrate_ROI(np.arange(nx), np.ones(ny), 0, 1), ValueError, "shape/refused", "%d and %d values" % (nx, ny))
        ck.raises(lambda: sp.integrate_ROI(np.arange(9), np.ones(9), list(range(nx)), list(range(6, 6 + ny))[:ny]) if ny < 4 else sp.integrate_ROI(np.arange(19), np.ones(19), list(range(nx)), list(range(6, 6 + ny))), ValueError, "bounds/lengths",
                  "%d lower and %d upper bounds" % (nx, ny))
        ck.step(2)


def histogram(ck, sp):
    grids = {"unit": list(range(13)), "wide": [2.0 * k for k in range(13)], "uneven": [0, 1, 3, 4, 7, 8, 10, 14, 15, 16]}
    for g, rev in ck.cases("histogram", itertools.product(sorted(grids), (0, 1))):
        edges = np.array(grids[g], float)
        n = len(edges) - 1
        for counts in (np.ones(n), np.arange(n) + 1.0, (np.arange(n) * 5 % 7) + 0.5):
            for i, j in itertools.combinations(range(1, n), 2):
                lo, hi = edges[i], edges[j]
                E, C = (edges[::-1], counts[::-1]) if rev else (edges, counts)
                got = float(sp.integrate_ROI_spectrum(E, C, lo, hi))
                centers = (edges[1:] + edges[:-1]) / 2
                doc = float(counts[(centers >= lo) & (centers <= hi)].sum())
                upper = edges[:-1] if rev else edges[1:]
                now = float(sp.integrate_ROI(upper, counts, lo, hi)) if not rev or i > 0 else None
                where = "bins %s counts %s region %s..%s: got %s, the bins inside hold %s" % (g, counts, lo, hi, got, doc)
                if abs(got - doc) > 1e-9:
                    if g == "unit" and np.all(counts == 1):
                        ck.fail("histogram/flat", where)
                    elif now is not None and abs(got - now) <= 1e-9:
                        ck.fail("histogram-sum", where)
                    else:
                        ck.fail("histogram/value", where)
                ck.step()
            for bad in ((edges[:-1], counts), (edges, counts[:-1])):
                ck.raises(lambda: sp.integrate_ROI_spectrum(bad[0], bad[1], edges[1], edges[3]), ValueError, "histogram/lengths", "edges and counts of the same length")
        ck.state("hist", g, rev)


def gauss(x, a, m, s):
    return a * np.exp(-(np.asarray(x) - m) ** 2 / (2 * s * s))


def peaks(ck, sp):
    n = 12
    for at, s, a, off in ck.cases("peaks", itertools.product(range(n), (0.6, 2.0, 9.0), (0.5, 1.0, 4e5), (0.0, 0.3, -0.3))):
        x = np.arange(n) * 0.5 + 3
        m = x[at] + off * 0.5
        y = gauss(x, a, m, s)
        for w in (None, 1, 2, 3, 20):
            npts = n - 1 if w is None else min(n, at + w + 1) - max(0, at - w)
            if npts < 3:
                continue
            for xx, yy in ((x, y), (list(x), list(y))):
                before = freeze(xx, yy)
                g = sp.find_largest_peak(xx, yy, w) if w is not None else sp.find_largest_peak(xx, yy)
                ck.true(unchanged(before, xx, yy), "peaks/inputs", "modified")
                ck.close([g[0], g[1] / a, g[2]], [m, 1.0, s], "peaks/value", "gaussian %s at %s width %s window %s" % (a, m, s, w), rtol=1e-5, atol=1e-6)
                ck.step()
            if w is not None:  # values outside the window do not matter
                y2 = y.copy()
                out = [k for k in range(n) if abs(k - at) > w]
                y2[out] = y[at] * 0.01
                g = sp.find_largest_peak(x, y2, w)
                ck.close([g[0], g[1] / a, g[2]], [m, 1.0, s], "peaks/window", "gaussian at %s window %s" % (m, w), rtol=1e-5, atol=1e-6)
        ck.state("pk", at, s, a, off)


def align(ck, sp):
    es = [np.arange(8.0), np.arange(8.0) * 2 - 3, np.arange(5.0) + 10, np.linspace(0, 1, 6)]
    prm = [(3.0, 7.0, 2.0), (-1.5, 2.0, 0.5), (12.0, 1.0, 4.0), (3.0000001, 7.0, 2.0000001)]
    for k in ck.cases("align", range(1, 4)):
        for combo in itertools.product(range(len(es)), repeat=k):
            for pc in itertools.product(range(4), repeat=k):
                calls = []

                def fn(e, c, pc=pc, calls=calls):
                    calls.append(1)
                    return prm[pc[len(calls) - 1]]
                E = [es[i].copy() for i in combo]
                C = [np.arange(len(e)) * 1.0 + i for i, e in enumerate(E)]
                before = freeze(*(E + C))
                for gen in (False,) if k > 2 else (False, True):
                    del calls[:]
                    oe, oc = sp.align_and_scale(iter(E) if gen else E, iter(C) if gen else C, fn)
                    ck.equal((len(oe), len(oc)), (k, k), "align/number", "outputs")
                    for i in range(k):
                        x0, _, s = prm[pc[i]]
                        ck.close(oe[i], (es[combo[i]] - x0) * prm[pc[0]][2] / s, "align/energy", "spectrum %d of %s with peaks %s" % (i, combo, pc))
                        ck.true(np.array_equal(oc[i], C[i]), "align/counts", "counts of spectrum %d changed" % i)
                    ck.step()
                ck.true(unchanged(before, *(E + C)), "align/inputs", "modified")
        ck.state("al", k)
    for (m1, s1), (m2, s2) in ck.cases("align default", itertools.product([(3.0, 1.0), (4.2, 2.0), (6.0, 0.8), (5.0, 1.0005), (3.001, 1.005)], repeat=2)):
        e = np.arange(0, 10, 0.25)
        oe, oc = sp.align_and_scale([e, e], [gauss(e, 5, m1, s1), gauss(e, 50, m2, s2)])
        ck.close(oe[0], e - m1, "align/default", "first spectrum", rtol=1e-5, atol=1e-5)
        ck.close(oe[1], (e - m2) * s1 / s2, "align/default", "second spectrum", rtol=1e-5, atol=1e-5)
        ck.step()
