"""Histogram accumulator: any history of fills and resets equals exact counting per half-open cell."""
import itertools
import math
from fractions import Fraction

import numpy as np

from vc.harness import freeze, unchanged

ALL = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8"]
EXACT = [(4, 0, 4), (3, 0, 3), (4, -2, 2), (8, 0, 1), (5, -1.25, 1.25), (2, 10, 20), (1, 0, 1), (6, -3, 0), (3, 100, 106)]
ROUGH = [(3, 0, 1), (10, 0, 1), (7, -3.3, 7.1), (10, 0, 10.01), (9, 0.1, 0.7), (33, -1, 1), (1, -0.3, 0.4), (12, 1e-3, 1e3),
         (6, -7.7, -1.1), (49, 0, 4.9), (93, 0, 1), (27, 0, 0.3), (11, -0.7, 0.9), (29, 0, 10), (7, 1.1, 2.3), (15, 1.1, 2.3), (11, 0, 100)]


def cell(x, spec):
    """exact index of x in the half-open grid, or None"""
    n, lo, hi = spec
    x = float(x)
    if math.isnan(x) or not (lo <= x < hi):
        return None
    return int((Fraction(x) - Fraction(lo)) * n // (Fraction(hi) - Fraction(lo)))


def cells_allowed(x, spec):
    """cells a correctly rounded implementation may pick (neighbours only within a few ulp of an edge)"""
    n, lo, hi = spec
    x = float(x)
    if math.isnan(x) or not (lo <= x < hi):
        return None
    t = (Fraction(x) - Fraction(lo)) * n / (Fraction(hi) - Fraction(lo))
    k = int(t // 1)
    tol = Fraction(max(abs(lo), abs(hi))) * n / (Fraction(hi) - Fraction(lo)) * Fraction(1, 2 ** 50)
    ok = {k}
    if t - k < tol and k > 0:
        ok.add(k - 1)
    if k + 1 - t < tol and k + 1 < n:
        ok.add(k + 1)
    return ok


def points(spec):
    n, lo, hi = spec
    pts = []
    for k in range(n + 1):
        e = lo + (hi - lo) * k / n
        pts += [e, np.nextafter(e, -np.inf), np.nextafter(e, np.inf), lo + (hi - lo) * (k + 0.5) / n]
        pts += [e + s * (hi - lo) for s in (-1e-9, 1e-9, 1e-12, -1e-12)]
    pts += [np.nan, np.inf, -np.inf, lo - 1, hi + 1, lo - 1e9, hi + 1e9, -0.0]
    return [float(p) for p in pts]


def model(specs, fills):
    v = np.zeros([s[0] for s in specs])
    for coords, w in fills:
        n = len(coords[0])
        for i in range(n):
            idx = [cell(c[i], s) for c, s in zip(coords, specs)]
            if any(k is None for k in idx):
                continue
            v[tuple(idx)] += float(w[i] if len(w) > 1 else w[0])
    return v


def run(ck):
    from skbeam.core.accumulators.histogram import Histogram

    # 1. one point at a time, every point around every edge of every grid (all fill paths)
    for spec, x, path in ck.cases("single-points", ((s, x, p) for s in EXACT + ROUGH for x in points(s) for p in (1, 2, 3, 4))):
        other = (2, 0, 2)
        specs = [spec] + [other] * (path - 1)
        h = Histogram(*[tuple(s) for s in specs])
        h.fill(*([np.array([x])] + [np.array([1.5])] * (path - 1)))
        ck.step()
        allowed = cells_allowed(x, spec)
        got = [tuple(int(i) for i in ix) for ix in zip(*np.nonzero(h.values))]
        ck.state(spec, repr(x), path)
        if allowed is None:
            ck.equal(got, [], "out-of-range-counted", "x=%r grid %s dims %d" % (x, spec, path))
        else:
            ck.true(len(got) == 1 and got[0][0] in allowed and got[0][1:] == (1,) * (path - 1) and h.values[got[0]] == 1.0,
                    "wrong-cell", "x=%r grid %s dims %d: cells %s, allowed %s" % (x, spec, path, got, sorted(allowed)))
        ck.outcome(got)
        ck.trace()
    # the point in another position of the argument list
    for spec, x, path, pos in ck.cases("point-positions", ((s, x, p, q) for s in EXACT[:5] + ROUGH[:4] for x in points(s)
                                                          for p in (2, 3, 4) for q in range(1, p))):
        specs = [(2, 0, 2)] * path
        specs[pos] = spec
        h = Histogram(*specs)
        co = [np.array([0.5])] * path
        co[pos] = np.array([x])
        h.fill(*co, weights=2)
        ck.step()
        allowed = cells_allowed(x, spec)
        got = [tuple(int(i) for i in ix) for ix in zip(*np.nonzero(h.values))]
        if allowed is None:
            ck.equal(got, [], "out-of-range-counted", "x=%r grid %s at %d" % (x, spec, pos))
        else:
            ck.true(len(got) == 1 and got[0][pos] in allowed and sum(got[0]) == got[0][pos] and h.values[got[0]] == 2.0,
                    "wrong-cell", "x=%r grid %s position %d: cells %s" % (x, spec, pos, got))
        ck.state(spec, repr(x), path, pos)
        ck.trace()

    # 2. numeric types of coordinates and weights, memory layouts
    def lay(a, how):
        if how == "rev":
            return a[::-1]
        if how == "strided":
            return np.repeat(a, 3)[::3]
        if how == "col":
            return np.stack([a, a * 0 + 1, a], axis=1)[:, 0]
        if how == "ro":
            a = a.copy()
            a.setflags(write=False)
        return a

    types = [(d, c, w, l) for d in (1, 2) for c in ALL for w in ALL for l in ("c", "rev", "strided", "col", "ro")
             if not (l == "ro")]
    types += [(3, c, w, l) for c in ("f8", "i8") for w in ALL for l in ("c", "rev", "strided", "col")]
    types += [(4, c, w, l) for c in ("f8", "i8") for w in ("f8", "i8", "u1") for l in ("c", "rev", "strided", "col")]
    for dims, cdt, wdt, how in ck.cases("types-and-layouts", types):
        specs = [(4, 0, 4), (3, -1, 2), (2, 0, 8), (5, 1, 6)][:dims]
        base = [np.array([0, 1, 3, 5, 7, 2, 0, 4, 1, 6, 2, 3]), np.array([1, 0, 1, 1, 0, 7, 0, 1, 1, 0, 1, 0]),
                np.array([1, 7, 3, 5, 4, 2, 0, 6, 9, 2, 5, 7]), np.array([5, 4, 3, 2, 1, 1, 2, 3, 0, 5, 5, 2])][:dims]
        w0 = np.array([1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31])
        co = [lay(b.astype(cdt), how) for b in base]
        w = lay(w0.astype(wdt), how)
        fz = freeze(*co, w)
        h = Histogram(*specs)
        h.fill(*co, weights=w)
        ck.step()
        ck.close(h.values, model(specs, [([c.tolist() for c in co], w.tolist())]), "typed-fill", "%s %s %s" % (cdt, wdt, how))
        ck.true(unchanged(fz, *co, w), "input-mutated", "inputs modified")
        ck.state(dims, cdt, wdt, how)
        ck.trace()
    # mixed int64/float64 coordinates in N dimensions: every assignment
    for n in (3, 4, 5):
        for kinds in ck.cases("mixed-types-%d" % n, itertools.product(("i8", "f8"), repeat=n)):
            specs = [(2, 0, 2), (3, 0, 3), (4, 0, 4), (2, 1, 3), (3, -1, 2)][:n]
            # all combinations of coordinates inside, and one outside in each dimension
            pts = list(itertools.product(*[range(int(lo), int(hi)) for _, lo, hi in specs]))
            pts += [tuple(x if j != i else x + d for j, x in enumerate(pts[0])) for i in range(n) for d in (-1, 7)]
            co = [np.array([pt[i] for pt in pts]).astype(k) for i, k in enumerate(kinds)]
            w = np.arange(len(pts)) + 1.0
            for ws in (w, np.array([3]), 1):
                h = Histogram(*specs)
                h.fill(*co, weights=ws)
                ck.step()
                ck.close(h.values, model(specs, [([c.tolist() for c in co], np.atleast_1d(ws).tolist())]), "mixed-types", str(kinds))
            ck.state(n, kinds)
            ck.trace()
    # every cell of a grid receives exactly its own point
    for specs in ck.cases("cell-map", [[(3, 0, 3)], [(2, 0, 2), (3, 0, 3)], [(2, 0, 2), (3, -3, 0), (4, 0, 2)],
                                       [(2, 0, 1), (2, 0, 2), (3, 0, 3), (2, 5, 6)], [(2, 0, 2)] * 6, [(1, 0, 1)] * 10]):
        for ix in itertools.product(*[range(s[0]) for s in specs]):
            h = Histogram(*specs)
            co = [[s[1] + (s[2] - s[1]) * (k + 0.5) / s[0]] for k, s in zip(ix, specs)]
            h.fill(*co, weights=[2.5])
            ck.step()
            want = np.zeros([s[0] for s in specs])
            want[ix] = 2.5
            ck.close(h.values, want, "cell-map", "cell %s" % (ix,))
            ck.state("cell", specs, ix)
        ck.trace()

    # 3. every history of operations up to a bound
    def ops1():
        return [
            ("fill", [[0.5, 1.5, 1.5, 9, -1]], 1),
            ("fill", [np.array([3, 0, 2, 4])], np.array([1.0, 2.0, 4.0, 8.0])),
            ("fill", [2.25], 3),
            ("fill", [1], 1),
            ("fill", [(0.0, 4.0, 3.999)], (1, 1, -2)),
            ("fill", [np.array([], dtype=float)], 1),
            ("fill", [np.arange(8.0)[::-2]], np.arange(8.0)[::2]),
            ("bad", [[1.0, 2.0]], [1.0, 2.0, 3.0]),
            ("reset",),
        ]

    def ops2():
        return [
            ("fill", [[0.5, 1.5, 3.5], [0, 1, 1.5]], 1),
            ("fill", [np.array([3, 0, 2]), np.array([1, 0, 1])], np.array([1.0, 2.0, 4.0])),
            ("fill", [2.25, 0.5], 3),
            ("fill", [np.arange(6.0)[::2], np.arange(6.0)[::-2]], [5]),
            ("bad", [[1.0, 2.0], [1.0]], 1),
            ("bad", [[1.0]], 1),
            ("reset",),
        ]

    def ops3():
        return [
            ("fill", [[0.5, 1.5, 3.5], [0, 1, 1.5], [0, 1, 2]], 1),
            ("fill", [np.array([3, 0, 2]), np.array([1.0, 0, 1]), np.array([0, 1, 2])], np.array([1.0, 2.0, 4.0])),
            ("fill", [np.arange(6.0)[::2], np.arange(6.0)[::-2], np.arange(12.0)[::4]], np.arange(3)),
            ("bad", [[1.0, 2.0], [1.0], [1.0]], 1),
            ("fill", [2.25, 0.5, 1.0], 3),
            ("reset",),
        ]

    for name, specs, mk, L in (("1d", [(4, 0, 4)], ops1, 4 if ck.thorough else 3),
                               ("2d", [(4, 0, 4), (2, 0, 2)], ops2, 4),
                               ("3d", [(4, 0, 4), (2, 0, 2), (3, 0, 3)], ops3, 4)):
        nops = len(mk())
        for seq in ck.cases("histories-" + name, itertools.product(range(nops), repeat=L)):
            h = Histogram(*specs)
            done = []
            ops = mk()
            for o in seq:
                op = ops[o]
                if op[0] == "reset":
                    h.reset()
                    done = []
                elif op[0] == "bad":
                    ck.raises(lambda: h.fill(*op[1], weights=op[2]), ValueError, "bad-accepted", str(op))
                else:
                    h.fill(*op[1], weights=op[2])
                    done.append(([np.atleast_1d(c).tolist() for c in op[1]], np.atleast_1d(op[2]).tolist()))
                ck.step()
                want = model(specs, done)
                ck.close(h.values, want, "history", "after %s" % (seq,))
                ck.state(name, want)
            ck.outcome(h.values.copy())
            ck.trace()
    # two accumulators never share anything
    for seq in ck.cases("two-accumulators", itertools.product(range(4), repeat=4)):
        hs = [Histogram((4, 0, 4)), Histogram((4, 0, 4))]
        tot = [np.zeros(4), np.zeros(4)]
        for o in seq:
            w = o % 2
            if o < 2:
                hs[w].fill(np.array([0.5, 2.5]), weights=w + 1)
                tot[w][[0, 2]] += w + 1
            else:
                hs[w].reset()
                tot[w][:] = 0
            ck.step()
            ck.close(hs[0].values, tot[0], "shared-state")
            ck.close(hs[1].values, tot[1], "shared-state")
        ck.state("two", seq)
        ck.trace()
    # many cells, many points, large and small weights, far-away grids
    big = [([(1000, 0, 1000)], 70000), ([(70000, -35000, 35000)], 3000), ([(3, 0, 3)], 200000), ([(300, 0, 300), (2, 0, 2)], 5000),
           ([(2, 0, 2), (300, 0, 300)], 5000), ([(260, 0, 260), (270, -1, 269)], 40000), ([(40, 0, 40), (41, 0, 41), (43, 0, 43)], 40000),
           ([(2, 0, 2), (3, 0, 3), (300, 0, 300)], 3000), ([(300, 0, 300), (2, 0, 2), (2, 0, 2), (2, 0, 2)], 3000),
           ([(4, 2 ** 40, 2 ** 40 + 4)], 64), ([(4, -2 ** 40, -2 ** 40 + 8), (2, 0, 2)], 64), ([(5, 0, 5 * 2.0 ** -40)], 64),
           ([(64, -2.0 ** 60, 2.0 ** 60)], 500)]
    for (specs, n), ct, wk in ck.cases("large", itertools.product(big, ("f8", "i8"), ("one", "count", "large", "small", "negative", "u1"))):
        h = Histogram(*specs)
        k = np.arange(n, dtype=np.int64)
        co, ix, ok = [], [], np.ones(n, bool)
        for d, (nb, lo, hi) in enumerate(specs):
            w = (hi - lo) / nb
            c = (k * (2 * d + 7) + k // 3 * d) % (nb + 2) - 1  # the cells, and one below and one above
            x = (lo + w * c) + (w / 2 if ct == "f8" else 0)
            if ct == "i8" and (w != int(w) or lo != int(lo)):
                break
            co.append(x.astype(ct))
            ix.append(c)
            ok &= (c >= 0) & (c < nb)
        else:
            W = {"one": np.ones(n), "count": k % 7 + 1, "large": (k % 5 + 1) * 1e12, "small": (k % 3 + 1) * 1e-12,
                 "negative": 1.0 - k % 4, "u1": (k % 200 + 56).astype("u1")}[wk]
            want = np.zeros([s[0] for s in specs])
            np.add.at(want, tuple(c[ok] for c in ix), W[ok].astype(float))
            h.fill(*co, weights=1 if wk == "one" else W)
            ck.step()
            ck.close(h.values, want, "large", "%s %s %s" % (specs, ct, wk))
            h.fill(*[c[: n // 2] for c in co], weights=1 if wk == "one" else W[: n // 2])
            ck.step()
            np.add.at(want, tuple(c[: n // 2][ok[: n // 2]] for c in ix), W[: n // 2][ok[: n // 2]].astype(float))
            ck.close(h.values, want, "large", "%s %s %s second fill" % (specs, ct, wk))
            ck.state("large", specs, n, ct, wk)
            ck.trace()
    # a weight that is not a number stays in its own cell
    for dims, pos, bad in ck.cases("odd weights", itertools.product((1, 2, 3), range(4), (float("nan"), float("inf"), -float("inf"), 0.0))):
        h = Histogram(*[(4, 0, 4)] * dims)
        w = np.array([1.0, 2.0, 3.0, 4.0])
        w[pos] = bad
        h.fill(*[np.arange(4.0)] * dims, weights=w)
        ck.step()
        want = np.zeros([4] * dims)
        for i in range(4):
            want[(i,) * dims] = w[i]
        ck.close(h.values, want, "odd-weights", "%s at %d" % (bad, pos))
        h.reset()
        ck.close(h.values, np.zeros([4] * dims), "odd-weights", "after reset")
        ck.state("odd", dims, pos, repr(bad))
        ck.trace()
    # 4. published edges and centres
    for spec in ck.cases("edges", EXACT + ROUGH):
        h = Histogram(spec, (2, 0, 1))
        n, lo, hi = spec
        ck.close(h.edges[0], [lo + (hi - lo) * k / n for k in range(n + 1)], "edges", rtol=1e-12)
        ck.close(h.centers[0], [lo + (hi - lo) * (k + 0.5) / n for k in range(n)], "centers", rtol=1e-12)
        ck.close(h.edges[1], [0, 0.5, 1], "edges")
        ck.close(h.centers[1], [0.25, 0.75], "centers")
        ck.step(2)
        ck.state("edges", spec)
        ck.trace()
    ck.raises(lambda: Histogram(*[(1, 0, 1)] * 11), ValueError, "too-many-dims")
