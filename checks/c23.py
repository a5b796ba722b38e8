"""C23 - coordinates and units: grids, pixel lists, bin edges and conversions equal their definitions for every input."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from vc.harness import freeze, unchanged


def run(ck):
    from skbeam.core import utils as U
    grids(ck, U)
    pixels(ck, U)
    edges(ck, U)
    centers(ck, U)
    units(ck, U)
    lags(ck, U)


SHAPES = list(itertools.product(range(1, 6), repeat=2))
CENTERS = [(0.1, 1 / 3), (0, 0), (1, 2), (0.5, 1.5), (-1.25, 3), (10, -4.5), (2, 2)]
PIX = [None, (1, 1), (0.5, 2), (3, 0.25)]


def grids(ck, U):
    for shape, c, px in ck.cases("grids", itertools.product(SHAPES, CENTERS, PIX)):
        kw = {} if px is None else {"pixel_size": px}
        p = px or (1, 1)
        r = np.asarray(U.radial_grid(c, shape, **kw))
        a = np.asarray(U.angle_grid(c, shape, **kw))
        ck.equal((r.shape, a.shape), (shape, shape), "grid/shape", "%s %s %s" % (shape, c, px))
        for i in range(shape[0]):
            for j in range(shape[1]):
                y, x = (i - c[0]) * p[0], (j - c[1]) * p[1]
                ck.true(abs(r[i, j] - math.hypot(x, y)) <= 1e-12 * (1 + math.hypot(x, y)), "grid/radius",
                        lambda: "pixel %s of %s, center %s, size %s: %r, is %r" % ((i, j), shape, c, px, r[i, j], math.hypot(x, y)))
                if x or y:
                    w = math.atan2(y, x)
                    d = (a[i, j] - w) / (2 * math.pi)
                    ck.true(abs(d - round(d)) < 1e-12 and -math.pi - 1e-12 <= a[i, j] <= math.pi + 1e-12, "grid/angle",
                            lambda: "pixel %s of %s, center %s, size %s: %r, is %r" % ((i, j), shape, c, px, a[i, j], w))
        for f, v in ((U.radial_grid, r), (U.angle_grid, a)):  # container of the arguments
            ck.close(f(np.array(c), list(shape), **({} if px is None else {"pixel_size": list(px)})), v, "grid/containers", "%s" % (shape,))
        ck.state("grid", shape, c, px)
        ck.step(2)


    big = [(1, 300), (300, 1), (257, 40), (40, 260), (128, 128), (270, 260), (1, 70000), (1030, 1065)]
    for shape, c, px in ck.cases("large grids", itertools.product(big, CENTERS + [(128.0, 20.5), (-1000.0, 5.0), (1e6, 1e6)], PIX + [(1e-4, 2e-4), (172.0, 75.0)])):
        kw = {} if px is None else {"pixel_size": px}
        p = px or (1, 1)
        y, x = np.meshgrid((np.arange(shape[0]) - c[0]) * p[0], (np.arange(shape[1]) - c[1]) * p[1], indexing="ij")
        r, a = np.asarray(U.radial_grid(c, shape, **kw)), np.asarray(U.angle_grid(c, shape, **kw))
        ck.close(r, np.hypot(x, y), "grid/radius", "%s center %s size %s" % (shape, c, px), rtol=1e-11, atol=0)
        d = (a - np.arctan2(y, x)) / (2 * math.pi)
        ck.true(a.shape == shape and np.all((np.abs(d - np.rint(d)) < 1e-12) | ((x == 0) & (y == 0))), "grid/angle", "%s center %s size %s" % (shape, c, px))
        ck.state("big", shape, c, px)
        ck.step(2)


def pixels(ck, U):
    dts = ["float64", "uint16", "int32"]
    for shape, (cx, cy), px in ck.cases("pixel lists", itertools.product(SHAPES, CENTERS, [None, (0.5, 2), (3, 0.25)])):
        for dt in dts:
            img = (np.arange(shape[0] * shape[1]).reshape(shape) * 7 % 23).astype(dt)
            for im in (img, np.asfortranarray(img)):
                before = freeze(im)
                x, y, v = U.img_to_relative_xyi(im, cx, cy, *(px or ()))
                ck.true(unchanged(before, im), "pixels/input modified", "")
                p = px or (1, 1)
                if shape[0] != shape[1]:
                    # which axis is x is inconsistent for these images (listed finding, see "oblong image"); the sets of coordinates are not
                    ck.close(np.sort(x), sorted((i - cx) * p[0] for i in range(shape[0]) for _ in range(shape[1])), "pixels/x set", "%s" % (shape,))
                    ck.close(np.sort(y), sorted((i - cy) * p[1] for i in range(shape[1]) for _ in range(shape[0])), "pixels/y set", "%s" % (shape,))
                    ck.close(np.sort(v), np.sort(img.ravel()), "pixels/intensities", "%s" % (shape,))
                    ck.equal(len(set(zip(x.tolist(), y.tolist()))), shape[0] * shape[1], "pixels/every pixel once", "%s" % (shape,))
                    continue
                want = sorted((round((j - cx) * p[0], 9), round((i - cy) * p[1], 9), float(img[i, j])) for i in range(shape[0]) for j in range(shape[1]))
                n = shape[0] * shape[1]
                ck.equal((len(x), len(y), len(v)), (n, n, n), "pixels/length", "%s" % (shape,))
                got = sorted((round(float(a), 9), round(float(b), 9), float(w)) for a, b, w in zip(x, y, v))
                ck.equal(got, want, "pixels/values", "(x, y, intensity) of a %s image, center %s, size %s" % (shape, (cx, cy), px))
                ck.step()
        ck.state("px", shape, cx, cy, px)
    for n, (cx, cy), px, dt in ck.cases("large pixel lists", itertools.product((17, 130, 300), CENTERS, [None, (0.5, 2)], dts + ["uint8", "float32"])):
        img = (np.arange(n * n).reshape(n, n) * 7 % 251).astype(dt)
        x, y, v = U.img_to_relative_xyi(img, cx, cy, *(px or ()))
        p = px or (1, 1)
        ck.equal((len(x), len(y), len(v)), (n * n,) * 3, "pixels/length", "%d" % n)
        i, j = np.rint(np.asarray(y) / p[1] + cy).astype(int), np.rint(np.asarray(x) / p[0] + cx).astype(int)
        ck.true(np.array_equal(np.sort(i * n + j), np.arange(n * n)), "pixels/every pixel once", "%d" % n)
        ck.close(x, (j - cx) * p[0], "pixels/values", "x", atol=1e-12)
        ck.close(y, (i - cy) * p[1], "pixels/values", "y", atol=1e-9)
        ck.true(np.array_equal(np.asarray(v, float), img[i, j].astype(float)), "pixels/values", "intensities of a %d x %d image" % (n, n))
        ck.state("pl", n, cx, cy, px, dt)
        ck.step()
    for sh in ck.cases("oblong image", [(2, 3)]):
        img = np.arange(6.0).reshape(sh)
        x, y, v = U.img_to_relative_xyi(img, 0, 0)
        got = {(float(a), float(b)): float(c) for a, b, c in zip(x, y, v)}
        ok = got == {(j, i): img[i, j] for i in range(2) for j in range(3)} or got == {(i, j): img[i, j] for i in range(2) for j in range(3)}
        ck.true(ok, "oblong image", lambda: "coordinates and intensities of [[0,1,2],[3,4,5]]: %s" % got)
    im = np.ones((2, 3))
    for bad in ck.cases("pixel sizes refused", [(0, 1), (1, 0), (-1, 1), (1, -2), (None, 1), (1, None), (0, 0)]):
        ck.raises(lambda: U.img_to_relative_xyi(im, 0, 0, pixel_size_x=bad[0], pixel_size_y=bad[1]), ValueError, "pixels/refused", "%s" % (bad,))
    for s in ck.cases("one size", (0.5, 2)):
        ck.raises(lambda: U.img_to_relative_xyi(im, 0, 0, pixel_size_x=s), ValueError, "pixels/refused", "pixel_size_y missing")
        ck.raises(lambda: U.img_to_relative_xyi(im, 0, 0, pixel_size_y=s), ValueError, "pixels/refused", "pixel_size_x missing")


def edges(ck, U):
    lo = [F(0), F(-3), F(5, 2), F(1, 4)]
    span = [F(1), F(3), F(7, 2), F(10)]
    steps = [F(1, 4), F(1, 2), F(1), F(3, 4), F(7, 4), F(20)]
    nb = range(1, 13)

    def near(got, want, key, what):
        got = np.asarray(got, float)
        ck.equal(got.shape, (len(want),), key, "%s: number of edges" % what)
        ck.true(all(abs(float(w) - g) <= 1e-12 * (1 + abs(float(w))) for g, w in zip(got, want)), key, lambda: "%s: %s, expected %s" % (what, got, [float(w) for w in want]))
    for a, s, n in ck.cases("edges min max n", itertools.product(lo, span, nb)):
        b = a + s
        near(U.bin_edges(range_min=float(a), range_max=float(b), nbins=n), [a + s * k / n for k in range(n + 1)], "edges/min-max-n", "%s %s %s" % (a, b, n))
        ck.raises(lambda: U.bin_edges(range_min=float(b), range_max=float(a), nbins=n), ValueError, "edges/refused", "max < min")
        ck.raises(lambda: U.bin_edges(range_min=float(a), range_max=float(a), nbins=n), ValueError, "edges/refused", "max = min")
        ck.raises(lambda: U.bin_edges(range_min=float(a), range_max=float(b), nbins=-n), ValueError, "edges/refused", "negative number")
        ck.raises(lambda: U.bin_edges(range_min=float(a), range_max=float(b), nbins=0), ValueError, "edges/refused", "no bins")
        ck.state("e1", a, b, n)
        ck.step()
    for a, s, st in ck.cases("edges min max step", itertools.product(lo, span, steps)):
        b = a + s
        if st > s:
            ck.raises(lambda: U.bin_edges(range_min=float(a), range_max=float(b), step=float(st)), ValueError, "edges/refused", "step %s > range %s" % (st, s))
            continue
        n = s // st
        near(U.bin_edges(range_min=float(a), range_max=float(b), step=float(st)), [a + st * k for k in range(n + 1)], "edges/min-max-step", "%s %s step %s" % (a, b, st))
        ck.state("e2", a, b, st)
        ck.step()
    for a, s, f in ck.cases("step just above the range", itertools.product((0.0, -3.0, 2.5, 0.1), (1.0, 3.0, 0.7, 1e-3, 1e4), (1e-9, 1e-6, 5e-4, 0.01, 1.0))):
        ck.raises(lambda: U.bin_edges(range_min=a, range_max=a + s, step=(a + s - a) * (1 + f)), ValueError, "edges/refused", "%r to %r, step a fraction %g larger" % (a, a + s, f))
        ck.step()
    for a, n, st in ck.cases("edges one end", itertools.product(lo, nb, steps)):
        near(U.bin_edges(range_min=float(a), nbins=n, step=float(st)), [a + st * k for k in range(n + 1)], "edges/min-n-step", "%s %s %s" % (a, n, st))
        near(U.bin_edges(range_max=float(a), nbins=n, step=float(st)), [a - st * (n - k) for k in range(n + 1)], "edges/max-n-step", "%s %s %s" % (a, n, st))
        ck.raises(lambda: U.bin_edges(range_min=float(a), nbins=-n, step=float(st)), ValueError, "edges/refused", "negative number")
        ck.state("e3", a, n, st)
        ck.step(2)
    # fine and coarse steps
    for a, n, st in ck.cases("edges scales", itertools.product((0.0, 1.0, -1e-9 / 3, 1e9 / 7), (1, 3, 17), (1e-14 / 3, 1e-10 / 7, 1e-7 / 3, 1e7 / 3, 1e15 / 7))):
        k = np.arange(n + 1)
        for key, got, want in (("edges/min-n-step", U.bin_edges(range_min=a, nbins=n, step=st), a + k * st), ("edges/max-n-step", U.bin_edges(range_max=a, nbins=n, step=st), a - k[::-1] * st)):
            got = np.asarray(got, float)
            ck.true(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-14 * (abs(a) + n * st)), key, lambda: "%r with %d bins of %r: %s, expected %s" % (a, n, st, got[:5], want[:5]))
        ck.step(2)
        ck.state("es", a, n, st)
    # decimal steps, many bins, integer arguments
    for a, n, st in ck.cases("edges many", itertools.product((0, 0.1, -7.3, 12345.678, 3), (1, 2, 10, 300, 1024, 70000), (0.1, 0.3, 1e-3, 2, 17.7))):
        k = np.arange(n + 1)
        tol = 1e-12 * (abs(a) + n * st)
        for key, got, want in (("edges/min-n-step", U.bin_edges(range_min=a, nbins=n, step=st), a + k * st), ("edges/max-n-step", U.bin_edges(range_max=a, nbins=n, step=st), a - k[::-1] * st),
                               ("edges/min-max-n", U.bin_edges(range_min=a, range_max=a + n * st, nbins=n), a + k * st)):
            got = np.asarray(got, float)
            ck.true(got.shape == want.shape and np.all(np.abs(got - want) <= tol), key, lambda: "%s with %d bins of %s: %s, expected %s" % (a, n, st, got[:5], want[:5]))
        ck.true(U.bin_edges(range_max=a, nbins=n, step=st)[-1] == a, "edges/max-n-step", "last edge is not %r" % a)
        ck.true(U.bin_edges(range_min=a, nbins=n, step=st)[0] == a, "edges/min-n-step", "first edge is not %r" % a)
        e = U.bin_edges(range_min=a, range_max=a + n * st, nbins=n)
        ck.true(e[0] == a and e[-1] == a + n * st, "edges/min-max-n", "ends of %d bins" % n)
        ck.state("em", a, n, st)
        ck.step(3)
    # decimal steps: never past the maximum, gap not larger than a step, number of edges right
    for num, den, n in ck.cases("edges decimal", itertools.product(range(1, 10), (10, 7, 3), range(1, 25))):
        st = num / den
        mx = st * n
        e = np.asarray(U.bin_edges(range_min=0.0, range_max=mx, step=st))
        ck.true(e[0] == 0 and e[-1] <= mx and mx - e[-1] <= st * (1 + 1e-9), "edges/inside", lambda: "0 to %r step %r: %s" % (mx, st, e))
        ck.true(np.allclose(np.diff(e), st, rtol=1e-9), "edges/spacing", "0 to %r step %r" % (mx, st))
        ck.step()
    for a, s in ck.cases("edges decimal start", itertools.product(range(-20, 20), range(1, 30))):
        for n in range(1, 40):
            mn, st = a / 10, s / 100
            mx = round(mn + n * st, 10)
            if not st <= mx - mn:
                continue
            e = np.asarray(U.bin_edges(range_min=mn, range_max=mx, step=st))
            ck.true(e[0] == mn and e[-1] <= mx and mx - e[-1] <= st * (1 + 1e-9), "edges/inside", lambda: "%r to %r step %r: %s" % (mn, mx, st, e))
            ck.true(len(e) == 1 or np.allclose(np.diff(e), st, rtol=1e-9), "edges/spacing", "%r to %r step %r" % (mn, mx, st))
            ck.step()
        ck.state("ed", a, s)
    names = ("range_min", "range_max", "nbins", "step")
    full = dict(range_min=0.0, range_max=4.0, nbins=4, step=1.0)
    for sub in ck.cases("edges arguments", [c for r in (0, 1, 2, 4) for c in itertools.combinations(names, r)]):
        ck.raises(lambda: U.bin_edges(**{k: full[k] for k in sub}), ValueError, "edges/three", "given %s" % (sub,))


def centers(ck, U):
    al = [0, 1, 2.5, -3]
    for seq in ck.cases("centers", [s for n in range(1, 6) for s in itertools.product(al, repeat=n)]):
        for c in (list(seq), tuple(seq), np.array(seq)):
            got = np.asarray(U.bin_edges_to_centers(c)).tolist()
            ck.equal(got, [(a + b) / 2 for a, b in zip(seq, seq[1:])], "centers", "%s" % (seq,))
        for it in (list(seq), iter(seq), (x for x in seq)):
            ck.equal([tuple(p) for p in U.pairwise(it)], list(zip(seq, seq[1:])), "pairwise", "%s" % (seq,))
        ck.step(2)
    for dt in ck.cases("centers of typed edges", ("u1", "i1", "u2", "i2", "u4", "i4", "f4", "f8")):
        lo, hi = (-1000, 1000) if dt[0] == "f" else (int(np.iinfo(dt).min), int(np.iinfo(dt).max))
        e = [lo, lo + 1, lo // 2, 0, hi // 2, hi - 3, hi] if lo else [0, 1, hi // 2, hi - 3, hi]
        ck.equal(np.asarray(U.bin_edges_to_centers(np.array(e, dt))).tolist(), [(a + b) / 2 for a, b in zip(e, e[1:])], "centers", "edges of type %s" % dt)
        ck.step()
        ck.state("ct", dt)
    ck.close(U.bin_edges_to_centers(np.array([-1.7e308, -1.5e308, 1e308, 1.6e308])), [-1.6e308, -0.25e308, 1.3e308], "centers", "huge edges")
    ck.equal(list(U.pairwise([])), [], "pairwise", "empty")


def units(ck, U):
    qs = [0.01, 0.5, 1.0, 2.0, 3.5, 10.0]
    for q in ck.cases("q and d", qs):
        for f in (U.q_to_d, U.d_to_q):
            ck.close(f(q), 2 * math.pi / q, "q-d", "%s(%s)" % (f.__name__, q), rtol=1e-13)
            ck.close(f([q, 2 * q]), [2 * math.pi / q, math.pi / q], "q-d", "list", rtol=1e-13)
            ck.close(f(np.array([[q], [3 * q]])), [[2 * math.pi / q], [2 * math.pi / q / 3]], "q-d", "2-D", rtol=1e-13)
        ck.close(U.q_to_d(U.d_to_q(q)), q, "q-d/round trip", "%s" % q, rtol=1e-13)
        ck.step(3)
    for k in ck.cases("integers", range(1, 9)):
        ck.close(U.q_to_d(k), 2 * math.pi / k, "q-d", "integer", rtol=1e-13)
        ck.close(U.d_to_q(np.arange(1, k + 1)), [2 * math.pi / i for i in range(1, k + 1)], "q-d", "integers", rtol=1e-13)
        ck.close(U.twotheta_to_q(np.array([k % 3]), k), [4 * math.pi / k * math.sin((k % 3) / 2)], "two theta", "integers", rtol=1e-13)
    for lam, deg in ck.cases("two theta", itertools.product((0.1, 0.7, 1, 1.54, 12.4), [0, 1e-3, 1, 10, 45, 90, 120, 179])):
        t = math.radians(deg)
        q = 4 * math.pi / lam * math.sin(t / 2)
        ck.close(U.twotheta_to_q(t, lam), q, "two theta", "%s deg %s" % (deg, lam), rtol=1e-12)
        ck.close(U.q_to_twotheta(q, lam), t, "two theta", "%s deg %s back" % (deg, lam), rtol=1e-7)
        ck.close(U.twotheta_to_q([t, t / 2], lam), [q, 4 * math.pi / lam * math.sin(t / 4)], "two theta", "list", rtol=1e-12)
        ck.close(U.q_to_twotheta([q / 2, q], str(lam)) if False else U.q_to_twotheta([q / 2, q], lam),
                 [2 * math.asin(q / 2 * lam / 4 / math.pi), 2 * math.asin(min(1.0, q * lam / 4 / math.pi))], "two theta", "list", rtol=1e-7)
        ck.state("tt", lam, deg)
        ck.step(4)
    for lam, f in ck.cases("out of reach", itertools.product((0.1, 1, 1.54, 12.4), (1.0001, 1.5, 40.0))):
        q = 4 * math.pi / lam * f
        with np.errstate(all="ignore"):
            try:
                t = np.asarray(U.q_to_twotheta(np.array([q / 2 / f, q, -q]), lam), float)
            except ValueError:
                continue        # refusing is as good as undefined
        ck.close(t[0], 2 * math.asin(0.5), "two theta", "next to a vector out of reach", rtol=1e-9)
        ck.true(bool(np.all(np.isnan(t[1:]))), "two theta/out of reach", lambda: "no angle gives q = %r at wavelength %s, got %s" % (q, lam, t[1:]))
        ck.step()
    for lam in ck.cases("two theta, both signs", (0.1, 1, 1.54, 12.4)):
        t = np.linspace(-3.1, 3.1, 301)
        q = 4 * math.pi / lam * np.sin(t / 2)
        ck.close(U.twotheta_to_q(t, lam), q, "two theta", "angles of both signs", rtol=1e-12, atol=1e-14)
        ck.close(U.q_to_twotheta(q, lam), t, "two theta", "vectors of both signs", rtol=1e-7, atol=1e-9)
        ck.close(U.q_to_twotheta(q.reshape(43, 7), lam), t.reshape(43, 7), "two theta", "map of vectors", rtol=1e-7, atol=1e-9)
        ck.close(U.q_to_d(U.d_to_q(t[:150])), t[:150], "q-d/round trip", "negative", rtol=1e-12)
        ck.step(4)
    for d, r in ck.cases("radius to two theta", itertools.product((0.5, 1, 150.0, 3000), (0, 0.1, 1, 77, 1e4))):
        ck.close(U.radius_to_twotheta(d, r), math.atan(r / d), "radius", "%s %s" % (d, r), rtol=1e-13)
        ck.close(U.radius_to_twotheta(d, np.array([r, 2 * r])), [math.atan(r / d), math.atan(2 * r / d)], "radius", "array", rtol=1e-13)
        ck.step(2)


def lags(ck, U):
    for lev, ch in ck.cases("delays", itertools.product(list(range(1, 9)) + [12, 16, 20, 33, 40], list(range(1, 17)) + [32, 33, 64, 100])):
        if ch % 2:
            ck.raises(lambda: U.multi_tau_lags(lev, ch), ValueError, "delays/odd", "%d channels" % ch)
            continue
        tot, steps, d = U.multi_tau_lags(lev, ch)
        per = [list(range(ch))] + [[k * 2 ** i for k in range(ch // 2, ch)] for i in range(1, lev)]
        flat = [v for p in per for v in p]
        ck.equal(int(tot), len(flat), "delays/total", "%d levels %d channels" % (lev, ch))
        ck.equal([float(v) for v in steps], [float(v) for v in flat], "delays/steps", "%d levels %d channels" % (lev, ch))
        ck.equal({int(k): [int(x) for x in v] for k, v in d.items()}, {i + 1: p for i, p in enumerate(per)}, "delays/levels", "%d %d" % (lev, ch))
        ck.true(all(a < b for a, b in zip(flat, flat[1:])), "delays/increasing", "")
        ck.state("lag", lev, ch)
        ck.step()
