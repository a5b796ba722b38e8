"""C09 - region-of-interest labels: every pixel gets exactly the label of the region that contains it."""
import itertools
import math

import numpy as np

from vc.harness import freeze, unchanged

SHAPES = [(1, 1), (3, 4), (4, 3), (5, 5)]


def run(ck):
    from skbeam.core import roi

    rectangles(ck, roi)
    rings(ck, roi)
    ring_edges(ck, roi)
    segmented(ck, roi)
    bars(ck, roi)
    lines(ck, roi)
    indices(ck, roi)
    many(ck, roi)
    forms(ck, roi)


def ints(ck, arr, key):
    a = np.asarray(arr)
    ck.true(a.dtype.kind in "iu", key, "labels are of type %s" % a.dtype)


def rectangles(ck, roi):
    rng = (-3, -1, 0, 1, 2, 6)
    wh = (0, 1, 2, 5)
    rects = list(itertools.product(rng, rng, wh, wh))
    for shape, r in ck.cases("one rectangle", itertools.product(SHAPES, rects)):
        got = roi.rectangles([r], shape)
        want = np.zeros(shape, int)
        for i in range(shape[0]):
            for j in range(shape[1]):
                if r[0] <= i < r[0] + r[2] and r[1] <= j < r[1] + r[3]:
                    want[i, j] = 1
        ck.close(got, want, "rectangle", "rectangle %s on %s" % (r, shape))
        ints(ck, got, "rectangle/type")
        ck.step()
        ck.state(shape, r)
    small = list(itertools.product((-1, 0, 1, 2), (0, 2), (1, 2), (1, 2)))
    trip = itertools.product(small, repeat=2)
    for rs in ck.cases("two rectangles", trip):
        shape = (4, 4)
        cells = []
        for r in rs:
            cells.append({(i, j) for i in range(4) for j in range(4)
                          if r[0] <= i < r[0] + r[2] and r[1] <= j < r[1] + r[3]})
        if cells[0] & cells[1]:
            ck.raises(lambda: roi.rectangles(list(rs), shape), ValueError, "overlap", "overlapping %s" % (rs,))
        else:
            want = np.zeros(shape, int)
            for k, c in enumerate(cells):
                for p in c:
                    want[p] = k + 1
            ck.close(roi.rectangles(list(rs), shape), want, "rectangles", "%s" % (rs,))
        ck.step()
        ck.state("two", rs)
    for n in ck.cases("many rectangles", range(0, 7)):
        rs = [(0, k, 2, 1) for k in range(n)]
        want = np.zeros((3, 6), int)
        for k in range(n):
            want[0:2, k] = k + 1
        ck.close(roi.rectangles(rs, (3, 6)), want, "rectangles/many", "n=%d" % n)
        ck.step()


def ring_label(r, edges):
    for k in range(len(edges) // 2):
        if edges[2 * k] <= r < edges[2 * k + 1]:
            return k + 1
    return 0


CENTERS = [(0., 0.), (2., 1.), (1.5, 2.5), (-3., 2.), (2, 2)]


def rings(ck, roi):
    vals = (0, 0.5, 1, 2, 2.5, 3, 5)
    sets = [e for n in (2, 4) for e in itertools.combinations_with_replacement(vals, n)]
    for shape, c, e in ck.cases("rings", itertools.product(SHAPES[1:], CENTERS, sets)):
        want = np.zeros(shape, int)
        for i in range(shape[0]):
            for j in range(shape[1]):
                want[i, j] = ring_label(math.sqrt((i - c[0]) ** 2 + (j - c[1]) ** 2), e)
        pairs = [tuple(e[k:k + 2]) for k in range(0, len(e), 2)]
        for form in (pairs, np.array(pairs, float), list(e)):
            got = roi.rings(form, c, shape)
            ck.close(got, want, "rings", "edges %s center %s shape %s" % (e, c, shape))
            ints(ck, got, "rings/type")
            ck.step()
        ck.state("rings", shape, c, e)
    # edges that run between the closest pairs of pixel radii
    for shape, c in ck.cases("close radii", itertools.product([(40, 41), (7, 90), (130, 3)], [(7.31, 11.17), (-3.7, 2.9), (60.123, 1.013)])):
        i, j = np.indices(shape)
        r = np.sqrt((i - c[0]) ** 2 + (j - c[1]) ** 2)
        u = np.unique(r)
        gap = np.diff(u)
        for g0 in (1e-8, 1e-6, 1e-4):
            mids = ((u[1:] + u[:-1]) / 2)[(gap > g0) & (gap < 50 * g0)]
            mids = mids[:len(mids) // 2 * 2]
            if not len(mids):
                continue
            k = np.searchsorted(mids, r, side="right")
            want = np.where(k % 2 == 1, (k + 1) // 2, 0)
            ed = mids.reshape(-1, 2)
            ck.close(roi.rings(ed, c, shape), want, "rings/close", "%d rings between radii %g apart, center %s shape %s" % (len(ed), g0, c, shape), rtol=0, atol=0)
            ck.close(roi.segmented_rings(ed, 1, c, shape), want, "rings/close", "one segment", rtol=0, atol=0)
            ck.step(2)
        ck.state("close", shape, c)
    # edges just inside and just outside pixel radii (within 1e-12 of them)
    for shape, c, start in ck.cases("edges at radii", itertools.product([(9, 8), (40, 41), (3, 700)], [(0, 0), (3, 2), (1.5, 2.25), (-5, 4)], (0, 1, 2, 3))):
        i, j = np.indices(shape)
        r = np.sqrt((i - c[0]) ** 2 + (j - c[1]) ** 2)
        u = np.unique(r)[start::4]
        u = u[u > 0]
        u = u[np.append(True, np.diff(u) > 1e-6)]
        ed = np.array([u * (1 - 1e-12), u * (1 + 1e-12)]).T
        k = np.searchsorted(ed.ravel(), r, side="right")
        want = np.where(k % 2 == 1, (k + 1) // 2, 0)
        ck.close(roi.rings(ed, c, shape), want, "rings/at radii", "%d thin rings, center %s shape %s" % (len(ed), c, shape), rtol=0, atol=0)
        ck.close(roi.segmented_rings(ed, 1, c, shape), want, "rings/at radii", "one segment", rtol=0, atol=0)
        v = np.sqrt(np.arange(shape[0] * shape[1]) + 0.0).reshape(shape)
        w = np.sqrt(np.arange(start + 1.0, shape[0] * shape[1], 4.0))
        ed = np.array([w * (1 - 1e-12), w * (1 + 1e-12)]).T
        k = np.searchsorted(ed.ravel(), v, side="right")
        ck.close(roi.bar(ed, shape, values=v), np.where(k % 2 == 1, (k + 1) // 2, 0), "bar/at values", "thin bars", rtol=0, atol=0)
        ck.step(3)
        ck.state("at radii", shape, c, start)
    for e in ck.cases("bad ring edges", [[1, 2, 3], [(2, 1)], [(1, 3), (2, 4)], [5], [(3, 4), (1, 2)]]):
        ck.raises(lambda: roi.rings(e, (0, 0), (4, 4)), ValueError, "rings/reject", "%s" % (e,))
        ck.raises(lambda: roi.segmented_rings(e, 2, (0, 0), (4, 4)), ValueError, "segmented/reject", "%s" % (e,))
        ck.raises(lambda: roi.bar(e, (4, 4)), ValueError, "bar/reject", "%s" % (e,))
        ck.step(3)


def ring_edges(ck, roi):
    inner = [0, 1, 2.5, 0.1]
    widths = [1, 0.5, [2], [0.7, 1 / 3], [1, 2], [1.5, 2, 3], (5, 4, 3), [1, 2, 3, 4]]
    spac = [None, 0, 1, 0.25, [], [1], [1, 2], (0.5, 2), [1, 2, 3]]
    nums = [None, 1, 2, 3, 4]
    for i, w, s, n in ck.cases("ring edges", itertools.product(inner, widths, spac, nums)):
        wl, sl = isinstance(w, (list, tuple)), isinstance(s, (list, tuple))
        implied = set()
        if wl:
            implied.add(len(w))
        if sl:
            implied.add(len(s) + 1)
        if n is not None:
            implied.add(n)
        kw = {}
        if s is not None:
            kw["spacing"] = s
        if n is not None:
            kw["num_rings"] = n
        label = "ring_edges(%s, %s, %s)" % (i, w, kw)
        ck.step()
        ck.state("edges", i, w, s, n)
        if len(implied) != 1:
            ck.raises(lambda: roi.ring_edges(i, w, **kw), ValueError, "ring_edges/reject", label)
            continue
        k = implied.pop()
        ws = list(w) if wl else [w] * k
        ss = list(s) if sl else [s or 0] * (k - 1)
        want, r = [], i
        for t in range(k):
            want.append((r, r + ws[t]))
            r = r + ws[t] + (ss[t] if t < k - 1 else 0)
        ck.close(roi.ring_edges(i, w, **kw), np.array(want, float), "ring_edges", label)


def segmented(ck, roi):
    two = 2 * math.pi
    segs = [1, 2, 3, 4, 8, [0, math.pi], [0, 1, 2, 5], [0.5, 1.5], [0, math.pi / 2, math.pi, 3 * math.pi / 2, two],
            [1., 1. + math.pi, 1. + two], (-1., 0.5, 2.)]
    offs = [0, 0.3, -0.3, math.pi / 2, math.pi, 4.0, -2.0, 7.0]
    edges = [[(0, 2)], [(1, 2), (2, 4)], [(0.5, 1.5), (2.5, 3.5), (3.5, 10)], [(1, 1), (1, 3), (3, 3), (3, 4)]]
    for sg, off, ed, c, shape in ck.cases("segments", itertools.product(segs, offs, edges, [(2., 1.), (1.25, 2.5), (-1., 3.)],
                                                                        [(5, 4), (4, 6)])):
        e = [x for p in ed for x in p]
        if isinstance(sg, int):
            a = [k * two / sg + off for k in range(sg + 1)]
        else:
            a = [x + off for x in sg]
        ns = len(a) - 1
        got = np.asarray(roi.segmented_rings(ed, sg, c, shape, off))
        if off == 0:
            ck.close(roi.segmented_rings(ed, sg, c, shape), got, "segmented/default", "no offset by default", rtol=0)
        ints(ck, got, "segmented/type")
        ck.equal(got.shape, shape, "segmented/shape", "shape")
        for i in range(shape[0]):
            for j in range(shape[1]):
                r = ring_label(math.sqrt((i - c[0]) ** 2 + (j - c[1]) ** 2), e)
                t = math.atan2(i - c[0], j - c[1])
                opts = set()
                for eps in (-1e-9, 0.0, 1e-9):
                    m = 0
                    for k in range(ns):
                        for turn in range(-4, 5):
                            if a[k] <= t + eps + turn * two < a[k + 1]:
                                m = k + 1
                    opts.add(0 if m == 0 or r == 0 else m + ns * (r - 1))
                ck.true(int(got[i, j]) in opts, "segmented",
                        lambda: "pixel %s (ring %d, angle %.6f) labelled %d, expected %s; segments %s offset %s edges %s center %s"
                        % ((i, j), r, t, got[i, j], sorted(opts), sg, off, ed, c))
        ck.step()
        ck.state("seg", sg, off, ed, c, shape)


    # centres a rounding error beside a pixel, and lists of many segments
    nx = [(math.nextafter(2.0, 3), 2.0), (math.nextafter(2.0, 1), 2.0), (2.0, math.nextafter(2.0, 3)), (math.nextafter(2.0, 3), math.nextafter(1.0, 2))]
    many = [[0.1 * k for k in range(14)], [1.0 + 0.07 * k for k in range(40)], [-2.0 + 0.15 * k for k in range(25)], list(np.linspace(0, two, 20)), list(np.linspace(0.3, 0.3 + two, 61))]
    for c, sg, off, ed in ck.cases("fine segments", itertools.product(nx + [(2.1, 1.3)], [1, 3, 4] + many, (0, 0.3, -1.0), edges[:3])):
        e = [x for p in ed for x in p]
        a = [k * two / sg + off for k in range(sg + 1)] if isinstance(sg, int) else [x + off for x in sg]
        ns = len(a) - 1
        full = a[-1] - a[0] > two - 1e-9
        got = np.asarray(roi.segmented_rings(ed, sg, c, (6, 5), off))
        for i in range(6):
            for j in range(5):
                r = ring_label(math.sqrt((i - c[0]) ** 2 + (j - c[1]) ** 2), e)
                t = math.atan2(i - c[0], j - c[1])
                opts = set()
                for eps in (-1e-9, 0.0, 1e-9):
                    m = 0
                    for k in range(ns):
                        for turn in range(-3, 4):
                            if a[k] <= t + eps + turn * two < a[k + 1]:
                                m = k + 1
                    if m == 0 and full:
                        continue    # a whole turn leaves no gap
                    opts.add(0 if m == 0 or r == 0 else m + ns * (r - 1))
                ck.true(int(got[i, j]) in opts, "segmented/fine",
                        lambda: "pixel %s (ring %d, angle %r) labelled %d, expected %s; %s segments offset %s edges %s center %s"
                        % ((i, j), r, t, got[i, j], sorted(opts), ns, off, ed, c))
        ck.step()
        ck.state("fine", c, str(sg), off, ed)


def bars(ck, roi):
    vals = (0, 1, 2, 4, 6)
    sets = [e for n in (2, 4) for e in itertools.combinations_with_replacement(vals, n)]
    for shape, e, hor in ck.cases("bars", itertools.product([(3, 5), (5, 3), (6, 6)], sets, (True, False))):
        pairs = [tuple(e[k:k + 2]) for k in range(0, len(e), 2)]
        want = np.array([[ring_label(i if hor else j, e) for j in range(shape[1])] for i in range(shape[0])])
        ck.close(roi.bar(pairs, shape, hor), want, "bar", "edges %s shape %s horizontal %s" % (pairs, shape, hor))
        if hor:
            ck.close(roi.bar(pairs, shape), want, "bar/default", "horizontal by default", rtol=0)
        v = np.array([[(i * 3 + j * 2) % 7 for j in range(shape[1])] for i in range(shape[0])]) * 1.0
        fr = freeze(v)
        wantv = np.array([[ring_label(x, e) for x in row] for row in v])
        for vv in (v, v.ravel()):
            ck.close(roi.bar(pairs, shape, hor, values=vv), wantv, "bar/values",
                     "coordinates given, horizontal %s edges %s" % (hor, pairs))
        ck.true(unchanged(fr, v), "bar/inputs", "values modified")
        ck.step(3)
        ck.state("bar", shape, e, hor)
    es = [[(0, 1)], [(1, 2), (3, 5)], [(0, 2), (2, 3), (4, 9)], [(2, 2), (2, 4)], [(0, 1), (1, 1), (1, 3), (3, 3)]]
    for shape, ve, he in ck.cases("boxes", itertools.product([(5, 4), (4, 7), (6, 6)], es, es + [None])):
        h = ve if he is None else he
        want = np.zeros(shape, int)
        lab = 0
        for hh in h:
            for vv in ve:
                lab += 1
                for i in range(shape[0]):
                    for j in range(shape[1]):
                        if hh[0] <= i < hh[1] and vv[0] <= j < vv[1]:
                            want[i, j] = lab
        got = roi.box(shape, ve, he) if he is not None else roi.box(shape, ve)
        ck.close(got, want, "box", "v %s h %s shape %s" % (ve, he, shape))
        ck.step()
        ck.state("box", shape, ve, he)
    for _ in ck.cases("box reject", [0]):
        ck.raises(lambda: roi.box((4, 4), [[1, 2], [3]]), ValueError, "box/reject", "odd edges")
        a, b = np.mgrid[0:4, 0:4]
        ck.raises(lambda: roi.box((4, 4), [[1, 2]], h_values=a, v_values=b[:2]), ValueError, "box/reject", "shapes")
        ck.raises(lambda: roi.box((4, 4), [[0, 2], [1, 3]]), ValueError, "box/overlap", "overlapping boxes")
    # boxes in physical coordinates: the documented purpose of h_values and v_values
    for _ in ck.cases("box in coordinates", [0]):
        v, h = np.mgrid[:4, :4] * 10.0
        try:
            got = np.asarray(roi.box((4, 4), [(0, 15)], [(0, 15)], h_values=h, v_values=v))
            ok = got.sum() == 4 and got[:2, :2].all()
        except Exception:
            ok = False
        ck.true(ok, "box-coordinates", "box(h_values, v_values) ignores the coordinates")
        ck.step()


def lines(ck, roi):
    from skimage.draw import line
    coords = (-2, 0, 1, 3, 6, 40)
    for shape, p in ck.cases("lines", itertools.product([(4, 5), (5, 3)], itertools.product(coords, repeat=4))):
        q = [min(max(x, 0), shape[k % 2] - 1) for k, x in enumerate(p)]
        want = np.zeros(shape, int)
        rr, cc = line(*q)
        want[rr, cc] = 1
        got = roi.lines([p], shape)
        ck.close(got, want, "line", "line %s on %s" % (p, shape))
        # properties of a line that do not come from the drawing routine
        pix = [tuple(x) for x in np.argwhere(np.asarray(got))]
        ck.true(len(pix) == max(abs(q[2] - q[0]), abs(q[3] - q[1])) + 1, "line/length", "%s pixels for %s" % (len(pix), q))
        ck.true((q[0], q[1]) in pix and (q[2], q[3]) in pix, "line/ends", "end points of %s not labelled" % (p,))
        ints(ck, got, "line/type")
        ck.step()
        ck.state("line", shape, p)
    segs = [(0, 0, 0, 3), (1, 0, 3, 0), (0, 0, 3, 3), (3, 0, 0, 3)]
    for n in ck.cases("several lines", [s for k in range(0, 4) for s in itertools.product(segs, repeat=k)]):
        want = np.zeros((4, 4), int)
        for k, p in enumerate(n):
            rr, cc = line(*p)
            want[rr, cc] = k + 1
        ck.close(roi.lines(list(n), (4, 4)), want, "lines", "%s" % (n,))
        ck.step()
    for bad in ck.cases("bad lines", [[(1, 2, 3)], [(0, 0, 1, 1), (1,)], [(1, 2, 3, 4, 5)]]):
        ck.raises(lambda: roi.lines(bad, (5, 5)), ValueError, "lines/reject", "%s" % (bad,))


def indices(ck, roi):
    for shape in ((2, 3), (3, 2), (1, 5)):
        n = shape[0] * shape[1]
        for lab in ck.cases("label indices %dx%d" % shape, itertools.product((0, 1, 3), repeat=n)):
            for dt in (np.int64, np.uint8):
                for order in "CF":
                    a = np.array(lab, dt).reshape(shape).copy(order)
                    fr = freeze(a)
                    m, ix = roi.extract_label_indices(a)
                    ck.equal([int(x) for x in m], [x for x in lab if x], "indices/labels", "labels of %s" % (lab,))
                    ck.equal([int(x) for x in ix], [k for k, x in enumerate(lab) if x], "indices/pixels", "pixels of %s" % (lab,))
                    ck.true(unchanged(fr, a), "indices/inputs", "labels modified")
                    ck.step()
            ck.state("ind", shape, lab)


def many(ck, roi):
    """label numbers beyond every small integer type, images beyond every small index type"""
    for n, flip in ck.cases("hundreds of rectangles", itertools.product((100, 127, 128, 255, 256, 257, 300, 700, 66000), (False, True))):
        # one row of cells each 1 x 2 pixels, wrapped over the image
        ncol = 400
        rows = -(-n // (ncol // 2))
        shape = (rows, ncol)
        order = list(range(n))[::-1] if flip else list(range(n))
        rs = [(k // (ncol // 2), 2 * (k % (ncol // 2)), 1, 2) for k in order]
        want = np.zeros(shape, np.int64)
        for lab, (r, c, h, w) in enumerate(rs):
            want[r:r + h, c:c + w] = lab + 1
        ck.close(roi.rectangles(rs, shape), want, "many/rectangles", "%d rectangles" % n)
        ck.step(n)
        ck.state("rects", n, flip)
    for n, w, c, shape in ck.cases("hundreds of rings", itertools.product(
            (100, 128, 200, 256, 260, 300), (1.0, 0.75), [(0., 0.), (3.3, 7.7)], [(310, 11), (9, 330)])):
        ed = np.array([(2 * w * k, 2 * w * k + w) for k in range(n)])
        i, j = np.indices(shape)
        r = np.sqrt((i - c[0]) ** 2 + (j - c[1]) ** 2)
        k = np.floor(r / (2 * w)).astype(int)
        want = np.where((r >= 2 * w * k) & (r < 2 * w * k + w) & (k < n), k + 1, 0)
        ck.close(roi.rings(ed, c, shape), want, "many/rings", "%d rings of width %s" % (n, w))
        e2 = np.asarray(roi.ring_edges(0, w, w, n))
        ck.close(e2, ed, "many/ring edges", "%d rings of width %s" % (n, w))
        # the same rings cut in equal segments
        for ns in (1, 3, 40):
            got = np.asarray(roi.segmented_rings(ed, ns, c, shape, 0.123))
            t = np.mod(np.arctan2(i - c[0], j - c[1]) - 0.123, 2 * np.pi) / (2 * np.pi) * ns
            sure = np.abs(t - np.round(t)) > 1e-7
            full = np.where(want > 0, np.minimum(np.floor(t).astype(int), ns - 1) + 1 + ns * (want - 1), 0)
            ck.close(got[sure], full[sure], "many/segments", "%d rings in %d segments" % (n, ns))
            ck.true(bool(np.all((got > 0) == (want > 0))), "many/segments", "background of %d rings in %d segments" % (n, ns))
            ck.step()
        ck.state("rings", n, w, c, shape)
    for n in ck.cases("hundreds of bars", (127, 128, 255, 256, 300, 33000)):
        ed = [(2 * k, 2 * k + 1) for k in range(n)]
        for hor in (True, False):
            shape = (2 * n + 3, 2) if hor else (2, 2 * n + 3)
            line = np.zeros(2 * n + 3, int)
            line[0:2 * n:2] = np.arange(n) + 1
            want = np.repeat(line[:, None], 2, 1) if hor else np.repeat(line[None], 2, 0)
            ck.close(roi.bar(ed, shape, hor), want, "many/bars", "%d bars" % n)
        ck.step(2)
    for nh, nv in ck.cases("hundreds of boxes", [(16, 17), (3, 100), (100, 3), (20, 20)]):
        he, ve = [(3 * k, 3 * k + 2) for k in range(nh)], [(2 * k, 2 * k + 1) for k in range(nv)]
        shape = (3 * nh, 2 * nv + 1)
        want = np.zeros(shape, int)
        for a, h in enumerate(he):
            for b, v in enumerate(ve):
                want[h[0]:h[1], v[0]:v[1]] = a * nv + b + 1
        ck.close(roi.box(shape, ve, he), want, "many/boxes", "%d x %d boxes" % (nh, nv))
        ck.step()
    for n in ck.cases("hundreds of lines", (128, 255, 256, 300, 70000)):
        shape = (n // 100 + 1, 100)
        ps = [(k // 100, k % 100, k // 100, k % 100) for k in range(n)]
        want = np.zeros(shape, int)
        for k, p in enumerate(ps):
            want[p[0], p[1]] = k + 1
        ck.close(roi.lines(ps, shape), want, "many/lines", "%d lines" % n)
        ck.step()
    for shape in ck.cases("large labellings", [(300, 300), (1, 70000), (70000, 1), (129, 257)]):
        n = shape[0] * shape[1]
        lab = (np.arange(n) * 7 % 1009 - 5).clip(0).reshape(shape)
        for a in (lab, np.asfortranarray(lab), lab.astype(np.uint16)):
            m, ix = roi.extract_label_indices(a)
            w = np.flatnonzero(lab.ravel() > 0)
            ck.close(ix, w, "many/indices", "pixel list of %s" % (shape,))
            ck.close(m, lab.ravel()[w], "many/indices", "labels of %s" % (shape,))
            ck.step()


def forms(ck, roi):
    """the container a specification comes in does not matter; malformed ones are refused"""
    rs = [(0, 1, 2, 1), (2, 0, 1, 3)]
    want = roi.rectangles(rs, (4, 5))
    for f in ck.cases("rectangle containers", range(6)):
        x = [np.array(rs), tuple(rs), [list(r) for r in rs], (r for r in rs), np.array(rs, dtype=np.int32), np.array(rs, dtype=np.int16)][f]
        ck.close(roi.rectangles(x, (4, 5)), want, "forms/rectangles", "form %d" % f)
        ck.close(roi.rectangles(rs, [[4, 5], np.array([4, 5]), (4, 5), (np.int64(4), np.int64(5)), (4, 5), (4, 5)][f]), want,
                 "forms/rectangles", "shape form %d" % f)
        ck.step(2)
    for bad in ck.cases("refused", [[(0, 0, 3)], [(0, 0, 2, 2), (1, 1, 2, 2)], [(0, 0, 2, 2), (3, 3, 1, 1), (0, 1, 1, 1)],
                                    [(-2, -2, 3, 3), (0, 0, 1, 1)], [(3, 3, 9, 9), (4, 4, 1, 1)], [(1, 1, 2, 2), (0, 0, 4, 4)]]):
        ck.raises(lambda: roi.rectangles(bad, (5, 5)), ValueError, "forms/refused", "rectangles %s" % (bad,))
        ck.step()
    for bad in ck.cases("refused segments", [[0, 2, 1], [2, 1, 3], [0, 1, 2, 1.5], [0, 3, 1, 4]]):
        for off in (0, 0.5):
            ck.raises(lambda: roi.segmented_rings([(0, 3)], bad, (2, 2), (5, 5), off), ValueError, "forms/refused",
                      "segments %s" % (bad,))
        ck.step()
    es = [(0.5, 1.5), (2, 3)]
    for f in ck.cases("edge containers", range(4)):
        x = [np.array(es), tuple(es), [list(e) for e in es], np.array(es, np.float32)][f]
        ck.close(roi.rings(x, (2, 1), (5, 4)), roi.rings(es, (2., 1.), (5, 4)), "forms/edges", "rings form %d" % f)
        ck.close(roi.segmented_rings(x, 3, (2, 1), (5, 4)), roi.segmented_rings(es, 3, (2., 1.), (5, 4)), "forms/edges", "segments form %d" % f)
        ck.close(roi.bar(x, (5, 4)), roi.bar(es, (5, 4)), "forms/edges", "bar form %d" % f)
        ck.close(roi.bar(x, [5, 4], horizontal=False), roi.bar(es, (5, 4), False), "forms/edges", "bar form %d" % f)
        ck.step(4)
    # ring tables: every combination of consistent and inconsistent lists, arrays included
    for w, s, n in ck.cases("ring tables of arrays", itertools.product(
            [1.5, [1, 2, 3], np.array([1, 2, 3]), np.array([1.5, 2., 3.])],
            [0.5, [1, 2], np.array([0.5, 1.]), [1], [1, 2, 3], np.array([1., 2., 3.]), np.array([1])], [None, 2, 3, 4, 5])):
        imp = set()
        if not np.isscalar(w):
            imp.add(3)
        if not np.isscalar(s):
            imp.add(len(s) + 1)
        if n is not None:
            imp.add(n)
        lab = "ring_edges(2.5, %s, %s, %s)" % (w, s, n)
        if len(imp) != 1:
            ck.raises(lambda: roi.ring_edges(2.5, w, s, n), ValueError, "forms/ring edges", lab)
        else:
            k = imp.pop()
            ww, ss = np.ones(k) * w, np.ones(k - 1) * s
            r, want = 2.5, []
            for a in range(k):
                want.append((r, r + ww[a]))
                r = r + ww[a] + (ss[a] if a < k - 1 else 0)
            ck.close(roi.ring_edges(2.5, w, s, n), want, "forms/ring edges", lab)
        ck.step()
