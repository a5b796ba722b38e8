"""C10 - statistics over labelled regions use exactly the pixels of each region."""
import itertools
import math

import numpy as np

from vc.harness import fmean, freeze, unchanged


def imgs(n, shape, dt):
    return np.array([[((f + 2) * (p + 3) * 5 + f * f) % 41 + (0.5 if dt == float else 0)
                      for p in range(shape[0] * shape[1])] for f in range(n)]).reshape((n,) + shape).astype(dt)


def run(ck):
    from skbeam.core import roi
    small(ck, roi)
    layouts(ck, roi)
    large(ck, roi)
    circular(ck, roi)
    circular_large(ck, roi)


def small(ck, roi):
    for shape in ((2, 3), (3, 2)):
        n = shape[0] * shape[1]
        for lab in ck.cases("labellings %dx%d" % shape, itertools.product((0, 1, 2, 4) if ck.thorough else (0, 1, 3), repeat=n)):
            labels = np.array(lab).reshape(shape)
            present = sorted(set(lab) - {0})
            for dt in (float, np.uint8):
                st = imgs(3, shape, dt)
                fl = st.reshape(3, n)
                fr = freeze(labels, st)
                # pixel values
                pix, idx = roi.roi_pixel_values(st[1], labels)
                top = max(lab)
                ck.equal([int(i) for i in idx], list(range(1, top + 1)), "pixels/index", "index for %s" % (lab,))
                for k, vals in zip(idx, pix):
                    ck.equal([float(v) for v in vals], [float(fl[1][p]) for p in range(n) if lab[p] == k], "pixels",
                             "label %d of %s" % (k, lab))
                for sel in ([2], [3, 1], (1, 3)):
                    pix, idx = roi.roi_pixel_values(st[0], labels, sel)
                    ck.equal([int(i) for i in idx], list(sel), "pixels/index", "selection")
                    for k, vals in zip(sel, pix):
                        ck.equal([float(v) for v in vals], [float(fl[0][p]) for p in range(n) if lab[p] == k],
                                 "pixels/selection", "label %d of %s" % (k, lab))
                # mean intensity
                if present:
                    for form in (st, list(st)):
                        m, idx = roi.mean_intensity(form, labels)
                        ck.equal([int(i) for i in idx], present, "mean/index", "labels reported for %s" % (lab,))
                        want = [[fmean(float(fl[f][p]) for p in range(n) if lab[p] == k) for k in present] for f in range(3)]
                        ck.close(m, want, "mean", "mean intensity of %s" % (lab,))
                    k = present[-1]
                    m, idx = roi.mean_intensity(st, labels, index=k)
                    ck.close(m, [[fmean(float(fl[f][p]) for p in range(n) if lab[p] == k)] for f in range(3)], "mean/one",
                             "mean of label %d" % k)
                    m, idx = roi.mean_intensity(st, labels, index=present[::-1])
                    ck.equal([int(i) for i in idx], present[::-1], "mean/order", "order of the labels")
                    ck.close(m, [[fmean(float(fl[f][p]) for p in range(n) if lab[p] == k) for k in present[::-1]]
                                 for f in range(3)], "mean/order", "order of the labels")
                    # brightest pixel
                    ck.equal(float(roi.roi_max_counts([st, st[:1]], labels)),
                             max(float(fl[f][p]) for f in range(3) for p in range(n) if lab[p]), "max", "max of %s" % (lab,))
                    perm = [st[2:], st[:2]]
                    ck.equal(float(roi.roi_max_counts(perm, labels)),
                             max(float(fl[f][p]) for f in range(3) for p in range(n) if lab[p]), "max", "max of %s" % (lab,))
                    # time evolution of the pixels of one region
                    for k in present:
                        ky = roi.kymograph(st, labels, k)
                        ck.close(ky, [[float(fl[f][p]) for p in range(n) if lab[p] == k] for f in range(3)], "kymograph",
                                 "kymograph of label %d in %s" % (k, lab))
                ck.true(unchanged(fr, labels, st), "inputs", "inputs modified")
                ck.step(10)
                ck.trace()
            ck.state(shape, lab)
    for s in ck.cases("shape mismatch", [(2, 2), (3, 3), (6,), (2, 3, 1)]):
        ck.raises(lambda: roi.roi_pixel_values(np.zeros((2, 3)), np.ones(s, int)), ValueError, "pixels/reject", "%s" % (s,))
        ck.raises(lambda: roi.mean_intensity(np.zeros((2, 2, 3)), np.ones(s, int)), ValueError, "mean/reject", "%s" % (s,))


def circular(ck, roi):
    shapes = [(3, 4), (5, 5), (1, 4)]
    centers = [(1., 2.), (0., 0.), (1.5, 0.25), (-2., 1.)]
    pix = [(1, 1), (0.5, 2)]
    rngs = [(None, None), (0.5, None), (None, 2.5), (0., 3.)]
    nxs = [1, 2, 4, 7]
    ths = [0, 1, 3]
    masks = ["none", "ones", "half", "bool", "one"]
    for shape, c, px, (lo, hi), nx, th, mk in ck.cases("circular average", itertools.product(
            shapes, centers, pix, rngs, nxs, ths, masks)):
        n = shape[0] * shape[1]
        img = imgs(1, shape, float)[0]
        m = {"none": None, "ones": np.ones(shape), "half": (np.arange(n).reshape(shape) % 2),
             "bool": (np.arange(n).reshape(shape) % 3 != 0), "one": (np.arange(n).reshape(shape) == n - 2).astype(int)}[mk]
        pts = []
        for i in range(shape[0]):
            for j in range(shape[1]):
                if m is None or m[i, j] == 1:
                    pts.append((math.sqrt((px[0] * (i - c[0])) ** 2 + (px[1] * (j - c[1])) ** 2), float(img[i, j])))
        a = min(p[0] for p in pts) if lo is None else lo
        b = max(p[0] for p in pts) if hi is None else hi
        if not a < b:
            continue
        edges = [a + (b - a) * k / nx for k in range(nx + 1)]
        # pixels closer than rounding to an inner edge may be counted on either side
        if any(abs(p[0] - e) < 1e-9 * (1 + abs(e)) for p in pts for e in edges[1:-1]):
            continue
        want_c, want_v = [], []
        for k in range(nx):
            vs = [v for r, v in pts if (edges[k] <= r < edges[k + 1] or (k == nx - 1 and abs(r - b) < 1e-12)
                                        or (k == 0 and abs(r - a) < 1e-12)) and a - 1e-12 <= r <= b + 1e-12]
            if len(vs) > th:
                want_c.append((edges[k] + edges[k + 1]) / 2)
                want_v.append(fmean(vs))
        kw = dict(threshold=th, nx=nx, pixel_size=px, min_x=lo, max_x=hi)
        if m is not None:
            kw["mask"] = m
        fr = freeze(img, m)
        bc, av = roi.circular_average(img, c, **kw)
        lab = "circular_average shape %s center %s %s mask %s" % (shape, c, kw, mk)
        ck.close(bc, want_c, "circular/centers", lab)
        ck.close(av, want_v, "circular/means", lab)
        ck.true(unchanged(fr, img, m), "circular/inputs", "inputs modified")
        ck.step()
        ck.trace()
        ck.state("circ", shape, c, px, lo, hi, nx, th, mk)
    # one undefined or huge pixel spoils its own ring only, and a masked one nothing
    for p, v, mk in ck.cases("bad pixel", itertools.product(itertools.product(range(0, 9, 2), repeat=2), (math.nan, math.inf, 1e18), (0, 1, 2))):
        shape, c = (9, 9), (3.3, 4.1)
        img = np.arange(81.0).reshape(shape) * 7 % 13 + 0.5
        img[p] = v
        m = None if mk == 0 else np.ones(shape, int)
        if mk == 2:
            m[p] = 0
        i, j = np.indices(shape)
        r = np.hypot(i - c[0], j - c[1])
        e = np.linspace(0.0, 7.5, 6)
        kw = {} if m is None else {"mask": m}
        bc, av = roi.circular_average(img, c, nx=5, min_x=0.0, max_x=7.5, **kw)
        want = []
        for k in range(5):
            own = (r >= e[k]) & (r < e[k + 1]) & (True if m is None else m == 1)
            want.append(float(np.sum(img[own])) / int(own.sum()))
        ck.close(bc, (e[1:] + e[:-1]) / 2, "circular/bad pixel", "centres")
        ck.close(av, want, "circular/bad pixel", "%s at %s, mask %d" % (v, p, mk))
        ck.step()
        ck.state("bad", p, v, mk)
    for n in ck.cases("default bins", [0]):
        img = imgs(1, (9, 9), float)[0]
        bc, av = roi.circular_average(img, (4., 4.), threshold=-1)
        ck.equal(len(bc), 100, "circular/default", "number of bins")


def every_stat(ck, roi, st, labels, key, note):
    """all region statistics of one series against plain boolean indexing, pixel after pixel in row-major order"""
    lab = np.array(labels.tolist())
    n = lab.size
    fl = np.array([np.array(im.tolist()).ravel() for im in st])
    lf = lab.ravel()
    present = [int(k) for k in np.unique(lf) if k > 0]
    where = {k: np.flatnonzero(lf == k) for k in present}
    fr = freeze(labels, st)
    pix, idx = roi.roi_pixel_values(st[0], labels)
    ck.equal([int(i) for i in idx], list(range(1, int(lf.max()) + 1)), key + "/pixels", "index " + note)
    for k, v in zip(idx, pix):
        ck.close(np.asarray(v, float), fl[0][where[int(k)]].astype(float) if int(k) in where else [], key + "/pixels",
                 "pixels of label %d %s" % (k, note), rtol=0, atol=0)
    m, idx = roi.mean_intensity(st, labels)
    ck.equal([int(i) for i in idx], present, key + "/mean", "labels " + note)
    ck.close(m, [[math.fsum(f[where[k]].tolist()) / len(where[k]) for k in present] for f in fl], key + "/mean", "means " + note)
    top = max(float(f[lf > 0].max()) for f in fl)
    ck.equal(float(roi.roi_max_counts([st], labels)), max(top, 0.0), key + "/max", "maximum " + note)
    ck.equal(float(roi.roi_max_counts(iter([list(st[:1]), list(st)]), labels)), max(top, 0.0), key + "/max", "maximum " + note)
    for k in present[:1] + present[-1:]:
        ck.close(np.asarray(roi.kymograph(st, labels, k), float), fl[:, where[k]].astype(float), key + "/kymograph",
                 "kymograph of label %d %s" % (k, note), rtol=0, atol=0)
    ml, ix = roi.extract_label_indices(labels)
    ck.close(ix, np.flatnonzero(lf > 0), key + "/indices", "pixel list " + note)
    ck.close(ml, lf[lf > 0], key + "/indices", "label list " + note)
    ck.true(unchanged(fr, labels, st), key + "/inputs", "inputs modified " + note)
    ck.step(8)
    ck.trace()


def layouts(ck, roi):
    """memory order and pixel type of images and labels, in every combination"""
    shape = (3, 4)
    lay = {"C": lambda a: np.ascontiguousarray(a), "F": lambda a: np.asfortranarray(a),
           "strided": lambda a: np.repeat(np.repeat(a, 2, axis=-1), 3, axis=-2)[..., ::3, ::2],
           "reversed": lambda a: np.ascontiguousarray(a[..., ::-1, ::-1])[..., ::-1, ::-1],
           "transposed": lambda a: np.ascontiguousarray(np.swapaxes(a, -1, -2)).swapaxes(-1, -2)}
    idt = [np.uint8, np.int16, np.uint16, np.int32, np.int64, np.uint64, np.float32, float, bool]
    ldt = [np.int64, np.int32, np.uint8, np.int8, np.uint16, np.int16]
    pats = [[0, 1, 2, 2, 1, 0, 5, 5, 1, 2, 0, 5], [3] * 12, [0, 0, 7, 0, 0, 0, 0, 2, 0, 0, 0, 0]]
    for la, lb, di, dl, pat in ck.cases("memory layouts", itertools.product(sorted(lay), sorted(lay), idt, ldt, range(3))):
        if pat and (la, di) != ("C", float) and (lb, dl) != ("C", np.int64):
            continue
        labels = lay[lb](np.array(pats[pat], dl).reshape(shape))
        top = 1 if di is bool else (255 if np.dtype(di).itemsize == 1 else 60000 if di is not np.int16 else 32767)
        base = np.array([[(f * 11 + p * 5 + 3) % 13 * top // 12 for p in range(12)] for f in range(3)]).reshape((3,) + shape)
        st = np.array([lay[la](im.astype(di)) for im in base]) if la == "C" else [lay[la](im.astype(di)) for im in base]
        every_stat(ck, roi, st, labels, "layout", "(images %s %s, labels %s %s)" % (la, np.dtype(di), lb, np.dtype(dl)))
        ck.state("layout", la, lb, np.dtype(di).str, np.dtype(dl).str, pat)


def large(ck, roi):
    """more labels, frames and pixels than small integer types can count, and extreme intensities"""
    for shape, nlab, nf, dt in ck.cases("large series", itertools.product(
            [(20, 50), (7, 300), (300, 7), (300, 301)], [1, 127, 128, 255, 256, 257, 300], [1, 3, 260], [np.uint8, np.uint16, float])):
        n = shape[0] * shape[1]
        labels = (np.arange(n) * 31 % (nlab + 1)).reshape(shape)
        if nf > 3 and (shape != (20, 50) or nlab not in (1, 256)) or shape == (300, 301) and nlab not in (1, 256):
            continue
        top = {np.uint8: 255, np.uint16: 65535, float: 1e9}[dt]
        st = (((np.arange(nf)[:, None] + 1) * (np.arange(n)[None] + 3) * 97 % 1009) / 1008. * top).astype(dt).reshape((nf,) + shape)
        every_stat(ck, roi, st, labels, "large", "(%d labels, %d frames of %s, %s)" % (nlab, nf, shape, np.dtype(dt)))
        ck.state("large", shape, nlab, nf, np.dtype(dt).str)
    gaps = [(1000, 3, 70000), (2, 4, 6), (255, 256, 257), (128, 32768, 65536)]
    for labs in ck.cases("label values", gaps):
        for perm in itertools.permutations(labs):
            labels = np.array([0, perm[0], perm[1], perm[2], perm[0], perm[1], 0, perm[2], perm[2], perm[0]]).reshape(2, 5)
            st = imgs(2, (2, 5), float)
            pres = sorted(labs)
            fl, lf = st.reshape(2, 10), labels.ravel()
            for order in (None, list(perm), tuple(perm), np.array(perm), list(perm[:1]), [perm[1], perm[0], perm[1]],
                          list(perm) * 3, np.array([perm[2]] * 5)):
                use = pres if order is None else [int(k) for k in order]
                m, idx = roi.mean_intensity(st, labels, order) if order is not None else roi.mean_intensity(st, labels)
                ck.equal([int(k) for k in idx], use, "labels/index", "labels reported")
                ck.close(m, [[fmean(f[lf == k].tolist()) for k in use] for f in fl], "labels/mean", "labels %s of %s" % (order, perm))
                if order is not None:
                    pix, _ = roi.roi_pixel_values(st[1], labels, order)
                    for k, v in zip(use, pix):
                        ck.close(v, fl[1][lf == k], "labels/pixels", "label %d" % k, rtol=0, atol=0)
            for k in pres:
                ck.close(roi.kymograph(st, labels, k), fl[:, lf == k], "labels/kymograph", "label %d" % k, rtol=0, atol=0)
                # the brightest pixel lies in each region in turn, and then in none
                for bright in pres + [0]:
                    im = np.where(labels == bright, 50, 7)
                    ck.equal(float(roi.roi_max_counts([[im]], labels)), 50.0 if bright else 7.0, "labels/max", "brightest pixel in label %d" % bright)
            ck.step(8)
        ck.state("labels", labs)


def circular_large(ck, roi):
    for shape, c, nx, mk, dt in ck.cases("large circular averages", itertools.product(
            [(70, 41), (33, 120), (260, 5)], [(35.2, 20.7), (-4.3, 6.1), (0.4, 119.3)], [1, 10, 100, 257], ["none", "int", "float", "bool"],
            [np.uint8, np.uint16, np.float32, float])):
        n = shape[0] * shape[1]
        img = (np.arange(n) * 7919 % 251).reshape(shape).astype(dt)
        m = {"none": None, "int": (np.arange(n) % 5 != 2).astype(int).reshape(shape), "float": (np.arange(n) % 3 != 0).astype(float).reshape(shape),
             "bool": (np.arange(n) % 7 > 2).reshape(shape)}[mk]
        i, j = np.indices(shape)
        r = np.hypot(1.0 * (i - c[0]), 1.0 * (j - c[1]))
        use = np.ones(shape, bool) if m is None else m.astype(bool)
        rr, vv = r[use], img[use].astype(float)
        e = np.linspace(rr.min(), rr.max(), nx + 1)
        e = [rr.min() + (rr.max() - rr.min()) * k / nx for k in range(nx + 1)]
        k = np.minimum(np.searchsorted(e, rr, side="right") - 1, nx - 1).clip(0)
        near = np.min(np.abs(rr[:, None] - np.array(e)[None, 1:-1]), axis=1, initial=1.0) < 1e-9
        cnt, sm = np.bincount(k, minlength=nx), np.bincount(k, vv, minlength=nx)
        fr = freeze(img, m)
        kw = {} if m is None else {"mask": m}
        bc, av = roi.circular_average(img, c, nx=nx, **kw)
        ck.true(unchanged(fr, img, m), "circular/inputs", "inputs modified")
        ck.step()
        if near.any():
            continue
        ok = cnt > 0
        lab = "circular_average of %s %s, center %s, %d bins, mask %s" % (np.dtype(dt), shape, c, nx, mk)
        ck.close(bc, (np.array(e)[1:] + np.array(e)[:-1])[ok] / 2, "circular/centers", lab)
        ck.close(av, sm[ok] / cnt[ok], "circular/means", lab, rtol=1e-6 if dt is np.float32 else 1e-9)
        ck.trace()
        ck.state("circ large", shape, c, nx, mk, np.dtype(dt).str)
