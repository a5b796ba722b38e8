"""C28 - images rebuilt from radial or polar data: every pixel is the interpolated value at its radius and angle."""
import itertools
import math

import numpy as np

from vc.harness import freeze, unchanged


def run(ck):
    from skbeam.core import image as I
    circ(ck, I)
    circ_refused(ck, I)
    polar(ck, I)
    polar_angles(ck, I)
    ring_center(ck, I)


def lin(x, xs, ys, left, right):
    if x < xs[0]:
        return ys[0] if left is None else left
    if x > xs[-1]:
        return ys[-1] if right is None else right
    for k in range(len(xs) - 1):
        if xs[k] <= x <= xs[k + 1]:
            t = (x - xs[k]) / (xs[k + 1] - xs[k])
            return ys[k] * (1 - t) + ys[k + 1] * t
    return ys[-1]


PROF = {"even": ([0.5, 1.5, 2.5, 3.5], [4.0, 1.0, 7.0, 2.0]), "uneven": ([0.2, 1.0, 3.3], [1.0, -2.0, 5.0]), "from zero": ([0.0, 2.0, 4.0], [3.0, 3.0, 9.0]),
        "two": ([1.1, 2.2], [5.0, 6.0])}
SIDES = ["default", (0, 0), (None, None), (-7.5, 2.25), (3.0, None), (None, 8.0)]


def circ(ck, I):
    dims = [None, (1, 1), (3, 4), (5, 2), (6, 6), (9, 7)]
    cens = [None, (0, 0), (1.5, 2.25), (-2, 1), (4, 4), (-0.75, -1.25), (9.5, 8.25)]
    pix = [None, (1, 1), (2, 1), (0.5, 0.75)]
    for name, d, c, px, sd in ck.cases("radial profile", itertools.product(sorted(PROF), dims, cens, pix, SIDES)):
        if d is None and c is not None:
            continue
        rs, vs = PROF[name]
        kw = {}
        if d is not None:
            kw["dims"] = d
        if c is not None:
            kw["center"] = c
        if px is not None:
            kw["pixel_size"] = px
        if sd != "default":
            kw["left"], kw["right"] = sd
        p = px or (1, 1)
        r, v = np.array(rs), np.array(vs)
        before = freeze(r, v)
        out = np.asarray(I.construct_circ_avg_image(r, v, **kw))
        ck.true(unchanged(before, r, v), "radial/input modified", name)
        what = "%s %s" % (name, kw)
        if d is None:
            shape = tuple(2 * int(rs[-1] / q + 0.5) + 1 for q in p)
        else:
            shape = d
        ck.equal(out.shape, shape, "radial/shape", what)
        cc = c or ((shape[0] - 1) / 2, (shape[1] - 1) / 2)
        left, right = (None, 0) if sd == "default" else sd
        for i in range(shape[0]):
            for j in range(shape[1]):
                x = math.hypot((i - cc[0]) * p[0], (j - cc[1]) * p[1])
                if abs(x - rs[0]) < 1e-9 or abs(x - rs[-1]) < 1e-9:
                    continue
                w = lin(x, rs, vs, left, right)
                ck.true(abs(out[i, j] - w) < 1e-9, "radial/value", lambda: "%s pixel %s at radius %r: %r, expected %r" % (what, (i, j), x, out[i, j], w))
        ck.state("circ", name, d, c, px, sd)
        ck.step()


    for n, d, c, px, sd in ck.cases("long radial profiles", itertools.product((2, 40, 300, 1500), (None, (60, 61), (300, 9), (9, 300), (130, 140)), (None, (30.25, 5.5), (-3.0, 200.0)), (None, (0.5, 2.0)), SIDES)):
        if d is None and c is not None:
            continue
        rs = np.cumsum(0.02 + ((np.arange(n) * 7) % 5) * 0.1) * (40.0 / n)
        vs = ((np.arange(n) * 13) % 29) - 7.5
        kw = {k: v for k, v in (("dims", d), ("center", c), ("pixel_size", px)) if v is not None}
        if sd != "default":
            kw["left"], kw["right"] = sd
        p = px or (1, 1)
        out = np.asarray(I.construct_circ_avg_image(rs.copy(), vs.copy(), **kw))
        shape = d or tuple(2 * int(rs[-1] / q + 0.5) + 1 for q in p)
        what = "%d radii %s" % (n, kw)
        ck.equal(out.shape, tuple(shape), "radial/shape", what)
        cc = c or ((shape[0] - 1) / 2, (shape[1] - 1) / 2)
        i, j = np.indices(shape)
        x = np.hypot((i - cc[0]) * p[0], (j - cc[1]) * p[1])
        k = np.clip(np.searchsorted(rs, x, "right") - 1, 0, n - 2)
        t = (x - rs[k]) / (rs[k + 1] - rs[k])
        w = vs[k] * (1 - t) + vs[k + 1] * t
        left, right = (None, 0) if sd == "default" else sd
        w = np.where(x < rs[0], vs[0] if left is None else left, np.where(x > rs[-1], vs[-1] if right is None else right, w))
        sure = (np.abs(x - rs[0]) > 1e-9) & (np.abs(x - rs[-1]) > 1e-9)
        ck.true(np.all((np.abs(out - w) < 1e-8) | ~sure), "radial/value", lambda: "%s: pixels %s differ" % (what, np.argwhere((np.abs(out - w) >= 1e-8) & sure)[:4].tolist()))
        ck.state("lcirc", n, d, c, px, sd)
        ck.step()


def circ_refused(ck, I):
    for c in ck.cases("center without size", [(0, 0), (2.5, 1)]):
        ck.raises(lambda: I.construct_circ_avg_image(np.array([1.0, 2.0]), np.array([1.0, 2.0]), center=c), ValueError, "radial/refused", "center without dims")
        ck.raises(lambda: I.construct_rphi_avg_image(np.array([1.0, 2.0]), np.array([0.0, 1.0]), np.ones((2, 2)), center=c), ValueError, "polar/refused", "center without shape")


def ref_polar(rs, an, img, shape, c, p):
    """bilinear in radius and (periodic) angle; (value, decided)"""
    nA = len(an)
    out = {}
    for i in range(shape[0]):
        for j in range(shape[1]):
            y, x = (i - c[0]) * p[0], (j - c[1]) * p[1]
            r = math.hypot(x, y)
            if r < rs[0] - 1e-9 or r > rs[-1] + 1e-9:
                out[i, j] = (math.nan, True)
                continue
            if abs(r - rs[0]) <= 1e-9 or abs(r - rs[-1]) <= 1e-9 or (x == 0 and y == 0):
                out[i, j] = (math.nan, False)
                continue
            k = max(q for q in range(len(rs) - 1) if rs[q] <= r)
            t = (r - rs[k]) / (rs[k + 1] - rs[k])
            a = (math.atan2(y, x) - an[0]) % (2 * math.pi)
            g = [q - an[0] for q in an]
            m = max(q for q in range(nA) if g[q] <= a + 1e-12)
            hi = g[m + 1] if m + 1 < nA else 2 * math.pi
            s = (a - g[m]) / (hi - g[m])
            v = 0.0
            nan, zero_nan = False, False
            for kk, wt in ((k, 1 - t), (k + 1, t)):
                for mm, ws in ((m, 1 - s), ((m + 1) % nA, s)):
                    q = img[kk][mm]
                    if math.isnan(q):
                        nan = True
                        zero_nan = zero_nan or wt * ws < 1e-9
                    else:
                        v += wt * ws * q
            near = min(abs(s), abs(1 - s)) < 1e-9 or min(abs(t), abs(1 - t)) < 1e-9
            masked = any(math.isnan(q) for row in img for q in row)
            out[i, j] = (math.nan if nan else v, not (near and masked))
    return out


def tables():
    rads = {"even": [0.0, 1.0, 2.0, 3.0], "uneven": [0.5, 1.2, 2.9], "far": [1.5, 2.5, 5.0]}
    pi = math.pi
    angs = {"eight": [k * pi / 4 for k in range(8)], "five": [k * 2 * pi / 5 for k in range(5)], "shift": [0.3 + k * pi / 3 for k in range(6)], "negative": [-pi + k * pi / 2 for k in range(4)],
            "part": [0.2, 1.1, 2.0], "uneven": [-1.0, 0.0, 0.4, 2.5, 4.4], "late": [3.0, 4.0, 7.5], "two": [0.4, 2.6], "past": [4.0, 5.0, 6.5, 9.0], "turns": [9.0, 10.5, 12.0, 14.5], "before": [-5.0, -4.0, -2.0, 0.5], "turns before": [-9.0, -7.0, -5.5, -3.2]}
    return rads, angs


def polar(ck, I):
    rads, angs = tables()
    shapes = [(None, None), ((5, 5), None), ((4, 7), None), ((5, 4), None), ((6, 8), None), ((6, 5), (1.5, 2.25)), ((5, 6), (0, 4)), ((4, 3), (-0.75, -1.25)), ((3, 4), (4.5, -0.5))]
    for rn, anm, (sh, c), px, mi in ck.cases("polar map", itertools.product(sorted(rads), sorted(angs), shapes, [None, (1, 0.5), (2, 1)], range(11))):
        rs, an = rads[rn], angs[anm]
        base = np.array([[(3 * i * i + 5 * k + i * k) % 11 - 1.5 for k in range(len(an))] for i in range(len(rs))])
        kw = {}
        if sh is not None:
            kw["shape"] = sh
        if c is not None:
            kw["center"] = c
        if px is not None:
            kw["pixel_size"] = px
        p = px or (1, 1)
        img = base.copy()
        want_img = base.copy()
        mask = None
        if mi:
            mask = np.ones(base.shape, [int, bool, float][(mi - 1) % 3])
            if mi >= 4:
                # whole angles or radii, everything, nothing, all but one entry
                mask[[(slice(None), 0), (slice(None), -1), 0, -1, slice(None), slice(0), slice(None)][mi - 4]] = 0
                if mi == 10:
                    mask[1, 1] = 1
            for k in range(mi if mi < 4 else 0):
                mask[(k + mi) % base.shape[0], (2 * k + mi) % base.shape[1]] = 0
            want_img[mask == 0] = math.nan
            kw["mask"] = mask
            if mi == 2:
                img = np.round(base).astype(int)
                want_img = img.astype(float)
                want_img[mask == 0] = math.nan
        r, a = np.array(rs), np.array(an)
        before = freeze(r, a, img, mask)
        what = "radii %s angles %s %s" % (rn, anm, {k: v for k, v in kw.items() if k != "mask"})
        out = np.asarray(I.construct_rphi_avg_image(r, a, img, **kw))
        ck.true(unchanged(before, r, a, img, mask), "polar/input modified", what)
        shape = sh or tuple(2 * int(rs[-1] / q + 0.5) + 1 for q in p)
        ck.equal(out.shape, shape, "polar/shape", what)
        cc = c or ((shape[0] - 1) / 2, (shape[1] - 1) / 2)
        ref = ref_polar(rs, an, want_img.tolist(), shape, cc, p)
        for q, (w, sure) in ref.items():
            if not sure:
                continue
            g = float(out[q])
            ok = (math.isnan(g) and math.isnan(w)) or abs(g - w) < 1e-8
            ck.true(ok, "polar/value", lambda: "%s mask %s pixel %s: %r, expected %r" % (what, None if mask is None else mask.tolist(), q, g, w))
        out2 = np.asarray(I.construct_rphi_avg_image(r, a, img, **kw))
        ck.close(out2, out, "polar/repeated", what)
        ck.state("polar", rn, anm, sh, c, px, mi)
        ck.step(2)
    for nr, na, (sh, c), px, mi in ck.cases("large polar maps", itertools.product((2, 30, 300), (3, 40, 361), [((60, 61), None), ((100, 30), (20.25, 40.5)), (None, None)], [None, (1, 0.5)], (0, 1))):
        rs = 0.7 + np.cumsum(0.05 + ((np.arange(nr) * 7) % 5) * 0.1) * (25.0 / nr)
        an = -2.0 + np.arange(na) * (2 * math.pi / na) + 0.3 / na * np.sin(np.arange(na))
        img = ((np.arange(nr)[:, None] * 5 + np.arange(na) * 3 + np.arange(na) ** 2) % 17) - 4.25
        kw = {k: v for k, v in (("shape", sh), ("center", c), ("pixel_size", px)) if v is not None}
        use = img.copy()
        if mi:
            m = ((np.arange(nr)[:, None] * 3 + np.arange(na)) % 19 != 0)
            kw["mask"] = m
            use[~m] = np.nan
        p = px or (1, 1)
        out = np.asarray(I.construct_rphi_avg_image(rs, an, img, **kw))
        shape = sh or tuple(2 * int(rs[-1] / q + 0.5) + 1 for q in p)
        what = "%d radii, %d angles, %s, size %s, mask %d" % (nr, na, sh, px, mi)
        ck.equal(out.shape, shape, "polar/shape", what)
        cc = c or ((shape[0] - 1) / 2, (shape[1] - 1) / 2)
        i, j = np.indices(shape)
        y, x = (i - cc[0]) * p[0], (j - cc[1]) * p[1]
        r = np.hypot(x, y)
        k = np.clip(np.searchsorted(rs, r, "right") - 1, 0, nr - 2)
        t = (r - rs[k]) / (rs[k + 1] - rs[k])
        a = (np.arctan2(y, x) - an[0]) % (2 * math.pi)
        g = np.append(an - an[0], 2 * math.pi)
        q = np.clip(np.searchsorted(g, a, "right") - 1, 0, na - 1)
        s = (a - g[q]) / (g[q + 1] - g[q])
        q2 = (q + 1) % na
        w = (1 - t) * ((1 - s) * use[k, q] + s * use[k, q2]) + t * ((1 - s) * use[k + 1, q] + s * use[k + 1, q2])
        w = np.where((r < rs[0]) | (r > rs[-1]), np.nan, w)
        sure = (np.abs(r - rs[0]) > 1e-9) & (np.abs(r - rs[-1]) > 1e-9) & (np.abs(s) > 1e-9) & (np.abs(1 - s) > 1e-9) & (np.abs(t) > 1e-9) & (np.abs(1 - t) > 1e-9)
        bad = sure & ~(np.isclose(out, w, rtol=0, atol=1e-7) | (np.isnan(out) & np.isnan(w)))
        ck.true(not bad.any(), "polar/value", lambda: "%s: pixel %s holds %s, expected %s" % (what, np.argwhere(bad)[0].tolist(), out[bad][0], w[bad][0]))
        ck.state("lpolar", nr, na, sh, c, px, mi)
        ck.step()
    for msh in ck.cases("mask shape", [(2, 2), (3, 4), (4,), (3, 3, 1), (4, 3)]):
        r, a = np.array([1.0, 2.0, 3.0]), np.array([0.0, 1.0, 2.0])
        for kw in ({}, {"shape": (5, 5)}):
            ck.raises(lambda: I.construct_rphi_avg_image(r, a, np.ones((3, 3)), mask=np.ones(msh), **kw), ValueError, "polar/mask shape", "%s" % (msh,))


def polar_angles(ck, I):
    r = np.array([0.0, 1.0, 2.0])
    for n, start, extra in ck.cases("angles past a full turn", itertools.product(range(3, 9), (0.0, -1.0, 2.5), (0.0, 0.4, 1.9))):
        a = start + np.linspace(0, 2 * math.pi + extra, n)
        if extra == 0.0:
            a = start + np.arange(n) * (2 * math.pi) / (n - 1)
            a[-1] = start + 2 * math.pi * (1 + 1e-12)
        ck.raises(lambda: I.construct_rphi_avg_image(r, a.copy(), np.ones((3, n)), shape=(5, 5)), ValueError, "polar/full turn", "%s" % a)
        ck.step()


def ring_center(ck, I):
    sizes = [(80, 80), (71, 90), (85, 78)]
    for (R, C), fr, fc, w in ck.cases("ring centre", itertools.product(sizes, range(-4, 5, 2), range(-4, 5, 2), (1.5, 2.0))):
        c = (R // 2 + fr, C // 2 + fc)
        ii, jj = np.mgrid[:R, :C]
        rad = np.hypot(ii - c[0], jj - c[1])
        im = np.zeros((R, C))
        for k, r0 in enumerate((3.0, 7.0, 11.0)):
            im += (3 - k) * np.exp(-((rad - r0) / w) ** 2)
        before = freeze(im)
        got = I.find_ring_center_acorr_1D(im)
        ck.true(unchanged(before, im), "centre/input modified", "")
        ck.equal(tuple(float(v) for v in got), (float(c[0]), float(c[1])), "centre", "rings at %s of a %s image" % (c, (R, C)))
        ck.state("rc", R, C, fr, fc, w)
        ck.step()
    # rings filling the whole image, in every pixel type a detector delivers
    fill = [((R, C), fr, fc, per, dt) for R, C in ((40, 40), (71, 60), (64, 65)) for fr in range(-5, 6, 2) for fc in range(-5, 6, 2)
            for per in (2.0,) for dt in ("f8", "u1", "i2", "u4", "f4")]
    for (R, C), fr, fc, per, dt in ck.cases("rings filling the image", fill):
        c = (R // 2 + fr, C // 2 + fc)
        ii, jj = np.mgrid[:R, :C]
        rad = np.hypot(ii - c[0], jj - c[1])
        im = np.cos(rad * 2 * np.pi / per) ** 2 * np.exp(-rad / 30)
        if dt != "f8":
            im = np.round(im * 250).astype(dt)
        before = freeze(im)
        got = I.find_ring_center_acorr_1D(im)
        ck.true(unchanged(before, im), "centre/input modified", "")
        ck.equal(tuple(float(v) for v in got), (float(c[0]), float(c[1])), "centre", "rings of period %s at %s of a %s %s image" % (per, c, (R, C), dt))
        ck.state("rf", R, C, fr, fc, per, dt)
        ck.step()
