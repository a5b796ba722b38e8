"""Masked cross-correlation equals its definition for every mask, image pair, normalisation and call history."""
import itertools
import math

import numpy as np

from vc.harness import freeze, unchanged


def reference(i1, i2, mask, norm):
    """per region: matrix over lags k of sum_x i1(x) i2(x-k), normalised"""
    one = i1.ndim == 1
    if one:
        i1, i2, mask = i1[None, :], i2[None, :], mask[None, :]
    out = []
    for r in sorted(set(int(v) for v in mask.ravel() if v != 0)):
        pts = [(int(a), int(b)) for a, b in zip(*np.where(mask == r))]
        ps = set(pts)
        h = max(p[0] for p in pts) - min(p[0] for p in pts)
        w = max(p[1] for p in pts) - min(p[1] for p in pts)
        m1 = math.fsum(float(i1[p]) for p in pts) / len(pts)
        m2 = math.fsum(float(i2[p]) for p in pts) / len(pts)
        g = np.full((2 * h + 1, 2 * w + 1), np.nan)
        soft = np.zeros(g.shape, bool)  # entries the definition leaves open (0/0)
        for dy in range(-h, h + 1):
            for dx in range(-w, w + 1):
                pr = [(p, (p[0] - dy, p[1] - dx)) for p in pts if (p[0] - dy, p[1] - dx) in ps]
                if not pr:
                    if not norm:
                        g[dy + h, dx + w] = 0.0
                    continue
                v = math.fsum(float(i1[a]) * float(i2[b]) for a, b in pr)
                n = len(pr)
                if "symavg" in norm:
                    s1 = math.fsum(float(i1[a]) for a, b in pr)
                    s2 = math.fsum(float(i2[b]) for a, b in pr)
                    if abs(s1 * s2) < 1e-6:
                        soft[dy + h, dx + w] = True
                        continue
                    v = v * n / s1 / s2
                if "regular" in norm:
                    if abs(m1 * m2) < 1e-6:
                        soft[dy + h, dx + w] = True
                        continue
                    v = v / (n * m1 * m2)
                g[dy + h, dx + w] = v
        if one:
            g, soft = g[0], soft[0]
        out.append((g, soft))
    return out


def large_reference(i1, i2, m, norm):
    """the same definition for one region of any size, one lag at a time"""
    one = i1.ndim == 1
    if one:
        i1, i2, m = i1[None, :], i2[None, :], m[None, :]
    ys, xs = np.where(m)
    sl = (slice(ys.min(), ys.max() + 1), slice(xs.min(), xs.max() + 1))
    m = m[sl].astype(float)
    a, b = i1[sl] * m, i2[sl] * m
    H, W = m.shape
    mm = a.sum() / m.sum() * (b.sum() / m.sum())
    g = np.full((2 * H - 1, 2 * W - 1), np.nan)
    for dy in range(-(H - 1), H):
        for dx in range(-(W - 1), W):
            u = (slice(max(dy, 0), H + min(dy, 0)), slice(max(dx, 0), W + min(dx, 0)))
            v = (slice(max(-dy, 0), H + min(-dy, 0)), slice(max(-dx, 0), W + min(-dx, 0)))
            n = np.rint((m[u] * m[v]).sum())
            if not n:
                if not norm:
                    g[dy + H - 1, dx + W - 1] = 0.0
                continue
            t = (a[u] * b[v]).sum()
            if "symavg" in norm:
                t = t * n / (a[u] * m[v]).sum() / (m[u] * b[v]).sum()
            if "regular" in norm:
                t = t / (n * mm)
            g[dy + H - 1, dx + W - 1] = t
    return g[0] if one else g


def _img(kind, shape):
    n = int(np.prod(shape))
    if kind == "a":
        v = [(7 * k + k * k * 3) % 19 + 1 for k in range(n)]
    elif kind == "b":
        v = [(5 * k + 2) % 13 + 1 for k in range(n)]
    elif kind == "z":
        v = [0 if k % 3 == 0 else (4 * k) % 11 + 1 for k in range(n)]
    elif kind == "s":
        v = [(3 * k) % 7 - 2.5 for k in range(n)]
    return np.array(v, dtype=float).reshape(shape)


def _check(ck, cc, i1, i2, mask, norm, kw, key):
    b = freeze(i1, i2, mask)
    res = cc(i1, **kw) if i2 is None else cc(i1, i2, **kw)
    ck.step()
    ref = reference(i1, i1 if i2 is None else i2, mask, norm)
    got = [res] if len(ref) == 1 else res
    ck.equal(len(got), len(ref), key + "-regions", "number of regions")
    for r, (g, soft) in enumerate(ref):
        gg = np.array(got[r], dtype=float)
        ck.equal(gg.shape, g.shape, key + "-shape", "region %d" % r)
        gg = np.where(soft, 0.0, gg)
        ck.close(gg, np.where(soft, 0.0, g), key, "region %d normalisation %s" % (r, norm), rtol=1e-7, atol=1e-8)
        ck.outcome(np.round(g, 6))
    ck.true(unchanged(b, i1, i2, mask), "input-mutated", "inputs modified")


NORMS = [None, "regular", "symavg", ["regular"], ["symavg"], ["regular", "symavg"], []]


def _eff(n):
    return ["regular"] if n is None else ([n] if isinstance(n, str) else n)


def run(ck):
    from skbeam.core.correlation import CrossCorrelator

    n1 = 6 if ck.thorough else 5
    one_masks = [m for m in itertools.product((0, 1, 4), repeat=n1) if any(m)]
    for m, norm, (a, b) in ck.cases("1d-masks", ((m, nm, p) for m in one_masks for nm in ("regular", "symavg", [])
                                                 for p in (("a", None), ("a", "b"), ("z", "s")))):
        mask = np.array(m)
        cc = CrossCorrelator(mask.shape, mask=mask, normalization=norm)
        _check(ck, cc, _img(a, mask.shape), None if b is None else _img(b, mask.shape), mask, _eff(norm), {}, "corr-1d")
        ck.state(m, norm, a, b)
        ck.trace()
    shapes = [(2, 3), (3, 2)] if not ck.thorough else [(2, 3), (3, 2), (2, 4)]
    two = ((s, m, nm, p) for s in shapes for m in itertools.product((0, 1, 2), repeat=s[0] * s[1]) if any(m)
           for nm in ("regular", "symavg") for p in (("a", None), ("b", "a")))
    for s, m, norm, (a, b) in ck.cases("2d-masks", two):
        mask = np.array(m).reshape(s)
        cc = CrossCorrelator(s, mask=mask, normalization=norm)
        _check(ck, cc, _img(a, s), None if b is None else _img(b, s), mask, _eff(norm), {}, "corr-2d")
        ck.state(s, m, norm, a, b)
        ck.trace()
    # no mask, shapes, dtypes, layouts
    shp = [(1,), (2,), (7,), (16,), (1, 1), (1, 5), (5, 1), (4, 4), (3, 7), (6, 5)]
    for s, norm, dt, lay in ck.cases("unmasked", itertools.product(shp, NORMS, ("f8", "f4", "i4", "u1"), ("C", "F", "S"))):
        i1, i2 = _img("a", s).astype(dt), _img("b", s).astype(dt)
        if lay == "F":
            i1, i2 = np.asfortranarray(i1), np.asfortranarray(i2)
        elif lay == "S":
            i1 = np.repeat(i1, 2, -1)[..., ::2]
            i2 = np.repeat(i2, 3, 0)[::3]
        cc = CrossCorrelator(s, normalization=norm)
        full = np.ones(s, int)
        _check(ck, cc, i1, None, full, _eff(norm), {}, "corr-unmasked")
        _check(ck, cc, i1, i2, full, _eff(norm), {}, "corr-unmasked")
        _check(ck, cc, i1, i1, full, _eff(norm), {}, "corr-unmasked")
        ck.equal(cc.nids, 1, "nids")
        cen, pos = cc.centers, cc.positions
        axes = [pos] if len(s) == 1 else pos
        cc_ = list(cen)[-len(s):]
        for ax, c, n in zip(axes, cc_, s):
            ck.close(ax, np.arange(-(n - 1), n), "positions", "lag axis")
            ck.equal(float(c), n - 1.0, "centers", "zero-lag index")
        ck.state(s, norm, dt, lay)
        ck.trace()
    # large images and curves, many regions, large and small intensities
    big = [((700,), 1, 1.0), ((700,), 3, 1e6), ((41, 53), 1, 1.0), ((41, 53), 2, 1e-6), ((30, 40), 300, 1.0), ((64, 32), 5, 1e6),
           ((1500,), 700, 1.0), ((24, 25), 7, 1e-6)]
    for (s, nlab, scale), norm, selfc in ck.cases("large", itertools.product(big, (None, "symavg", [], ["regular", "symavg"]), (0, 1))):
        n = int(np.prod(s))
        k = np.arange(n, dtype=np.int64)
        # contiguous blocks in reading order, with pixels left out, so that regions span several rows
        mask = (np.where(k % 11 == 5, 0, 1 + k * nlab // n)).reshape(s)
        i1 = (((k * 7 + k * k * 3) % 19 + 1) * scale).reshape(s)
        i2 = (((k * 5 + 2) % 13 + 1) * scale).reshape(s)
        b = freeze(i1, i2, mask)
        cc = CrossCorrelator(s, mask=mask, normalization=norm)
        res = cc(i1) if selfc else cc(i1, i2)
        ck.step()
        got = [res] if nlab == 1 else res
        ck.equal(len(got), nlab, "corr-large-regions")
        ck.equal(cc.nids, nlab, "nids")
        for r in sorted({1, 2, nlab // 2 + 1, nlab}):
            if r > nlab:
                continue
            g = large_reference(i1, i1 if selfc else i2, mask == r, _eff(norm))
            gg = np.asarray(got[r - 1], dtype=float)
            ck.equal(gg.shape, g.shape, "corr-large-shape", "region %d" % r)
            ck.close(gg, g, "corr-large", "%s region %d normalisation %s" % (s, r, norm), rtol=1e-6, atol=1e-8 * np.nanmax(abs(g)))
        ck.true(unchanged(b, i1, i2, mask), "input-mutated", "inputs modified")
        ck.state("large", s, nlab, scale, norm, selfc)
        ck.trace()
    # regions made of parts far apart: many lags at which nothing overlaps
    far = [(300,), (900,), (40, 50), (90, 100), (31, 64)]
    far = list(itertools.product(far, range(3), (None, "symavg", ["regular", "symavg"]))) + [((120, 130), 0, None), ((120, 130), 0, "symavg"), ((9000,), 0, None)]
    for s, kind, norm in ck.cases("far parts", far):
        n = int(np.prod(s))
        k = np.arange(n, dtype=np.int64)
        mask = np.zeros(s, dtype=int)
        w = max(3, s[-1] // (3 if s[-1] in (130, 9000) else 12))
        if len(s) == 1:
            mask[:w] = 1
            mask[-w:] = 1
            if kind:
                mask[s[0] // 2: s[0] // 2 + 2] = kind
        else:
            mask[:w, :w] = 1
            mask[-w:, -w:] = 1
            if kind:
                mask[:2, -2:] = kind
                mask[-2:, :2] = kind
        i1 = (((k * 7 + k * k * 3) % 19 + 1) * 100.0).reshape(s)
        i2 = (((k * 5 + 2) % 13 + 1) * 100.0).reshape(s)
        cc = CrossCorrelator(s, mask=mask, normalization=norm)
        res = cc(i1, i2)
        ck.step()
        nl = int(mask.max())
        for r, got in enumerate([res] if nl == 1 else res, 1):
            g = large_reference(i1, i2, mask == r, _eff(norm))
            gg = np.asarray(got, dtype=float)
            ck.equal(gg.shape, g.shape, "corr-far-shape", "region %d" % r)
            ck.equal(np.isnan(gg).tolist(), np.isnan(g).tolist(), "corr-far-undefined", "%s kind %d region %d normalisation %s: lags without overlap" % (s, kind, r, norm))
            ck.close(gg, g, "corr-far", "%s kind %d region %d normalisation %s" % (s, kind, r, norm), rtol=1e-6, atol=1e-8 * np.nanmax(abs(g)))
        ck.state("far", s, kind, norm)
        ck.trace()
    # mask types
    for mdt, s in ck.cases("mask-types", itertools.product(("i8", "i4", "u1", "f8", "?"), ((6,), (3, 4)))):
        mask = (np.arange(int(np.prod(s))) % 3).reshape(s).astype(mdt)
        cc = CrossCorrelator(s, mask=mask)
        _check(ck, cc, _img("a", s), _img("b", s), mask.astype(int), ["regular"], {}, "corr-masktype")
        ck.trace()
    # one correlator, every short history of calls: no call influences the next
    s = (3, 4)
    mask = np.array([[1, 1, 0, 2], [1, 0, 2, 2], [3, 3, 0, 2]])
    ops = [("a", None, None), ("a", "b", None), ("b", "a", "symavg"), ("z", None, ["regular", "symavg"]), ("s", "b", [])]
    L = 4 if ck.thorough else 3
    for ctor, seq in ck.cases("histories", [(c, q) for c in (None, "symavg") for q in itertools.product(range(len(ops)), repeat=L)]):
        mk = mask.copy()
        cc = CrossCorrelator(s, mask=mk, normalization=ctor)
        kept = []
        for o in seq:
            a, b, nm = ops[o]
            kw = {} if nm is None else {"normalization": nm}
            _check(ck, cc, _img(a, s), None if b is None else _img(b, s), mask, _eff(ctor if nm is None else nm), kw, "corr-history")
        ck.state(ctor, seq)
        ck.trace()
    # shapes that do not match are refused
    for s, t in ck.cases("bad-shapes", [((3,), (4,)), ((3, 4), (4, 3)), ((3, 4), (12,))]):
        cc = CrossCorrelator(s)
        ck.raises(lambda: cc(np.ones(t)), ValueError, "bad-shape")
        ck.raises(lambda: cc(np.ones(s), np.ones(t)), ValueError, "bad-shape")
        ck.step(2)
    ck.raises(lambda: CrossCorrelator((2, 2, 2)), ValueError, "bad-ndim")
    # documented direction: moving the second image right moves the maximum right
    for n, p, d in ck.cases("shift-direction", [(9, 3, d) for d in (1, 2, 4)]):
        a, b = np.zeros(n), np.zeros(n)
        a[p] = 1
        b[p + d] = 1
        cc = CrossCorrelator((n,))
        k = int(np.nanargmax(cc(a, b) * np.isfinite(cc(a, b))))
        ck.step(2)
        ck.true(k - (n - 1) == d, "shift-direction", "second image shifted by %d, maximum at lag %d" % (d, k - (n - 1)))
        ck.trace()
