"""Binned statistics: every statistic of every bin equals the same statistic of the points in that bin."""
import itertools
import math

import numpy as np

from vc.harness import freeze, unchanged


def bin_of(x, edges):
    """0 = below, n+1 = above, k = k-th bin; last bin closed on the right"""
    n = len(edges) - 1
    x = float(x)
    if math.isnan(x):
        return n + 1
    if x < edges[0]:
        return 0
    if x > edges[-1]:
        return n + 1
    if x == edges[-1]:
        return n
    for k in range(n):
        if edges[k] <= x < edges[k + 1]:
            return k + 1
    raise AssertionError


def stat_of(vals, st):
    v = [float(x) for x in vals]
    if st == "count":
        return float(len(v))
    if st == "sum":
        return math.fsum(v)
    if st == "mean":
        return math.fsum(v) / len(v) if v else float("nan")
    if st == "std":
        if not v:
            return 0.0
        m = math.fsum(v) / len(v)
        return math.sqrt(max(0.0, math.fsum((x - m) ** 2 for x in v) / len(v)))
    if st == "median":
        if not v:
            return float("nan")
        s = sorted(v)
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    if st is np.max:
        return max(v) if v else float("nan")
    if st is len:
        return float(len(v))
    if st is _spread:
        return max(v) - min(v) if v else -1.0
    raise AssertionError(st)


def _spread(v):
    return float(max(v) - min(v)) if len(v) else -1.0


STATS = ["mean", "median", "count", "sum", "std", np.max, len, _spread]


def assign(sample, edges, mask):
    """bin tuple per point; None if masked or an outlier"""
    out = []
    for i in range(len(sample[0])):
        if mask is not None and not mask[i]:
            out.append(None)
            continue
        t = tuple(bin_of(s[i], e) for s, e in zip(sample, edges))
        out.append(None if any(k == 0 or k == len(e) for k, e in zip(t, edges)) else tuple(k - 1 for k in t))
    return out


def reference(where, shape, values, st):
    out = np.empty(shape)
    groups = {}
    for w, v in zip(where, values):
        if w is not None:
            groups.setdefault(w, []).append(v)
    for ix in itertools.product(*[range(n) for n in shape]):
        out[ix] = stat_of(groups.get(ix, []), st)
    return out


def _name(st):
    return st if isinstance(st, str) else st.__name__


def _all_stats(ck, bs, where, shape, values, key, ctx, vflat=None, stats=STATS):
    for st in stats:
        got = bs(values, statistic=st)
        ck.step()
        want = reference(where, shape, values.ravel() if vflat is None else vflat, st)
        ck.close(got, want, key, "%s statistic %s" % (ctx, _name(st)), rtol=1e-7 if st == "std" or values.dtype == np.float32 else 1e-10, atol=1e-6 if st == "std" else 1e-10)
        ck.outcome(np.round(want, 6))


def run(ck):
    from skbeam.core.accumulators.binned_statistic import (BinnedStatistic1D, BinnedStatistic2D, BinnedStatisticDD,
                                                           RadialBinnedStatistic, RPhiBinnedStatistic)

    # 1. every sample over the points that matter, every mask, explicit edges and counted bins
    e1 = [0.0, 1.0, 2.5, 4.0]
    pts = [0.0, 1.0, np.nextafter(1.0, 0), 2.5, 3.9, 4.0, np.nextafter(4.0, 0), 4.0 - 1e-8, 4.5, -0.5, 3.0]
    pts_q = pts if ck.thorough else [0.0, 1.0, np.nextafter(1.0, 0), 2.5, 4.0, 4.0 - 1e-8, 4.5, -0.5]
    spec = [("edges", e1), ("count", (4, (0.0, 4.0)))]
    for smp, mk, (kind, b) in ck.cases("1d-all-samples", ((s, m, k) for s in itertools.product(pts_q, repeat=3)
                                                          for m in [None] + list(itertools.product((0, 1), repeat=3)) for k in spec)):
        x = np.array(smp)
        edges = b if kind == "edges" else np.linspace(b[1][0], b[1][1], b[0] + 1)
        mask = None if mk is None else np.array(mk)
        fz = freeze(x, mask)
        bs = BinnedStatistic1D(x, bins=b, mask=mask) if kind == "edges" else BinnedStatistic1D(x, bins=b[0], range=b[1], mask=mask)
        values = np.array([3.0, 7.5, -2.0])
        where = assign([smp], [edges], mk)
        _all_stats(ck, bs, where, (len(edges) - 1,), values, "binned-1d", "sample %s mask %s" % (smp, mk),
                   stats=STATS if ck.thorough else ["mean", "count", "median", "sum"])
        ck.true(unchanged(fz, x, mask), "input-mutated", "sample or mask modified")
        ck.state(smp, mk, kind)
        ck.trace()
    # all statistics on a larger set
    xs = [0.0, 0.2, 1.0, 1.0, 1.7, 2.5, 2.5, 2.6, 4.0, 4.0, 4.5, -3.0, 3.999999999, float("nan"), 0.9999]
    vals = np.array([1.0, 5, 0.1, 0.1, -4, 9, 9, 2, 0.3, 0.3, 100, 200, 6, 300, 8])
    for edges, dt, mk in ck.cases("1d-statistics", itertools.product(
            ([0.0, 1.0, 2.5, 4.0], [0, 4], [-1, 0, 1, 2, 3, 4], [0.1, 0.2, 5]), ("f8", "f4", "i8", "u1", "i2", "u2", "?"),
            (None, "odd", "all", "none"))):
        mask = None if mk is None else np.array([(i % 2 if mk == "odd" else int(mk == "all")) for i in range(len(xs))])
        x = np.array(xs)
        v = np.abs(vals * (2 if dt[0] in "u?" else 1))
        if dt == "?":
            v = v > 5
        else:
            v = v.astype(dt)
        bs = BinnedStatistic1D(x, bins=edges, mask=mask)
        _all_stats(ck, bs, assign([xs], [edges], mask), (len(edges) - 1,), v, "binned-dtype", "values %s edges %s" % (dt, edges),
                   stats=STATS if dt != "?" else ["mean", "count", "sum"])
        ck.close(bs.bin_edges, edges, "edges")
        ck.close(bs.bin_centers, [(a + b) / 2 for a, b in zip(edges, edges[1:])], "centers")
        ck.state(edges, dt, mk)
        ck.trace()
    # points just beyond the last edge, for even and uneven bins
    for edges, part in ck.cases("beyond the last edge", itertools.product(
            ([0, 1, 2], [0, 1e-4, 100], [0, 50, 50.001], [-3, -2.9, 7, 1000], [1e-6, 2e-6, 1e-3], [0.0, 0.1, 0.2, 0.3]), (1e-4, 1e-3, 1e-2, 0.1, 0.5))):
        e = [float(q) for q in edges]
        x = [e[0], (e[-1] + e[-2]) / 2, e[-1], e[-1] + part * min(b - a for a, b in zip(e, e[1:])), e[-1] + (e[-1] - e[-2])]
        bs = BinnedStatistic1D(np.array(x), bins=e)
        _all_stats(ck, bs, assign([x], [e], None), (len(e) - 1,), np.array([1.0, 2, 4, 8, 16]), "binned-beyond", "edges %s, %g of a bin beyond" % (edges, part))
        ck.state("beyond", edges, part)
        ck.trace()
    # masks in every form, integer samples
    mforms = [(f, dt, lo) for f in ("int", "bool", "list", "float") for dt in ("i8", "i4", "u1", "f8", "f4") for lo in (0, 1, -3)]
    for form, dt, lo in ck.cases("mask-forms", mforms):
        if dt == "u1" and lo < 0:
            continue
        x = np.array([0, 1, 2, 3, 4, 5, 1, 0, 2]).astype(dt) + np.array(lo).astype(dt)
        for m in itertools.product((0, 1), repeat=4):
            mk = list(m) + [1, 0, 1, 0, 1]
            mask = {"int": np.array(mk), "bool": np.array(mk, bool), "list": mk, "float": np.array(mk, float)}[form]
            edges = [lo, lo + 1, lo + 3, lo + 5]
            fz = freeze(x)
            bs = BinnedStatistic1D(x, bins=edges, mask=mask)
            where = assign([x.tolist()], [edges], mk)
            v = np.arange(9) + 1.0
            _all_stats(ck, bs, where, (3,), v, "binned-mask", "mask %s %s" % (form, mk), stats=["count", "sum", "mean", "median"])
            ck.true(unchanged(fz, x), "input-mutated", "sample modified")
            ck.state(form, dt, lo, m)
        ck.trace()
    # masked points stay out however far from zero the bins lie
    for lo, span, dt in ck.cases("mask-offset", itertools.product((0.0, 1e-9, -1e-9, 1e3, -1e3, 1e9, -1e9, 1e14, 1e16, -1e16), (8.0, 64.0), ("f8", "i8"))):
        if dt == "i8" and lo != int(lo):
            continue
        x = (np.array([0, 1, 2, 3, 4, 5, 1, 0, 2, 8, 9]) * span + lo).astype(dt)
        edges = [lo, lo + span, lo + 3 * span, lo + 5 * span]
        for mk in ([1] * 11, [0] * 5 + [1] * 6, [0, 1] * 5 + [0], [1, 0] * 5 + [1], [0] * 10 + [1]):
            where = assign([x.tolist()], [edges], mk)
            bs = BinnedStatistic1D(x, bins=edges, mask=np.array(mk))
            _all_stats(ck, bs, where, (3,), np.arange(11) + 1.0, "binned-mask", "bins from %g, mask %s" % (lo, mk), stats=["count", "sum", "mean", "median"])
            ck.step()
        ck.state("offset", lo, span, dt)
    # default range, bin counts, degenerate samples
    dcases = [(s, n, r) for s in ([1.0, 2.0, 4.0, 3.3, 2.2], [5.0, 5.0], [-1.0, 0.0, 7.0, 6.999], [0.0]) for n in (1, 2, 3, 7, None)
              for r in (None, (0.0, 4.0), [(0.0, 4.0)], (2.0, 2.0))]
    for s, n, r in ck.cases("default-range", dcases):
        kw = {} if n is None else {"bins": n}
        if r is not None:
            kw["range"] = r
        bs = BinnedStatistic1D(np.array(s), **kw)
        lo, hi = (min(s), max(s)) if r is None else (r if isinstance(r, tuple) else r[0])
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
        edges = np.linspace(lo, hi, (n or 10) + 1)
        ck.close(bs.bin_edges, edges, "default-edges")
        _all_stats(ck, bs, assign([s], [edges], None), (n or 10,), np.arange(len(s)) * 2.0 + 1, "binned-default", str((s, n, r)))
        ck.state(s, n, r)
        ck.trace()

    # scales, offsets, large samples, many bins
    def groups(coords, edges, mask):
        """flat bin number per point, -1 for none; written with a search in the edges"""
        flat = np.zeros(len(coords[0]), int)
        ok = np.ones(len(coords[0]), bool) if mask is None else np.asarray(mask) != 0
        for c, e in zip(coords, edges):
            b = np.searchsorted(e, c, side="right") - 1
            b[c == e[-1]] = len(e) - 2
            ok &= (b >= 0) & (b < len(e) - 1)
            flat = flat * (len(e) - 1) + b
        return np.where(ok, flat, -1)

    def stats_large(flat, shape, values):
        nb = int(np.prod(shape))
        v = np.asarray(values, float)
        out = {"count": np.zeros(nb), "sum": np.zeros(nb), "mean": np.full(nb, np.nan), "median": np.full(nb, np.nan), "std": np.zeros(nb)}
        order = np.argsort(flat, kind="stable")
        fs, vs = flat[order], v[order]
        at = np.searchsorted(fs, np.arange(nb + 1))
        for b in range(nb):
            x = vs[at[b]: at[b + 1]]
            if len(x):
                out["count"][b], out["sum"][b], out["mean"][b] = len(x), x.sum(), x.mean()
                out["median"][b], out["std"][b] = np.median(x), x.std()
        return {k: o.reshape(shape) for k, o in out.items()}

    def decide_large(bs, coords, edges, mask, values, key, ctx):
        shape = tuple(len(e) - 1 for e in edges)
        want = stats_large(groups(coords, edges, mask), shape, values.ravel())
        scale = float(np.max(np.abs(values.astype(float)))) or 1.0
        for st, w in want.items():
            got = bs(values, statistic=st)
            ck.step()
            ck.close(got, w, key, "%s statistic %s" % (ctx, st), rtol=1e-7, atol=1e-6 * scale if st == "std" else 1e-10 * scale)

    sc = [(s, o, n, nb, how, mk) for s in (1e-9, 1e-3, 1.0, 1e6, 1e12) for o in (0.0, -3.0, 7.0) for n, nb in ((40, 4), (900, 300))
          for how in ("count", "edges", "uneven") for mk in (0, 1)]
    sc += [(1.0, 0.0, 70000, 3, h, m) for h in ("count", "edges") for m in (0, 1)]
    sc += [(1.0, 0.0, 70000, 40000, "count", m) for m in (0, 1)]
    for s, o, n, nb, how, mk in ck.cases("1d-large", sc):
        k = np.arange(n, dtype=np.int64)
        e = (np.arange(nb + 1) + o) * s
        if how == "uneven":
            e = (np.arange(nb + 1) + o + 0.3 * (np.arange(nb + 1) % 2)) * s
        # a quarter into the bins, and outside at both ends, and the very last edge
        x = ((k * 7) % (nb + 2) - 1 + o + (0.55 if how == "uneven" else 0.25)) * s
        x[k % 97 == 5] = e[-1]
        v = (k * 31 + k * k) % 1009 - 300.0
        mask = None if not mk else (k % 3 != 0).astype(int)
        bs = BinnedStatistic1D(x, bins=nb, range=(e[0], e[-1]), mask=mask) if how == "count" else BinnedStatistic1D(x, bins=e, mask=mask)
        ck.close(bs.bin_edges, e, "edges", atol=1e-12 * s)
        if how == "count":
            e = bs.bin_edges
        decide_large(bs, [x], [np.asarray(e)], mask, v, "binned-large", "scale %g offset %g %d points %d bins %s" % (s, o, n, nb, how))
        ck.state("large", s, o, n, nb, how, mk)
        ck.trace()
    for (na, nb), n, mk, dt in ck.cases("2d-large", itertools.product(((70, 80), (300, 2), (2, 300), (257, 256)), (5000,), (0, 1), ("f8", "u2", "f4"))):
        k = np.arange(n, dtype=np.int64)
        x, y = (k * 7 + k // 5) % (na + 2) - 0.5, (k * 3 + k // 7) % (nb + 2) - 0.5
        mask = None if not mk else (k % 4 != 1).astype(int)
        v = ((k * 31 + k * k) % 1009).astype(dt)
        e = [np.arange(na + 1.0), np.arange(nb + 1.0)]
        for bs in (BinnedStatistic2D(x, y, bins=e, mask=mask), BinnedStatisticDD([x, y], bins=e, mask=mask)):
            decide_large(bs, [x, y], e, mask, v, "binned-large", "%d by %d" % (na, nb))
        ck.state("large2", na, nb, mk, dt)
        ck.trace()
    for sh, org, nb, mk in ck.cases("image-large", itertools.product(((300, 310), (31, 600), (600, 31), (1, 70000)), (None, (3.3, 200.7), (-5.0, -9.0)),
                                                                     (20, 300), (0, 1))):
        o = ((sh[0] - 1) / 2.0, (sh[1] - 1) / 2.0) if org is None else org
        yy, xx = np.meshgrid(np.arange(sh[0]) - o[0], np.arange(sh[1]) - o[1], indexing="ij")
        r = np.sqrt(yy ** 2 + xx ** 2).ravel()
        ph = np.arctan2(yy, xx).ravel()
        e = 0.7031 + np.arange(nb + 1) * (math.floor(r.max()) - 0.7) / nb
        # edges stay clear of every pixel, so that rounding of the radius cannot matter
        rs = np.unique(r)
        at = np.clip(np.searchsorted(rs, e), 1, len(rs) - 1)
        e = np.unique((rs[at] + rs[at - 1]) / 2)
        e = e[np.concatenate([[True], np.diff(e) > 1e-3])]
        if len(e) < 2:
            continue
        pe = np.array([-3.2, -1.51003, -0.4, 0.30007, 1.9, 3.2])
        mask = None if not mk else (np.arange(r.size).reshape(sh) % 3 != 0).astype(int)
        v = ((np.arange(r.size, dtype=np.int64) * 31) % 1009).reshape(sh).astype("u2" if mk else "f8")
        kw = {} if org is None else {"origin": org}
        mf = None if mask is None else mask.ravel()
        decide_large(RadialBinnedStatistic(sh, bins=e, mask=mask, **kw), [r], [e], mf, v, "radial-large", "%s %s %d" % (sh, org, nb))
        decide_large(RPhiBinnedStatistic(sh, bins=[e, pe], mask=mask, **kw), [r, ph], [e, pe], mf, v, "rphi-large", "%s %s %d" % (sh, org, nb))
        ck.state("image", sh, org, nb, mk)
        ck.trace()

    # 2. several dimensions: every combination of bin counts (equal and different), bin map included
    def grid_sample(counts):
        axes = [[-0.5] + [k + 0.5 for k in range(n)] + [float(n), n + 0.7] for n in counts]
        return [list(c) for c in zip(*itertools.product(*axes))]

    cnts = [c for d in (1, 2, 3) for c in itertools.product((1, 2, 3, 4) if d < 3 else (1, 2, 3), repeat=d)]
    if ck.thorough:
        cnts += list(itertools.product((1, 2, 3), repeat=4)) + list(itertools.product((2, 3, 5), repeat=3))
    else:
        cnts += [(1, 2, 3, 2), (3, 2, 1, 2), (2, 4, 3, 1), (2, 3, 5), (5, 2, 3), (3, 5, 2), (6, 3)]
    for counts, form, mk in ck.cases("nd-bins", ((c, f, m) for c in cnts for f in ("list", "array", "edges", "farray") for m in (0, 1))):
        smp = grid_sample(counts)
        N = len(smp[0])
        mask = np.array([(3 * i) % 5 != 0 for i in range(N)]).astype(int) if mk else None
        edges = [list(np.arange(n + 1.0)) for n in counts]
        if form == "edges":  # uneven edges
            edges = [[0.0] + [k + 0.25 for k in range(1, n)] + [float(n)] for n in counts]
        src = np.array(smp).T.copy() if form == "array" else (np.asfortranarray(np.array(smp).T) if form == "farray"
                                                              else [np.array(s) for s in smp])
        fz = freeze(src) if isinstance(src, np.ndarray) else freeze(*src)
        bs = BinnedStatisticDD(src, bins=edges, mask=mask) if form == "edges" else BinnedStatisticDD(
            src, bins=list(counts), range=[(0, n) for n in counts], mask=mask)
        where = assign(smp, edges, mask)
        v = np.array([((7 * i) % 23 - 4.0) * (1.0 if mk else 1 / 3.0) for i in range(N)])
        _all_stats(ck, bs, where, counts, v, "binned-nd", "counts %s form %s" % (counts, form),
                   stats=["count", "sum", "mean", "median", "std", np.max] if N < 400 else ["count", "sum", "mean"])
        bm = bs.binmap
        ck.step()
        ck.equal(bm.shape, (len(counts), N), "binmap-shape")
        for d in range(len(counts)):
            want = [bin_of(x, edges[d]) for x in smp[d]]
            if mask is not None:
                want = [w if m else 0 for w, m in zip(want, mask)]
            ck.true(bm[d].tolist() == want, "binmap", "dimension %d counts %s: got %s expected %s" % (d, counts, bm[d].tolist()[:60], want[:60]))
        ck.true(unchanged(fz, *([src] if isinstance(src, np.ndarray) else src)), "input-mutated", "sample modified")
        ck.state(counts, form, mk)
        ck.trace()
    # ten bins unless told otherwise, for every class
    for mk in ck.cases("default-bins", (0, 1)):
        rng = np.arange(60.0)
        a, b = (rng * 7) % 60 / 6.0, (rng * 11) % 60 / 6.0
        m = None if not mk else (np.arange(60) % 4 != 0)
        img = rng.reshape(6, 10)
        im = None if m is None else m.reshape(6, 10)
        for name, bs, dims in (("general", BinnedStatisticDD([a, b], mask=m), 2), ("2d", BinnedStatistic2D(a, b, mask=m), 2), ("1d", BinnedStatistic1D(a, mask=m), 1),
                               ("radial", RadialBinnedStatistic((6, 10), mask=im), 1), ("rphi", RPhiBinnedStatistic((6, 10), mask=im), 2)):
            out = np.asarray(bs(img if name in ("radial", "rphi") else rng))
            ck.equal(out.shape, (10,) * dims, "default-bins", "%s: shape of the result" % name)
            cnt = np.asarray(bs(img if name in ("radial", "rphi") else rng, "count"))
            ck.equal(int(cnt.sum()), 60 if m is None else int(m.sum()), "default-bins", "%s: points counted" % name)
            ck.step(2)
        ck.state("ten", mk)
    # 2-D class: bin specifications
    x2 = np.array([0.0, 0.5, 1.0, 1.9, 2.0, 2.5, 3.0, 0.1, 1.5, 2.9])
    y2 = np.array([3.0, 2.5, 1.0, 0.0, 2.0, 0.5, 3.0, 0.2, 1.5, 2.9])
    v2 = np.arange(10) + 0.5
    b2 = [("n", 3, None), ("nm", (2, 3), None), ("nm", [3, 1], None), ("e", [0, 1, 2, 3], None), ("ee", [[0, 1, 3], [0, 0.5, 1, 2, 3]], None),
          ("n", 2, [[0, 2], [1, 3]]), ("nm", (4, 2), [[0, 2], [1, 3]]), ("nm", (2, 4), [[0.5, 2.5], [0, 2]])]
    for (k, b, r), m in ck.cases("2d-class", itertools.product(b2, (None, 1, 2))):
        mask = None if m is None else (np.arange(10) % (m + 1) != 0).astype(int)
        bs = BinnedStatistic2D(x2, y2, bins=b, range=r, mask=mask)
        if k == "n":
            nb = (b, b)
        elif k == "nm":
            nb = tuple(b)
        if k in ("n", "nm"):
            rr = r or [[0, 3], [0, 3]]
            edges = [np.linspace(rr[i][0], rr[i][1], nb[i] + 1) for i in range(2)]
        elif k == "e":
            edges = [b, b]
        else:
            edges = b
        for i in range(2):
            ck.close(bs.bin_edges[i], edges[i], "edges-2d")
            ck.close(bs.bin_centers[i], [(a + c) / 2 for a, c in zip(edges[i], edges[i][1:])], "centers-2d")
        _all_stats(ck, bs, assign([x2, y2], edges, mask), tuple(len(e) - 1 for e in edges), v2, "binned-2d", str((k, b, r, m)))
        ck.state(k, repr(b), repr(r), m)
        ck.trace()

    # 3. histories: statistics, value sets and default changes in every order on one object
    hx = [0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 0.2, 1.2, 5.0]
    hy = [1.5, 0.5, 0.5, 1.9, 2.0, 0.1, 1.0, 1.2, 0.0, 1.0]
    edges = [[0, 1, 2, 3], [0, 1, 2]]
    where = assign([hx, hy], edges, None)
    sets = [np.arange(10) * 1.5, (np.arange(10) ** 2 % 7).astype("i4"), np.full(10, 0.1)]
    ops = [("call", v, st) for v in range(3) for st in ("mean", "median", "count", "std")] + [("call", 0, "sum"), ("call", 1, np.max)] \
        + [("default", "sum"), ("default", "median"), ("calld", 0), ("calld", 2), ("binmap",), ("badstat",)]
    L = 3 if ck.thorough else 2
    seqs = [s for n in range(1, L + 1) for s in itertools.product(range(len(ops)), repeat=n)]
    if not ck.thorough:
        core = [ops.index(o) for o in (("call", 0, "mean"), ("call", 1, "median"), ("call", 2, "count"), ("default", "sum"), ("calld", 0), ("badstat",))]
        seqs += list(itertools.product(core, repeat=4))
    for seq in ck.cases("histories", seqs):
        bs = BinnedStatistic2D(np.array(hx), np.array(hy), bins=edges)
        default = "mean"
        kept = []
        for o in seq:
            op = ops[o]
            ck.step()
            if op[0] == "default":
                bs.statistic = op[1]
                default = op[1]
                ck.equal(bs.statistic, default, "default-statistic")
            elif op[0] == "binmap":
                ck.true(bs.binmap[0].tolist() == [bin_of(x, edges[0]) for x in hx], "binmap", "in history %s" % (seq,))
            elif op[0] == "badstat":
                def setit():
                    bs.statistic = "mode"
                ck.raises(setit, ValueError, "invalid-statistic")
            else:
                st = op[2] if op[0] == "call" else default
                got = bs(sets[op[1]], statistic=st) if op[0] == "call" else bs(sets[op[1]])
                want = reference(where, (3, 2), sets[op[1]], st)
                ck.close(got, want, "history", "%s in %s" % (op[:2] + (_name(st),), seq), rtol=1e-7, atol=1e-6)
                kept.append((got, want))
        for got, want in kept:
            ck.close(got, want, "result-changed-later", "a result changed after a later call in %s" % (seq,), rtol=1e-7, atol=1e-6)
        ck.state("hist", seq)
        ck.trace()
    ck.raises(lambda: BinnedStatistic1D(np.arange(4.0), statistic="nope"), ValueError, "invalid-statistic")
    ck.raises(lambda: BinnedStatisticDD([np.arange(4.0)] * 2, bins=[1, 2, 3]), AttributeError, "bins-dimension")

    # 4. image forms: radius, and radius/angle
    shapes = [(3, 3), (4, 5), (5, 4), (1, 6), (6, 1), (7, 3)]
    origins = [None, (0, 0), (1.5, 2.0), (2, 1), (-1.0, 0.5)]
    for sh, org, mk, rm in ck.cases("radial", itertools.product(shapes, origins, (0, 1, 2), (0, 1))):
        o = ((sh[0] - 1) / 2.0, (sh[1] - 1) / 2.0) if org is None else org
        r = np.array([[math.hypot(i - o[0], j - o[1]) for j in range(sh[1])] for i in range(sh[0])])
        ph = np.array([[math.atan2(i - o[0], j - o[1]) for j in range(sh[1])] for i in range(sh[0])])
        if rm:
            r = r * 1.37 + 0.01 * np.arange(r.size).reshape(sh)
        mask = None
        if mk:
            mask = (np.arange(r.size).reshape(sh) % (mk + 1) != 0).astype(int)
        img = (np.arange(r.size) * 7 % 13 + 0.5).reshape(sh)
        # edges well away from pixel radii, so rounding of the radius cannot matter
        redge = [0.013, 0.9173, 1.6031, 2.7777, 6.1313]
        fz = freeze(r, mask, img)
        kw = dict(mask=mask)
        if org is not None:
            kw["origin"] = org
        if rm:
            kw["r_map"] = r
        ctx = "shape %s origin %s mask %s rmap %s" % (sh, org, mk, rm)
        mflat = None if mask is None else mask.ravel()
        bs = RadialBinnedStatistic(sh, bins=redge, **kw)
        _all_stats(ck, bs, assign([r.ravel()], [redge], mflat), (4,), img, "radial", ctx)
        bs = RadialBinnedStatistic(list(sh), bins=3, range=(0.05, 3.3331), **kw)
        ed = np.linspace(0.05, 3.3331, 4)
        ck.close(bs.bin_edges, ed, "radial-edges")
        _all_stats(ck, bs, assign([r.ravel()], [ed], mflat), (3,), img, "radial", ctx, stats=["mean", "count", "sum"])
        pedge = [-3.2, -2.0123, -0.7003, 0.3333, 1.9123, 3.2]
        bs = RPhiBinnedStatistic(sh, bins=[redge, pedge], **kw)
        w2 = assign([r.ravel(), ph.ravel()], [redge, pedge], mflat)
        _all_stats(ck, bs, w2, (4, 5), img, "rphi", ctx)
        bs = RPhiBinnedStatistic(sh, bins=(2, 3), range=[(0.05, 3.3331), (-2.9123, 3.0017)], statistic="sum", **kw)
        eds = [np.linspace(0.05, 3.3331, 3), np.linspace(-2.9123, 3.0017, 4)]
        w2 = assign([r.ravel(), ph.ravel()], eds, mflat)
        ck.close(bs(img), reference(w2, (2, 3), img.ravel(), "sum"), "rphi-default", ctx)
        ck.close(bs(np.asfortranarray(img)), reference(w2, (2, 3), img.ravel(), "sum"), "rphi-default", ctx)
        ck.step(2)
        ck.true(unchanged(fz, r, mask, img), "input-mutated", ctx)
        if sh[0] != sh[1]:
            ck.raises(lambda: bs(img.T), ValueError, "wrong-shape")
            ck.raises(lambda: RadialBinnedStatistic(sh, bins=3, mask=np.ones((sh[1], sh[0]))), ValueError, "wrong-mask-shape")
        ck.state(sh, org, mk, rm)
        ck.trace()
    # counts are conserved: default bins cover every unmasked pixel exactly once
    for sh, n, mk in ck.cases("conservation", itertools.product(shapes, (1, 2, 5, 10), (0, 1))):
        mask = None if not mk else (np.arange(sh[0] * sh[1]).reshape(sh) % 3 != 0).astype(int)
        for cls in (RadialBinnedStatistic, RPhiBinnedStatistic):
            bs = cls(sh, bins=n, mask=mask, statistic="count")
            tot = float(np.sum(bs(np.ones(sh))))
            ck.step()
            ck.equal(tot, float(sh[0] * sh[1] if mask is None else mask.sum()), "conservation", "%s %s %d" % (cls.__name__, sh, n))
        ck.state("cons", sh, n, mk)
        ck.trace()
    # names of statistics that do not exist are refused everywhere, and a refusal changes nothing
    names = ["min", "max", "", "Mean", "average", "nothing", None, 3]
    for nm, when in ck.cases("unknown statistic", itertools.product(names, ("at construction", "at call", "by assignment"))):
        x, y = np.array([0.1, 0.2, 0.7, 0.9]), np.array([1.0, 3.0, 5.0, 6.0])
        from skbeam.core.accumulators.binned_statistic import BinnedStatistic1D
        bs = BinnedStatistic1D(x, bins=2, statistic="sum")
        if when == "at construction":
            ck.raises(lambda: BinnedStatistic1D(x, bins=2, statistic=nm), ValueError, "unknown", repr(nm))
        elif when == "by assignment":
            ck.raises(lambda: setattr(bs, "statistic", nm), ValueError, "unknown", repr(nm))
        elif nm is not None:
            ck.raises(lambda: bs(y, nm), ValueError, "unknown", repr(nm))
            ck.raises(lambda: RadialBinnedStatistic((2, 2), bins=2)(y.reshape(2, 2), nm), ValueError, "unknown", repr(nm))
        ck.close(bs(y), [4.0, 11.0], "unknown/kept", "%r %s" % (nm, when))
        ck.step()
