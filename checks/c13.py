"""C13 - XSVS: probability densities are those of the summed images, for every level, region and image set."""
import itertools
import math

import numpy as np

from vc.harness import fmean, freeze, unchanged


def dens(vals, nedge):
    """density histogram with edges 0, 1, ..., nedge-1 (last bin closed)"""
    nb = nedge - 1
    cnt = [0] * nb
    for v in vals:
        if v < 0 or v > nedge - 1:
            continue
        cnt[min(int(v), nb - 1)] += 1
    tot = sum(cnt)
    return [c / tot if tot else 0.0 for c in cnt]


def levels(num):
    n, t = 1, 1
    while t * 2 <= num:
        t *= 2
        n += 1
    return n


def model(sets, labels, num, max_cts):
    lab = [int(x) for x in np.ravel(labels)]
    ids = sorted({v for v in lab if v > 0})
    fg = [i for i, v in enumerate(lab) if v > 0]
    L = levels(num)
    mean = [[None] * len(ids) for _ in range(L)]
    std = [[None] * len(ids) for _ in range(L)]
    acc = {}
    for s in sets:
        frames = [[float(x) for x in np.ravel(f)] for f in s]
        for lv in range(L):
            good = [f for f in frames if not any(math.isnan(f[i]) for i in fg)]
            if not good:
                return None
            for j, r in enumerate(ids):
                ps = [dens([f[i] for i, v in enumerate(lab) if v == r], max_cts * 2 ** lv) for f in good]
                acc.setdefault((lv, j), []).append(([fmean(c) for c in zip(*ps)], [fmean(x * x for x in c) for c in zip(*ps)]))
            frames = [[a + b for a, b in zip(frames[2 * k], frames[2 * k + 1])] for k in range(len(frames) // 2)]
    for (lv, j), lst in acc.items():
        m = [fmean(c) for c in zip(*[a for a, _ in lst])]
        p = [fmean(c) for c in zip(*[b for _, b in lst])]
        mean[lv][j] = m
        std[lv][j] = [math.sqrt(max(b - a * a, 0.0)) for a, b in zip(m, p)]
    return L, len(ids), mean, std


def compare(ck, xsvs, sets, labels, num, mx, key, label, arg=None, **kw):
    want = model(sets, labels, num, mx)
    if want is None:
        return
    L, R, mean, std = want
    prob, sd = xsvs.xsvs(arg if arg is not None else sets, labels, number_of_img=num, **kw)
    ck.step(sum(len(s) for s in sets))
    ck.equal(np.shape(prob), (L, R), key + "/shape", label)
    ck.equal(np.shape(sd), (L, R), key + "/shape", label)
    for lv in range(L):
        for j in range(R):
            ck.close(np.asarray(prob[lv, j], float), mean[lv][j], key, "%s: P(K) of level %d region %d" % (label, lv, j))
            ck.close(np.asarray(sd[lv, j], float) ** 2, np.array(std[lv][j]) ** 2, key + "/std", "%s: std of level %d region %d" % (label, lv, j), atol=1e-12)
    ck.trace()


LABELS = [[[1, 1], [1, 1]], [[1, 1], [0, 2]], [[3, 0], [7, 3]], [[2, 1], [1, 2]]]


def run(ck):
    from skbeam.core import speckle as xsvs
    from skbeam.core import utils
    # 1. every short series over an alphabet of frames
    alpha = [[0, 1, 2, 3], [2, 2, 2, 2], [3, 0, 0, 1], [1, 1, 0, 2]]
    n = 5
    for seq in ck.cases("series", itertools.product(range(4), repeat=n)):
        frames = [np.array(alpha[k], float).reshape(2, 2) for k in seq]
        for li in ((0, 1) if not ck.thorough else range(4)):
            compare(ck, xsvs, [frames], np.array(LABELS[li]), n, 4, "series", "frames %s labels %d" % (seq, li), max_cts=4)
        ck.state("series", seq)
    # 2. lengths, numbers of levels, regions, containers, max counts
    for nf, num, li, mc in ck.cases("lengths", itertools.product(range(1, 20), (1, 2, 3, 4, 5, 8, 9, 16), range(4), (4, 6, None))):
        if 2 ** (levels(num) - 1) > nf:
            continue
        frames = [np.array([[(7 * f + 3 * p + f * p) % 5 for p in range(2)], [(5 * f + p * 2 + 1) % 6 for p in range(2)]]) for f in range(nf)]
        lab = np.array(LABELS[li])
        mx = mc if mc is not None else max(int(f[lab > 0].max()) for f in frames)
        if mx < 3:
            continue
        kw = {} if mc is None else {"max_cts": mc}
        fr = freeze(lab, *frames)
        for form in ("list", "array", "float"):
            if form == "list":
                arg = [frames]
            elif form == "array":
                arg = np.array([frames])
            else:
                arg = [[f.astype(float) for f in frames]]
            compare(ck, xsvs, [frames], lab, num, mx, "lengths", "%d frames, number_of_img %d labels %d max %s %s" % (nf, num, li, mc, form), arg=arg, **kw)
        ck.true(unchanged(fr, lab, *frames), "inputs", "inputs modified")
        ck.state("len", nf, num, li, mc)
    # 3. several image sets: each set starts afresh and counts once
    base = {c: [np.array(alpha[(ord(c) + f * f) % 4], float).reshape(2, 2) + (f == 2 and c == "b") for f in range({"a": 4, "b": 5, "c": 7}[c])] for c in "abc"}
    for combo in ck.cases("sets", [c for r in (1, 2, 3, 4) for c in itertools.product("abc", repeat=r)]):
        sets = [base[c] for c in combo]
        for li in (0, 1):
            compare(ck, xsvs, sets, np.array(LABELS[li]), 4, 5, "sets", "sets %s" % (combo,), max_cts=5)
        compare(ck, xsvs, sets, np.array(LABELS[1]), 4, 5, "sets", "lazy sets %s" % (combo,), arg=((f for f in s) for s in sets), max_cts=5)
        ck.state("sets", combo)
    # 4. every placement of bad frames
    nb = 8
    for bad in ck.cases("bad frames", [b for r in range(0, 5) for b in itertools.combinations(range(nb), r)]):
        frames = [np.array([[(f * 3 + p) % 4 for p in range(2)], [(f + p * 2) % 4 for p in range(2)]], float) for f in range(nb)]
        for b in bad:
            frames[b] = np.full((2, 2), np.nan)
        for li in (0, 1):
            compare(ck, xsvs, [frames], np.array(LABELS[li]), nb, 4, "bad", "bad frames %s" % (bad,), max_cts=4)
            compare(ck, xsvs, [frames, frames[::-1]], np.array(LABELS[li]), 4, 4, "bad/sets", "bad frames %s in two sets" % (bad,), max_cts=4)
        ck.state("bad", bad)
    # a single bad pixel, in every place of every frame: the frame is bad when the pixel belongs to a region, and only then
    for f, p, g, q in ck.cases("bad pixels", itertools.product(range(6), range(4), range(6), range(4))):
        if (g, q) < (f, p):
            continue
        for li in (1, 2, 0):
            frames = [np.array([[(k * 3 + i) % 4 for i in range(2)], [(k + i * 2) % 4 for i in range(2)]], float) for k in range(6)]
            frames[f].flat[p] = np.nan
            frames[g].flat[q] = np.nan
            compare(ck, xsvs, [frames], np.array(LABELS[li]), 4, 4, "bad pixel", "pixel %d of frame %d and %d of %d bad, labels %d" % (p, f, q, g, li), max_cts=4)
        ck.state("badpix", f, p, g, q)
    # many regions, many sets, long series, large images
    for name, nreg, nset, nf, num in ck.cases("large", [("regions", 300, 1, 4, 4), ("regions", 40, 2, 9, 8), ("sets", 2, 40, 4, 4), ("sets", 3, 300, 2, 2), ("frames", 2, 1, 300, 256),
                                                         ("frames", 2, 2, 150, 128), ("frames", 1, 1, 1100, 4), ("frames", 3, 1, 70, 64)], limit=300):
        side = max(2, int(math.ceil(math.sqrt(2.3 * nreg))))
        lab = ((np.arange(side * side) * 7) % (nreg + 1)).reshape(side, side)
        lab[lab == 1] = nreg + 5
        sets = [[((np.arange(side * side) * (3 + k + 2 * z) + k * z + k // 3) % 5).reshape(side, side).astype(float) for k in range(nf)] for z in range(nset)]
        compare(ck, xsvs, sets, lab, num, 5, "large", "%d regions, %d sets of %d frames, number_of_img %d" % (nreg, nset, nf, num), max_cts=5)
        if nreg == 300:
            compare(ck, xsvs, sets, lab.astype(np.int32), num, 5, "large", "%d regions" % nreg, max_cts=5)
        ck.state("large", name, nreg, nset, nf, num)
    # count numbers beyond those of small integer types
    for mx, top in ck.cases("large counts", [(300, 255), (300, 299), (70000, 65535), (70000, 65536), (70000, 69999), (40000, 32768), (140000, 131072)]):
        lab = np.array([[1, 1], [2, 0]])
        frames = [np.array([[top, top // 2], [top - 1, 5]]), np.array([[top - k, 1], [k, 0]]) if (k := 3) else None, np.array([[0, top], [top // 3, top]])]
        for dt in (np.int64, np.float64, np.uint32):
            s = [f.astype(dt) for f in frames]
            prob, sd = xsvs.xsvs([s], lab, number_of_img=2, max_cts=mx)
            for lv, fr in enumerate((frames, [frames[0] + frames[1]])):
                ne = mx * 2 ** lv
                for j, r in enumerate((1, 2)):
                    want = np.zeros(ne - 1)
                    for f in fr:
                        v = f[lab == r]
                        v = v[v <= ne - 1]
                        for x in v:
                            want[min(int(x), ne - 2)] += 1. / len(v) / len(fr)
                    ck.close(np.asarray(prob[lv, j], float), want, "large counts", "P(K) of level %d region %d, counts up to %d of %d" % (lv, r, top, mx))
            ck.step(3)
        e, c = xsvs.normalize_bin_edges(2, 1, np.array([2.5]), mx)
        for i in range(2):
            ck.close(np.asarray(e[i, 0], float), np.arange(mx * 2 ** i) / (2.5 * 2 ** i), "edges", "edges of %d counts" % mx)
        ck.state("counts", mx, top)
    # 5. normalised edges and the list of integration times
    for nt, means, mc in ck.cases("normalised edges", itertools.product((1, 2, 3, 4, 9), ([2.0], [2.5, 4.0], [1.0, 3.0, 0.5]), (2, 3, 5))):
        m = np.array(means)
        e, c = xsvs.normalize_bin_edges(nt, len(means), m, mc)
        ck.equal((np.shape(e), np.shape(c)), ((nt, len(means)),) * 2, "edges/shape", "shape")
        for i in range(nt):
            for j in range(len(means)):
                we = [k / (means[j] * 2 ** i) for k in range(mc * 2 ** i)]
                ck.close(np.asarray(e[i, j], float), we, "edges", "level %d" % i)
                ck.close(np.asarray(c[i, j], float), [(a + b) / 2 for a, b in zip(we, we[1:])], "centers", "level %d" % i)
        ck.step()
        ck.state("edges", nt, means, mc)
    for r, num, first in ck.cases("integration times", itertools.product((2, 3, 5, 1.5), list(range(1, 70)) + [255, 256, 1000, 4096, 5000, 65536, 100000, 2 ** 20], (1, 2, 3))):
        got = list(utils.geometric_series(r, num, first)) if first != 1 else list(utils.geometric_series(r, num))
        want = [first]
        while want[-1] * r <= num:
            want.append(want[-1] * r)
        ck.close(got, want, "times", "ratio %s, %d images, first %s" % (r, num, first))
        ck.step()
        ck.state("times", r, num, first)
    # 6. other ratios between integration times
    for nf in ck.cases("ratio three", (3, 6)):
        prob, _ = xsvs.xsvs([[np.ones((2, 2))] * nf], np.ones((2, 2), int), number_of_img=3, timebin_num=3, max_cts=4)
        p = np.asarray(prob[1, 0], float)
        ck.true(p.sum() > 0 and int(np.argmax(p)) == 3, "timebin-3",
                "timebin_num=3: images with one count per pixel, integrated over 3 images, have %d counts" % int(np.argmax(p)))
        ck.step()
