"""Two-time correlation matrices equal their definition and are symmetric; the one-time average follows."""
import itertools
import math

import numpy as np

from vc import ref_corr
from vc.harness import freeze, unchanged
from checks.c01 import LABELS, _data


def run(ck):
    from skbeam.core.correlation import lazy_two_time, one_time_from_two_time, two_time_corr, two_time_state_to_results

    configs = [(1, 2), (1, 4), (1, 8), (1, 20), (2, 2), (2, 4), (3, 2), (3, 4), (4, 2), (4, 4), (5, 2), (2, 8), (3, 6)]
    ns = (1, 2, 3, 5, 8, 9, 16, 17, 24) if not ck.thorough else tuple(range(1, 34)) + (64,)
    for levels, bufs, lab, n, extra in ck.cases("configurations", [(lv, b, l, n, x) for lv, b in configs
                                                                   for l in LABELS for n in ns for x in (0, 2)]):
        labels = np.array(LABELS[lab])
        frames = _data("mix", n, labels.shape)
        b = freeze(labels, *frames)
        r = two_time_corr(labels, frames, n + extra, bufs, levels)
        ck.step(n)
        want = ref_corr.two_time(frames, levels, bufs, labels, n + extra)
        ck.close(r.g2, want, "two-time", "levels %d bufs %d n %d" % (levels, bufs, n))
        ck.true(np.array_equal(r.g2, r.g2.transpose(0, 2, 1)), "symmetry", "matrix not symmetric")
        ck.close(r.lag_steps, ref_corr.flat_lags(levels, bufs), "lags")
        ck.true(unchanged(b, labels, *frames), "input-mutated", "inputs modified")
        # looking at the matrix part way, or twice, does not change it
        st = None
        for k, st in enumerate(lazy_two_time(labels, frames, n + extra, bufs, levels)):
            if k == n // 2:
                part = np.array(two_time_state_to_results(st).g2)
                ck.close(part, ref_corr.two_time(frames[:k + 1], levels, bufs, labels, n + extra), "two-time/part way", "after %d of %d frames" % (k + 1, n))
        for again in range(2):
            ck.close(two_time_state_to_results(st).g2, want, "two-time/looked at before", "levels %d bufs %d n %d, look %d" % (levels, bufs, n, again))
        ck.step(n)
        ck.state(levels, bufs, lab, n, extra)
        ck.outcome(np.round(want, 9))
        ck.trace()

    # pixels below zero (after a background subtraction), also negative correlations
    for levels, bufs, lab, n in ck.cases("below zero", [(lv, b, l, n) for lv, b in configs for l in LABELS for n in ns[2:]]):
        labels = np.array(LABELS[lab])
        frames = _data("signed", n, labels.shape)
        r = two_time_corr(labels, frames, n, bufs, levels)
        ck.step(n)
        want = ref_corr.two_time(frames, levels, bufs, labels, n)
        ck.close(r.g2, want, "two-time/below zero", "levels %d bufs %d n %d" % (levels, bufs, n))
        ck.true(np.array_equal(r.g2, r.g2.transpose(0, 2, 1)), "symmetry", "matrix not symmetric")
        ck.state("signed", levels, bufs, lab, n)
        ck.outcome(np.round(want, 9))
        ck.trace()

    # large streams, images, numbers of regions and intensities
    big = [((3, 4), 2, 300, 1.0, 3, 8), ((3, 4), 2, 270, 1.0, 6, 4), ((2, 3), 2, 260, 1e4, 1, 260), ((30, 40), 300, 12, 1.0, 2, 4),
           ((25, 30), 140, 12, 1.0, 2, 4), ((300, 310), 2, 9, 1.0, 2, 4), ((4, 5), 2, 20, 1e9, 2, 4), ((4, 5), 2, 20, 1e-9, 2, 4),
           ((4, 5), 2, 20, 1e-60, 2, 4), ((4, 5), 3, 20, 1e60, 3, 4), ((1, 70000), 3, 6, 1.0, 1, 4), ((70000, 1), 3, 6, 1.0, 2, 2)]
    for (shape, nlab, n, scale, levels, bufs), kind in ck.cases("large", [(b, k) for b in big for k in ("int", "real")]):
        labels, frames = ref_corr.large_case(shape, nlab, n, scale, kind)
        r = two_time_corr(labels, frames, n, bufs, levels)
        ck.step(n)
        ck.close(r.g2, ref_corr.two_time_large(frames, levels, bufs, labels, n), "two-time-large",
                 "%s" % ((shape, nlab, n, scale, levels, bufs),))
        ck.true(np.array_equal(r.g2, r.g2.transpose(0, 2, 1)), "symmetry", "matrix not symmetric")
        ot, er = one_time_from_two_time(r.g2, calc_errors=True)
        d = np.arange(n)
        for j in (0, 1, n // 2, n - 1):
            v = r.g2[:, d[: n - j], d[: n - j] + j]
            ck.close(ot[:, j], v.mean(axis=1), "collapse-large", "lag %d" % j)
            ck.close(er[:, j], v.std(axis=1) / math.sqrt(n - j), "collapse-large", "error of lag %d" % j, atol=1e-12)
        ck.state("large", shape, nlab, n, scale, kind)
        ck.trace()

    # default number of levels
    for n, lab in ck.cases("default-levels", [(n, l) for n in (2, 4, 7, 10) for l in LABELS]):
        labels = np.array(LABELS[lab])
        frames = _data("ramp", n, labels.shape)
        r = two_time_corr(labels, np.array(frames), n, 10)
        ck.close(r.g2, ref_corr.two_time(frames, 1, 10, labels, n), "default-levels")
        ck.step(n)
        ck.trace()

    # all small sequences incl. dark regions
    n = 4
    alpha = list(itertools.product((0, 1, 3), repeat=2))
    for levels, bufs, lab, seq in ck.cases("all-small-sequences", (
            (lv, b, l, s) for lv, b in ((1, 2), (1, 4), (2, 2)) for l in ([[1, 1]], [[1, 2]])
            for s in itertools.product(range(9), repeat=n) if ck.thorough or sum(s) % 2 == 0)):
        frames = [np.array([alpha[s]], dtype=float) for s in seq]
        labels = np.array(lab)
        r = two_time_corr(labels, frames, n, bufs, levels)
        ck.step(n)
        ck.close(r.g2, ref_corr.two_time(frames, levels, bufs, labels, n), "two-time-small")
        ck.state("small", levels, bufs, lab, seq)
        ck.trace()

    # bad (all-NaN) frames poison exactly the entries that use them
    nb = 8
    pats = [p for r in (1, 2, 3) for p in itertools.combinations(range(nb), r)]
    for levels, bufs, p in ck.cases("bad-frames", [(lv, b, p) for lv, b in ((1, 8), (1, 4), (2, 4), (3, 2)) for p in pats]):
        labels = np.array(LABELS["two"])
        frames = _data("mix", nb, labels.shape)
        for i in p:
            frames[i] = np.full(labels.shape, np.nan)
        r = two_time_corr(labels, frames, nb, bufs, levels)
        want = ref_corr.two_time(frames, levels, bufs, labels, nb)
        ck.step(nb)
        ck.close(r.g2, want, "two-time-bad", "bad frames %s" % (p,))
        ck.state("bad", levels, bufs, p)
        if levels == 1 and bufs == 8:
            ot, err = one_time_from_two_time(r.g2, calc_errors=True)
            for q in range(r.g2.shape[0]):
                for j in range(nb):
                    d = [want[q, t, t + j] for t in range(nb - j)]
                    good = [x for x in d if not math.isnan(x)]
                    m = math.fsum(good) / len(good) if good else float("nan")
                    ck.close(ot[q, j], m, "one-from-two-bad", "lag %d" % j)
            ck.step()
        ck.trace()

    # forms of input
    for form, dt, ldt in ck.cases("containers", itertools.product(("list", "gen", "array", "fortran", "strided"),
                                                                  ("f8", "f4", "u1", "u2", "i4"), ("i8", "i4", "u1", "i2"))):
        labels = np.array(LABELS["gaps"]).astype(ldt)
        frames = [f.astype(dt) for f in _data("big", 9, labels.shape)]
        src = frames
        if form == "gen":
            src = (f for f in frames)
        elif form == "array":
            src = np.array(frames)
        elif form == "fortran":
            src = [np.asfortranarray(f) for f in frames]
        elif form == "strided":
            src = [np.repeat(f, 2, 1)[:, ::2] for f in frames]
        r = two_time_corr(labels, src, 9, 4, 3)
        ck.step(9)
        ck.close(r.g2, ref_corr.two_time(frames, 3, 4, labels, 9), "two-time-container", "%s %s" % (form, dt))
        ck.state(form, dt, ldt)
        ck.trace()

    # regions are independent
    for lab, keep in ck.cases("region-independence", [(l, k) for l in ("two", "gaps", "inter", "wide") for k in range(3)]):
        labels = np.array(LABELS[lab])
        ids = sorted(set(labels[labels > 0].tolist()))
        if keep >= len(ids):
            continue
        frames = _data("mix", 12, labels.shape)
        only = np.where(labels == ids[keep], 7, 0)
        a = two_time_corr(labels, frames, 12, 4, 3).g2[keep]
        b = two_time_corr(only, frames, 12, 4, 3).g2[0]
        ck.step(24)
        ck.close(a, b, "region-independence")
        ck.trace()

    # collapsing a two-time matrix: every matrix over a small alphabet
    vals = (0.5, 1.0, float("nan"))
    mats = [(n, v) for n in (1, 2) for v in itertools.product(vals, repeat=n * n)]
    mats += [(3, v) for v in itertools.product((0.25, 2.0, float("nan")), repeat=6)]
    for n, v in ck.cases("collapse", mats):
        m = np.zeros((2, n, n))
        if n == 3:
            it = iter(v)
            for i in range(3):
                for j in range(i, 3):
                    m[0, i, j] = m[0, j, i] = next(it)
        else:
            m[0] = np.array(v).reshape(n, n)
        m[1] = np.arange(n * n).reshape(n, n) + 1.0
        b = freeze(m)
        ot = one_time_from_two_time(m)
        ot2, err = one_time_from_two_time(m, calc_errors=True)
        ck.step(2)
        for q in range(2):
            for j in range(n):
                d = [m[q, t, t + j] for t in range(n - j)]
                good = [x for x in d if not math.isnan(x)]
                if good:
                    mean = math.fsum(good) / len(good)
                    sd = math.sqrt(math.fsum((x - mean) ** 2 for x in good) / len(good))
                else:
                    mean = sd = float("nan")
                ck.close(ot[q, j], mean, "collapse", "lag %d" % j)
                ck.close(ot2[q, j], mean, "collapse", "lag %d (with errors)" % j)
                if len(good) == len(d):
                    ck.close(err[q, j], sd / math.sqrt(len(d)), "collapse-error", "lag %d" % j)
        ck.true(unchanged(b, m), "collapse-mutates", "matrix modified")
        ck.state("collapse", n, v)
        ck.trace()
    ck.raises(lambda: two_time_corr(np.ones((1, 2), int), [np.ones((1, 2))], 1, 3), ValueError, "odd-buffers")
