"""One-time correlation: every streamed result equals the direct definition."""
import itertools

import numpy as np

from vc import ref_corr
from vc.harness import freeze, unchanged


def _data(kind, n, shape):
    npix = shape[0] * shape[1]
    out = []
    for f in range(n):
        if kind == "mix":
            v = [((f + 3) * (p + 5) * 7 + f * f * 3 + p * 11) % 37 + 1 for p in range(npix)]
        elif kind == "ramp":
            v = [1 + f * npix + p for p in range(npix)]
        elif kind == "pulse":  # dark except rare bright frames
            v = [(5 + p) if f % 5 == 2 else 1 for p in range(npix)]
        elif kind == "late":  # dark at the beginning
            v = [0 if f < 3 else 2 + (f * p) % 5 for p in range(npix)]
        elif kind == "big":
            v = [200 + (f * 31 + p * 17) % 55 for p in range(npix)]
        elif kind == "signed":  # background subtracted: pixels below zero
            v = [(5.13, -1.07, -2.31, 6.53, 3.71)[(3 * f + 2 * p + f * p) % 5] for p in range(npix)]
        out.append(np.array(v, dtype=float).reshape(shape))
    return out


LABELS = {
    "one": [[0, 1, 1], [0, 0, 1]],
    "two": [[1, 1, 2], [0, 2, 2]],
    "gaps": [[5, 0, 3], [3, 5, 9]],
    "full": [[1, 1, 1], [1, 1, 1]],
    "single": [[0, 0, 0], [0, 4, 0]],
    "inter": [[2, 1, 2], [1, 2, 1]],
    "wide": [[12, 250, 0], [250, 12, 31]],
}


def _run_stream(ck, frames, levels, bufs, labels, key, gen_arg=None, every=True):
    from skbeam.core.correlation import lazy_one_time

    src = frames if gen_arg is None else gen_arg
    n = 0
    last = None
    for n, res in enumerate(lazy_one_time(src, levels, bufs, labels), 1):
        ck.step()
        last = res
        if every or n == len(frames):
            g, lag = ref_corr.one_time(frames[:n], levels, bufs, labels)
            ck.close(res.lag_steps, lag, key + "-lags", "lag steps after frame %d" % n)
            ck.close(res.g2, g, key, "g2 after frame %d" % n)
            ck.state(levels, bufs, labels, [np.asarray(f) for f in frames[:n]])
            ck.outcome(np.round(g, 9))
    ck.equal(n, len(frames), key + "-yields", "number of results")
    ck.trace()
    return last


def run(ck):
    from skbeam.core.correlation import auto_corr_scat_factor, lazy_one_time, multi_tau_auto_corr
    from skbeam.core.utils import multi_tau_lags

    # 1. every (levels, buffers, regions, data pattern) configuration, result checked after every frame
    nmax = 70 if ck.thorough else 34
    cfg = []
    for levels, bufs in [(1, 2), (1, 4), (1, 8), (2, 2), (2, 4), (3, 2), (3, 4), (4, 2), (4, 4), (5, 2), (2, 8), (3, 6),
                         (6, 4), (1, 12), (2, 10)]:
        for lab in LABELS:
            for kind in ("mix", "ramp", "pulse", "late", "big", "signed"):
                cfg.append((levels, bufs, lab, kind))
    for levels, bufs, lab, kind in ck.cases("configurations", cfg):
        labels = np.array(LABELS[lab])
        frames = _data(kind, nmax, labels.shape)
        every = ck.thorough or kind in ("mix", "late")
        if not every:
            # still look at the stream wherever a level rolls over
            frames = frames[: nmax - (levels + bufs) % 7]
        b = freeze(labels, *frames)
        _run_stream(ck, frames, levels, bufs, labels, "one-time", every=every)
        ck.true(unchanged(b, labels, *frames), "input-mutated", "labels or frames were modified")

    # 2. every intensity sequence over a small alphabet (dark pixels included)
    n = 5 if ck.thorough else 4
    alpha = list(itertools.product((0, 1, 3), repeat=2))
    small = ((levels, bufs, lab, seq) for levels, bufs in ((1, 2), (1, 4), (2, 2), (3, 2))
             for lab in ([[1, 1]], [[1, 2]])
             for seq in itertools.product(range(9), repeat=n)
             if lab == [[1, 1]] or ck.thorough or seq[0] % 2 == 0)
    for levels, bufs, lab, seq in ck.cases("all-small-sequences", small):
        frames = [np.array([alpha[s]], dtype=float) for s in seq]
        _run_stream(ck, frames, levels, bufs, np.array(lab), "one-time-small")

    # 3. every placement of bad frames
    nb = 12 if ck.thorough else 10
    pats = []
    for r in range(0, 4 if ck.thorough else 3):
        pats += list(itertools.combinations(range(nb), r))
    pats += [tuple(range(a, b)) for a in range(nb) for b in range(a + 3, nb + 1)]
    pats += [tuple(range(0, nb, 2)), tuple(range(1, nb, 2)), tuple(range(0, nb, 3))]
    bad = [(levels, bufs, p, lab) for levels, bufs in ((1, 4), (2, 4), (3, 2), (3, 4), (2, 2), (4, 2))
           for p in sorted(set(pats), key=lambda q: (len(q), q)) for lab in ("two", "gaps")]
    for levels, bufs, p, lab in ck.cases("bad-frames", bad):
        labels = np.array(LABELS[lab])
        frames = _data("mix", nb, labels.shape)
        for i in p:
            frames[i] = np.full(labels.shape, np.nan)
        _run_stream(ck, frames, levels, bufs, labels, "one-time-bad", every=True)
    # frames of which only some pixels are bad
    part = [(levels, bufs, lab, px, f) for levels, bufs in ((1, 4), (2, 4), (3, 2)) for lab in ("one", "full", "single")
            for px in list(itertools.combinations(range(6), 1)) + list(itertools.combinations(range(6), 2))
            for f in ((0,), (3,), (4, 7), (9,))]
    for levels, bufs, lab, px, fs in ck.cases("partly-bad-frames", part):
        labels = np.array(LABELS[lab])
        frames = _data("mix", 10, labels.shape)
        for i in fs:
            for x in px:
                frames[i].flat[x] = np.nan
        _run_stream(ck, frames, levels, bufs, labels, "one-time-bad", every=True)
    # long stream with bad frames reaching deep levels
    deep = [(levels, bufs, a, d) for levels, bufs in ((3, 4), (4, 4), (4, 2), (5, 2)) for a in range(0, 24, 1)
            for d in ((0,) if not ck.thorough else (0, 1, 2, 5, 9))]
    for levels, bufs, a, d in ck.cases("bad-frames-deep", deep):
        labels = np.array(LABELS["two"])
        frames = _data("mix", 64, labels.shape)
        for i in {a, (a + d) % 64, (3 * a + 7) % 64}:
            frames[i] = np.full(labels.shape, np.nan)
        _run_stream(ck, frames, levels, bufs, labels, "one-time-bad", every=False)

    # 4. pixels outside every region are irrelevant, whatever they hold; containers and dtypes do not matter
    forms = [(form, dt, out, lab, lv) for form in ("list", "tuple", "gen", "array", "fortran", "strided", "readonly")
             for dt in ("f8", "f4", "i8", "i4", "u2", "u1", "i2")
             for out in (0, 99, "nan") for lab in ("one", "two", "single") for lv in ((2, 4), (1, 6))]
    for form, dt, out, lab, (levels, bufs) in ck.cases("containers", forms):
        if out == "nan" and dt[0] != "f":
            continue
        labels = np.array(LABELS[lab])
        base = _data("big" if dt != "i2" else "mix", 13, labels.shape)
        frames = []
        for f in base:
            f = f.copy()
            f[labels == 0] = np.nan if out == "nan" else out
            frames.append(f.astype(dt))
        src = frames
        if form == "tuple":
            src = tuple(frames)
        elif form == "gen":
            src = (f for f in frames)
        elif form == "array":
            src = np.array(frames)
        elif form == "fortran":
            src = [np.asfortranarray(f) for f in frames]
        elif form == "strided":
            src = [np.repeat(np.repeat(f, 2, 0), 3, 1)[::2, ::3] for f in frames]
        elif form == "readonly":
            src = [f.copy() for f in frames]
            for f in src:
                f.setflags(write=False)
        _run_stream(ck, frames, levels, bufs, labels, "one-time-container", gen_arg=src, every=False)
    # label images of any integer type
    for ldt, lab in ck.cases("label-types", [(d, l) for d in ("i8", "i4", "i2", "u1", "u2", "u4") for l in LABELS]):
        labels = np.array(LABELS[lab]).astype(ldt)
        frames = _data("mix", 17, labels.shape)
        b = freeze(labels)
        _run_stream(ck, frames, 3, 4, labels, "one-time-labels", every=False)
        ck.true(unchanged(b, labels), "label-mutated", "label image modified")

    # 5. batch entry point gives the last streamed result
    for levels, bufs, lab, n in ck.cases("batch", [(lv, b, l, n) for lv, b in ((1, 4), (2, 4), (3, 2), (4, 4))
                                                    for l in LABELS for n in (1, 2, 3, 7, 16, 29)]):
        labels = np.array(LABELS[lab])
        frames = _data("mix", n, labels.shape)
        g, lag = multi_tau_auto_corr(levels, bufs, labels, np.array(frames))
        rg, rl = ref_corr.one_time(frames, levels, bufs, labels)
        ck.step()
        ck.close(g, rg, "batch", "batch g2")
        ck.close(lag, rl, "batch-lags", "batch lags")
        ck.trace()

    # 6. regions do not influence one another
    for lab, keep, n in ck.cases("region-independence", [(l, r, n) for l in ("two", "gaps", "inter", "wide")
                                                          for r in range(3) for n in (9, 20)]):
        labels = np.array(LABELS[lab])
        ids = sorted(set(labels[labels > 0].tolist()))
        if keep >= len(ids):
            continue
        frames = _data("mix", n, labels.shape)
        only = np.where(labels == ids[keep], 1, 0)
        a = multi_tau_auto_corr(3, 4, labels, frames)[0][:, keep]
        b = multi_tau_auto_corr(3, 4, only, frames)[0][:, 0]
        ck.step(2)
        ck.close(a, b, "region-independence", "region alone and together")
        ck.trace()

    # large streams, images, numbers of regions, counts and intensities
    big = [((3, 4), 3, 700, 1.0, 3, 8), ((3, 4), 3, 700, 1.0, 6, 4), ((2, 3), 2, 1100, 1e4, 1, 300), ((30, 40), 300, 20, 1.0, 2, 4),
           ((25, 30), 140, 20, 1.0, 2, 4), ((300, 310), 2, 12, 1.0, 2, 4), ((300, 310), 700, 6, 1.0, 1, 4), ((4, 5), 2, 40, 1e9, 2, 4),
           ((4, 5), 2, 40, 1e-9, 2, 4), ((4, 5), 2, 40, 1e-60, 2, 4), ((4, 5), 3, 40, 1e60, 3, 4),
           ((1, 70000), 3, 6, 1.0, 1, 4), ((70000, 1), 3, 6, 1.0, 1, 4), ((5, 4), 2, 530, 1.0, 9, 2), ((5, 4), 2, 1030, 1.0, 10, 2),
           ((1, 2), 1, 33000, 1.0, 2, 2)] + ([((1, 2), 1, 66000, 1.0, 16, 2)] if ck.thorough else [])
    for (shape, nlab, n, scale, levels, bufs), kind in ck.cases("large", [(b, k) for b in big for k in ("int", "real")]):
        labels, frames = ref_corr.large_case(shape, nlab, n, scale, kind)
        for m, res in enumerate(lazy_one_time(frames, levels, bufs, labels), 1):
            ck.step()
            if m == n or (m in (2, 255, 256, 257, 511, 512, 513, 515) and shape[0] * shape[1] < 100):
                g, lag = ref_corr.one_time_large(frames[:m], levels, bufs, labels)
                ck.close(res.g2, g, "one-time-large", "%s after frame %d" % ((shape, nlab, n, scale, levels, bufs), m), rtol=1e-9)
                ck.close(res.lag_steps, lag, "one-time-large", "lags")
        ck.state("large", shape, nlab, n, scale, kind)
        ck.outcome(np.round(g[:3, :3], 9))
        ck.trace()

    # bad frames in long streams, so that they reach every level
    conf = [((3, 4), 3, 150, 5, 8), ((3, 4), 2, 120, 6, 4), ((2, 5), 2, 200, 4, 12), ((2, 3), 1, 130, 7, 2), ((4, 5), 12, 90, 4, 6)]
    spots = [(0,), (1,), (2, 3), (17,), (31, 32), (5, 50, 51), (64,), (40, 41, 42, 43, 44, 45, 46, 47), tuple(range(0, 90, 9)), (88, 89)]
    for (shape, nlab, n, levels, bufs), bad, whole in ck.cases("bad frames/large", [(c, b, w) for c in conf for b in spots for w in (0, 1)]):
        labels, frames = ref_corr.large_case(shape, nlab, n, 1.0)
        pos = np.argwhere(labels > 0)
        for i, f in enumerate(bad):
            if whole:
                frames[f] = np.full(shape, np.nan)
            else:
                frames[f] = frames[f].copy()
                frames[f][tuple(pos[(7 * i + f) % len(pos)])] = np.nan
        for m, res in enumerate(lazy_one_time(frames, levels, bufs, labels), 1):
            ck.step()
            if m == n or m % 16 == 0:
                g, lag = ref_corr.one_time_large(frames[:m], levels, bufs, labels)
                ck.close(res.g2, g, "one-time-large", "%s bad %s after frame %d" % ((shape, nlab, levels, bufs), bad, m), rtol=1e-9)
                ck.close(res.lag_steps, lag, "one-time-large", "lags")
        ck.state("bad-large", shape, n, bad, whole)
        ck.trace()

    # 7. the lag table, and the parameter checks
    for levels, bufs in ck.cases("lag-table", [(a, b) for a in range(1, 9) for b in range(1, 17)]):
        if bufs % 2:
            ck.raises(lambda: multi_tau_lags(levels, bufs), ValueError, "odd-buffers")
            ck.raises(lambda: multi_tau_auto_corr(levels, bufs, np.ones((1, 2), int), [np.ones((1, 2))] * 3), ValueError,
                      "odd-buffers")
            continue
        tot, steps, d = multi_tau_lags(levels, bufs)
        ref = ref_corr.lags(levels, bufs)
        ck.step()
        ck.state("lags", levels, bufs)
        ck.equal(int(tot), (levels + 1) * bufs // 2, "lag-total")
        ck.close(steps, [x for r in ref for x in r], "lag-table")
        ck.equal(sorted(d), list(range(1, levels + 1)), "lag-dict")
        for i, r in enumerate(ref):
            ck.close(d[i + 1], r, "lag-dict", "level %d" % (i + 1))
        ck.trace()
    for beta, rate, base in ck.cases("model-curve", itertools.product((0.1, 0.5, 1.0), (0.0, 0.3, 2.0), (None, 1, 1.25))):
        lg = np.array([0, 1, 2, 5, 8.5])
        kw = {} if base is None else {"baseline": base}
        got = auto_corr_scat_factor(lg, beta, rate, **kw)
        ck.step()
        ck.close(got, [beta * np.exp(-2.0 * rate * t) + (1 if base is None else base) for t in lg], "model-curve")
        ck.trace()
