"""Interrupting, resuming, observing or interleaving correlation streams never changes a result."""
import itertools

import numpy as np

from vc import ref_corr
from checks.c01 import LABELS, _data


class Counting:
    """frame source that records how many frames were taken"""

    def __init__(self, frames):
        self.frames = list(frames)
        self.taken = 0

    def __iter__(self):
        for f in self.frames:
            self.taken += 1
            yield f


def _one(frames, levels, bufs, labels, state=None):
    from skbeam.core.correlation import lazy_one_time

    return lazy_one_time(frames, levels, bufs, labels, internal_state=state)


def _two(frames, levels, bufs, labels, nf, state=None):
    from skbeam.core.correlation import lazy_two_time

    return lazy_two_time(labels, frames, nf, bufs, levels, two_time_internal_state=state)


def _cuts(n, k):
    return itertools.combinations_with_replacement(range(0, n + 1), k)


def _segments(frames, cuts):
    cuts = [0] + list(cuts) + [len(frames)]
    return [frames[a:b] for a, b in zip(cuts, cuts[1:])]


def run(ck):
    from skbeam.core.correlation import multi_tau_auto_corr, two_time_corr, two_time_state_to_results

    configs = [(1, 2), (1, 4), (2, 2), (2, 4), (3, 2), (3, 4), (4, 2), (2, 6)]
    n = 15 if not ck.thorough else 22
    cases = []
    for levels, bufs in configs:
        for bad in ((), (4,), (0, 5, 6)):
            for k in (1, 2) if not ck.thorough else (1, 2, 3):
                if k == 3 and bad:
                    continue
                for cuts in _cuts(n, k):
                    cases.append((levels, bufs, bad, cuts))
    full = {}
    # 1. one-time: every way to cut the stream into 2 or 3 (possibly empty) pieces
    for levels, bufs, bad, cuts in ck.cases("one-time-cuts", cases):
        labels = np.array(LABELS["gaps"])
        frames = _data("mix", n, labels.shape)
        for b in bad:
            frames[b] = np.full(labels.shape, np.nan)
        key = (levels, bufs, bad)
        if key not in full:
            full[key] = [(r.g2.copy(), r.lag_steps.copy()) for r in _one(frames, levels, bufs, labels)]
            ck.step(n)
            g, lag = ref_corr.one_time(frames, levels, bufs, labels)
            ck.close(full[key][-1][0], g, "uninterrupted")
        state = None
        i = 0
        for seg in _segments(frames, cuts):
            for res in _one(seg, levels, bufs, labels, state):
                ck.close(res.g2, full[key][i][0], "resume-one-time", "g2 after frame %d, cuts %s" % (i + 1, cuts))
                ck.close(res.lag_steps, full[key][i][1], "resume-one-time", "lags after frame %d" % (i + 1))
                i += 1
                ck.step()
                state = res.internal_state
        ck.equal(i, n, "resume-count")
        ck.state("one", key, cuts)
        ck.trace()

    # 2. one-time: generator abandoned after k results (frames read one at a time), rest given to a new stream
    for levels, bufs, k in ck.cases("one-time-abandon", [(lv, b, k) for lv, b in configs for k in range(1, n)]):
        labels = np.array(LABELS["two"])
        frames = _data("mix", n, labels.shape)
        src = Counting(frames)
        it = iter(src)
        gen = _one(it, levels, bufs, labels)
        snaps = []
        for j in range(k):
            res = next(gen)
            ck.step()
            ck.equal(src.taken, j + 1, "read-ahead", "frames consumed after %d results" % (j + 1))
            snaps.append((res.g2, res.g2.copy(), res.lag_steps, np.array(res.lag_steps)))
        gen.close()
        for j, res in enumerate(_one(it, levels, bufs, labels, res.internal_state), k):
            ck.step()
            snaps.append((res.g2, res.g2.copy(), res.lag_steps, np.array(res.lag_steps)))
        ck.equal(len(snaps), n, "abandon-count")
        for j, (g, gc, l, lc) in enumerate(snaps):
            rg, rl = ref_corr.one_time(frames[: j + 1], levels, bufs, labels)
            ck.close(gc, rg, "abandon-resume", "result %d, abandoned after %d" % (j + 1, k))
            ck.close(g, gc, "result-changed-later", "result %d changed after it was handed out" % (j + 1))
            ck.close(l, lc, "result-changed-later", "lags %d changed after they were handed out" % (j + 1))
        ck.state("abandon", levels, bufs, k)
        ck.trace()

    # 3. two-time: cuts and every choice of intermediate observations
    n2 = 10 if not ck.thorough else 13
    two_cases = [(lv, b, cuts) for lv, b in configs for k in (1, 2) for cuts in _cuts(n2, k)]
    for levels, bufs, cuts in ck.cases("two-time-cuts", two_cases):
        labels = np.array(LABELS["gaps"])
        frames = _data("mix", n2, labels.shape)
        want = ref_corr.two_time(frames, levels, bufs, labels, n2)
        state = None
        cnt = 0
        for seg in _segments(frames, cuts):
            for state in _two(seg, levels, bufs, labels, n2, state):
                cnt += 1
                ck.step()
        ck.equal(cnt, n2, "two-time-count")
        res = two_time_state_to_results(state)
        ck.close(res.g2, want, "resume-two-time", "cuts %s" % (cuts,))
        ck.state("two", levels, bufs, cuts)
        ck.trace()
    obs_n = 7 if not ck.thorough else 9
    for levels, bufs, mask in ck.cases("two-time-observed", [(lv, b, m) for lv, b in ((1, 4), (2, 2), (2, 4), (3, 2))
                                                              for m in range(2 ** obs_n)]):
        labels = np.array(LABELS["two"])
        frames = _data("mix", obs_n, labels.shape)
        i = 0
        for state in _two(frames, levels, bufs, labels, obs_n):
            ck.step()
            if mask >> i & 1:
                r = two_time_state_to_results(state)
                want = ref_corr.two_time(frames[: i + 1], levels, bufs, labels, obs_n)
                ck.close(r.g2, want, "two-time-observe", "observed after frame %d of mask %s" % (i + 1, bin(mask)))
                ck.step()
            i += 1
        r = two_time_state_to_results(state)
        ck.close(r.g2, ref_corr.two_time(frames, levels, bufs, labels, obs_n), "two-time-observe",
                 "final result after observing %s" % bin(mask))
        ck.state("obs", levels, bufs, mask)
        ck.trace()

    # 4. two streams advanced in every interleaving
    per = 5 if not ck.thorough else 7
    scheds = list(itertools.combinations(range(2 * per), per))
    kinds = list(itertools.product((("one", 2, 2), ("one", 3, 2), ("one", 1, 4), ("two", 2, 2), ("two", 1, 4)), repeat=2))
    for a, b, s in ck.cases("interleavings", [(a, b, s) for a, b in kinds for s in scheds]):
        labels = np.array(LABELS["two"])
        base = _data("mix", per + 3, labels.shape)
        fa, fb = base[:per], base[3:3 + per]

        def mk(spec, fr):
            if spec[0] == "one":
                return _one(iter(fr), spec[1], spec[2], labels)
            return _two(iter(fr), spec[1], spec[2], labels, per)

        ga, gb = mk(a, fa), mk(b, fb)
        last = [None, None]
        for t in range(2 * per):
            w = 0 if t in s else 1
            last[w] = next((ga, gb)[w])
            ck.step()
        for spec, fr, res in ((a, fa, last[0]), (b, fb, last[1])):
            if spec[0] == "one":
                g, lag = ref_corr.one_time(fr, spec[1], spec[2], labels)
                ck.close(res.g2, g, "interleave", "one-time stream %s under schedule %s" % (spec, s))
                ck.close(res.lag_steps, lag, "interleave", "lags")
            else:
                ck.close(two_time_state_to_results(res).g2, ref_corr.two_time(fr, spec[1], spec[2], labels, per),
                         "interleave", "two-time stream %s under schedule %s" % (spec, s))
        ck.state("il", a, b, s)
        ck.trace()

    # 5. streaming, batch and resumed forms agree
    for levels, bufs, lab, m in ck.cases("batch-vs-stream", [(lv, b, l, m) for lv, b in configs for l in LABELS
                                                             for m in (1, 2, 5, 12)]):
        labels = np.array(LABELS[lab])
        frames = _data("mix", m, labels.shape)
        for res in _one(frames, levels, bufs, labels):
            pass
        g, lag = multi_tau_auto_corr(levels, bufs, labels, frames)
        ck.close(g, res.g2, "batch-one")
        ck.close(lag, res.lag_steps, "batch-one")
        for st in _two(frames, levels, bufs, labels, m):
            pass
        r = two_time_corr(labels, frames, m, bufs, levels)
        ck.close(two_time_state_to_results(st).g2, r.g2, "batch-two")
        ck.close(r.lag_steps, ref_corr.flat_lags(levels, bufs), "batch-two")
        ck.step(2 * m + 2)
        ck.state("batch", levels, bufs, lab, m)
        ck.trace()
    long_streams(ck)


def long_streams(ck):
    """streams long enough to wrap every buffer many times, with many regions, cut at and around round numbers"""
    from skbeam.core.correlation import two_time_state_to_results

    confs = [((6, 7), 5, 300, 3, 4), ((9, 8), 40, 140, 5, 2), ((5, 5), 3, 600, 7, 8), ((4, 4), 2, 270, 1, 260)]
    marks = [1, 2, 3, 15, 16, 17, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513]
    todo = []
    for conf in confs:
        m = [k for k in marks if k < conf[2]]
        todo += [(conf, (k,)) for k in m] + [(conf, (a, b)) for a, b in zip(m, m[1:])] + [(conf, tuple(m))]
    for (shape, nlab, n, levels, bufs), cuts in ck.cases("long/one-time", todo, limit=120):
        labels, frames = ref_corr.large_case(shape, nlab, n, 1.0)
        want, lag = ref_corr.one_time_large(frames, levels, bufs, labels)
        state, cnt = None, 0
        for seg in _segments(frames, cuts):
            for res in _one(iter(seg), levels, bufs, labels, state):
                state = res.internal_state
                cnt += 1
            ck.step(len(seg))
        ck.equal(cnt, n, "long/count")
        ck.close(res.g2, want, "long/one-time", "%d frames, %d levels of %d, cuts %s" % (n, levels, bufs, cuts), rtol=1e-8)
        ck.close(res.lag_steps, lag, "long/one-time", "lags")
        ck.state("long-one", shape, n, cuts)
        ck.trace()
    confs = [((4, 5), 3, 130, 3, 4), ((6, 6), 12, 70, 4, 6), ((3, 4), 2, 140, 2, 70), ((3, 3), 2, 300, 5, 4), ((2, 3), 1, 530, 3, 6)]
    todo = []
    for conf in confs:
        m = [k for k in marks if k < conf[2]]
        todo += [(conf, (k,)) for k in m] + [(conf, tuple(m))]
    for (shape, nlab, n, levels, bufs), cuts in ck.cases("long/two-time", todo, limit=120):
        labels, frames = ref_corr.large_case(shape, nlab, n, 1.0)
        state, cnt = None, 0
        for seg in _segments(frames, cuts):
            for state in _two(iter(seg), levels, bufs, labels, n, state):
                cnt += 1
            if seg and state is not None:
                two_time_state_to_results(state)
            ck.step(len(seg))
        ck.equal(cnt, n, "long/count")
        ck.close(two_time_state_to_results(state).g2, ref_corr.two_time_large(frames, levels, bufs, labels, n), "long/two-time",
                 "%d frames, %d levels of %d, cuts %s" % (n, levels, bufs, cuts), rtol=1e-8)
        ck.state("long-two", shape, n, cuts)
        ck.trace()
