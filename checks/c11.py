"""C11 - masks and bad frames: exactly the offending pixels and frames are excluded."""
import itertools
import math
import warnings

import numpy as np

from vc.harness import fmean, freeze, unchanged


def run(ck):
    from skbeam.core import mask
    bad_frames(ck, mask)
    threshold(ck, mask)
    margin(ck, mask)
    outlier(ck, mask)


def bad_frames(ck, mask):
    def lists():
        for n in range(0, 6):
            for k in range(n + 1):
                for b in itertools.combinations(range(n + 2), k):
                    yield n, b
    for n, bad in ck.cases("bad frames", lists()):
        for form in ("list", "array", "gen", "tuple"):
            for dt in (int, float, np.uint8):
                fr = [(np.arange(6).reshape(2, 3) + 10 * f).astype(dt) for f in range(n)]
                keep = freeze(*fr)
                if form == "array":
                    src = np.array(fr) if n else np.zeros((0, 2, 3))
                elif form == "gen":
                    src = (x for x in fr)
                else:
                    src = fr
                for b in (list(bad), set(bad), np.array(bad, int), tuple(reversed(bad))):
                    if form == "gen":
                        src = (x for x in fr)
                    got = []
                    for k, im in enumerate(mask.bad_to_nan_gen(src, b)):
                        if k in bad:
                            ck.true(np.shape(im) == (2, 3) and bool(np.all(np.isnan(im))), "bad frame", "frame %d of %d, bad=%s" % (k, n, bad))
                        else:
                            ck.close(im, keep[k], "good frame", "frame %d of %d, bad=%s" % (k, n, bad))
                        got.append(im)
                        ck.step()
                    ck.equal(len(got), n, "frame count", "bad=%s" % (bad,))
                    # still right after the whole stream was consumed
                    for k, im in enumerate(got):
                        if k in bad:
                            ck.true(bool(np.all(np.isnan(im))), "bad frame/later", "frame %d changed" % k)
                        else:
                            ck.close(im, keep[k], "good frame/later", "frame %d changed" % k)
                ck.true(unchanged(keep, *fr), "bad frames/inputs", "frames modified")
                ck.trace()
        ck.state("bad", n, bad)
    # long streams, large frames, bad frames anywhere in them
    for n, shape, how in ck.cases("bad frames/large", itertools.chain(itertools.product((300, 1000), ((2, 3), (40, 60)), ("first", "last", "late", "many", "all", "dup")),
                                                                  itertools.product((5000, 66000), ((1, 1),), ("first", "last", "late", "many")))):
        bad = {"first": [0], "last": [n - 1], "late": [255, 256, 257, n - 2], "many": list(range(1, n, 3)), "all": list(range(n)),
               "dup": [5, 5, 260, 260, n + 4]}[how]
        bs = set(bad)
        src = [np.full(shape, f % 251, dtype="u1") for f in range(n)]
        taken = [0]

        def feed():
            for x in src:
                taken[0] += 1
                yield x
        k = -1
        for k, im in enumerate(mask.bad_to_nan_gen(feed(), bad)):
            ck.equal(taken[0], k + 1, "bad frames/lazy", "frames read")
            if k in bs:
                ck.true(np.shape(im) == shape and bool(np.all(np.isnan(im))), "bad frame", "frame %d of %d" % (k, n))
            else:
                ck.true(np.array_equal(im, src[k]) and int(im[0, 0]) == k % 251, "good frame", "frame %d of %d" % (k, n))
        ck.equal(k + 1, n, "frame count", how)
        ck.step(n)
        ck.state("large", n, shape, how)
        ck.trace()
    # laziness: one frame is read per frame delivered, streams can be interleaved
    for sched in ck.cases("interleaved streams", itertools.product((0, 1), repeat=6)):
        srcs = [[np.full((2, 2), 10 * s + k) for k in range(6)] for s in range(2)]
        gens = [mask.bad_to_nan_gen(iter(srcs[0]), [1, 2]), mask.bad_to_nan_gen(iter(srcs[1]), [0, 2, 4])]
        pos = [0, 0]
        for s in sched:
            im = next(gens[s])
            k = pos[s]
            pos[s] += 1
            if k in ([1, 2], [0, 2, 4])[s]:
                ck.true(bool(np.all(np.isnan(im))), "interleaved", "stream %d frame %d" % (s, k))
            else:
                ck.close(im, srcs[s][k], "interleaved", "stream %d frame %d" % (s, k))
            ck.step()
        ck.state("inter", sched)


def threshold(ck, mask):
    vals = (1, 5, 9)
    L = 3
    for seq in ck.cases("threshold", itertools.product(itertools.product(vals, repeat=3), repeat=L)):
        for t in (3, 5, 7):
            frames = [np.array(s, float).reshape(1, 3) for s in seq]
            for start in (None, [1, 1, 1], [0, 1, 1], [1, 0, 0]):
                m0 = None if start is None else np.array(start).reshape(1, 3)
                fr = freeze(m0, *frames)
                want = [1, 1, 1] if start is None else list(start)
                it = mask.threshold(frames, t) if m0 is None else mask.threshold(iter(frames), t, m0)
                k = 0
                for m in it:
                    want = [w if seq[k][p] < t else 0 for p, w in enumerate(want)]
                    ck.equal([int(x) for x in np.ravel(m)], want, "threshold", "threshold %s frames %s after %d" % (t, seq, k + 1))
                    k += 1
                    ck.step()
                ck.equal(k, L, "threshold/count", "masks yielded")
                ck.true(unchanged(fr, m0, *frames), "threshold/inputs", "an input was modified")
        ck.state("thr", seq)


    for seq in ck.cases("threshold below zero", itertools.product(itertools.product((-9, -5, 3), repeat=2), repeat=3)):
        for t in (-7, -5, -1, 0):
            for dt in (float, int, np.int16):
                frames = [np.array(s, dt).reshape(2, 1) for s in seq]
                for start in (None, [1, 1], [0, 1], [1, 0], [0, 0]):
                    m0 = None if start is None else np.array(start).reshape(2, 1)
                    want = [1, 1] if start is None else list(start)
                    k = 0
                    for m in mask.threshold(frames, t) if m0 is None else mask.threshold(frames, t, m0):
                        want = [w if seq[k][p] < t else 0 for p, w in enumerate(want)]
                        ck.equal([int(x) for x in np.ravel(m)], want, "threshold", "threshold %s start %s frames %s after %d" % (t, start, seq, k + 1))
                        k += 1
                        ck.step()
        ck.state("thr-", seq)

    # pixel types, mask types, large frames, NaN pixels, thresholds between and beyond the values
    def typed():
        for dt in ("u1", "i2", "u2", "i4", "i8", "f4", "f8"):
            for t in (0, 1, 100, 100.5, 254, 255, 256, -3):
                for m in (None, "bool", "u1", "i8", "f8"):
                    for big in (0, 1):
                        yield dt, t, m, big
    for dt, t, mt, big in ck.cases("threshold/types", typed()):
        shape = (300, 240) if big else (4, 5)
        n = shape[0] * shape[1]
        k = np.arange(n, dtype=np.int64)
        frames = [((k * (7 + f) + f * 31) % 256).reshape(shape).astype(dt) for f in range(4)]
        frames[2] = (frames[2] // 2).astype(dt)
        if dt[0] == "f":
            frames[1].flat[3] = np.nan
        m0 = None if mt is None else (k % 7 != 2).reshape(shape).astype(mt if mt != "bool" else bool)
        fr = freeze(m0, *frames)
        want = np.ones(shape, bool) if m0 is None else m0.astype(bool)
        with np.errstate(invalid="ignore"):
            for j, m in enumerate(mask.threshold(frames, t) if m0 is None else mask.threshold(frames, t, m0)):
                want = want & ~(frames[j].astype(float) >= t)
                ck.true(np.array_equal(np.asarray(m) != 0, want), "threshold/types", "%s threshold %s mask %s after frame %d" % (dt, t, mt, j + 1))
                ck.true(bool(np.all((np.asarray(m) == 0) | (np.asarray(m) == 1))), "threshold/types", "mask values")
                ck.step()
        ck.true(unchanged(fr, m0, *frames), "threshold/inputs", "an input was modified")
        ck.state("typed", dt, t, mt, big)
        ck.trace()


def margin(ck, mask):
    wide = [((300, 310), 0), ((300, 310), 1), ((300, 310), 130), ((300, 310), 150), ((31, 700), 15), ((31, 700), 16), ((700, 31), 15)]
    for shape, e in ck.cases("margin", itertools.chain(itertools.product(itertools.product(range(1, 8), repeat=2), range(0, 6)), wide)):
        got = mask.margin(shape, e)
        want = np.array([[e <= i < shape[0] - e and e <= j < shape[1] - e for j in range(shape[1])] for i in range(shape[0])])
        ck.close(got, want, "margin", "margin(%s, %d)" % (shape, e))
        ck.true(np.asarray(got).dtype == bool, "margin/type", "dtype")
        ck.step()
        ck.state("margin", shape, e)


def outlier(ck, mask):
    bins = [0., 1., 2., 4.]
    rows = list(itertools.product((0., 0.5, 1.0, 1.5, 2.0, 3.0), repeat=2))
    base = [0.25, 0.5, 0.75, 1.25, 1.5, 1.75, 2.5, 3.0, 3.5, 0.1, 1.1, 2.1]
    inten = [10., 11., 9., 20., 22., 18., 5., 5.5, 4.5, 10.5, 19., 5.25]
    extra = (0., 10., 20., 100.)
    alphas = [1.2, 2.0, (1.0, 3.0), (3.0, 0.5), np.array([0.9, 1.6, 2.2])]
    starts = ["none", "ones", "hole", "flat", "all", "one left"]
    cases = itertools.product(rows, itertools.product(extra, repeat=2), range(5), starts)
    for rr, ii, ai, st in ck.cases("outliers", cases):
        r = np.array(base + list(rr)).reshape(2, 7)
        im = np.array(inten + list(ii)).reshape(2, 7)
        alpha = alphas[ai]
        m0 = {"none": None, "ones": np.ones((2, 7), bool), "hole": (np.arange(14).reshape(2, 7) % 5 != 1),
              "flat": (np.arange(14) % 4 != 2), "all": np.zeros((2, 7), bool), "one left": (np.arange(14) == 4).reshape(2, 7)}[st]
        mm = np.ones((2, 7), bool) if m0 is None else np.asarray(m0).reshape(2, 7)
        al = np.linspace(alpha[0], alpha[1], 3) if isinstance(alpha, tuple) else (np.full(3, alpha) if np.ndim(alpha) == 0 else alpha)
        fr = freeze(r, im, m0, alpha if isinstance(alpha, np.ndarray) else None)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                got = np.asarray(mask.binned_outlier(im, r, alpha, bins, m0))
            except ValueError:
                if st != "all":
                    raise
                continue        # nothing left to judge by: refusing is fine, keeping pixels is not
        ck.true(not np.any(got & ~mm), "outlier/already masked", lambda: "a masked pixel is kept, mask %s" % st)
        ck.true(unchanged(fr, r, im, m0, alpha if isinstance(alpha, np.ndarray) else None), "outlier/inputs", "inputs modified")
        ck.equal(got.shape, (2, 7), "outlier/shape", "shape")
        ck.true(got.dtype == bool, "outlier/type", "type")
        for k in range(3):
            idx = [(i, j) for i in range(2) for j in range(7) if bins[k] <= r[i, j] < bins[k + 1]]
            vs = [float(im[p]) for p in idx if mm[p]]
            if not vs:
                continue
            mu = fmean(vs)
            sd = math.sqrt(fmean((v - mu) ** 2 for v in vs))
            for p in idx:
                d = abs(float(im[p]) - mu)
                if abs(d - al[k] * sd) < 1e-9 * (1 + d):
                    continue
                want = bool(mm[p]) and d < al[k] * sd
                ck.true(bool(got[p]) == want, "outlier",
                        lambda: "pixel %s r=%s value %s kept=%s, expected %s (bin mean %s std %s alpha %s, mask %s)"
                        % (p, r[p], im[p], bool(got[p]), want, mu, sd, al[k], st))
        ck.step()
        ck.trace()
        ck.state("out", rr, ii, ai, st)

    # many bins and pixels, pixel types, few pixels per bin
    big = [((40, 50), 20, "f8"), ((300, 200), 40, "f8"), ((60, 70), 300, "f8"), ((300, 200), 40, "u2"), ((60, 70), 30, "u1"),
           ((60, 70), 30, "f4"), ((60, 70), 30, "i4"), ((60, 70), 30, "f8 offset"), ((60, 70), 30, "i4 offset"), ((1, 4000), 30, "f8"), ((4000, 1), 30, "f8")]
    for (shape, nb, dt), ak, mk in ck.cases("outliers/large", itertools.product(big, ("one", "tuple", "array"), (0, 1, 2))):
        dt, off = dt.split()[0], 1000000000 if "offset" in dt else 0
        n = shape[0] * shape[1]
        k = np.arange(n, dtype=np.int64)
        r = ((k * 17 + k // 13) % nb + 0.25 + (k % 3) * 0.2).reshape(shape)
        im = ((k * 31 + (k * k) % 97) % 61 + 40 + ((k * 17 + k // 13) % nb) % 50).reshape(shape).astype(dt)
        im[(k % 211 == 7).reshape(shape)] = 250
        im[(k % 223 == 9).reshape(shape)] = 1
        im = im + np.array(off, im.dtype)
        edges = np.arange(nb + 1.0)
        alpha = {"one": 1.5, "tuple": (1.0, 3.0), "array": 1.1 + (np.arange(nb) % 5) * 0.3}[ak]
        al = np.full(nb, 1.5) if ak == "one" else (np.linspace(1, 3, nb) if ak == "tuple" else alpha)
        m0 = None if not mk else (k % 5 != 1).reshape(shape)
        if mk == 2:
            m0 = m0.ravel()
        mm = np.ones(shape, bool) if m0 is None else m0.reshape(shape)
        fr = freeze(r, im, m0)
        got = np.asarray(mask.binned_outlier(im, r, alpha, edges if mk else list(edges), m0))
        ck.step()
        want = np.zeros(shape, bool)
        soft = np.zeros(shape, bool)
        f = im.astype(float)
        for b in range(nb):
            own = (r >= b) & (r < b + 1)
            v = f[own & mm]
            if not len(v):
                soft |= own
                continue
            d, lim = np.abs(f - v.mean()), al[b] * v.std()
            want |= own & mm & (d < lim)
            soft |= own & (np.abs(d - lim) < 1e-9 * (1 + d) * (1e4 if off else 1 if dt != "f4" else 1e5))
        ck.true(np.array_equal(got | soft, want | soft), "outlier/large", "%s %d bins %s alpha %s mask %d: %d pixels differ"
                % (shape, nb, dt, ak, mk, int(np.sum((got != want) & ~soft))))
        ck.true(unchanged(fr, r, im, m0), "outlier/inputs", "inputs modified")
        ck.state("large", shape, nb, dt, off, ak, mk)
        ck.trace()
