"""C07 - gridding onto voxels: conservation, and independence of the thread schedule."""
import ctypes
import itertools
import math
from fractions import Fraction as F

import numpy as np

from vc import repo, sched
from vc.harness import freeze, unchanged

NAN = float("nan")
INF = float("inf")


def axis_bins(q, lo, hi, n):
    """acceptable bin indices (None = outside) of one coordinate, rule lo <= q < hi"""
    q, lo, hi = F(float(q)), F(float(lo)), F(float(hi))
    ln = hi - lo
    t = (q - lo) / ln * n
    exact = ln.numerator & (ln.numerator - 1) == 0 and (ln.denominator & (ln.denominator - 1)) == 0 \
        and (q - lo).numerator < 2 ** 40 and (q - lo).denominator < 2 ** 10 and ln.denominator < 2 ** 10
    k = math.floor(t)
    res = {k if 0 <= k < n else None}
    if not exact:
        r = round(t)
        if abs(t - r) < F(1, 10 ** 9):
            for c in (r - 1, r):
                if q < lo:
                    continue
                if q >= hi and c != n:
                    continue
                res.add(c if 0 <= c < n else None)
    return res


def reference(q, inten, lo, hi, ns):
    """list of (acceptable voxels, intensity) of the points that count"""
    pts = []
    for p, v in zip(q, inten):
        if v != v:
            continue
        per = [axis_bins(p[a], lo[a], hi[a], ns[a]) for a in range(3)]
        opts = set()
        for c in itertools.product(*per):
            opts.add(None if None in c else c)
        pts.append((opts, v))
    return pts


def decide(ck, out, q, inten, lo, hi, ns, key, label):
    mean, occ, err, bounds = out
    ns = tuple(int(n) for n in ns)
    mean, occ, err = np.asarray(mean), np.asarray(occ), np.asarray(err)
    ck.true(mean.shape == occ.shape == err.shape == ns, key + "/shape",
            "%s: shapes %s %s %s for a %s grid" % (label, mean.shape, occ.shape, err.shape, ns))
    b = np.asarray(bounds, float)
    ck.close(b, np.array([lo, hi, ns], float).T, key + "/bounds", label + " bounds", rtol=1e-12)
    pts = reference(q, inten, lo, hi, ns)
    amb = [p for p in pts if len(p[0]) > 1]
    fixed = {}
    for o, v in pts:
        if len(o) == 1:
            c = next(iter(o))
            if c is not None:
                fixed.setdefault(c, []).append(v)
    choices = itertools.product(*[sorted(p[0], key=repr) for p in amb])
    last = None
    for ch in itertools.islice(choices, 4096):
        cells = {k: list(v) for k, v in fixed.items()}
        for (o, v), c in zip(amb, ch):
            if c is not None:
                cells.setdefault(c, []).append(v)
        last = match(mean, occ, err, cells, ns)
        if last is None:
            return
    ck.fail(key + "/content", "%s: %s\npoints %s intensities %s bounds %s %s n %s" % (
        label, last, np.asarray(q).tolist(), list(inten), list(lo), list(hi), ns))


def match(mean, occ, err, cells, ns):
    if int(np.sum(occ)) != sum(len(v) for v in cells.values()):
        return "%s points counted, expected %s" % (int(np.sum(occ)), sum(len(v) for v in cells.values()))
    small = mean.size <= 4096
    it = itertools.product(*[range(n) for n in ns]) if small else list(cells)
    for c in it:
        v = cells.get(c, [])
        n = len(v)
        if int(occ[c]) != n:
            return "voxel %s holds %d points, expected %d" % (c, int(occ[c]), n)
        if n == 0:
            if mean[c] == mean[c]:
                return "empty voxel %s has mean %r" % (c, mean[c])
            if err[c] != 0:
                return "empty voxel %s has error %r" % (c, err[c])
            continue
        m = math.fsum(v) / n
        scale = max(1.0, max(abs(x) for x in v))
        if not abs(mean[c] - m) <= 1e-9 * scale:
            return "voxel %s mean %r, expected %r" % (c, mean[c], m)
        var = math.fsum((x - m) ** 2 for x in v) / n
        if not abs(err[c] ** 2 * n - var) <= 1e-10 * scale ** 2:
            return "voxel %s standard error %r, expected %r" % (c, err[c], math.sqrt(var / n))
    return None


UNIT = dict(xmin=0.0, ymin=0.0, zmin=0.0, xmax=1.0, ymax=1.0, zmax=1.0)


def schedule_drivers():
    P = np.array
    one = P([[.1, .1, .1], [.6, .1, .1], [.6, .1, .1]])
    same = P([[.3, .3, .3]] * 4)
    out = P([[.1, .1, .1], [1.5, .1, .1], [.6, .7, .1], [.1, .7, .1]])
    return [
        ("two voxels", one, P([1., 2., 4.]), (2, 1, 1)),
        ("collision", same, P([1., 2., 4., 8.]), (1, 1, 1)),
        ("outside and four voxels", out, P([1., 2., 4., 8.]), (2, 2, 1)),
        ("nan", one, P([1., NAN, 4.]), (1, 1, 2)),
        ("fewer points than threads", one[:1], P([3.]), (2, 1, 1)),
        ("no point inside", out[1:2], P([3.]), (1, 1, 1)),
    ]


def run(ck):
    try:
        S = sched.Sched()
    except sched.Unsupported as e:
        S = None
        ck.exhaustive = False
        ck.note("controlled schedules skipped: the kernel uses an OpenMP construct the runtime lacks: %s" % e)
    if S is not None:
        schedules(ck, S)
        S.config(2)
        from skbeam.core import utils
        inputs(ck, utils, S)
    repo.use("serial")
    from skbeam.core import utils
    configurations(ck, utils, [("no OpenMP", lambda: None)])
    repo.use("omp")
    from skbeam.core import utils
    import skbeam.ext.ctrans  # noqa: F401  loads libgomp
    g = ctypes.CDLL("libgomp.so.1")
    configurations(ck, utils, [("%d threads" % n, lambda n=n: g.omp_set_num_threads(n)) for n in (1, 2, 3, 4, 7, 16, 65, 130)])
    if S is None:
        inputs(ck, utils, None)
    ck.note("interleavings: sequentially consistent, at the granularity of single memory accesses of the compiled kernel")


def schedules(ck, S):
    from skbeam.core import utils
    drivers = schedule_drivers()
    plan = [(d, nt, b) for d in drivers for nt, b in ((2, 2), (3, 1))]
    if ck.thorough:
        plan = [(d, nt, b) for d in drivers for nt, b in ((2, 3), (3, 2), (4, 1))]
    else:
        plan += [(drivers[4], 3, 2)]
    total = [0]
    PARTS = 16
    for (d, nt, bound), part in ck.cases("schedules", itertools.product(plan, range(PARTS)), limit=3000):
        name, q, inten, ns = d
        lo, hi = (0., 0., 0.), (1., 1., 1.)
        kw = dict(UNIT, nx=ns[0], ny=ns[1], nz=ns[2])
        frozen = freeze(q, inten)

        def call():
            return utils.grid3d(q, inten, **kw)

        def visit(x, devs):
            ck.step(max(1, x["steps"]))
            label = "%s, %d threads, schedule %s" % (name, nt, list(devs))
            ck.true(x["status"] in (0,), "schedule/runtime", "%s: %s (%s)" % (label, x["why"], x["status"]))
            ck.true(x["result"][0] == "ok", "schedule/error", "%s: %s" % (label, x["result"]))
            ck.true(x["live"] == 0, "schedule/leak", "%s: %d buffers leaked" % (label, x["live"]))
            dig = tuple(np.asarray(a).tobytes() for a in x["result"][1])
            if dig not in seen:
                seen[dig] = devs
                decide(ck, x["result"][1], q, inten, lo, hi, ns, "schedule", label)
                ck.outcome(name, nt, dig)
            total[0] += 1

        seen = {}
        a = S.run(call, nt)
        b = S.run(call, nt)
        ck.true(a["choice"] == b["choice"] and a["steps"] == b["steps"], "harness/determinism", "replay diverged")
        n = sched.explore(S, call, nt, bound, visit, part=(part, PARTS))
        ck.state(name, nt, bound, part, n)
        ck.trace(n)
        ck.true(unchanged(frozen, q, inten), "schedule/inputs", "inputs changed")
    ck.extra = {"schedules": total[0]}

    # large teams: every preemption before an access to memory that two members share
    for nt in ck.cases("large teams with at most one deviation", range(4, 17), limit=600):
        q = np.full((nt * 2, 3), 0.5)
        inten = np.arange(1., nt * 2 + 1)
        kw = dict(UNIT, nx=1, ny=1, nz=1)

        def call():
            return utils.grid3d(q, inten, **kw)

        def visit(x, devs):
            ck.step(max(1, x["steps"]))
            label = "one voxel, %d threads, schedule %s" % (nt, list(devs))
            ck.true(x["status"] == 0, "schedule/runtime", "%s: %s (%s)" % (label, x["why"], x["status"]))
            ck.true(x["result"][0] == "ok", "schedule/error", "%s: %s" % (label, x["result"]))
            decide(ck, x["result"][1], q, inten, (0., 0., 0.), (1., 1., 1.), (1, 1, 1), "schedule", label)

        n = sched.explore(S, call, nt, 1, visit, conflicts=True)
        ck.trace(n)
        ck.state("large", nt, n)

    # every single failing allocation, under every schedule with <= 1 preemption
    def faults():
        for d in drivers[:3] + drivers[4:5]:
            for nt in (1, 2, 3):
                for k in range(1, 3 * nt + 3):
                    yield d, nt, k
    for d, nt, k in ck.cases("allocation faults", faults(), limit=600):
        name, q, inten, ns = d
        kw = dict(UNIT, nx=ns[0], ny=ns[1], nz=ns[2])

        def call():
            return utils.grid3d(q, inten, **kw)

        def visit(x, devs):
            ck.step(max(1, x["steps"]))
            label = "%s, %d threads, allocation %d fails, schedule %s" % (name, nt, k, list(devs))
            ck.true(x["status"] == 0, "fault/runtime", "%s: %s (%s)" % (label, x["why"], x["status"]))
            ck.true(x["live"] == 0, "fault/leak", "%s: %d buffers leaked" % (label, x["live"]))
            if x["result"][0] == "ok":
                decide(ck, x["result"][1], q, inten, (0., 0., 0.), (1., 1., 1.), ns, "fault", label)
            ck.outcome(name, nt, x["result"][0])

        n = sched.explore(S, call, nt, 1 if nt < 3 or ck.thorough else 0, visit, fail_at=k)
        ck.trace(n)
        ck.state("fault", name, nt, k, n)


def call_and_decide(ck, utils, q, img, ns, lo, hi, mask, key, label, given=True):
    """lo/hi None: defaults"""
    kw = dict(nx=ns[0], ny=ns[1], nz=ns[2])
    q = np.asarray(q)
    if lo is not None:
        kw.update(xmin=lo[0], ymin=lo[1], zmin=lo[2])
    if hi is not None:
        kw.update(xmax=hi[0], ymax=hi[1], zmax=hi[2])
    if mask is not None:
        kw["binary_mask"] = mask
    fr = freeze(q, img, mask)
    out = utils.grid3d(q, img, **kw)
    ck.step()
    ck.trace()
    ck.true(unchanged(fr, q, img, mask), key + "/inputs", label + ": an input array was modified")
    img_a = np.asarray(img)
    flat = img_a.astype(float).ravel()
    q2 = np.atleast_2d(q).astype(float)
    if mask is not None:
        m = np.asarray(mask).astype(bool)
        m = np.broadcast_to(m, img_a.shape).ravel()
        keep = m
    else:
        keep = np.ones(flat.shape, bool)
    qlo = q2.min(axis=0) if lo is None else np.asarray(lo, float)
    b = np.asarray(out[3], float)
    if hi is None:
        qhi = b[:, 1]
        top = q2.max(axis=0)
        ck.true(bool(np.all(qhi >= top)) and bool(np.all(qhi <= top + 1e-12 * (1 + np.abs(top) + np.abs(qlo)))),
                key + "/default bounds", "%s: upper bounds %s for coordinates up to %s" % (label, qhi, top))
    else:
        qhi = np.asarray(hi, float)
    if hi is None and lo is None:
        n = int(np.sum(keep & ~np.isnan(flat)))
        ck.true(int(np.sum(out[1])) == n, key + "/conservation",
                "%s: %d points counted with default bounds, %d given\nq=%s" % (label, int(np.sum(out[1])), n, q.tolist()))
    decide(ck, out, q2[keep], flat[keep], qlo, qhi, ns, key, label)
    ck.state(label, q, img_a, mask, ns, lo, hi)


def inputs(ck, utils, S):
    # 1. one point: every coordinate triple of the alphabet on asymmetric grids
    A = [-0.5, 0.0, 0.25, 0.49999999999999994, 0.5, 0.75, 0.9999999999999999, 1.0, 1.25]
    grids = [(1, 1, 1), (2, 3, 4), (4, 1, 2), (3, 5, 1)]
    for ns, pt in ck.cases("one point", itertools.product(grids, itertools.product(A, repeat=3))):
        call_and_decide(ck, utils, [pt], np.array([2.5]), ns, (0., 0., 0.), (1., 1., 1.), None, "point", "one point")
    # 2. shifted and scaled boxes, each axis its own
    boxes = [((-1., 0., 2.), (1., 4., 3.)), ((-3., -2., -1.), (-1., -1., 0.)), ((0.1, 0.2, 0.3), (0.7, 0.5, 1.3)),
             ((1e3, -1e3, 0.), (1e3 + 1, 1e3, 1e-3))]
    fr = [-0.25, 0.0, 0.125, 0.5, 0.875, 1.0]
    for (lo, hi), ns, f in ck.cases("boxes", itertools.product(boxes, grids[1:], itertools.product(fr, repeat=3))):
        pt = [lo[a] + f[a] * (hi[a] - lo[a]) for a in range(3)]
        call_and_decide(ck, utils, [pt, pt], np.array([1., 4.]), ns, lo, hi, None, "box", "box")
    # 3. multisets of points and intensities
    V = [(.1, .1, .1), (.6, .1, .1), (.6, .7, .1), (1.5, .5, .5)]
    I = [0.0, 1.0, -3.0, 0.1, NAN]
    depth = 4 if ck.thorough else 3
    alpha = list(itertools.product(range(4), range(5)))

    def seqs():
        for n in range(1, depth + 1):
            yield from itertools.product(alpha, repeat=n)
    for s in ck.cases("sequences", seqs()):
        q = np.array([V[a] for a, _ in s])
        img = np.array([I[b] for _, b in s])
        call_and_decide(ck, utils, q, img, (2, 2, 1), (0., 0., 0.), (1., 1., 1.), None, "sequence", "sequence")
        if S is not None and S.lib.vc_live():
            ck.fail("sequence/leak", "buffers leaked")
        if S is not None and S.lib.vc_status():
            ck.fail("sequence/memory", S.lib.vc_why().decode())
    # an infinite intensity counts like any other
    for pos, inf, vox in ck.cases("infinite intensities", itertools.product(range(3), (INF, -INF), (0, 1))):
        q = np.array([V[0], V[vox], V[2]])
        img = np.array([1.0, 2.0, 4.0])
        img[pos] = inf
        mean, occ = (np.asarray(v) for v in utils.grid3d(q, img, nx=2, ny=2, nz=1, **UNIT)[:2])
        want = {}
        for p, v in zip(q, img):
            want.setdefault(tuple(int(2 * c) for c in p[:2]) + (0,), []).append(v)
        for c in itertools.product(range(2), range(2), range(1)):
            v = want.get(c, [])
            ck.equal(int(occ[c]), len(v), "infinite/count", "points in voxel %s of %s" % (c, img))
            if v:
                ck.equal(float(mean[c]), sum(v) / len(v), "infinite/mean", "mean of voxel %s of %s" % (c, img))
        ck.step()
        ck.state("infinite", pos, inf, vox)
    # 4. masks: every mask of a 1x3 image and of a 2-image stack, in every representation
    q6 = np.array([V[k % 3] for k in range(6)])
    img6 = np.array([1., 2., 4., 8., 16., 32.])
    stacks = [((2, 1, 3), 3), ((2, 3, 1), 3), ((2, 1, 3), 6), ((1, 2, 3), 6), ((3, 2, 1), 2)]
    dts = [bool, int, np.uint8, float, "255", "-1"]

    def masks():
        for (shape, nb) in stacks:
            for bits in itertools.product((0, 1), repeat=nb):
                for dt in dts:
                    yield shape, nb, bits, dt
    for shape, nb, bits, dt in ck.cases("masks", masks()):
        if not any(bits):
            continue
        m = np.array(bits, dtype=dt if isinstance(dt, type) else int).reshape(shape if nb == 6 else shape[1:])
        if dt == "255":
            m = (m * 255).astype(np.uint8)
        elif dt == "-1":
            m = m * -1.0
        call_and_decide(ck, utils, q6, img6.reshape(shape), (2, 2, 1), (0., 0., 0.), (1., 1., 1.), m, "mask", "mask")
    for shape in ck.cases("mask shape errors", [(2,), (3, 1), (1, 1, 3), (6,), (3, 2)]):
        ck.raises(lambda: utils.grid3d(q6, img6.reshape(2, 1, 3), nx=2, ny=2, nz=1, binary_mask=np.ones(shape, bool)),
                  ValueError, "mask/shape", "mask of shape %s" % (shape,))
    # 5. default bounds: every pair of corner points, every axis
    C = [-1000.0, -2.0, -1.0, -0.5, 0.0, 1e-300, 0.3, 1.0, 2.0, 3.0, 1e8]
    for a, b, c in ck.cases("default bounds", itertools.product(C, repeat=3)):
        q = np.array([[a, b, c], [b, c, a], [c, a, b], [a, a, a]])
        call_and_decide(ck, utils, q, np.array([1., 2., 4., 8.]), (3, 2, 4), None, None, None, "defaults", "defaults")
    for part in ck.cases("partly given bounds", itertools.product((None, -2.0, 0.5), repeat=6)):
        q = np.array([[0., 1., 2.], [1., 2., 0.], [2., 0., 1.], [.25, .25, .25]])
        kw = dict(zip(("xmin", "ymin", "zmin", "xmax", "ymax", "zmax"), [None if p is None else p + (4 if i > 2 else 0)
                                                                        for i, p in enumerate(part)]))
        out = utils.grid3d(q, np.array([1., 2., 4., 8.]), nx=2, ny=3, nz=4, **kw)
        b = np.asarray(out[3], float)
        want_lo = [0. if kw[k] is None else kw[k] for k in ("xmin", "ymin", "zmin")]
        want_hi = [2. if kw[k] is None else kw[k] for k in ("xmax", "ymax", "zmax")]
        ck.close(b[:, 0], want_lo, "partial/lo", "lower bounds", rtol=1e-12)
        ck.close(b[:, 1], want_hi, "partial/hi", "upper bounds", rtol=1e-12)
        decide(ck, out, q, [1., 2., 4., 8.], b[:, 0], b[:, 1], (2, 3, 4), "partial", "partial")
        ck.step()
        ck.state(part)
    # 6. representations of the same numbers
    base = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 1, 1]]
    reps = [np.array(base, float), np.array(base, int), np.array(base, np.float32), np.array(base, np.int32),
            np.asfortranarray(np.array(base, float)), np.array(base * 2, float)[::2][:0].reshape(0, 3),
            np.repeat(np.array(base, float), 2, axis=0)[::2], [list(map(float, r)) for r in base], base]
    imgs = [np.array([1., 2., 4., 8.]), np.array([1, 2, 4, 8]), np.array([1, 2, 4, 8], np.uint16), [1, 2, 4, 8],
            np.array([[[1., 2.]], [[4., 8.]]]), np.array([0.5, 0.25, 1.5, 16777217.0]),
            np.array([1., 9., 2., 9., 4., 9., 8., 9.])[::2]]
    for r, im in ck.cases("representations", itertools.product([x for x in reps if len(x)], imgs)):
        call_and_decide(ck, utils, r, im, (2, 3, 2), (0., 0., 0.), (3., 3., 3.), None, "dtype", "dtype")
        call_and_decide(ck, utils, r, im, (2, 3, 2), None, None, None, "dtype", "dtype/defaults")
    # 6b. many points and voxels: each axis long on its own, crowded voxels, values far from zero
    big = [((30, 40, 50), 90000), ((2, 3, 20000), 60000), ((20000, 2, 3), 60000), ((2, 20000, 3), 60000), ((1, 1, 1), 140000),
           ((2, 1, 1), 140000), ((300, 301, 7), 50000), ((5, 6, 7), 70001)]
    for (ns, n), off, nan, mk in ck.cases("large", itertools.product(big, (0.0, 1000.0, -4000.0), (0, 1), (0, 1))):
        k = np.arange(n, dtype=np.int64)
        c = np.stack([(k * 7 + k // 11) % (ns[0] + 2) - 1, (k * 5 + k // 7) % (ns[1] + 2) - 1, (k * 3 + k // 5) % (ns[2] + 2) - 1], axis=1)
        q = c + 0.375
        v = (k * 13 + k * k % 1013) % 251 * 0.5 + off
        if nan:
            v = np.where(k % 17 == 3, np.nan, v)
        shape = (1, 1, n)
        mask = (k % 5 != 2).reshape(shape) if mk else None
        img = v.reshape(shape)
        kw = {} if mask is None else {"binary_mask": mask}
        mean, occ, err, b = utils.grid3d(q, img, nx=ns[0], ny=ns[1], nz=ns[2], xmin=0, ymin=0, zmin=0, xmax=ns[0], ymax=ns[1],
                                         zmax=ns[2], **kw)
        ck.step()
        ok = ((c >= 0) & (c < np.array(ns))).all(axis=1) & ~np.isnan(v)
        if mk:
            ok &= mask.ravel()
        ix = np.ravel_multi_index(tuple(c[ok].T), ns)
        cnt = np.bincount(ix, minlength=int(np.prod(ns)))
        s1 = np.bincount(ix, v[ok] - off, minlength=cnt.size)
        m = np.where(cnt > 0, off + s1 / np.maximum(cnt, 1), np.nan)
        var = np.bincount(ix, (v[ok] - m[ix]) ** 2, minlength=cnt.size) / np.maximum(cnt, 1)
        e = np.sqrt(var / np.maximum(cnt, 1))
        what = "%s voxels, %d points, offset %s, nan %d, mask %d" % (ns, n, off, nan, mk)
        ck.true(np.array_equal(np.asarray(occ).ravel(), cnt), "large/count", what)
        ck.close(np.asarray(mean).ravel(), m, "large/mean", what, rtol=1e-9)
        ck.close(np.asarray(err).ravel(), e, "large/error", what, rtol=1e-5, atol=1e-4)
        ck.state("large", ns, n, off, nan, mk)
        ck.trace()
    # 7. documented default grid size and rejected inputs
    for _ in ck.cases("default size", [0]):
        out = utils.grid3d(reps[0], imgs[0])
        call = np.asarray(out[0]).shape
        ck.equal(call, (100, 100, 100), "default size", "default grid")
    for bad in ck.cases("rejected q", [np.zeros((4, 2)), np.zeros((4, 4)), np.zeros((2, 2, 3))]):
        ck.raises(lambda: utils.grid3d(bad, np.ones(4), nx=1, ny=1, nz=1), ValueError, "reject q", "q %s" % (bad.shape,))


def configurations(ck, utils, settings):
    sizes = [0, 1, 2, 3, 5, 8, 17, 64, 257]
    for (name, setter), n in ck.cases("configurations " + settings[0][0], itertools.product(settings, sizes)):
        if n == 0:
            continue
        setter()
        k = np.arange(n)
        q = np.stack([((k * 7) % 11) / 8.0 - 0.125, ((k * 5) % 9) / 8.0, ((k * 3) % 10) / 8.0 - 0.0625], axis=1)
        img = ((k * 13) % 17).astype(float) - 3
        if n > 4:
            img[3] = NAN
        for ns in ((1, 1, 1), (3, 2, 5), (8, 8, 8)):
            call_and_decide(ck, utils, q, img, ns, (0., 0., 0.), (1., 1., 1.), None, "config", name)
