"""C08 - detector pixels to reciprocal space: every pixel of every image, every frame, every schedule."""
import ctypes
import itertools
import math

import numpy as np

from vc import repo, sched
from vc.harness import freeze, unchanged

FRAMES = ("theta", "phi", "cart", "hkl")


def ref_q(angles, size, pix, cen, dist, wl, ub, frame):
    """Lohmeier & Vlieg six-circle geometry, one pixel at a time."""
    ncol, nrow = size
    k = 2 * math.pi / wl
    inv = np.linalg.inv(np.asarray(ub, float))
    out = []
    for row in np.atleast_2d(np.asarray(angles, float)):
        d, th, chi, phi, mu, ga = [math.radians(a) for a in row]
        for j in range(nrow):
            for i in range(ncol):
                dl = d - math.atan((j - cen[1]) * pix[1] / dist)
                g = ga - math.atan((i - cen[0]) * pix[0] / dist)
                q = [k * (-math.sin(g) - math.sin(mu)),
                     k * (math.cos(dl - th) * math.cos(g) - math.cos(th) * math.cos(mu)),
                     k * (math.sin(dl - th) * math.cos(g) + math.sin(th) * math.cos(mu))]
                if frame != "theta":
                    # rotate by chi about the second axis, then by phi about the first
                    x = math.cos(chi) * q[0] - math.sin(chi) * q[2]
                    z = math.sin(chi) * q[0] + math.cos(chi) * q[2]
                    y = q[1]
                    q = [x, math.cos(phi) * y + math.sin(phi) * z, -math.sin(phi) * y + math.cos(phi) * z]
                if frame == "hkl":
                    q = list(inv @ np.array([q[2], q[1], -q[0]]))
                out.append(q)
    return np.array(out).reshape(-1, 3)


def ref_q_vec(angles, size, pix, cen, dist, wl, ub, frame):
    """the same geometry for large detectors and long series"""
    ncol, nrow = size
    k = 2 * np.pi / wl
    a = np.radians(np.atleast_2d(np.asarray(angles, float)))[:, :, None]
    d, th, chi, phi, mu, ga = [a[:, i] for i in range(6)]
    i = np.tile(np.arange(ncol), nrow)[None, :]
    j = np.repeat(np.arange(nrow), ncol)[None, :]
    dl = d - np.arctan((j - cen[1]) * pix[1] / dist)
    g = ga - np.arctan((i - cen[0]) * pix[0] / dist)
    q = [k * (-np.sin(g) - np.sin(mu)), k * (np.cos(dl - th) * np.cos(g) - np.cos(th) * np.cos(mu)),
         k * (np.sin(dl - th) * np.cos(g) + np.sin(th) * np.cos(mu))]
    if frame != "theta":
        x = np.cos(chi) * q[0] - np.sin(chi) * q[2]
        z = np.sin(chi) * q[0] + np.cos(chi) * q[2]
        q = [x, np.cos(phi) * q[1] + np.sin(phi) * z, -np.sin(phi) * q[1] + np.cos(phi) * z]
    q = np.stack(q, axis=-1).reshape(-1, 3)
    if frame == "hkl":
        q = np.stack([q[:, 2], q[:, 1], -q[:, 0]], axis=1) @ np.linalg.inv(np.asarray(ub, float)).T
    return q


UBS = [np.eye(3), np.diag([1., 2., 4.]),
       np.array([[-0.01231028454, 0.7405370482, 0.06323870032],
                 [0.4450897473, 0.04166852402, -0.9509449389],
                 [-0.7449130975, 0.01265920962, -0.5692399963]]),
       np.array([[0., 1.5, 0.], [0., 0., 2.], [0.5, 0., 0.]])]
ANG = [[40., 15., 30., 25., 10., 5.], [0.] * 6, [-70., 120., -45., 200., -10., 33.], [10., 20., 0., 90., 0., 0.],
       [0., 0., 90., 0., 0., 45.]]


def check_call(ck, recip, angles, size, pix, cen, dist, wl, ub, frame, key):
    a = angles
    fr = freeze(a if isinstance(a, np.ndarray) else None, ub if isinstance(ub, np.ndarray) else None)
    kw = {} if frame is None else {"frame_mode": frame}
    got = recip.process_to_q(a, size, pix, cen, dist, wl, ub, **kw)
    ck.true(unchanged(fr, a if isinstance(a, np.ndarray) else None, ub if isinstance(ub, np.ndarray) else None),
            key + "/inputs", "inputs modified")
    want = ref_q(a, size, pix, cen, dist, wl, ub, frame or "hkl")
    ck.close(got, want, key, "process_to_q frame=%s size=%s" % (frame, size), rtol=1e-9, atol=1e-11)
    ck.step()
    ck.trace()
    ck.state(key, np.asarray(a), size, pix, cen, dist, wl, np.asarray(ub), frame)
    return got


def run(ck):
    try:
        S = sched.Sched()
    except sched.Unsupported as e:
        S = None
        ck.exhaustive = False
        ck.note("controlled schedules skipped: %s" % e)
    if S is not None:
        schedules(ck, S)
    repo.use("serial")
    from skbeam.core import recip
    configs(ck, recip, [("serial", lambda: None)])
    repo.use("omp")
    from skbeam.core import recip
    import skbeam.ext.ctrans  # noqa: F401
    g = ctypes.CDLL("libgomp.so.1")
    configs(ck, recip, [("%d threads" % n, lambda n=n: g.omp_set_num_threads(n)) for n in (1, 2, 3, 5, 16)])
    g.omp_set_num_threads(2)
    inputs(ck, recip)
    gisaxs(ck, recip)


def schedules(ck, S):
    from skbeam.core import recip
    total = [0]
    drivers = [("1x1", ANG[:2], (1, 1)), ("2x1", ANG[:3], (2, 1)), ("1x1x4", ANG[:4], (1, 1)), ("one image", ANG[:1], (1, 2)),
               ("same first axis", [ANG[0], ANG[0][:5] + [44.], ANG[0][:3] + [9., 8., 7.]], (1, 1))]
    plan = []
    for d in drivers:
        for fr in ("hkl", "theta"):
            plan.append((d, fr, 2, 1))
    plan.append((drivers[0], "theta", 2, 2))
    plan.append((drivers[2], "phi", 3, 1))
    if ck.thorough:
        plan += [(drivers[0], "hkl", 2, 2), (drivers[2], "hkl", 3, 1), (drivers[2], "theta", 4, 1), (drivers[0], "phi", 2, 2)]
    PARTS = 16
    for (d, frame, nt, bound), part in ck.cases("schedules", itertools.product(plan, range(PARTS)), limit=3000):
        name, ang, size = d
        args = (ang, size, (0.2, 0.3), (0.5, 0.25), 300., 1.5, UBS[2], frame)
        want = ref_q(*args)

        def visit(x, devs):
            ck.step(max(1, x["steps"]))
            label = "%s frame %s, %d threads, schedule %s" % (name, frame, nt, list(devs))
            ck.true(x["status"] == 0, "schedule/runtime", "%s: %s (%s)" % (label, x["why"], x["status"]))
            ck.true(x["result"][0] == "ok", "schedule/error", "%s: %s" % (label, x["result"]))
            ck.true(x["live"] == 0, "schedule/leak", "%s: %d buffers leaked" % (label, x["live"]))
            r = np.asarray(x["result"][1]).tobytes()
            if r not in seen:
                seen.add(r)
                ck.close(x["result"][1], want, "schedule/values", label, rtol=1e-9, atol=1e-11)
                ck.outcome(name, frame, r)
            total[0] += 1

        seen = set()
        n = sched.explore(S, lambda: recip.process_to_q(*args), nt, bound, visit, part=(part, PARTS))
        ck.trace(n)
        ck.state(name, frame, nt, bound, part, n)
    ck.extra = {"schedules": total[0]}
    for nt, k in ck.cases("allocation faults", itertools.product((1, 2, 3), (1, 2, 3))):
        x = S.run(lambda: recip.process_to_q(ANG[:2], (1, 1), (1., 1.), (0., 0.), 1., 1., UBS[0]), nt, (), k)
        ck.true(x["status"] == 0 and x["live"] == 0, "fault", "%s" % x["why"])
        if x["result"][0] == "ok":
            ck.close(x["result"][1], ref_q(ANG[:2], (1, 1), (1., 1.), (0., 0.), 1., 1., UBS[0], "hkl"), "fault/values",
                     "allocation %d fails" % k, rtol=1e-9, atol=1e-11)
        ck.step()
    S.config(2)


def configs(ck, recip, settings):
    for (name, setter), nimg, size in ck.cases("configurations " + settings[0][0],
                                               itertools.product(settings, (1, 2, 3, 5, 9, 33), ((1, 1), (3, 2), (2, 5)))):
        setter()
        k = np.arange(nimg * 6).reshape(nimg, 6)
        ang = ((k * 37) % 181 - 90).astype(float)
        for frame in FRAMES:
            check_call(ck, recip, ang, size, (0.1, 0.2), (1.5, 0.5), 355., 1.2, UBS[2], frame, "config")


def inputs(ck, recip):
    # geometry alphabet, every combination
    sizes = [(1, 1), (3, 1), (1, 3), (2, 3), (4, 2)]
    pixs = [(0.1, 0.1), (0.2, 0.05)]
    cens = [(0., 0.), (1.5, 0.25), (-3., 10.)]
    dists = [355., 20.]
    wls = [1.0, 0.25]
    for size, pix, cen, dist, wl, frame in ck.cases("geometry", itertools.product(
            sizes, pixs, cens, dists, wls, FRAMES + (None,))):
        check_call(ck, recip, np.array(ANG[:3]), size, pix, cen, dist, wl, UBS[2], frame, "geometry")
    # angles: each of the six from an alphabet (pairs of axes and the full cube for three values)
    vals = [0., 30., -90.] if not ck.thorough else [0., 30., -90., 180., 12.5]
    for ang in ck.cases("angles", itertools.product(vals, repeat=6)):
        for frame in FRAMES:
            check_call(ck, recip, list(ang), (2, 1), (0.2, 0.1), (0., 1.), 100., 1.5, UBS[1], frame, "angles")
    for ub, frame, nimg in ck.cases("orientation", itertools.product(UBS, FRAMES, (1, 2, 4))):
        check_call(ck, recip, np.array(ANG[:nimg]), (2, 2), (0.2, 0.1), (0., 1.), 100., 1.5, ub, frame, "orientation")
    # invariants that do not come from the formula: frames are rotations of each other
    for a, size in ck.cases("rotation invariants", itertools.product(ANG, sizes)):
        qs = {f: recip.process_to_q([a], size, (0.2, 0.1), (0., 1.), 100., 1.5, UBS[2], f) for f in FRAMES}
        n = {f: recip.hkl_to_q(qs[f]) for f in FRAMES}
        ck.close(n["phi"], n["theta"], "invariant/length", "length in phi frame", rtol=1e-9, atol=1e-11)
        ck.close(qs["cart"], qs["phi"], "invariant/cart", "cart frame", rtol=1e-9, atol=1e-11)
        c = np.asarray(qs["hkl"]) @ UBS[2].T
        ck.close(np.linalg.norm(c, axis=1), n["phi"], "invariant/ub", "UB * hkl", rtol=1e-9, atol=1e-10)
        for f in FRAMES:
            ck.close(n[f], [math.sqrt(math.fsum(float(v) ** 2 for v in r)) for r in np.asarray(qs[f])], "hkl_to_q",
                     "hkl_to_q", rtol=1e-12)
        ck.step(4)
        ck.state("inv", a, size)
    # series in which any subset of the axes moves between images
    base, alt = [40., 15., 30., 25., 10., 5.], [-12., 47., -8., 61., 3., 22.]
    for sub, pat in ck.cases("moving axes", itertools.product(itertools.product((0, 1), repeat=6), ((0, 1), (0, 1, 1, 0), (0, 0, 1, 0, 1)))):
        ang = np.array([[alt[i] if s and m else base[i] for i, s in enumerate(sub)] for m in pat])
        for frame in FRAMES:
            check_call(ck, recip, ang, (2, 1), (0.2, 0.1), (0., 1.), 100., 1.5, UBS[1], frame, "series")
    # sizes: wide, tall and large detectors, long series
    big = [((300, 7), 2), ((5, 260), 2), ((66, 65), 3), ((1, 70000), 1), ((2, 2), 300), ((1, 1), 1000), ((1, 1), 4097),
           ((17, 129), 19)]
    for (size, nimg), frame in ck.cases("sizes", itertools.product(big, FRAMES)):
        ang = np.linspace(-170, 190, nimg * 6).reshape(nimg, 6)[:, [3, 0, 5, 1, 4, 2]]
        args = (ang, size, (0.1, 0.07), (size[0] / 3., size[1] * 0.6), 355., 1.2, UBS[2])
        got = np.asarray(recip.process_to_q(*args, frame_mode=frame))
        ck.close(got, ref_q_vec(*args, frame), "sizes", "process_to_q of %d images of %s in %s" % (nimg, size, frame),
                 rtol=1e-9, atol=1e-11)
        ck.close(recip.hkl_to_q(got), np.sqrt((got ** 2).sum(axis=1)), "sizes/length", "hkl_to_q", rtol=1e-12)
        gap = np.array(got, float)
        gap[0, 1] = np.nan
        ck.close(recip.hkl_to_q(gap), np.sqrt((gap ** 2).sum(axis=1)), "sizes/length", "hkl_to_q with an undefined component", rtol=1e-12)
        ck.step()
        ck.trace()
        ck.state("size", size, nimg, frame)
    # value classes of the orientation matrix and of the angles
    mats = [1e-3 * UBS[2], 1e4 * UBS[2], -UBS[0], UBS[2][:, [1, 0, 2]], UBS[2] + 1e-4 * np.eye(3), np.diag([1e-4, 1., 1e3]),
            np.array([[1, 2, 0], [0, 1, 0], [0, 3, -2]]), np.float32(UBS[2]), [[2, 0, 0], [0, 3, 0], [0, 0, 4]]]
    angs = [[370., 725., -400., 1e3, 181., -181.], [1e-3, 0, 1e-4, 0, 0, 1e-5], [180.] * 6, [359.999, 0, 0, 0, 0, -359.999],
            [0, 0, 0, 35., 0, 0], [0, 0, 35., 0, 0, 0], [0, 0, 0, 0, 12., 0], [20., 0, 0, 0, 0, 0], [0, 17., 0, 0, 0, 0]]
    for ub, a, frame in ck.cases("value classes", itertools.product(mats, angs, FRAMES)):
        for ang in (np.array([a]), np.float32([a, a[::-1]])):
            got = recip.process_to_q(ang, (3, 2), (0.2, 0.1), (-1., 2.), 100., 1.5, ub, frame)
            want = ref_q(ang, (3, 2), (0.2, 0.1), (-1., 2.), 100., 1.5, np.asarray(ub, float), frame)
            s = np.abs(want).max()
            # values in single precision may be converted in single precision
            tol = 1e-9 if ang.dtype == np.float64 and getattr(ub, "dtype", None) != np.float32 else 1e-3
            ck.close(got, want, "value classes", "process_to_q angles %s UB %s frame %s" % (ang.tolist(), np.asarray(ub).tolist(), frame),
                     rtol=tol, atol=tol * s)
            ck.step()
        ck.state("value", np.asarray(ub, float), a, frame)
    # representations
    base = np.array([[10, 20, 30, 40, 5, 6], [0, 15, 0, 90, 0, 3]])
    for a in ck.cases("representations", [base, base.astype(float), base.tolist(),
                                          np.asfortranarray(base.astype(float)),
                                          np.repeat(base, 2, axis=0)[::2], base[0], tuple(map(tuple, base.tolist()))]):
        for ub in (UBS[2], UBS[2].tolist(), np.asfortranarray(UBS[2]), np.diag([1, 2, 4])):
            check_call(ck, recip, a, (3, 2), (0.2, 0.1), (0., 1.), 100., 1.5, ub, "hkl", "representation")
    # rejected inputs
    ok = dict(detector_size=(2, 2), pixel_size=(1., 1.), calibrated_center=(0., 0.), dist_sample=10., wavelength=1., ub=UBS[0])
    for bad in ck.cases("rejected", [np.zeros((2, 5)), np.zeros((1, 7)), np.zeros((2, 2, 6)), np.zeros(3)]):
        ck.raises(lambda: recip.process_to_q(bad, **ok), ValueError, "reject/angles", "%s" % (bad.shape,))
    for fm in ck.cases("rejected frame", ["", "HKL", "hk", 4, "q", "theta "]):
        ck.raises(lambda: recip.process_to_q(ANG[:1], frame_mode=fm, **ok), KeyError, "reject/frame", repr(fm))
    ck.step(10)


def gisaxs(ck, recip):
    # beams left, right, above, below and level with each other, inside and outside the detector
    inc = [(0., 0.), (5, 3), (-2., 1.5)]
    refl = [(0., 10.), (7., 13.), (-2., 9.), (5, -20), (-300, 3), (2., 1.5)]
    pix = [(172., 172.), (100, 50), (2e4, 3e4)]
    for ib, rb, px, ds, dist, wl, ti in ck.cases("gisaxs", itertools.product(
            inc, refl, pix, [(1, 1), (3, 4), (4, 3), (2, 300), (300, 1)], [2.5, 0.3, 1], [1.0, 1.5], [0.0, 0.2, -0.1, None])):
        if ti is None:
            ti, got = 0.0, recip.gisaxs(list(ib), np.array(rb), list(px), ds, dist, wl)
        else:
            got = recip.gisaxs(ib, rb, px, ds, dist, wl, theta_i=ti)
        p = (px[0] * 1e-6, px[1] * 1e-6)
        tilt = math.atan2((rb[0] - ib[0]) * p[0], (rb[1] - ib[1]) * p[1])
        ai = math.atan2((rb[1] - ib[1]) * p[1], dist) / 2
        k = 2 * math.pi / wl
        names = ("theta_f", "alpha_f", "qx", "qy", "qz", "qr")
        want = {n: np.zeros(ds) for n in names}
        for y in range(ds[0]):
            for x in range(ds[1]):
                af = math.atan2((y - ib[1]) * p[1], dist) - ai
                tf = math.atan2((x - ib[0]) * p[0], dist) / 2 - ti
                qx = k * (math.cos(af) * math.cos(2 * tf) - math.cos(ai) * math.cos(2 * ti))
                yy = k * (math.cos(af) * math.sin(2 * tf) - math.cos(ai) * math.sin(2 * ti))
                zz = k * (math.sin(af) + math.sin(ai))
                qy = zz * math.sin(tilt) + yy * math.cos(tilt)
                qz = zz * math.cos(tilt) - yy * math.sin(tilt)
                for n, v in zip(names, (tf, af, qx, qy, qz, math.hypot(qx, qy))):
                    want[n][y, x] = v
        ck.close(got.alpha_i, ai, "gisaxs/alpha_i", "alpha_i", rtol=1e-9, atol=1e-14)
        ck.close(got.tilt_angle, tilt, "gisaxs/tilt", "tilt", rtol=1e-9, atol=1e-14)
        for n in names:
            ck.close(getattr(got, n), want[n], "gisaxs/" + n, "gisaxs %s" % n, rtol=1e-9, atol=1e-12)
        ck.equal(tuple(got._fields), ("alpha_i", "theta_f", "alpha_f", "tilt_angle", "qx", "qy", "qz", "qr"),
                 "gisaxs/fields", "fields")
        ck.step()
        ck.trace()
        ck.state("gisaxs", ib, rb, px, ds, dist, wl, ti)
