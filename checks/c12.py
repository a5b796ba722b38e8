"""C12 - DPC: exact reductions, independent scan points, resumable at any cut, phase = integral of the gradients."""
import cmath
import itertools
import math

import numpy as np

from vc.harness import freeze, unchanged


def run(ck):
    from skbeam.core import dpc
    reduction(ck, dpc)
    fits(ck, dpc)
    minimiser(ck, dpc)
    histories(ck, dpc)
    reconstruction(ck, dpc)
    whole(ck, dpc)


def minimiser(ck, dpc):
    """the fit of one point hands both reductions to the objective and finds its minimum, with every solver"""
    solvers = [s for s in dpc.dpc_fit.solver if s != "Anneal"]
    for solver, a, b, start in ck.cases("minimiser", itertools.product([None] + solvers, (0.5, 1.0, 3.0), (-0.75, 0.0, 2.0), ([1, 0], [1.0, 0.5], (2.0, -1.0)))):
        ref, diff = np.array([1.0, 2.0]), np.array([a, b])
        seen = []

        def rss(v, xdata, ydata):
            seen.append((xdata is ref, ydata is diff, tuple(float(q) for q in v)))
            return (v[0] - ydata[0]) ** 2 * xdata[1] + (v[1] - ydata[1]) ** 2 + 3.0
        fr = freeze(ref, diff)
        st = list(start)
        out = dpc.dpc_fit(rss, ref, diff, st) if solver is None else dpc.dpc_fit(rss, ref, diff, st, solver=solver, tol=1e-8)
        ck.close(list(out), [a, b], "minimiser/minimum", "%s from %s" % (solver, start), atol=2e-3)
        ck.true(seen[0][2] == tuple(float(q) for q in start), "minimiser/start", "%s" % (start,))
        ck.true(all(s[0] and s[1] for s in seen), "minimiser/arguments", "reductions handed to the objective")
        ck.true(unchanged(fr, ref, diff) and st == list(start), "minimiser/inputs", "inputs modified")
        n_full = len(seen)
        if solver in (None, "Nelder-Mead"):
            # the number of iterations is limited as requested: one step costs at most four evaluations after the initial triangle
            for it in (1, 3, 10):
                seen.clear()
                dpc.dpc_fit(rss, ref, diff, st, max_iters=it)
                ck.true(len(seen) <= 3 + 4 * it and (it > 1 or len(seen) < n_full), "minimiser/iterations", lambda: "%d evaluations in %d iterations" % (len(seen), it))
            seen.clear()
            dpc.dpc_fit(rss, ref, diff, st, tol=0.1)
            ck.true(len(seen) < n_full, "minimiser/tolerance", lambda: "%d evaluations with a coarse tolerance, %d with the default one" % (len(seen), n_full))
        ck.step()
        ck.state("min", solver, a, b, start)


def red_ref(im, roi, bad):
    rows, cols = len(im), len(im[0])
    bad = {(r % rows, c % cols) for r, c in (bad or [])}
    r0, c0, nr, nc = roi if roi is not None else (0, 0, rows, cols)
    rr = [r for r in range(r0, r0 + nr) if r < rows]
    cc = [c for c in range(c0, c0 + nc) if c < cols]
    x = [sum(0 if (r, c) in bad else im[r][c] for r in rr) for c in cc]
    y = [sum(0 if (r, c) in bad else im[r][c] for c in cc) for r in rr]
    return x, y


def reduction(ck, dpc):
    shapes = [(1, 1), (2, 3), (4, 2), (3, 5)]
    for shape in shapes:
        rows, cols = shape
        rois = [None] + [(r, c, h, w) for r in range(rows) for c in range(cols) for h in range(1, rows - r + 2) for w in range(1, cols - c + 2)]
        pix = list(itertools.product(range(rows), range(cols)))
        bads = [None, []] + [[p] for p in pix] + [list(p) for p in itertools.combinations(pix, 2)][:40] + [pix[:3] + pix[:1]]
        for roi in ck.cases("reduction %dx%d" % shape, rois):
            for bad in bads:
                for dt, off in ((float, 200), (int, 200), (np.uint8, 200), (np.float32, 200), (float, -205), (int, -90)):
                    im = (np.arange(rows * cols).reshape(shape) * 7 % 11 + off).astype(dt)
                    fr = freeze(im)
                    for form in ((lambda r: r), (lambda r: None if r is None else list(r)), (lambda r: None if r is None else np.array(r))):
                        x, y = dpc.image_reduction(im, form(roi), bad)
                        wx, wy = red_ref(im.astype(int).tolist(), roi, bad)
                        ck.close(x, wx, "reduction/x", "shape %s roi %s bad %s %s" % (shape, roi, bad, dt))
                        ck.close(y, wy, "reduction/y", "shape %s roi %s bad %s %s" % (shape, roi, bad, dt))
                        ck.step()
                    ck.true(unchanged(fr, im), "reduction/inputs", "image modified")
            ck.state(shape, roi)
            ck.trace()
    # large images at the limit of their type, many bad pixels, in every container
    for shape, dt, k in ck.cases("reduction large", itertools.product([(300, 5), (5, 300), (1, 1100), (1100, 1), (70, 66)], ("u1", "i1", "u2", "i2", "u4", "i4", "f4", "f8", ">u2"), range(3))):
        rows, cols = shape
        top = {"f4": 2 ** 14, "f8": 2 ** 40}.get(dt) or np.iinfo(dt).max
        im = (top - (np.arange(rows * cols) * 5 % 3).reshape(shape)).astype(dt)
        bad = [None, [(i * 7 % rows, i * 11 % cols) for i in range(300)], [(i % rows, -1 - i % cols) for i in range(0, 600, 5)]][k]
        x = im.astype(float)
        for r, c in bad or ():
            x[r, c] = 0
        fr = freeze(im)
        for form in ([lambda b: b] if bad is None else [lambda b: b, tuple, lambda b: [list(q) for q in b]]):
            gx, gy = dpc.image_reduction(im, None, form(bad))
            ck.close(gx, x.sum(0), "reduction/x", "%s image of %s, %d bad pixels" % (shape, dt, len(bad or ())), rtol=1e-12 if dt != "f4" else 1e-4)
            ck.close(gy, x.sum(1), "reduction/y", "%s image of %s, %d bad pixels" % (shape, dt, len(bad or ())), rtol=1e-12 if dt != "f4" else 1e-4)
            roi = (rows // 3, cols // 4, rows // 2 + 1, cols // 2 + 1)
            gx, gy = dpc.image_reduction(im, roi, form(bad))
            y = x[roi[0]:roi[0] + roi[2], roi[1]:roi[1] + roi[3]]
            ck.close(gx, y.sum(0), "reduction/x", "%s image of %s, part %s" % (shape, dt, roi), rtol=1e-12 if dt != "f4" else 1e-4)
            ck.close(gy, y.sum(1), "reduction/y", "%s image of %s, part %s" % (shape, dt, roi), rtol=1e-12 if dt != "f4" else 1e-4)
            ck.step()
        ck.true(unchanged(fr, im), "reduction/inputs", "image modified")
        ck.state("large", shape, dt, k)


def blob(shape, k=0):
    r, c = np.mgrid[: shape[0], : shape[1]]
    return np.exp(-((r - shape[0] / 2.0) ** 2) / (2.0 + k) - (c - shape[1] / 2.0) ** 2 / (3.0 + k)) * 100 + 1.0


def fits(ck, dpc):
    """the diffraction pattern is a scaled and shifted copy of the reference"""
    shapes = [(8, 8), (9, 7), (12, 10), (7, 16)]
    cases = itertools.product(shapes, (-1, 0, 1), (-1, 0, 1), (1.0, 0.8, 0.5))
    for shape, sr, sc, amp in ck.cases("scaled and shifted patterns", cases):
        ref = blob(shape)
        im = np.roll(np.roll(ref, sr, 0), sc, 1) * amp
        fr = freeze(ref, im)
        st = list(dpc.lazy_dpc(ref, [im], [1, 0], 1, 1))[-1]
        ck.true(unchanged(fr, ref, im), "fit/inputs", "inputs modified")
        ck.close(st.ax[0, 0], amp, "fit/amplitude x", "shift %s,%s" % (sr, sc), rtol=0, atol=2e-3)
        ck.close(st.ay[0, 0], amp, "fit/amplitude y", "shift %s,%s" % (sr, sc), rtol=0, atol=2e-3)
        ck.close(st.gx[0, 0], 2 * math.pi * sc / shape[1], "fit/gradient x", "shift %s,%s amp %s shape %s" % (sr, sc, amp, shape), rtol=0, atol=2e-3)
        ck.close(st.gy[0, 0], 2 * math.pi * sr / shape[0], "fit/gradient y", "shift %s,%s amp %s shape %s" % (sr, sc, amp, shape), rtol=0, atol=2e-3)
        ck.step()
        ck.state("fit", shape, sr, sc, amp)


def images(n, shape=(6, 5)):
    ref = blob(shape)
    return ref, [np.roll(np.roll(ref, (k * 2) % 3 - 1, 0), (k * 5 + 1) % 3 - 1, 1) * (1 - 0.1 * (k % 4)) for k in range(n)]


def snap(st):
    return tuple(np.array(getattr(st, f)) for f in ("ax", "ay", "gx", "gy")) + (list(st.index),)


def histories(ck, dpc):
    opts = [dict(), dict(roi=(1, 0, 4, 5)), dict(bad_pixels=[(2, 2), (0, 1)]), dict(roi=[0, 1, 6, 3], bad_pixels=[(3, 2)]), dict(solver="BFGS")]
    for grid, oi in ck.cases("uninterrupted", itertools.product([(1, 4), (2, 2), (2, 3), (3, 1)], range(len(opts)))):
        o = opts[oi]
        n = grid[0] * grid[1]
        ref, ims = images(n)
        snaps = []
        single = []
        for im in ims:  # each scan point alone
            st = list(dpc.lazy_dpc(ref, [im], [1, 0], 1, 1, **o))[-1]
            single.append([float(getattr(st, f)[0, 0]) for f in ("ax", "ay", "gx", "gy")])
        k = 0
        pulled = [0]

        def src():
            for im in ims:
                pulled[0] += 1
                yield im
        for st in dpc.lazy_dpc(ref, src(), [1, 0], grid[0], grid[1], **o):
            k += 1
            ck.equal(pulled[0], k, "lazy", "images consumed")
            for fi, f in enumerate(("ax", "ay", "gx", "gy")):
                a = getattr(st, f)
                ck.equal(np.shape(a), grid, "shape", f)
                want = [[single[r * grid[1] + c][fi] if r * grid[1] + c < k else 0.0 for c in range(grid[1])] for r in range(grid[0])]
                ck.close(a, want, "scan point", "%s after %d of %s images" % (f, k, grid), rtol=0, atol=1e-12)
            snaps.append(snap(st))
            ck.step()
        ck.equal(k, n, "count", "results")
        # every pair of cut points
        for c1 in range(0, n + 1):
            for c2 in range(c1, n + 1):
                st = None
                done = 0
                for part in (ims[:c1], ims[c1:c2], ims[c2:]):
                    for st2 in dpc.lazy_dpc(ref, part, [1, 0], grid[0], grid[1], dpc_state=st, **o):
                        done += 1
                        st = st2
                        for a, b in zip(snap(st), snaps[done - 1]):
                            ck.close(a, b, "resume", "cuts %d,%d of %d after %d" % (c1, c2, n, done), rtol=0, atol=0)
                        ck.step()
                ck.equal(done, n, "resume/count", "cuts %d,%d" % (c1, c2))
                ck.trace()
                ck.state("cuts", grid, oi, c1, c2)
    # patterns shifted by up to half their size, other start points, in every order
    for shape, start, order in ck.cases("far shifts", itertools.product([(6, 4), (5, 6)], ([1, 0], [0.8, 0.5], [1.2, 2.0], [1, -2.5]), itertools.permutations(range(3)))):
        ref = blob(shape)
        ims = [np.roll(ref, shape[1] // 2, 1), np.roll(np.roll(ref, shape[0] // 2, 0), 1, 1) * 0.7, np.roll(ref, -1, 0) * 0.9]
        one = [snap(list(dpc.lazy_dpc(ref, [im], list(start), 1, 1))[-1]) for im in ims]
        st = list(dpc.lazy_dpc(ref, [ims[k] for k in order], list(start), 1, 3))[-1]
        for f, a in enumerate(snap(st)[:4]):
            ck.close(a, [[one[k][f][0, 0] for k in order]], "far shifts", "array %d, start %s, order %s" % (f, start, order), rtol=0, atol=1e-12)
        ck.step(3)
        ck.state("far", shape, start, order)
    # long scans: every point keeps its own place
    for grid in ck.cases("long scans", [(1, 300), (300, 1), (17, 16), (16, 17)]):
        ref, ims = images(7, (5, 4))
        n = grid[0] * grid[1]
        one = [snap(list(dpc.lazy_dpc(ref, [im], [1, 0], 1, 1))[-1]) for im in ims]
        st = list(dpc.lazy_dpc(ref, (ims[(k * k + k) % 7] for k in range(n)), [1, 0], *grid))[-1]
        for f, a in enumerate(snap(st)[:4]):
            want = np.array([one[(k * k + k) % 7][f][0, 0] for k in range(n)]).reshape(grid)
            ck.close(a, want, "long scan", "array %d of a %s scan" % (f, grid), rtol=0, atol=1e-12)
        ck.step(n)
        ck.state("long", grid)
    # two scans at once
    for sch in ck.cases("interleaved", sorted(set(itertools.permutations((0, 0, 0, 1, 1, 1))))):
        data = [images(3, (6, 5)), images(3, (5, 7))]
        ref_last = [snap(list(dpc.lazy_dpc(r, ims, [1, 0], 1, 3))[-1]) for r, ims in data]
        g = [dpc.lazy_dpc(r, ims, [1, 0], 1, 3) for r, ims in data]
        last = [None, None]
        for s in sch:
            last[s] = next(g[s])
            ck.step()
        for s in (0, 1):
            for a, b in zip(snap(last[s]), ref_last[s]):
                ck.close(a, b, "interleaved", "schedule %s scan %d" % (sch, s), rtol=0, atol=0)
        ck.state("inter", sch)
        ck.trace()


def dft2(a, sign):
    R, C = len(a), len(a[0])
    er = [[cmath.exp(sign * 2j * math.pi * u * r / R) for r in range(R)] for u in range(R)]
    ec = [[cmath.exp(sign * 2j * math.pi * v * c / C) for c in range(C)] for v in range(C)]
    t = [[sum(a[r][c] * ec[v][c] for c in range(C)) for v in range(C)] for r in range(R)]
    return [[sum(t[r][v] * er[u][r] for r in range(R)) for v in range(C)] for u in range(R)]


def recon_ref(gx, gy, dx, dy, pad, w):
    rows, cols = len(gx), len(gx[0])
    R, C = rows * (2 * pad + 1), cols * (2 * pad + 1)
    px = [[0.0] * C for _ in range(R)]
    py = [[0.0] * C for _ in range(R)]
    for i in range(rows):
        for j in range(cols):
            px[pad * rows + i][pad * cols + j] = gx[i][j]
            py[pad * rows + i][pad * cols + j] = gy[i][j]
    tx, ty = dft2(px, -1), dft2(py, -1)
    out = [[0j] * C for _ in range(R)]
    for u in range(R):
        for v in range(C):
            fu = u if u < (R + 1) // 2 else u - R
            fv = v if v < (C + 1) // 2 else v - C
            kx = 2 * math.pi * fv / (C * dx)
            ky = 2 * math.pi * fu / (R * dy)
            d = kx * kx * (1 - w) + ky * ky * w
            out[u][v] = 0 if d == 0 else -1j * (kx * tx[u][v] * (1 - w) + ky * ty[u][v] * w) / d
    ph = dft2(out, +1)
    return [[ph[pad * rows + i][pad * cols + j].real / (R * C) for j in range(cols)] for i in range(rows)]


def reconstruction(ck, dpc):
    shapes = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 4), (4, 5), (5, 3)]
    cases = itertools.product(shapes, (0, 1, 2), (0, 0.25, 0.5, 1), ((1.0, 1.0), (0.5, 2.0), (2e4, 3e3), (1e-5, 4e-4), (3e9, 2e8)), range(3))
    for shape, pad, w, (dx, dy), d in ck.cases("reconstruction formula", cases):
        if pad == 2 and (shape[0] * shape[1] > 9) and not ck.thorough:
            continue
        n = shape[0] * shape[1]
        gx = (np.arange(n) * (3 + d) % 7 - 2.0).reshape(shape)
        gy = (np.arange(n) * (5 + d) % 11 - 4.0).reshape(shape)
        fr = freeze(gx, gy)
        got = dpc.recon(gx, gy, dx, dy, pad, w)
        ck.close(got, recon_ref(gx.tolist(), gy.tolist(), dx, dy, pad, w), "recon", "shape %s padding %d weighting %s steps %s" % (shape, pad, w, (dx, dy)), atol=1e-9 * max(1.0, dx, dy))
        ck.true(unchanged(fr, gx, gy), "recon/inputs", "gradients modified")
        if d == 0:
            ck.close(dpc.recon(gx.tolist(), gy.tolist(), dx, dy, pad, w), got, "recon/lists", "list input")
        if pad == 0 and w == 0.5:
            ck.close(dpc.recon(gx, gy, dx, dy), got, "recon/defaults", "default padding and weighting")
        ck.step()
        ck.state("recon", shape, pad, w, dx, dy, d)
        ck.trace()
    for w in ck.cases("weighting range", (-1, -1e-9, 1 + 1e-9, 2, 0, 1)):
        g = np.ones((2, 2))
        st = list(dpc.lazy_dpc(np.ones((4, 4)), [np.ones((4, 4))], [1, 0], 2, 2))[-1]._replace(gx=g, gy=g)
        for f in (lambda: dpc.recon(g, g, 1, 1, weighting=w), lambda: dpc.reconstruct_phase_from_partial_info(st, 10., 1, 1, weighting=w)):
            if 0 <= w <= 1:
                f()
            else:
                ck.raises(f, ValueError, "weighting", "weighting %s" % w)
    # gradients of a band-limited periodic phase integrate back to it
    for (R, C), (u, v), ph, w, (dx, dy) in ck.cases("integration of gradients", itertools.product(
            [(5, 7), (8, 6), (7, 7)], [(0, 1), (1, 0), (1, 1), (2, 1), (-1, 2)], (0.0, 0.7), (0.0, 0.3, 0.5, 1.0), ((1, 1), (0.2, 3.0), (5e4, 2e3), (3e-6, 1e-5)))):
        if (w == 0.0 and v == 0) or (w == 1.0 and u == 0):
            continue
        kx, ky = 2 * math.pi * v / (C * dx), 2 * math.pi * u / (R * dy)
        phi = np.array([[math.cos(kx * j * dx + ky * i * dy + ph) for j in range(C)] for i in range(R)])
        s = np.array([[-math.sin(kx * j * dx + ky * i * dy + ph) for j in range(C)] for i in range(R)])
        ck.close(dpc.recon(kx * s, ky * s, dx, dy, 0, w), phi, "integration", "mode %s weighting %s" % ((u, v), w), atol=1e-9)
        ck.step()
        ck.state("integ", R, C, u, v, ph, w, dx)


def whole(ck, dpc):
    cases = itertools.product((True, False), (True, False), ((55., 1.0e6), (None, None), (55., None), (None, 1e6)), (0, 1), (0.5, 0.2), (8.0, 19.5, 0.5, 0.9, 1.0), ((2, 3), (3, 2)))
    for negate, scale, (px, fd), pad, w, en, grid in ck.cases("state to phase", cases):
        n = grid[0] * grid[1]
        g = [(np.arange(n) * (k + 3) % 5 - 1.5).reshape(grid) for k in range(4)]
        st = list(dpc.lazy_dpc(np.ones((4, 7)), [np.ones((4, 7))], [1, 0], *grid))[-1]
        st = st._replace(ax=g[0], ay=g[1], gx=g[2], gy=g[3])
        fr = freeze(*g)
        phase, amp = dpc.reconstruct_phase_from_partial_info(st, en, 0.1, 0.2, px, fd, negate, scale, pad, w)
        ck.true(unchanged(fr, *g), "phase/inputs", "the state was modified")
        fx = fy = 1.0
        if scale and px and fd:
            lam = 12.4e-4 / en
            fx, fy = 7 * px / (lam * fd), 4 * px / (lam * fd)
        if negate:
            fx = -fx
        want = recon_ref((g[2] * fx).tolist(), (g[3] * fy).tolist(), 0.1, 0.2, pad, w)
        ck.close(phase, want, "phase", "negate %s scale %s pixel %s distance %s padding %d" % (negate, scale, px, fd, pad), atol=1e-9)
        ck.close(amp, (g[0] + g[1]) / 2, "amplitude", "amplitude")
        if negate and scale and pad == 0 and w == 0.5:
            p0, a0 = dpc.reconstruct_phase_from_partial_info(st, en, 0.1, 0.2, pixel_size=px, focus_to_det=fd)
            ck.close(p0, phase, "phase/defaults", "negate, scale, padding and weighting left out")
            ck.close(a0, amp, "phase/defaults", "amplitude")
        # asking again gives the same
        p2, a2 = dpc.reconstruct_phase_from_partial_info(st, en, 0.1, 0.2, px, fd, negate, scale, pad, w)
        ck.close(p2, phase, "phase/again", "second reconstruction from the same state")
        ck.step(2)
        ck.state("phase", negate, scale, px, fd, pad, w, en, grid)
        ck.trace()
    opts = [dict(), dict(roi=(1, 0, 4, 5), negate=False), dict(bad_pixels=[(2, 2)], padding=1, scale=False), dict(weighting=0.1, solver="BFGS")]
    for oi, grid in ck.cases("runner", itertools.product(range(4), [(2, 2), (1, 3)])):
        o = opts[oi]
        ref, ims = images(grid[0] * grid[1])
        fr = freeze(ref, *ims)
        got = dpc.dpc_runner(ref, ims, [1, 0], (55., 55.), 1.0e6, grid[0], grid[1], 0.1, 0.3, 19.5, **o)
        ck.true(unchanged(fr, ref, *ims), "runner/inputs", "inputs modified")
        lazy = {k: v for k, v in o.items() if k in ("roi", "bad_pixels", "solver")}
        rec = {k: v for k, v in o.items() if k not in lazy}
        st = list(dpc.lazy_dpc(ref, ims, [1, 0], grid[0], grid[1], **lazy))[-1]
        neg, sc, pad, w = rec.get("negate", True), rec.get("scale", True), rec.get("padding", 0), rec.get("weighting", 0.5)
        lam = 12.4e-4 / 19.5
        fx, fy = (len(st.ref_fx) * 55. / (lam * 1e6), len(st.ref_fy) * 55. / (lam * 1e6)) if sc else (1., 1.)
        want = recon_ref((st.gx * (-fx if neg else fx)).tolist(), (st.gy * fy).tolist(), 0.1, 0.3, pad, w)
        ck.close(got[0], want, "runner/phase", "options %s" % o, atol=1e-9)
        ck.close(got[1], (st.ax + st.ay) / 2, "runner/amplitude", "options %s" % o)
        ck.raises(lambda: dpc.dpc_runner(ref, ims, [1, 0], (55., 56.), 1.0e6, grid[0], grid[1], 0.1, 0.3, 19.5), ValueError, "runner/square", "non-square pixels")
        ck.step()
        ck.trace()
        ck.state("runner", oi, grid)
