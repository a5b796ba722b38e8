"""C14 - CDI: every projection does exactly its constraint, and the reconstruction follows the difference map."""
import itertools
import math

import numpy as np

from vc.harness import freeze, unchanged


def run(ck):
    from skbeam.core import cdi
    supports(ck, cdi)
    projections(ck, cdi)
    recon(ck, cdi)


def supports(ck, cdi):
    shapes = [s for d in (2, 3) for s in itertools.product(range(1, 7) if d == 2 else range(1, 5), repeat=d)]
    for shape in ck.cases("supports", shapes):
        idx = list(itertools.product(*[range(n) for n in shape]))
        for r in range(0, 6):
            box = np.asarray(cdi.generate_box_support(r, shape))
            disk = np.asarray(cdi.generate_disk_support(r, shape))
            ck.equal((box.shape, disk.shape), (shape, shape), "support/shape", "shape")
            for p in idx:
                inb = all(n // 2 - r <= x < n // 2 + r for x, n in zip(p, shape))
                ck.true(box[p] == (1 if inb else 0), "box support", lambda: "radius %d shape %s pixel %s is %s" % (r, shape, p, box[p]))
                d2 = sum((x - n // 2) ** 2 for x, n in zip(p, shape))
                ck.true(disk[p] == (1 if d2 < r * r else 0), "disk support", lambda: "radius %d shape %s pixel %s is %s" % (r, shape, p, disk[p]))
            ck.step(2)
        for rr in (0.5, 1.2, 2.3) + tuple(math.sqrt(q) * f for q in (1, 2, 5) for f in (1 - 1e-10, 1 + 1e-10)):
            disk = np.asarray(cdi.generate_disk_support(rr, list(shape)))
            for p in idx:
                d2 = sum((x - n // 2) ** 2 for x, n in zip(p, shape))
                ck.true(disk[p] == (1 if d2 < rr * rr else 0), "disk support", lambda: "radius %s shape %s pixel %s is %s" % (rr, shape, p, disk[p]))
        for sigma in (0.5, 1.0, 3.0):
            g = np.asarray(cdi.gauss(shape, sigma))
            ref = {p: math.exp(-sum((x - n // 2) ** 2 for x, n in zip(p, shape)) / (2 * sigma ** 2)) for p in idx}
            tot = math.fsum(ref.values())
            ck.close(g, np.array([ref[p] / tot for p in idx]).reshape(shape), "gauss", "sigma %s shape %s" % (sigma, shape))
            ck.step()
        ck.state("sup", shape)


    big = [((300, 5), (0, 1, 3, 130, 149, 150, 151, 400)), ((64, 65), (0, 1, 7, 31, 32, 33, 50)), ((5, 300), (2, 140)), ((17, 40, 9), (1, 4, 5, 8, 19, 20, 21)),
           ((260, 270), (127, 128, 129, 135, 200)), ((9,), (0, 1, 4, 5)), ((70000,), (1, 200, 33000, 36000)), ((2, 800), (181, 182, 300, 390)), ((8,), (0, 1, 3, 4, 5)), ((3, 4, 2, 5), (0, 1, 2, 3))]
    for shape, radii in ck.cases("supports/large", big):
        ax = np.meshgrid(*[np.arange(n) - n // 2 for n in shape], indexing="ij")
        d2 = sum(a.astype(np.int64) ** 2 for a in ax)
        for r in radii:
            box, disk = np.asarray(cdi.generate_box_support(r, shape)), np.asarray(cdi.generate_disk_support(r, shape))
            ck.true(np.array_equal(box, np.all([(a >= -r) & (a < r) for a in ax], axis=0).astype(float)), "box support", "radius %d shape %s" % (r, shape))
            ck.true(np.array_equal(disk, (d2 < r * r).astype(float)), "disk support", "radius %d shape %s" % (r, shape))
            ck.step(2)
        for sigma in (0.7, 20.0):
            w = np.exp(-d2 / (2 * sigma ** 2))
            ck.close(cdi.gauss(shape, sigma), w / w.sum(), "gauss", "sigma %s shape %s" % (sigma, shape), rtol=1e-9)
            ck.step()
        ck.state("sup", shape)


def modulus(obj, pat):
    """reference projection onto the measured modulus"""
    n = np.sqrt(obj.size)
    f = np.fft.fftn(obj) / n
    out = f.copy()
    for p in np.ndindex(*obj.shape):
        if pat[p] > 0:
            a = abs(f[p])
            out[p] = pat[p] * f[p] / (a + 1e-12)
    return np.fft.ifftn(out) * n


def gen(shape, seed, cplx=True):
    n = int(np.prod(shape))
    a = np.array([((k + seed) * (k * 3 + 7 * seed + 5)) % 23 + 1 + 0.3 * math.sin(1.7 * k * k + seed) for k in range(n)], float).reshape(shape)
    b = np.array([((k + 2) * (k * 5 + 3 * seed + 1)) % 19 - 9 + 0.3 * math.cos(2.3 * k * k + seed) for k in range(n)], float).reshape(shape)
    return a + 1j * b if cplx else a


def gfilter1(row, sigma):
    """gaussian smoothing, kernel cut at 4 sigma, mirrored borders"""
    lw = int(4.0 * sigma + 0.5)
    w = [math.exp(-0.5 * k * k / sigma ** 2) for k in range(-lw, lw + 1)]
    s = sum(w)
    n = len(row)
    out = []
    for i in range(n):
        v = 0.0
        for k in range(-lw, lw + 1):
            j = (i + k) % (2 * n)
            if j >= n:
                j = 2 * n - 1 - j
            v += w[k + lw] / s * row[j]
        out.append(v)
    return out


def gfilter(a, sigma):
    a = np.array(a, float)
    for ax in range(a.ndim):
        a = np.apply_along_axis(lambda r: np.array(gfilter1(list(r), sigma)), ax, a)
    return a


def projections(ck, cdi):
    shapes = [(1, 1), (2, 3), (4, 4), (5, 3), (2, 3, 4), (3, 3, 3)]
    for shape, s, zero in ck.cases("modulus projection", itertools.product(shapes, range(4), ("none", "some", "negative"))):
        obj = gen(shape, s)
        pat = gen(shape, s + 5, False)
        if zero != "none":
            pat = np.where(np.arange(pat.size).reshape(shape) % 3 == s % 3, 0.0 if zero == "some" else -1.0, pat)
        fr = freeze(obj, pat)
        got = cdi.pi_modulus(obj, pat)
        ck.true(unchanged(fr, obj, pat), "projection/inputs", "inputs modified")
        f0 = np.fft.fftn(obj) / np.sqrt(obj.size)
        f1 = np.fft.fftn(got) / np.sqrt(obj.size)
        for p in np.ndindex(*shape):
            if pat[p] > 0:
                ck.close(abs(f1[p]), pat[p], "projection/modulus", "shape %s frequency %s" % (shape, p), rtol=1e-7, atol=1e-7)
                if abs(f0[p]) > 1e-6:
                    ck.close(f1[p] / pat[p], f0[p] / abs(f0[p]), "projection/phase", "shape %s frequency %s" % (shape, p), rtol=1e-6, atol=1e-6)
            else:
                ck.close(f1[p], f0[p], "projection/unmeasured", "shape %s frequency %s" % (shape, p), rtol=1e-7, atol=1e-7)
        again = cdi.pi_modulus(got, pat)
        ck.close(again, got, "projection/idempotent", "shape %s" % (shape,), rtol=1e-6, atol=1e-6)
        good = np.where(pat > 0, pat, 0)
        if zero != "negative":
            e = cdi.cal_diff_error(got, good)
            nb = np.sqrt(sum(abs(f1[p]) ** 2 for p in np.ndindex(*shape) if good[p] == 0)) / np.sqrt((good ** 2).sum())
            ck.close(e, nb, "diff error", "consistent pattern", rtol=1e-6, atol=1e-7)
        e = cdi.cal_diff_error(obj, np.abs(f0) * 2)
        ck.close(e, 0.5, "diff error", "pattern twice as strong", rtol=1e-9)
        ck.step(4)
        ck.state("mod", shape, s, zero)
        ck.trace()
    big = [(64, 65), (300, 7), (7, 300), (17, 12, 9), (1, 5), (5, 1), (9,)]
    for shape, s, zero, scale in ck.cases("modulus projection/large", itertools.product(big, range(2), (0, 1), (1.0, 1e6, 1e-3))):
        n = int(np.prod(shape))
        k = np.arange(n)
        obj = (((k * 7 + s) % 23 + np.sin(1.7 * k * k + s)) + 1j * ((k * 5) % 19 - 9 + np.cos(2.3 * k * k))).reshape(shape) * scale
        pat = ((k * 11 + 3 * s) % 31 + 1.0).reshape(shape) * scale
        if zero:
            pat.flat[k % 3 == s] = 0
        got = cdi.pi_modulus(obj, pat)
        f0, f1 = np.fft.fftn(obj) / math.sqrt(n), np.fft.fftn(got) / math.sqrt(n)
        ck.close(f1, np.where(pat > 0, pat * f0 / np.abs(f0), f0), "projection/large", "shape %s scale %g" % (shape, scale), rtol=1e-6, atol=1e-6 * scale)
        ck.close(cdi.cal_diff_error(obj, pat), np.linalg.norm(np.abs(f0) - pat) / np.linalg.norm(pat), "diff error", "shape %s" % (shape,), rtol=1e-9)
        st = np.random.get_state()
        try:
            np.random.seed(5)
            o = cdi.generate_random_phase_field(pat)
        finally:
            np.random.set_state(st)
        ck.close(np.abs(np.fft.fftn(o)) / math.sqrt(n), pat, "random phase", "shape %s" % (shape,), rtol=1e-7, atol=1e-7 * scale)
        ck.step(3)
        ck.state("mod", shape, s, zero, scale)
        ck.trace()
    # very different amplitudes in one pattern
    for shape, span in ck.cases("wide patterns", itertools.product([(8, 9), (30,), (4, 5, 6)], (6, 9, 10))):
        n = int(np.prod(shape))
        k = np.arange(n)
        obj = (((k * 7) % 23 + np.sin(1.7 * k * k)) + 1j * ((k * 5) % 19 - 9 + np.cos(2.3 * k * k))).reshape(shape)
        pat = (10.0 ** (k % (span + 1))).reshape(shape)
        f1 = np.fft.fftn(cdi.pi_modulus(obj, pat)) / math.sqrt(n)
        ck.true(bool(np.all(np.abs(np.abs(f1) - pat) < 1e-3 * pat + 1e-13 * pat.max())), "projection/wide", "shape %s, %d decades" % (shape, span))
        ck.step()
        ck.state("wide", shape, span)
    # a faint pattern counts as measured all the same
    for shape, zero, scale in ck.cases("faint patterns", itertools.product([(8, 9), (30,), (4, 5, 6)], (0, 1), (1e-6, 1e-9, 1e-11))):
        n = int(np.prod(shape))
        k = np.arange(n)
        obj = (((k * 7) % 23 + np.sin(1.7 * k * k)) + 1j * ((k * 5) % 19 - 9 + np.cos(2.3 * k * k))).reshape(shape)
        pat = ((k * 11) % 31 + 1.0).reshape(shape) * scale
        if zero:
            pat.flat[k % 3 == 0] = 0
        f1 = np.fft.fftn(cdi.pi_modulus(obj, pat)) / math.sqrt(n)
        f0 = np.fft.fftn(obj) / math.sqrt(n)
        on = pat > 0
        ck.true(bool(np.all(np.abs(np.abs(f1[on]) - pat[on]) < 1e-3 * pat[on])), "projection/faint", "shape %s scale %g" % (shape, scale))
        ck.close(f1[~on], f0[~on], "projection/faint", "unmeasured, shape %s scale %g" % (shape, scale), rtol=1e-7, atol=1e-7)
        ck.step()
        ck.state("faint", shape, zero, scale)
    for shape, seed in ck.cases("random phases cover the circle", itertools.product([(100, 120), (12000,), (20, 30, 25)], range(8))):
        pat = np.ones(shape)
        st = np.random.get_state()
        try:
            np.random.seed(seed)
            o = cdi.generate_random_phase_field(pat)
            o2 = cdi.generate_random_phase_field(pat)
        finally:
            np.random.set_state(st)
        ph = np.fft.fftn(o) / math.sqrt(pat.size)
        ph /= np.abs(ph)
        for q in (1, 2, 3):
            ck.true(abs(np.mean(ph ** q)) < 0.06, "random phase/uniform", "phases are not spread over the circle: harmonic %d has weight %.3g" % (q, abs(np.mean(ph ** q))))
        ph2 = np.fft.fftn(o2) / math.sqrt(pat.size)
        ck.true(abs(np.mean(ph2 * ph.conj())) < 0.06, "random phase/independent", "two starts share their phases")
        ck.step(2)
        ck.state("rp", shape, seed)
    for shape, seed in ck.cases("random phase", itertools.product(shapes, range(20))):
        pat = gen(shape, seed, False)
        if seed % 2 and pat.size > 1:
            pat[tuple(0 for _ in shape)] = 0
        st = np.random.get_state()
        try:
            np.random.seed(seed)
            fr = freeze(pat)
            o = cdi.generate_random_phase_field(pat)
        finally:
            np.random.set_state(st)
        ck.true(unchanged(fr, pat), "random/inputs", "pattern modified")
        ck.close(np.abs(np.fft.fftn(o)) / np.sqrt(pat.size), pat, "random phase", "modulus of the random start", rtol=1e-9, atol=1e-9)
        ck.close(cdi.cal_diff_error(o, pat), 0.0, "random phase/error", "", atol=1e-9)
        ck.step()
    for shape, s, sig, thr in ck.cases("support from object", itertools.product([(4, 4), (5, 7), (3, 4, 3)], range(3), (0.5, 1.0, 2.0), (0.1, 0.5, 0.9, 0.0, 1.0))):
        o = gen(shape, s)
        fr = freeze(o)
        got = np.asarray(cdi.find_support(o, sig, thr))
        ck.true(unchanged(fr, o), "find support/inputs", "object modified")
        f = gfilter(np.abs(o), sig)
        lim = thr * f.max()
        for p in np.ndindex(*shape):
            if abs(f[p] - lim) > 1e-9 * lim:
                ck.true(bool(got[p]) == (f[p] >= lim), "find support", lambda: "sigma %s threshold %s pixel %s" % (sig, thr, p))
        ck.true(got.dtype == bool and got.any(), "find support/empty", "sigma %s threshold %s: the strongest pixel is not in the support" % (sig, thr))
        ck.step()
        ck.state("fs", shape, s, sig, thr)


def diffmap(pattern, obj, sup, beta, start_avg, real, sw, sigma, thr, s0, s1, step, n):
    """reference: the difference map, written from its definition; also yields the object after each iteration"""
    pat = np.fft.fftshift(np.array(pattern))
    x = np.array(obj)
    out = np.asarray(sup) != 1
    states, oerr, derr = [], [], []

    def PM(a):
        b = modulus(a, pat)
        return np.abs(b) if real else b

    def PS(a):
        b = np.array(a)
        b[out] = 0
        return b
    avg, cnt = np.zeros(x.shape, complex), 0
    for k in range(n):
        fA = PM(x) + (PM(x) - x) / beta
        fB = PS(x) - (PS(x) - x) / beta
        new = x + beta * (PS(fA) - PM(fB))
        oerr.append(np.linalg.norm(new - x) / np.linalg.norm(x))
        x = new
        derr.append(np.linalg.norm(np.abs(np.fft.fftn(x)) / np.sqrt(x.size) - pat) / np.linalg.norm(pat))
        if sw and s0 * n <= k <= s1 * n and k % step == 0:
            f = gfilter(np.abs(x), sigma)
            out = ~(f >= thr * f.max())
        states.append(x)
        if k > start_avg * n:
            avg, cnt = avg + x, cnt + 1
    return (avg / cnt if cnt else x), oerr, derr, states


def recon(ck, cdi):
    opts = []
    for shape in ((4, 4), (5, 6), (3, 4, 3)):
        for beta in (1.15, 0.9, -1.0):
            for flag in ("Complex", "real", "COMPLEX", "Real"):
                for sw in (True, False):
                    opts.append(dict(shape=shape, beta=beta, flag=flag, sw=sw, n=8, cb=3))
    for n in (1, 2, 3, 5, 6, 9, 10, 12):
        for sw in (True, False):
            for sa in (0.0, 0.5, 0.8, 1.0):
                opts.append(dict(shape=(4, 5), beta=1.15, flag="complex", sw=sw, n=n, start_avg=sa, cb=(n % 4) + 1))
    for s0, s1, st in itertools.product((0.0, 0.3, 0.5), (0.5, 0.8, 1.0), (1, 2, 3)):
        opts.append(dict(shape=(4, 5), beta=1.15, flag="complex", sw=True, n=10, s0=s0, s1=s1, step=st, cb=5))
    if ck.thorough:
        opts += [dict(o, seed=s) for o in opts for s in (1, 2)]
    for o in ck.cases("difference map", opts):
        shape, n = o["shape"], o["n"]
        seed = o.get("seed", 0)
        real = o["flag"].lower() == "real"
        pat = gen(shape, 3 + seed, False)
        pat.flat[1] = 0
        obj = gen(shape, 1 + seed)
        sup = np.asarray(cdi.generate_box_support(1, shape)) if len(shape) == 3 else np.asarray(cdi.generate_disk_support(2, shape))
        fr = freeze(pat, obj, sup)
        sa, s0, s1, step = o.get("start_avg", 0.8), o.get("s0", 0.2), o.get("s1", 0.8), o.get("step", 2)
        calls = []

        def cb(sample, oe, de, se):
            calls.append((np.array(sample), np.array(oe), np.array(de), np.array(se)))
        got, err = cdi.cdi_recon(pat, obj, sup, beta=o["beta"], start_avg=sa, pi_modulus_flag=o["flag"], sw_flag=o["sw"], sw_sigma=0.5,
                                 sw_threshold=0.2, sw_start=s0, sw_end=s1, sw_step=step, n_iterations=n, cb_function=cb, cb_step=o["cb"])
        ck.true(unchanged(fr, pat, obj, sup), "recon/inputs", "an input array was modified")
        want, oerr, derr, states = diffmap(pat, obj, sup, o["beta"], sa, real, o["sw"], 0.5, 0.2, s0, s1, step, n)
        lab = str(o)
        ck.close(err["obj_error"], oerr, "recon/object error", lab, rtol=1e-5, atol=1e-7)
        ck.close(err["diff_error"], derr, "recon/diffraction error", lab, rtol=1e-5, atol=1e-7)
        ck.close(got, want, "recon/object", lab, rtol=1e-5, atol=1e-6)
        ck.equal(len(calls), n // o["cb"], "recon/callback", "callbacks in %d iterations, every %d" % (n, o["cb"]))
        for i, c in enumerate(calls):
            k = (i + 1) * o["cb"]
            ck.close(c[0], states[k - 1], "recon/callback object", "%s, callback %d" % (lab, i), rtol=1e-5, atol=1e-6)
            ck.close(c[2][:k], derr[:k], "recon/callback errors", lab, rtol=1e-5, atol=1e-7)
        # without a callback, and again: the same answer
        g2, e2 = cdi.cdi_recon(pat, obj, sup, beta=o["beta"], start_avg=sa, pi_modulus_flag=o["flag"], sw_flag=o["sw"], sw_sigma=0.5,
                               sw_threshold=0.2, sw_start=s0, sw_end=s1, sw_step=step, n_iterations=n)
        ck.close(g2, got, "recon/repeat", lab, rtol=1e-9, atol=1e-9)
        ck.step(2 * n)
        ck.state(sorted(o.items(), key=str))
        ck.trace()
    # documented defaults, and the forms in which the arrays may come
    forms = [(sh, n, f) for sh in ((4, 5), (6, 6), (3, 4, 3)) for n in (1, 9, 10, 11, 20, 26) for f in ("plain", "int pattern", "bool support", "read-only", "F")]
    for shape, n, form in ck.cases("defaults", forms):
        pat = np.floor(gen(shape, 4, False))
        obj = gen(shape, 2)
        sup = np.asarray(cdi.generate_box_support(1, shape))
        p2, o2, s2 = pat, obj, sup
        if form == "int pattern":
            p2 = pat.astype("u2")
        elif form == "bool support":
            s2 = sup.astype(bool)
        elif form == "F":
            p2, o2, s2 = (np.asfortranarray(a) for a in (pat, obj, sup))
        elif form == "read-only":
            p2, o2, s2 = pat.copy(), obj.copy(), sup.copy()
            for a in (p2, o2, s2):
                a.setflags(write=False)
        calls = []
        got, err = cdi.cdi_recon(p2, o2, s2, n_iterations=n, cb_function=lambda *a: calls.append([np.array(x) for x in a]))
        want, oerr, derr, states = diffmap(pat, obj, sup, 1.15, 0.8, False, True, 0.5, 0.1, 0.2, 0.8, 10, n)
        lab = "%s %d iterations, %s" % (shape, n, form)
        ck.close(err["obj_error"], oerr, "defaults/object error", lab, rtol=1e-4, atol=1e-7)
        ck.close(err["diff_error"], derr, "defaults/diffraction error", lab, rtol=1e-4, atol=1e-7)
        ck.close(got, want, "defaults/object", lab, rtol=1e-4, atol=1e-5)
        ck.equal(len(err["sup_error"]), n, "defaults/support error", lab)
        ck.equal(len(calls), n // 10, "defaults/callback", lab)
        for i, c in enumerate(calls):
            ck.close(c[0], states[10 * i + 9], "defaults/callback object", lab, rtol=1e-4, atol=1e-5)
        ck.step(n)
        ck.state("def", shape, n, form)
        ck.trace()
    # runs long enough that the default start, end, step, width and threshold of the support refinement all matter
    for shape, n, seed in ck.cases("long defaults", itertools.product(((8, 9), (10, 10), (6, 6, 6)), (40, 50, 60), range(3))):
        ax = np.meshgrid(*[np.arange(s) - s // 2 for s in shape], indexing="ij")
        true = np.exp(-sum(((a - 0.3 * seed) / (1.2 + 0.3 * k)) ** 2 for k, a in enumerate(ax))) * (1 + 0.3 * np.cos(ax[0] * 1.3 + seed))
        pat = np.fft.ifftshift(np.abs(np.fft.fftn(true)) / np.sqrt(true.size))
        obj = true * (1 + 0.2 * np.sin(3 * ax[0] + 2 * ax[1])) + 0.001 * gen(shape, seed)
        sup = np.asarray(cdi.generate_box_support(3, shape))
        got, err = cdi.cdi_recon(pat, obj, sup, n_iterations=n)
        want, oerr, derr, states = diffmap(pat, obj, sup, 1.15, 0.8, False, True, 0.5, 0.1, 0.2, 0.8, 10, n)
        lab = "%s %d iterations seed %d" % (shape, n, seed)
        ck.close(err["obj_error"], oerr, "defaults/object error", lab, rtol=1e-3, atol=1e-5)
        ck.close(err["diff_error"], derr, "defaults/diffraction error", lab, rtol=1e-3, atol=1e-5)
        ck.step(n)
        ck.state("ldef", shape, n, seed)
        ck.trace()
    for shape in ck.cases("default length", ((2, 3),)):
        got, err = cdi.cdi_recon(gen(shape, 4, False), gen(shape, 2), np.ones(shape))
        ck.equal([len(err[k]) for k in ("obj_error", "diff_error", "sup_error")], [1000] * 3, "defaults/length", "iterations by default")
        ck.step(1000)
    for flag in ck.cases("flags", ("", "cplx", "imag", "complex ")):
        ck.raises(lambda: cdi.cdi_recon(np.ones((2, 2)), np.ones((2, 2), complex), np.ones((2, 2)), pi_modulus_flag=flag, n_iterations=1), ValueError, "flag", flag)
    # the true object is a fixed point
    for shape, r in ck.cases("fixed point", itertools.product([(4, 4), (6, 5), (4, 4, 4)], (1, 2))):
        sup = np.asarray(cdi.generate_box_support(r, shape))
        true = gen(shape, 2) * (sup == 1)
        pat = np.fft.ifftshift(np.abs(np.fft.fftn(true)) / np.sqrt(true.size))
        got, err = cdi.cdi_recon(pat, true, sup, sw_flag=False, n_iterations=10)
        ck.close(got, true, "fixed point", "shape %s" % (shape,), rtol=1e-6, atol=1e-6)
        ck.true(max(err["diff_error"]) < 1e-6, "fixed point/error", "error %s" % err["diff_error"])
        ck.step(10)
        ck.state("fix", shape, r)
