"""C22 - image arithmetic: truth tables of the logical operations, reference subtraction in time order."""
import itertools

import numpy as np

from vc.harness import freeze, unchanged

TABLE = {"logical_nand": lambda a, b: not (a and b), "logical_nor": lambda a, b: not (a or b), "logical_sub": lambda a, b: a and not b,
         "logical_and": lambda a, b: a and b, "logical_or": lambda a, b: a or b, "logical_xor": lambda a, b: a != b}
ARITH = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b}
DTYPES = ["bool", "uint8", "int16", "int64", "float32", "float64"]
SHAPES = [(4,), (2, 2), (1, 4), (2, 1, 2)]


def run(ck):
    from skbeam.core import arithmetic as A
    from skbeam.core import utils as U
    logic(ck, A)
    arith(ck, A)
    subtract(ck, U)


def values(dt):
    return [0, 1] if dt == "bool" else ([0, 1, 2] if dt.startswith("u") else [0, 1, -2])


def logic(ck, A):
    for name, d1, d2 in ck.cases("logical", itertools.product(sorted(TABLE), DTYPES, DTYPES)):
        f = getattr(A, name)
        pairs = list(itertools.product(values(d1), values(d2)))
        while len(pairs) % 4:
            pairs.append(pairs[len(pairs) % 3])
        flat1, flat2 = [p[0] for p in pairs], [p[1] for p in pairs]
        n = len(pairs)
        for shape in [(n,), (n // 2, 2), (2, n // 2), (2, n // 4, 2)]:
            x1, x2 = np.array(flat1, dtype=d1).reshape(shape), np.array(flat2, dtype=d2).reshape(shape)
            want = np.array([TABLE[name](bool(a), bool(b)) for a, b in pairs], dtype=bool).reshape(shape)
            before = freeze(x1, x2)

            def same(got, how):
                got = np.asarray(got)
                ck.equal((got.shape, got.tolist()), (shape, want.tolist()), name + "/" + how, "%s %s %s" % (d1, d2, shape))
            r = f(x1, x2)
            same(r, "value")
            ck.equal(np.asarray(r).dtype, np.dtype(bool), name + "/dtype", "%s %s" % (d1, d2))
            ck.true(unchanged(before, x1, x2), name + "/input modified", "%s %s" % (d1, d2))
            same(f(x1.tolist(), x2.tolist()), "lists")
            same(f(x1[::-1][::-1], np.asfortranarray(x2)), "layout")
            for fill in (True, False):
                out = np.full(shape, fill)
                r = f(x1, x2, out)
                ck.true(r is out, name + "/out", "result is not the given array")
                same(out, "out")
                ck.true(unchanged(before, x1, x2), name + "/input modified", "out given")
            if d1 == "bool":
                y = x1.copy()
                f(y, x2, y)
                same(y, "in place, first")
                y = x1.copy()
                f(y[:], x2, y)
                same(y, "in place, view of the first")
                f2 = np.zeros((2,) + shape, bool)
                f2[0] = x1
                f(f2[0], x2, f2[0])
                same(f2[0], "in place, part of an array")
                ck.true(not f2[1].any(), name + "/part of an array", "wrote outside")
            if d2 == "bool":
                y = x2.copy()
                f(x1, y, y)
                same(y, "in place, second")
                y = x2.copy()
                f(x1, y[:], y)
                same(y, "in place, view of the second")
            ck.step(6)
        ck.state(name, d1, d2)
    # every value that can be truthy, at every scale, and result arrays of other types
    odd = {"float64": [0.0, -0.0, 1e-300, -5e-324, float("nan"), float("inf"), 0.4, 1.0], "float32": [0.0, 1e-40, -0.1, float("nan"), 3.0, -0.0],
           "int64": [0, 256, -1, 2 ** 40, 1], "uint8": [0, 255, 128, 2], "int16": [0, -32768, 256, 255], "bool": [0, 1], "uint64": [0, 2 ** 63, 1], "complex128": [0, 1j, 1]}
    for name, d1, d2 in ck.cases("logical values", itertools.product(sorted(TABLE), sorted(odd), sorted(odd))):
        f = getattr(A, name)
        pairs = list(itertools.product(odd[d1], odd[d2]))
        want = [TABLE[name](bool(a), bool(b)) for a, b in pairs]
        x1, x2 = np.array([a for a, _ in pairs], dtype=d1), np.array([b for _, b in pairs], dtype=d2)
        before = freeze(x1, x2)
        ck.equal(np.asarray(f(x1, x2)).tolist(), want, name + "/value", "%s %s" % (d1, d2))
        for od in ("uint8", "int64", "float32"):
            out = np.full(len(pairs), 3, od)
            f(x1, x2, out)
            ck.equal([float(v) for v in out], [float(v) for v in want], name + "/out", "result array of %s" % od)
        ck.true(unchanged(before, x1, x2), name + "/input modified", "%s %s" % (d1, d2))
        big1, big2 = np.tile(x1, 700), np.tile(x2, 700)
        ck.true(np.array_equal(np.asarray(f(big1, big2)), np.tile(np.array(want, bool), 700)), name + "/large", "%s %s" % (d1, d2))
        m1, m2 = np.broadcast_arrays(np.array(odd[d1], dtype=d1)[:, None], np.array(odd[d2], dtype=d2)[None, :])
        ck.equal(np.asarray(f(m1, m2)).ravel().tolist(), want, name + "/broadcast", "%s %s" % (d1, d2))
        ck.equal(np.asarray(f(m1[:, :1], m2[:1])).ravel().tolist(), want, name + "/broadcast", "%s %s" % (d1, d2))
        ck.step(4)
        ck.state("odd", name, d1, d2)
    for name in ck.cases("scalars", sorted(TABLE)):
        for a, b in itertools.product((0, 1, 2.5, True, False), repeat=2):
            ck.equal(bool(getattr(A, name)(a, b)), TABLE[name](bool(a), bool(b)), name + "/scalar", "%r %r" % (a, b))
            got = np.asarray(getattr(A, name)(np.array([0, 1, 2]), b))
            ck.equal(got.tolist(), [TABLE[name](bool(k), bool(b)) for k in (0, 1, 2)], name + "/broadcast", "%r" % b)
            ck.step()
        ck.equal([bool(v) for v in A.logical_not(np.array([0, 2, -1]))], [True, False, False], "logical_not", "")
    for name in ck.cases("shapes differ", ("logical_nand", "logical_nor", "logical_sub")):
        for s1, s2 in (((2, 3), (3, 2)), ((2,), (3,))):
            ck.raises(lambda: getattr(A, name)(np.ones(s1), np.ones(s2)), ValueError, name + "/shapes", "%s %s" % (s1, s2))


def arith(ck, A):
    for name, dt in ck.cases("arithmetic", itertools.product(sorted(ARITH), ["int16", "int64", "float64"])):
        for a, b in itertools.product((-3, 0, 1, 7), repeat=2):
            r = np.asarray(getattr(A, name)(np.array([[a, b]], dtype=dt), np.array([[b, a]], dtype=dt)))
            ck.equal(r.tolist(), [[ARITH[name](a, b), ARITH[name](b, a)]], name, "%s %s %s" % (a, b, dt))
            ck.step()
    for a, b in ck.cases("divide", itertools.product((-3, 0, 1, 7), (-2, 1, 4))):
        ck.equal(np.asarray(A.divide(np.array([a]), np.array([b]))).tolist(), [a / b], "divide", "%s/%s" % (a, b))


def subtract(ck, U):
    n = 7 if ck.thorough else 6
    pats = [p for k in range(1, n + 1) for p in itertools.product((True, False), repeat=k)]
    for pat in ck.cases("reference patterns", pats):
        k = len(pat)
        for dt in ("float64", "float32", "int16", "int64", "uint8", "uint16", "uint32", "bool list"):
            d = "float64" if dt == "bool list" else dt
            # references brighter than some measured frames
            imgs = np.array([[[(i * 37 + 11 * r + 5 * c * c) % 50 for c in range(3)] for r in range(2)] for i in range(k)], dtype=d)
            before = freeze(imgs)
            flags = {"bool list": list(pat)}.get(dt, np.array(pat))
            if dt == "int64":
                flags = [int(p) for p in pat]
            if not pat[0]:
                ck.raises(lambda: U.subtract_reference_images(imgs, flags), ValueError, "reference/first", "first image is not a reference: %s" % (pat,))
                ck.step()
                continue
            out = U.subtract_reference_images(imgs, flags)
            want, ref = [], None
            for i in range(k):
                v = [[int(z) for z in row] for row in imgs[i].tolist()]
                if pat[i]:
                    ref = v
                else:
                    want.append([[a - b for a, b in zip(x, y)] for x, y in zip(v, ref)])
            ck.equal([np.asarray(o).tolist() for o in out], want, "reference/values", "%s images, references %s" % (dt, pat))
            ck.true(unchanged(before, imgs), "reference/input modified", "%s" % (pat,))
            # the results do not share memory with the frames
            for o in out:
                np.asarray(o)[...] = 1
            ck.true(unchanged(before, imgs), "reference/aliased", "%s" % (pat,))
            if dt == "float64":
                lst = U.subtract_reference_images([im for im in imgs], list(pat))
                ck.equal([np.asarray(o).tolist() for o in lst], want, "reference/list of frames", "%s" % (pat,))
            ck.step(k)
        ck.state("ref", pat)
        ck.trace()
    # frames of different types in one series; long series; large frames
    types = ["uint8", "int8", "uint16", "int16", "uint32", "int32", "float32", "float64", "int64"]
    for t0, t1, t2 in ck.cases("mixed frames", itertools.product(types, repeat=3)):
        def top(t):
            return 1000.0 if t.startswith("f") else min(np.iinfo(t).max, 2 ** 31)
        fr = [np.array([[top(t), 0, 3], [1, top(t) // 2, 7]]).astype(t) for t in (t0, t1, t2)]
        for pat in ((1, 0, 0), (1, 1, 0), (1, 0, 1)):
            out = U.subtract_reference_images(fr, [bool(p) for p in pat])
            want, ref = [], None
            for f, p in zip(fr, pat):
                if p:
                    ref = f.astype(float)
                else:
                    want.append((f.astype(float) - ref).tolist())
            ck.equal([np.asarray(o, float).tolist() for o in out], want, "reference/mixed", "%s images, references %s" % ((t0, t1, t2), pat))
            ck.step()
        ck.state("mixed", t0, t1, t2)
    # dark references, equal references, frames at both limits of their type
    for pat, fills, dt in ck.cases("dark references", itertools.product([(1,) + p for p in itertools.product((0, 1), repeat=3)], itertools.product((0, 1, 2), repeat=4),
                                                                        ("uint8", "int8", "uint16", "int16", "uint32", "int32", "float32", "float64"))):
        lim = (-1000, 1000) if dt[0] == "f" else (np.iinfo(dt).min, np.iinfo(dt).max)
        fr = [np.full((2, 2), (0, lim[0], lim[1])[v], dt) for v in fills]
        out = U.subtract_reference_images(fr, [bool(p) for p in pat])
        want, ref = [], None
        for f, p in zip(fr, pat):
            if p:
                ref = int(f[0, 0])
            else:
                want.append([[int(f[0, 0]) - ref] * 2] * 2)
        ck.equal([np.asarray(o).tolist() for o in out], want, "reference/dark", "%s frames %s, references %s" % (dt, fills, pat))
        ck.step()
        ck.state("dark", pat, fills, dt)
    for n, every, shape, dt in ck.cases("long series", itertools.product((40, 300, 1100, 4000), (1, 2, 3, 17, 64, 290), ((1, 1), (3, 2), (33, 40)), ("uint8", "uint16", "float64"))):
        if n > 300 and shape == (33, 40):
            continue
        ims = ((np.arange(n)[:, None, None] * 31 + np.arange(shape[0])[:, None] * 7 + np.arange(shape[1]) * 3) % 251).astype(dt)
        pat = np.array([i % every == 0 for i in range(n)])
        if every > 3:
            pat[[n // 3, n // 3 + 1, n - 1]] = True
        want, ref = [], None
        for f, p in zip(ims, pat):
            if p:
                ref = f.astype(float)
            else:
                want.append(f.astype(float) - ref)
        for flags in (pat, pat.tolist(), pat.astype(int), pat * 2, (pat * 0.5).tolist(), pat.astype("u1") * np.uint8(255), [-int(p) for p in pat]):
            out = U.subtract_reference_images(ims, flags)
            ck.equal(len(out), len(want), "reference/number", "%d images, reference every %d" % (n, every))
            ck.true(all(np.array_equal(np.asarray(a, float), b) for a, b in zip(out, want)), "reference/values", "%d %s images of %s, reference every %d" % (n, dt, shape, every))
        ck.step(n)
        ck.state("long", n, every, shape, dt)
