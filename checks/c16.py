"""C16 - what is written to (or stored in) a data file is what is read back."""
import itertools
import math
import os
import re
import shutil
import struct
import tempfile

import numpy as np


def run(ck):
    tmp = tempfile.mkdtemp(prefix="c16-")
    try:
        gsas(ck, tmp)
        columns(ck, tmp)
        fit2d(ck, tmp)
        binary(ck, tmp)
        amira(ck, tmp)
        netcdf(ck, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def ints(n, top, seed):
    """n intensities in [0, top], the largest is top; zero included"""
    out = [float((k * k * 37 + seed * 11 + k) % 89) / 89 * top for k in range(n)]
    out[(seed * 3 + n // 2) % n] = float(top)
    if n > 2:
        out[(seed + 1) % n if (seed + 1) % n != (seed * 3 + n // 2) % n else (seed + 2) % n] = 0.0
    return out


def scale_of(mx):
    """largest power of ten, at most 1, that brings the maximum to at most 999999"""
    s = 0
    while mx * 10.0 ** s > 999999 and s > -30:
        s -= 1
    return 10.0 ** s


def gsas(ck, tmp):
    from skbeam.io import gsas_reader, gsas_writer
    lengths = list(range(1, 34)) + [99, 100, 101, 257]
    tops = [0.4, 1, 7, 99, 12345, 999999, 999999.4, 1000000, 1234567, 9.99e7, 1e8, 3.3e9, 1.7e12]
    grids = [(0.0, 1.0), (1.25, 0.01), (5.0, 0.005), (88.5, 2.5), (-3.0, 0.5), (3, 2), (3.4567885, 0.0123455)]
    for n, mode, (t0, dt), seed in ck.cases("gsas", itertools.product(lengths, ["STD", "STD-default", "ESD", "FXYE"], grids, range(2))):
        for top in tops:
            y = np.array(ints(n, top, seed))
            tth = np.array([t0 + dt * k for k in range(n)])
            err = np.array([(math.sqrt(v) + 0.25 if k % 4 else 0.0) for k, v in enumerate(y)])
            kind = seed
            if kind == 1 and top == int(top) and top < 1e9:
                y = np.floor(y).astype(int)
                if isinstance(t0, int):
                    tth = tth.astype(int)
            args = (tth.copy(), y.copy(), err.copy())
            name = "p%d" % ck.worker
            before = [a.copy() for a in args]
            if mode == "STD-default":
                gsas_writer(args[0], args[1], name, dir_path=tmp)
            elif mode == "STD":
                gsas_writer(args[0], args[1], name, mode="STD", err=args[2], dir_path=tmp)
            else:
                gsas_writer(args[0], args[1], name, mode=mode, err=args[2], dir_path=tmp)
            ck.true(all(np.array_equal(a, b) for a, b in zip(before, args)), "gsas/inputs", "arrays were modified")
            t2, y2, e2 = gsas_reader(os.path.join(tmp, name + ".gsas"))
            where = "%s file of %d points, largest intensity %s, grid %s+k*%s" % (mode, n, top, t0, dt)
            ck.step(2)
            ck.trace()
            ck.equal((len(t2), len(y2), len(e2)), (n, n, n), "gsas/points", where + ": number of points read back")
            sc = scale_of(max(y))
            exp_t = tth
            ck.true(np.all(np.abs(t2 - exp_t) <= 5.2e-8 * np.arange(1, n + 1)), "gsas/angles", lambda: where + ": angles %s, expected %s" % (t2[:5], exp_t[:5]))
            if mode == "FXYE":
                ck.close(y2, y * sc, "gsas/intensity", where + ": intensities", rtol=1e-9, atol=1e-9)
                we = np.array([0.0 if e * sc < 1e-4 else 1 / (e * sc) ** 2 for e in err])
                sel = (err * sc >= 1e-4) | (err == 0)
                ck.close(e2[sel], we[sel], "gsas/weights", where + ": weights", rtol=3e-6)
            else:
                ck.true(np.all(np.abs(y2 - y * sc) <= 0.5 + 1e-6), "gsas/intensity", where + ": intensities %s, expected %s" % (y2[:8], (y * sc)[:8]))
                ck.true(np.all(y2 == np.round(y2)), "gsas/intensity", where + ": whole counts")
                if mode.startswith("STD"):
                    we = np.array([0.0 if v == 0 else 1 / v for v in y2])
                    ck.close(e2, we, "gsas/weights", where + ": weights")
                else:
                    for e, g in zip(err * sc, e2):
                        lo, hi = max(round(e - 0.500001), 0), round(e + 0.500001)
                        cand = [0.0 if c == 0 else 1.0 / c ** 2 for c in range(int(lo), int(hi) + 1) if abs(c - e) <= 0.5 + 1e-6]
                        ck.true(any(abs(g - c) <= 1e-12 + 1e-9 * c for c in cand), "gsas/weights", where + ": weight %s for error %s" % (g, e))
            raw = open(os.path.join(tmp, name + ".gsas"), newline="").read()
            lines = raw.split("\r\n")
            ck.true(lines[-1] == "" and all(len(x) <= 80 for x in lines), "gsas/records", where + ": records of at most 80 characters")
            bank = lines[1].split()
            ck.equal(bank[0], "BANK", "gsas/bank", where + ": second line")
            ck.equal((int(bank[2]), int(bank[3])), (n, len(lines) - 3), "gsas/bank", where + ": points and records announced")
            ck.true(len(lines[0]) == len(lines[1]) == len(lines[-2]) == 80, "gsas/records", where + ": title, header and last record are full records")
            m = re.search(r"scale=(\S+)", lines[0])
            ck.true(m is not None and abs(float(m.group(1)) - sc) <= 1e-9 * sc, "gsas/scale", where + ": the title does not give the scale %g: %r" % (sc, lines[0].strip()))
            ck.true(all(isinstance(a, np.ndarray) and a.dtype.kind == "f" for a in (t2, y2, e2)), "gsas/arrays", where + ": not arrays of floats")
        ck.state("gsas", n, mode, t0, dt, seed)
    # uneven grids (only this format stores them), tiny and negative intensities, zero patterns, long patterns
    values = {
        "tiny": lambda k: [2e-6, 1e-7, 0.0, 3e-4, 0.03][k % 5],
        "negative": lambda k: [12.0, -3.0, 700.0, -0.2, 0.0, -1000.0, 5.0][k % 7],
        "zero": lambda k: 0.0,
        "halves": lambda k: k % 9 + 0.5,
        "one large": lambda k: 999999.0 if k == 3 else float(k % 4),
        "digits": lambda k: 10.0 ** (k % 6) + k % 10,
    }
    for n, mode, vn in ck.cases("gsas values", itertools.product((4, 5, 10, 11, 23, 1000, 12347, 100003), ("STD", "ESD", "FXYE"), sorted(values))):
        if n > 1000 and vn not in ("digits", "one large")[:1 + (n < 99999)]:
            continue
        y = np.array([values[vn](k) for k in range(n)])
        err = np.array([0.0 if k % 6 == 5 else 1.0 + k % 400 for k in range(n)])
        tth = np.array([1.0 + 0.01 * k + (0.003 * ((k * k) % 5) if mode == "FXYE" else 0) for k in range(n)])
        name = "v%d" % ck.worker
        with np.errstate(all="ignore"):
            gsas_writer(tth, y, name, mode=mode, err=err, dir_path=tmp)
        t2, y2, e2 = gsas_reader(os.path.join(tmp, name + ".gsas"))
        where = "%s file of %d points, %s values" % (mode, n, vn)
        ck.equal((len(t2), len(y2), len(e2)), (n, n, n), "gsas/points", where)
        ck.close(t2, tth, "gsas/angles", where + ": angles", rtol=0, atol=1e-9 if mode == "FXYE" else 1e-7 * (n + 2))
        pos = np.maximum(y, 0)
        if mode == "FXYE":
            ck.close(y2, pos, "gsas/intensity", where, rtol=1e-9, atol=6e-11)
        else:
            ck.true(np.all(np.abs(y2 - pos) <= 0.5 + 1e-6) and np.all(y2 == np.round(y2)), "gsas/intensity", lambda: where + ": %s, expected %s" % (y2[:12], pos[:12]))
        if mode == "STD":
            ck.close(e2, [0.0 if v == 0 else 1 / v for v in y2], "gsas/weights", where)
        else:
            ck.close(e2, [0.0 if v == 0 else 1 / v ** 2 for v in err], "gsas/weights", where)
        ck.step(2)
        ck.trace()
        ck.state("gv", n, mode, vn)
    # files from elsewhere: decimals, blanks in place of numbers, lines without padding
    vals = [0.25, 0.4, 12.5, 0.0, 999.75, -1.5, 0.01, 3.0]
    for n, mode, pad, seed in ck.cases("gsas foreign", itertools.product(range(1, 25), ("STD", "ESD", "FXYE"), (0, 1), range(4))):
        y = [vals[(k * k + k * 3 + seed) % 8] for k in range(n)]
        e = [abs(vals[(k + 2 * seed + 1) % 8]) for k in range(n)]
        if mode == "FXYE" and seed % 2:  # errors of normalised patterns
            e = [[3e-9, 1e-7, 2.5e-4, 0.0, 1e-10, 4e-6, 7.0][(k + seed) % 7] for k in range(n)]
        per = {"STD": 10, "ESD": 5, "FXYE": 1}[mode]
        rec = {"STD": lambda k: "%2i%6.2f" % (1, y[k]), "ESD": lambda k: "%8.2f%8.2f" % (y[k], e[k]), "FXYE": lambda k: "%22.10f%22.10f%24.10f" % (2 + 0.5 * k, y[k], e[k])}[mode]
        f = os.path.join(tmp, "f%d.gsas" % ck.worker)
        with open(f, "w") as h:
            h.write("%-80s\n" % "measured elsewhere")
            h.write("%-80s\n" % ("BANK %5i %8i %8i CONST %9.5f %9.5f %9.5f %9.5f %s" % (1, n, -(-n // per), 200, 50, 0, 0, mode)))
            for i in range(0, n, per):
                s = "".join(rec(k) for k in range(i, min(n, i + per)))
                h.write(("%-80s" % s if pad else s) + "\n")
        t2, y2, e2 = gsas_reader(f)
        where = "%s file of %d points %s %s" % (mode, n, y, e)
        ck.close(t2, [2 + 0.5 * k for k in range(n)], "gsas/angles", where, atol=1e-9)
        ck.close(y2, [max(v, 0.0) for v in y], "gsas/intensity", where, atol=1e-9)
        want = [0.0 if v <= 0 else 1 / v for v in y] if mode == "STD" else [0.0 if v == 0 else 1 / v ** 2 for v in e]
        ck.close(e2, want, "gsas/weights", where, rtol=1e-9)
        ck.step()
        ck.state("gf", n, mode, pad, seed)
    from skbeam.io import gsas_reader as gr
    for ext, mode in ck.cases("gsas refused", [(".dat", "STD"), ("", "STD"), (".gsas", "XXX"), (".gsas", "std")]):
        f = os.path.join(tmp, "bad%d%s" % (ck.worker, ext))
        with open(f, "w") as h:
            h.write("%-80s\r\n" % "title")
            h.write("%-80s\r\n" % ("BANK %5i %8i %8i CONST %9.5f %9.5f %9.5f %9.5f %s" % (1, 2, 1, 0, 1, 0, 0, mode)))
            h.write(" 1    10 1    20\r\n")
        ck.raises(lambda: gr(f), (IOError, ValueError), "gsas/refused", "file %r with mode %r" % (ext, mode))
        ck.step()


def columns(ck, tmp):
    from skbeam.io import save_output
    special = [0.0, -1.5, 1e-300, 1.7976931348623157e308, 1 / 3, -0.0, 12345678901234567.0, 5e-324, np.pi, float("inf"), float("nan")]
    lengths = list(range(1, 8)) + [100, 1500]
    dts = ["f8", "f4", "i8", "u2", "list"]
    for n, ext, q, werr, dt in ck.cases("columns", itertools.product(lengths, [".chi", ".dat", ".xye", None], ["Q", "2theta"], [0, 1], dts)):
        if ext == ".xye" and not werr:
            ck.raises(lambda: save_output([1.0] * n, [2.0] * n, "x%d" % ck.worker, q, ext=ext, dir_path=tmp), ValueError,
                      "columns/xye without errors", "no error given")
            continue
        cols = []
        for c in range(3):
            if dt in ("f8", "list"):
                v = np.array([special[(k + 3 * c) % len(special)] for k in range(n)])
            elif dt == "f4":
                v = np.array([special[(k + c) % 3] / 3 for k in range(n)], dtype="f4")
            else:
                v = np.array([(k * 7919 + c * 13) % 65536 for k in range(n)], dtype=dt)
            cols.append(list(v) if dt == "list" else v)
        name = "out %d" % ck.worker
        kw = dict(dir_path=tmp)
        if ext is not None:
            kw["ext"] = ext
        if werr:
            kw["err"] = cols[2]
        save_output(cols[0], cols[1], name, q, **kw)
        path = os.path.join(tmp, name + (ext or ".chi"))
        got = np.loadtxt(path, skiprows=7, ndmin=2)
        want = np.array([np.asarray(c, float) for c in cols[:3 if werr else 2]]).T
        ck.equal(got.shape, want.shape, "columns/shape", "n=%d ext=%s err=%s" % (n, ext, werr))
        ck.true(np.array_equal(got, want, equal_nan=True), "columns/values", lambda: "read back %r, written %r" % (got, want))
        head = open(path).read().split("\n")[:7]
        ck.true(("Q" in " ".join(head)) if q == "Q" else ("two theta" in " ".join(head)), "columns/header", "axis not named in %r" % (head,))
        ck.true(any(str(n) in h.split() for h in head), "columns/header", "number of points not in %r" % (head,))
        os.remove(path)
        ck.state("col", n, ext, q, werr, dt)
        ck.step(2)
        ck.trace()


def fit2d(ck, tmp):
    from skbeam.io.fit2d import fit2d_save, read_fit2d_msk
    shapes = [(r, c) for r in range(1, 5) for c in range(1, 5) if r * c <= 6] + [(1, 31), (1, 32), (1, 33), (2, 40), (33, 2), (5, 64)]
    for shape in ck.cases("fit2d", shapes):
        n = shape[0] * shape[1]
        pats = range(2 ** n) if n <= 6 else [0, 2 ** n - 1] + [1 << k for k in range(n)] + [sum(1 << k for k in range(n) if (k * k) % 7 < 3)]
        for p in pats:
            m = np.array([(p >> k) & 1 for k in range(n)], bool).reshape(shape)
            for order in ("C", "F"):
                mm = np.array(m, order=order)
                fit2d_save(mm, "m%d" % ck.worker, dir_path=tmp)
                got = read_fit2d_msk(os.path.join(tmp, "m%d.msk" % ck.worker))
                ck.equal(got.dtype, np.dtype(bool), "fit2d/type", "type")
                ck.true(got.shape == shape and np.array_equal(got, m), "fit2d", lambda: "mask %r came back as %r" % (m, got))
                ck.true(np.array_equal(mm, m), "fit2d/input", "mask modified")
                ck.step(2)
                ck.trace()
        ck.state("fit2d", shape)


FMT = {"int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "float32": "f", "float64": "d"}


def binary(ck, tmp):
    from skbeam.io import read_binary
    dims = list(itertools.product([1, 2, 3], [1, 2, 4], [1, 2, 3])) + [(300, 1, 1), (5, 70, 1), (17, 3, 40), (1, 300, 1), (1, 1, 300)]
    for (nx, ny, nz), dt, endian in ck.cases("binary", itertools.product(dims, sorted(FMT), "<>")):
        for hs in (0, 1, 7, 64, 5000):
            n = nx * ny * nz
            if dt.startswith("f"):
                vals = [((k * 37 + 5) % 120 - 60) * [1.0, 2.0 ** 40, -0.125][k % 3] for k in range(n)]
            else:
                ii = np.iinfo(dt)
                vals = [[ii.max, ii.min, 10, 13, 26, 0, ii.max // 3][k % 7] for k in range(n)]
            head = bytes((k * 13 + 1) % 256 for k in range(hs))
            if hs and (nx + ny + nz) % 3:  # blanks, line ends or zeros around the header
                pad = [b"\0", b" ", b"\n", b"\r\n"][(nx + 2 * ny + nz) % 4] * hs
                head = pad[:hs // 3 + 1] + head[hs // 3 + 1:hs - hs // 3] + pad[:hs // 3]
                head = (head + pad)[:hs]
            f = os.path.join(tmp, "b%d" % ck.worker)
            with open(f, "wb") as h:
                h.write(head + struct.pack(endian + str(n) + FMT[dt], *vals))
            data, header = read_binary(f, nx, ny, nz, endian + np.dtype(dt).str[1:], hs)
            shape = (nx, ny, nz) if nz != 1 else ((nx, ny) if ny != 1 else (nx,))
            where = "dims %s %s%s header %d" % ((nx, ny, nz), endian, dt, hs)
            ck.equal(header, head, "binary/header", where)
            ck.equal(data.shape, shape, "binary/shape", where)
            ck.equal((data.dtype.kind, data.dtype.itemsize), (np.dtype(dt).kind, np.dtype(dt).itemsize), "binary/type", where)
            ck.equal([float(v) for v in data.ravel()], [float(v) for v in vals], "binary/values", where)
            ck.step()
        ck.state("bin", nx, ny, nz, dt, endian)


def amira(ck, tmp):
    from skbeam.io import load_amiramesh
    types = {"float": "f", "short": "h", "ushort": "H", "byte": "b"}
    dims = [(2, 2, 1), (2, 3, 4), (4, 3, 2), (5, 2, 1), (3, 3, 3), (1, 3, 2), (1, 1, 1), (1, 1, 4), (3, 1, 2)]
    for (x, y, z), t, fmt, style in ck.cases("amira", itertools.product(dims, sorted(types), ["BINARY-LITTLE-ENDIAN", "BINARY", "ASCII"], range(8))):
        n = x * y * z
        vals = [(k * 37 + 10) % 120 - (60 if t in ("short", "byte", "float") else 0) for k in range(n)]
        # values whose first or last byte looks like a new line
        vals[0] = 10
        vals[-1] = 10 if t == "byte" else 2570
        vs = {1: (0.5, 0.75, 0.5), 3: (0.5, 0.5045, 0.4975), 4: (0.5, 0.4975, 0.5045), 5: (0.5, 0.5045, 0.515), 6: (1.3126e-7, 1.3126e-7, 1.3126e-7), 7: (3.7e-10, 4.2e-8, 123456.5)}.get(style, (0.5, 0.5, 0.5))   # less than one percent apart counts as the same
        o = (1.0, -2.0) if style < 6 else (0.0, 0.0)
        bb = (o[0], o[0] + vs[0] * (x - 1), o[1], o[1] + vs[1] * (y - 1), 0.0, vs[2] * (z - 1))
        head = "# Avizo %s%s 2.1\n\n\ndefine Lattice %d %d %d\n\nParameters {\n" % ("3D " if style == 2 else "", fmt, x, y, z)
        head += '    Units {\n        Coordinates "m"\n    }\n    Colormap "labels.am",\n'
        head += '    Content "%dx%dx%d %s, uniform coordinates",\n' % (x, y, z, t)
        head += "    BoundingBox %r %r %r %r %r %r,\n" % bb
        head += '    CoordType "uniform"\n}\n\nLattice { %s Data } @1\n\n# Data section follows\n@1\n' % t
        if fmt == "ASCII":
            body = (" ".join(str(v) for v in vals) if style else " \n".join(str(v) for v in vals) + " ").encode() + b"\n"
        else:
            body = struct.pack(("<" if "LITTLE" in fmt else ">") + str(n) + types[t], *vals) + b"\n"
        f = os.path.join(tmp, "a%d.am" % ck.worker)
        with open(f, "wb") as h:
            h.write(head.encode() + body)
        md, data = load_amiramesh(f)
        where = "%s %s %s style %d" % (fmt, t, (x, y, z), style)
        ref = np.array(vals, float).reshape(z, y, x)[::-1]
        ck.equal(data.shape, (z, y, x), "amira/shape", where)
        ck.close(np.asarray(data, float), ref, "amira/values", where, rtol=0, atol=0)
        ck.equal((md["data_format"], md["data_type"], md["array_dimensions"], md["coord_type"], md["coordinates"]),
                 (fmt, t, {"x_dimension": x, "y_dimension": y, "z_dimension": z}, "uniform", "m"), "amira/header", where)
        ck.equal([md["bounding_box"][k] for k in ("x_min", "x_max", "y_min", "y_max", "z_min", "z_max")], list(bb), "amira/header", where + " bounding box")
        ck.equal((md["software_src"], md["data_format_version"], md["units"]), ("Avizo", "2.1", "pixels"), "amira/header", where)
        ck.equal((data.dtype.kind, data.dtype.itemsize, bool(data.flags.writeable)), (np.dtype(types[t]).kind, np.dtype(types[t]).itemsize, True), "amira/type", where)
        res = [vs[k] if d > 1 else 0 for k, d in enumerate((x, y, z))]
        iso = min(res) > 0 and style not in (1, 5, 7)
        ck.equal(md["resolution"]["type"], "isotropic" if iso else "anisotropic", "amira/resolution", where)
        ck.close(md["resolution"]["zyx_value"], res[0] if iso else res[::-1], "amira/resolution", where + " voxel size", rtol=1e-12)
        ck.state("am", x, y, z, t, fmt, style)
        ck.step()
    for cut in ck.cases("amira cut", range(0, 60)):
        f = os.path.join(tmp, "cut%d.am" % ck.worker)
        full = b"# Avizo BINARY 2.1\ndefine Lattice 2 2 1\n# Data section follows\n"
        with open(f, "wb") as h:
            h.write(full[:cut])
        ck.raises(lambda: load_amiramesh(f), Exception, "amira/cut", "file cut at byte %d" % cut)
        ck.step()


def netcdf(ck, tmp):
    from skbeam.io import load_netCDF
    try:
        import netCDF4
    except ImportError:
        ck.note("netCDF4 not installed: load_netCDF not explored")
        return
    for shape, dt, sf, zp in ck.cases("netcdf", itertools.product([(1, 2, 3), (2, 2, 2), (3, 1, 2)], ["i2", "f4", "u1"], [None, 1.0], [0.0, 0.7])):
        f = os.path.join(tmp, "n%d.nc" % ck.worker)
        if os.path.exists(f):
            os.remove(f)
        vals = np.arange(int(np.prod(shape))).reshape(shape)
        with netCDF4.Dataset(f, "w") as d:
            for nm, s in zip("zyx", shape):
                d.createDimension(nm, s)
            v = d.createVariable("VOLUME", dt, ("z", "y", "x"))
            v[:] = vals
            if sf is not None:
                v.scale_factor = sf
            d.x_pixel_size, d.y_pixel_size, d.z_pixel_size = 0.7, 0.7, zp
            d.operator = "me"
        md, data = load_netCDF(f)
        where = "netCDF %s %s scale %s z size %s" % (shape, dt, sf, zp)
        ck.close(np.asarray(data, float), vals.astype(float), "netcdf/values", where)
        ck.equal((md["operator"], float(md["x_pixel_size"]), float(md["z_pixel_size"])), ("me", 0.7, zp), "netcdf/header", where)
        iso = zp == 0.0 and shape[0] > 1
        ck.equal("voxel_size" in md, iso, "netcdf/voxel size", where)
        if iso:
            ck.equal(float(md["voxel_size"]["value"]), 0.7, "netcdf/voxel size", where)
        ck.state("nc", shape, dt, sf, zp)
        ck.step()
