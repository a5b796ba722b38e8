"""C17 - writers replace exactly the requested file, refused calls touch nothing, failed writes are reported."""
import itertools
import os
import resource
import shutil
import tempfile

import numpy as np


def X(n, o=0):
    return np.array([1.0 + 0.5 * k + o for k in range(n)])


def Y(n, o=0):
    return np.array([(7.0 * k * k + 3 * o) % 50 + 1 for k in range(n)])


def ops():
    """name -> (target file or None when refused, callable(io, dir))"""
    out = {}

    def ok(tag, target, fn):
        out[tag] = (target, fn)

    def bad(tag, fn):
        out[tag] = (None, fn)

    for n in (3, 12):
        ok("chi%d" % n, "f.chi", lambda io, d, n=n: io.save_output(X(n), Y(n), "f", "Q", dir_path=d))
        ok("dat%d" % n, "f.dat", lambda io, d, n=n: io.save_output(X(n, 1), Y(n), "f", "2theta", ext=".dat", err=Y(n, 2), dir_path=d))
        ok("xye%d" % n, "f.xye", lambda io, d, n=n: io.save_output(X(n), Y(n, 1), "f", "Q", ext=".xye", err=Y(n), dir_path=d))
        ok("std%d" % n, "f.gsas", lambda io, d, n=n: io.gsas_writer(X(n), Y(n), "f", dir_path=d))
        ok("esd%d" % n, "f.gsas", lambda io, d, n=n: io.gsas_writer(X(n), Y(n), "f", mode="ESD", err=Y(n, 1), dir_path=d))
        ok("fxye%d" % n, "f.gsas", lambda io, d, n=n: io.gsas_writer(X(n), Y(n), "f", mode="FXYE", err=Y(n, 1), dir_path=d))
    ok("chi-g", "g.chi", lambda io, d: io.save_output(X(4), Y(4), "g", "Q", dir_path=d))
    for k, nm in enumerate(("scan.1", "scan.2", "f.chi", "run 7", ".h", "f.gsas", "x-1.25_a", "F", "\u00e9t\u00e9")):
        ok("chi " + nm, nm + ".chi", lambda io, d, k=k, nm=nm: io.save_output(X(4 + k), Y(4 + k), nm, "Q", dir_path=d))
        ok("xye " + nm, nm + ".xye", lambda io, d, k=k, nm=nm: io.save_output(X(4 + k), Y(4 + k), nm, "2theta", ext=".xye", err=Y(4 + k, 1), dir_path=d))
        ok("gsas " + nm, nm + ".gsas", lambda io, d, k=k, nm=nm: io.gsas_writer(X(4 + k), Y(4 + k), nm, dir_path=d))
        ok("msk " + nm, nm + ".msk", lambda io, d, k=k, nm=nm: io.fit2d_save(np.eye(2 + k, dtype=bool), nm, dir_path=d))
    ok("msk", "f.msk", lambda io, d: io.fit2d_save(np.eye(3, dtype=bool), "f", dir_path=d))
    ok("msk2", "f.msk", lambda io, d: io.fit2d_save(np.ones((2, 5), bool), "f", dir_path=d))
    for ext in (".chi", ".dat", ".xye"):
        bad("short y" + ext, lambda io, d, e=ext: io.save_output(X(4), Y(3), "f", "Q", ext=e, err=Y(4), dir_path=d))
        bad("long y" + ext, lambda io, d, e=ext: io.save_output(X(3), Y(4), "f", "Q", ext=e, err=Y(3), dir_path=d))
        bad("short err" + ext, lambda io, d, e=ext: io.save_output(X(4), Y(4), "f", "2theta", ext=e, err=Y(2), dir_path=d))
        bad("axis" + ext, lambda io, d, e=ext: io.save_output(X(4), Y(4), "f", "q", ext=e, err=Y(4), dir_path=d))
        bad("dir" + ext, lambda io, d, e=ext: io.save_output(X(4), Y(4), "f", "Q", ext=e, err=Y(4), dir_path="no/such/dir"))
        for nx, ny in ((4, 3), (3, 4), (1, 2), (2, 1)):
            # exactly one of the three lengths is wrong, whichever it is
            bad("%d x %d y%s" % (nx, ny, ext), lambda io, d, e=ext, nx=nx, ny=ny: io.save_output(X(nx), Y(ny), "f", "Q", ext=e, err=Y(ny), dir_path=d))
            bad("%d points %d err%s" % (nx, ny, ext), lambda io, d, e=ext, nx=nx, ny=ny: io.save_output(X(nx), Y(nx), "f", "Q", ext=e, err=Y(ny), dir_path=d))
            if ext != ".xye":
                bad("%d x %d y, no err%s" % (nx, ny, ext), lambda io, d, e=ext, nx=nx, ny=ny: io.save_output(X(nx), Y(ny), "f", "Q", ext=e, dir_path=d))
    bad("one point xye without err", lambda io, d: io.save_output(X(1), Y(1), "f", "Q", ext=".xye", dir_path=d))
    bad("xye without err", lambda io, d: io.save_output(X(4), Y(4), "f", "Q", ext=".xye", dir_path=d))
    for m in ("STD", "ESD", "FXYE"):
        bad("short y" + m, lambda io, d, m=m: io.gsas_writer(X(4), Y(3), "f", mode=m, err=Y(4), dir_path=d))
        bad("short err" + m, lambda io, d, m=m: io.gsas_writer(X(4), Y(4), "f", mode=m, err=Y(3), dir_path=d))
        for nx, ny in ((4, 3), (3, 4), (2, 3)):
            bad("%d x %d y%s" % (nx, ny, m), lambda io, d, m=m, nx=nx, ny=ny: io.gsas_writer(X(nx), Y(ny), "f", mode=m, err=Y(ny), dir_path=d))
            bad("%d points %d err%s" % (nx, ny, m), lambda io, d, m=m, nx=nx, ny=ny: io.gsas_writer(X(nx), Y(nx), "f", mode=m, err=Y(ny), dir_path=d))
        bad("dir" + m, lambda io, d, m=m: io.gsas_writer(X(4), Y(4), "f", mode=m, err=Y(4), dir_path="no/such/dir"))
    bad("mode none", lambda io, d: io.gsas_writer(X(4), Y(4), "f", err=Y(4), dir_path=d))
    bad("mode unknown", lambda io, d: io.gsas_writer(X(4), Y(4), "f", mode="esd", err=Y(4), dir_path=d))
    bad("msk dir", lambda io, d: io.fit2d_save(np.eye(3, dtype=bool), "f", dir_path="no/such/dir"))
    return out


class IO:
    pass


def snap(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def run(ck):
    import skbeam.io as sio
    from skbeam.io import fit2d
    io = IO()
    io.save_output, io.gsas_writer, io.fit2d_save = sio.save_output, sio.gsas_writer, fit2d.fit2d_save
    tmp = tempfile.mkdtemp(prefix="c17-")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        histories(ck, io, tmp)
        links(ck, io, tmp)
        faults(ck, io, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def histories(ck, io, tmp):
    OPS = ops()
    good = [k for k, v in OPS.items() if v[0]]
    refused = [k for k, v in OPS.items() if not v[0]]
    ref = {}
    for tag in good:  # what one call writes into an empty folder
        d = os.path.join(tmp, "ref")
        os.mkdir(d)
        OPS[tag][1](io, d)
        s = snap(d)
        ck.equal(sorted(s), [OPS[tag][0]], "target", "%s in an empty folder wrote" % tag)
        ref[tag] = s[OPS[tag][0]]
        shutil.rmtree(d)
    depth = 3 if ck.thorough else 2
    core = [g for g in good if " " not in g]
    hist = [h for k in range(0, depth + 1) for h in itertools.product(core, repeat=k)]
    names = [g for g in good if " " in g]
    hist += [(a, b) for a in names for b in names if a.split()[0] == b.split()[0] or ck.thorough] + [(a, b) for a in names for b in core[:6]]
    away = os.path.join(tmp, "away")
    os.mkdir(away)
    for t in sorted(set(v[0] for v in OPS.values() if v[0])):
        with open(os.path.join(away, t), "wb") as f:
            f.write(b"elsewhere")
    mine = snap(away)
    ck.note("every sequence of up to %d accepted writes, each followed by every accepted and every refused call, in a named and in the current folder" % depth)
    for h, here in ck.cases("histories", itertools.product(hist, (False, True))):
        d = os.path.join(tmp, "h")
        os.mkdir(d)
        if here:
            os.chdir(d)
        else:  # files of the same names lie in the current folder
            os.chdir(away)
        arg = None if here else (d if len(h) % 2 else d + "/")
        try:
            with open(os.path.join(d, "f"), "wb") as f:
                f.write(b"mine")
            with open(os.path.join(d, "other.chi"), "wb") as f:
                f.write(b"theirs")
            model = {"f": b"mine", "other.chi": b"theirs"}
            for tag in h:
                OPS[tag][1](io, arg)
                model[OPS[tag][0]] = ref[tag]
                ck.step()
            ck.equal(snap(d), model, "history", "files after %r" % (h,))
            ck.true(here or snap(away) == mine, "other folder", lambda: "%r in a named folder changed files of the current folder" % (h,))
            for tag in refused:
                ck.raises(lambda: OPS[tag][1](io, arg), ValueError, "refused", "%s after %r" % (tag, h))
                now = snap(d)
                ck.equal(now, model, "refused call changed files", "%s after %r" % (tag, h))
                ck.step()
            for tag in good if len(h) < 2 else (core if len(h) < depth else []):
                OPS[tag][1](io, arg)
                model[OPS[tag][0]] = ref[tag]
                ck.equal(snap(d), model, "history", "%s after %r" % (tag, h))
                ck.step()
            ck.true(here or snap(away) == mine, "other folder", lambda: "accepted and refused calls after %r in a named folder changed files of the current folder" % (h,))
            ck.state(tuple(sorted((k, v) for k, v in model.items())))
            ck.trace()
        finally:
            os.chdir(tmp)
            shutil.rmtree(d)


def links(ck, io, tmp):
    """the requested file is another name of some other file"""
    OPS = ops()
    for tag, how in ck.cases("links", itertools.product([k for k, v in OPS.items() if v[0] and not k.startswith("msk")], ("symbolic", "hard", "folder"))):
        target, fn = OPS[tag]
        d = os.path.join(tmp, "l")
        os.makedirs(os.path.join(d, "w"))
        os.mkdir(os.path.join(d, "e"))
        try:
            fn(io, os.path.join(d, "e"))
            want = snap(os.path.join(d, "e"))[target]
            master = os.path.join(d, "master.chi")
            with open(master, "wb") as f:
                f.write(b"theirs")
            w = os.path.join(d, "w")
            if how == "symbolic":
                os.symlink(master, os.path.join(w, target))
            elif how == "hard":
                os.link(master, os.path.join(w, target))
            else:  # the folder itself is reached by another name
                os.symlink(w, os.path.join(d, "v"))
                with open(os.path.join(w, target), "wb") as f:
                    f.write(b"old")
                w = os.path.join(d, "v")
            for _ in range(2):
                fn(io, w)
                ck.equal(open(os.path.join(w, target), "rb").read(), want, "links", "%s over a %s link" % (tag, how))
                ck.equal(open(master, "rb").read() if os.path.exists(master) else None, b"theirs", "links/other file", "%s over a %s link" % (tag, how))
                ck.equal(sorted(os.listdir(w)), [target], "links/files", "%s over a %s link" % (tag, how))
                ck.step()
            ck.state("link", tag, how)
        finally:
            shutil.rmtree(d)


def faults(ck, io, tmp):
    """the file system stops accepting bytes at every possible position"""
    OPS = ops()
    for tag in ck.cases("disk full", [k for k, v in OPS.items() if v[0] and not k.startswith("msk") and " " not in k]):
        target, fn = OPS[tag]
        d = os.path.join(tmp, "q")
        os.mkdir(d)
        try:
            fn(io, d)
            full = snap(d)[target]
            with open(os.path.join(d, "other.chi"), "wb") as f:
                f.write(b"theirs")
            ks = sorted(set(list(range(0, len(full) + 2, 1)) + [len(full) - 1, len(full)]))
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            for k in ks:
                err = None
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
                try:
                    fn(io, d)
                except Exception as e:
                    err = e
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                s = snap(d)
                if k >= len(full):
                    ck.true(err is None, "disk full", "%s failed with room for all %d bytes: %r" % (tag, len(full), err))
                ck.true(err is not None or s.get(target) == full, "disk full", "%s reported success but wrote %d of %d bytes" % (tag, len(s.get(target, b"")), len(full)))
                ck.true(err is None or isinstance(err, OSError), "disk full", "%s: %r" % (tag, err))
                ck.equal(s.get("other.chi"), b"theirs", "disk full", "another file changed")
                ck.step()
            fn(io, d)
            ck.equal(snap(d)[target], full, "retry", "%s written again after a failure" % tag)
            ck.state("fault", tag)
        finally:
            shutil.rmtree(d)
