"""C21 - XRF linear fits: optimal non-negative amplitudes, additive results, maps independent of the worker schedule."""
import copy
import itertools
import math
import multiprocessing
import multiprocessing.pool
import pickle

import numpy as np

from vc.harness import freeze, unchanged
from checks.c20 import SER, base_params, line_id, ref_compton, ref_elastic, ref_element, xr, z_of


def run(ck):
    from skbeam.core.fitting import xrf_model as X
    optimal(ck, X)
    spectrum(ck, X)
    rows(ck, X)
    pool(ck, X)
    areas(ck, X)
    every_line(ck, X)
    recovered(ck, X)
    long_rows(ck, X)


def best_residual(A, y):
    """smallest |Ax-y| with x>=0, by trying every set of non-zero columns"""
    m = A.shape[1]
    best = float(np.linalg.norm(y))
    for r in range(1, m + 1):
        for S in itertools.combinations(range(m), r):
            x = np.linalg.lstsq(A[:, S], y, rcond=None)[0]
            if np.all(x >= -1e-12):
                best = min(best, float(np.linalg.norm(A[:, S] @ x - y)))
    return best


def check_fit(ck, out, res, A, y, w, what):
    out = np.asarray(out, float)
    ck.equal(out.shape, (A.shape[1],), "nnls/shape", what)
    ck.true(np.all(out >= 0), "nnls/negative", lambda: "%s: %s" % (what, out))
    sw = np.ones(len(y)) if w is None else np.sqrt(np.asarray(w, float))
    Aw, yw = A * sw[:, None], y * sw
    got = float(np.linalg.norm(Aw @ out - yw))
    want = best_residual(Aw, yw)
    ck.true(abs(got - want) <= 1e-8 * (1 + abs(want)), "nnls/optimal", lambda: "%s: solution %s leaves %g, possible %g" % (what, out, got, want))
    ck.true(abs(float(res) - want) <= 1e-8 * (1 + abs(want)), "nnls/residual", lambda: "%s: reported residual %g, is %g" % (what, res, want))


def optimal(ck, X):
    ys = [(0, 0, 0), (1, 2, 0), (3, 1, 2), (-1, 2, 2), (2, 2, 2)]
    ws = [None, (1, 1, 1), (4, 1, 0), (0, 9, 1)]
    for flat in ck.cases("amplitudes", itertools.product((0, 1, 2), repeat=6)):
        A = np.array(flat, float).reshape(3, 2)
        for y, w in itertools.product(ys, ws):
            y = np.array(y, float)
            ww = None if w is None else np.array(w, float)
            args = (y, A, ww)
            before = freeze(*args)
            out, res = X.nnls_fit(y, A, weights=ww)
            ck.true(unchanged(before, *args), "nnls/input modified", "nnls_fit")
            check_fit(ck, out, res, A, y, w, "A=%s y=%s weights=%s" % (A.tolist(), y.tolist(), w))
            ck.step()
        ck.state("nn", flat)
    for k, n, m in ck.cases("larger", itertools.product(range(6), (4, 6, 9), (1, 3, 4))):
        A = np.array([[math.exp(-((i - j * n / m) ** 2) / (1 + k)) for j in range(m)] for i in range(n)])
        y = np.array([(5 * i * i + k) % 7 - 1.0 for i in range(n)])
        for w in (None, [1.0 + (i * k) % 3 for i in range(n)]):
            out, res = X.nnls_fit(y, A, weights=w)
            check_fit(ck, out, res, A, y, w, "gaussians %s" % ((k, n, m),))
            ck.step()


def params(en=12.0, bw=0.5):
    p = base_params()
    p["coherent_sct_energy"].update(value=en, min=en - 2, max=en + 2)
    p["non_fitting_values"]["background_width"] = bw
    return p


def spectrum(ck, X):
    pool_ = ["Fe_K", "Ca_K", "Ce_L", "Pt_M", "Ag_K", "Ca_Ka1-Ca_Ka1"]
    combos = [c for n in (0, 1, 2, 3) for c in itertools.permutations(pool_, n)]
    if not ck.thorough:
        combos = [c for c in combos if len(c) < 3] + [c for c in combos if len(c) == 3 and c[0] < c[2]][::2]
    x = np.arange(0, 1400)
    for combo, wi in ck.cases("linear fit", itertools.product(combos, (0, 1, 2, 3))):
        x = np.arange(0, 1400) if wi != 2 else np.arange(130, 1400)   # a spectrum cut at its lower end keeps its channel numbers
        p = params(bw=0.5 if wi else 0.2)
        if wi:
            p["e_quadratic"]["value"], p["e_offset"]["value"] = 2.5e-7, 0.013
        cols = {e: ref_element(p, x, e, 100) for e in combo}
        live = [e for e in combo if cols[e][0] is not None]
        names = live + ["compton", "elastic"]
        mat = np.array([cols[e][0] for e in live] + [ref_compton(p, x), ref_elastic(p, x)]).T
        ar = {e: cols[e][1] if cols[e][2:] == () else cols[e][2] for e in live}
        coef = [0.5 + 3.0 * i for i in range(len(names))]
        if len(live) > 1:
            coef[0] = 0.0 if wi < 2 else 1e-8 if wi == 2 else 0.25
        y = mat @ np.array(coef) + 5 + 3 * np.cos(x / 90.0)
        if wi == 3:
            y = y * 1e-9   # faint spectra, normalised by the incident flux, say
        w = None if wi != 1 else 1.0 / (1 + y)
        args = (x, y, w)
        before, pb = freeze(*args), copy.deepcopy(p)
        lines = list(combo)
        xe, res, area = X.linear_spectrum_fitting(x, y, p, lines, weights=w)
        ck.true(unchanged(before, *args) and p == pb and lines == list(combo), "linear/input modified", "%s" % (combo,))
        ck.close(xe, pb["e_offset"]["value"] + pb["e_linear"]["value"] * x + pb["e_quadratic"]["value"] * x ** 2.0, "linear/energy", "energy axis")
        bg = X.snip_method(y, pb["e_offset"]["value"], pb["e_linear"]["value"], pb["e_quadratic"]["value"], width=pb["non_fitting_values"]["background_width"])
        ck.close(res["background"], bg, "linear/background", "%s" % (combo,))
        ck.close(area["background"], math.fsum(bg), "linear/background area", "%s" % (combo,))
        ck.equal(set(res), set(area), "linear/names", "spectra and areas")
        ck.true(set(res) <= set(names) | {"background"}, "linear/names", lambda: "%s reported for %s" % (sorted(res), combo))
        # every amplitude, through area and through spectrum
        amp = np.zeros(len(names))
        for i, nm in enumerate(names):
            if nm not in res:
                continue
            a0 = ar[nm] if nm in ar else {"compton": p["compton_amplitude"]["value"], "elastic": p["coherent_sct_amplitude"]["value"]}[nm]
            amp[i] = area[nm] / a0
            ck.close(res[nm], amp[i] * mat[:, i], "linear/spectrum", "%s of %s" % (nm, combo), rtol=1e-6, atol=1e-7)
        # optimality (Karush-Kuhn-Tucker): no amplitude can be changed with profit
        sw = np.ones(len(x)) if w is None else np.sqrt(w)
        Aw, r = mat * sw[:, None], (y - bg - mat @ amp) * sw
        g = Aw.T @ r
        scale = np.linalg.norm(Aw, axis=0) * (np.linalg.norm((y - bg) * sw) + 1e-30)
        ck.true(np.all(amp >= 0), "linear/negative", lambda: "%s" % amp)
        for i, nm in enumerate(names):
            ok = g[i] <= 1e-7 * scale[i] and (amp[i] == 0 or abs(g[i]) <= 1e-7 * scale[i])
            ck.true(ok, "linear/optimal", lambda: "%s of %s: amplitude %g, gradient %g" % (nm, combo, amp[i], g[i] / scale[i]))
        ck.state("lin", combo, wi)
        ck.outcome(tuple(sorted(res)))
        ck.step()


def snip(X, y, p):
    return X.snip_method(y, p["e_offset"]["value"], p["e_linear"]["value"], p["e_quadratic"]["value"], width=p["non_fitting_values"]["background_width"])


def make(n_rows, n_cols, n=60, seed=0):
    mat = np.array([[math.exp(-((i - c) / 4.0) ** 2) for c in (12, 30, 44)] for i in range(n)])
    d = np.zeros((n_rows, n_cols, n))
    for r in range(n_rows):
        for c in range(n_cols):
            d[r, c] = mat @ [10.0 + r + seed, 3.0 * c, 1.0 + 7 * r * c] + 2 + ((np.arange(n) * (3 + r + 2 * c)) % 7) / 7.0
    return d, mat


def ref_row(X, data, mat, p, use_snip):
    out = []
    for y in data:
        bg = snip(X, y, p) if use_snip else np.zeros(len(y))
        t = y - bg
        best, bx = None, None
        m = mat.shape[1]
        for r in range(0, m + 1):
            for S in itertools.combinations(range(m), r):
                z = np.zeros(m)
                if S:
                    z[list(S)] = np.linalg.lstsq(mat[:, S], t, rcond=None)[0]
                if np.all(z >= 0):
                    v = float(np.sum((mat @ z - t) ** 2))
                    if best is None or v < best - 1e-12:
                        best, bx = v, z
        sst = math.fsum((y - math.fsum(y) / len(y)) ** 2)
        out.append(list(bx) + [math.fsum(bg), 1 - best / sst if sst else math.nan])
    return np.array(out)


def rows(ck, X):
    for n_cols, us, seed in ck.cases("rows", itertools.product(range(1, 5), (False, True), range(4))):
        p = params()
        d, mat = make(1, n_cols, seed=seed)
        before = freeze(d, mat)
        pb = copy.deepcopy(p)
        out = X.fit_per_line_nnls(d[0], mat, p, us)
        ck.true(unchanged(before, d, mat) and p == pb, "row/input modified", "fit_per_line_nnls")
        want = ref_row(X, d[0], mat, p, us)
        ck.close(out, want, "row/values", "%d pixels, snip %s" % (n_cols, us), rtol=1e-7, atol=1e-8)
        for c in range(n_cols):  # each pixel on its own
            ck.close(X.fit_per_line_nnls(d[0][c:c + 1], mat, p, us)[0], want[c], "row/pixel alone", "pixel %d" % c, rtol=1e-7, atol=1e-8)
            ck.step()
        for perm in itertools.permutations(range(n_cols)):
            ck.close(X.fit_per_line_nnls(d[0][list(perm)], mat, p, us), want[list(perm)], "row/order", "%s" % (perm,), rtol=1e-7, atol=1e-8)
            ck.step()
        ck.state("row", n_cols, us, seed)
    # every sequence of pixel kinds: dark, flat, one channel, ordinary, faint, strong
    d, mat = make(1, 3)
    n = d.shape[-1]
    kinds = {"dark": np.zeros(n), "flat": np.full(n, 4.0), "spike": np.where(np.arange(n) == 30, 50.0, 0.0), "normal": d[0, 1], "faint": d[0, 2] * 1e-6,
             "strong": d[0, 1] * 1e6}
    for k, us in ck.cases("pixel kinds", itertools.product(itertools.chain(*(itertools.product(sorted(kinds), repeat=q) for q in (1, 2, 3))), (False, True))):
        p = params()
        data = np.array([kinds[v] for v in k])
        with np.errstate(all="ignore"):
            out = np.asarray(X.fit_per_line_nnls(data, mat, p, us))
            ck.equal(out.shape, (len(k), 5), "row/shape", "%s" % (k,))
            want = kind_results(X, kinds, mat, p, us)
        for i, v in enumerate(k):
            s = max(1e-30, float(np.max(kinds[v])))
            ck.close(out[i, :4], want[v][:4], "row/kinds", "pixel %d of %s, snip %s" % (i, k, us), rtol=1e-6, atol=1e-8 * s)
            if v not in ("dark", "flat"):
                ck.close(out[i, 4], want[v][4], "row/kinds", "r squared of pixel %d of %s, snip %s" % (i, k, us), rtol=1e-6, atol=1e-6)
        ck.state("kinds", k, us)
        ck.step()


KINDS = {}


def kind_results(X, kinds, mat, p, us):
    if us not in KINDS:
        KINDS[us] = {}
        for v, y in kinds.items():
            s = float(np.max(y)) or 1.0
            bg = snip(X, y, p) if us else np.zeros(len(y))
            row = ref_row(None, [(y - bg) / s], mat, p, False)[0] if v != "dark" else np.zeros(5)
            best = float(np.sum((mat @ row[:3] - (y - bg) / s) ** 2)) * s * s
            sst = math.fsum((y - math.fsum(y) / len(y)) ** 2)
            KINDS[us][v] = list(row[:3] * s) + [math.fsum(bg), 1 - best / sst if sst else math.nan]
    return KINDS[us]


# --- a pool whose tasks complete in a prescribed order ----------------------
class Unsupported(Exception):
    pass


class Res:
    def __init__(self, p, k):
        self.p, self.k = p, k

    def get(self, timeout=None):
        v = self.p._wait(self.k)
        if v[0] == "err":
            raise v[1]
        return pickle.loads(v[1])

    def wait(self, timeout=None):
        self.p._wait(self.k)

    def ready(self):
        return self.k in self.p.done

    def successful(self):
        return self.p.done[self.k][0] == "ok"


class Many:
    def __init__(self, rs):
        self.rs = rs

    def get(self, timeout=None):
        return [r.get() for r in self.rs]

    def wait(self, timeout=None):
        for r in self.rs:
            r.wait()

    def ready(self):
        return all(r.ready() for r in self.rs)

    def successful(self):
        return all(r.successful() for r in self.rs)


class FakePool:
    """Every task runs in isolation (arguments and result go through pickle);
    tasks complete in the order given by ``order`` (a priority list)."""
    order = ()
    log = []

    def __init__(self, *a, **k):
        self.todo, self.done, self.seq, self.n, self.alive = {}, {}, [], 0, True
        init = k.get("initializer", a[1] if len(a) > 1 else None)
        if init is not None:
            init(*k.get("initargs", a[2] if len(a) > 2 else ()))

    def _submit(self, f, args, kw, cb=None, ecb=None):
        if not self.alive:
            raise ValueError("Pool not running")
        k = self.n
        self.n += 1
        self.todo[k] = (pickle.dumps((f, args, kw)), cb, ecb)
        return Res(self, k)

    def _pick(self):
        for k in self.order:
            if k in self.todo:
                return k
        return min(self.todo)

    def _one(self):
        k = self._pick()
        blob, cb, ecb = self.todo.pop(k)
        f, a, kw = pickle.loads(blob)
        try:
            self.done[k] = ("ok", pickle.dumps(f(*a, **kw)))
        except Exception as e:
            self.done[k] = ("err", e)
        self.seq.append(k)
        if self.done[k][0] == "ok" and cb:
            cb(pickle.loads(self.done[k][1]))
        if self.done[k][0] == "err" and ecb:
            ecb(self.done[k][1])

    def _wait(self, k):
        while k not in self.done:
            if not self.alive or not self.todo:
                raise Unsupported("waiting for a task of a stopped pool: this would block for ever")
            self._one()
        return self.done[k]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit(func, tuple(args), dict(kwds), callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def starmap_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        m = Many([self._submit(func, tuple(a), {}) for a in it])
        if callback:
            callback(m.get())
        return m

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return self.starmap_async(func, [(a,) for a in it], chunksize, callback, error_callback)

    def starmap(self, func, it, chunksize=None):
        return self.starmap_async(func, it).get()

    def map(self, func, it, chunksize=None):
        return self.map_async(func, it).get()

    def imap(self, func, it, chunksize=1):
        rs = [self._submit(func, (a,), {}) for a in it]
        return iter([r.get() for r in rs])

    def imap_unordered(self, func, it, chunksize=1):
        rs = {r.k: r for r in [self._submit(func, (a,), {}) for a in it]}
        while any(k in self.todo for k in rs):
            self._one()
        return iter([rs[k].get() for k in self.seq if k in rs])

    def close(self):
        pass

    def terminate(self):
        self.alive = False
        self.todo.clear()

    def join(self):
        while self.todo:
            self._one()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class Patched:
    """replaces the process pool while a schedule is explored"""

    def __init__(self, X, order, cpus):
        self.X, self.order, self.cpus = X, order, cpus

    def __enter__(self):
        FakePool.order = self.order
        FakePool.used = 0
        made = []

        def factory(*a, **k):
            p = FakePool(*a, **k)
            made.append(p)
            return p
        self.made = made
        self.saved = []
        for owner, name, v in ((multiprocessing, "Pool", factory), (multiprocessing.pool, "Pool", factory), (multiprocessing, "cpu_count", lambda: self.cpus),
                               (self.X, "Pool", factory), (self.X, "cpu_count", lambda: self.cpus)):
            if hasattr(owner, name):
                self.saved.append((owner, name, getattr(owner, name)))
                setattr(owner, name, v)
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            setattr(o, n, v)


def pool(ck, X):
    cases = [(n, us, cpus) for n in range(1, 6 if ck.thorough else 5) for us in (False, True) for cpus in (1, 2, 8)]
    for n, us, cpus in ck.cases("worker schedules", cases, limit=300):
        d, mat = make(n, 2)
        p = params()
        want = np.array([ref_row(X, r, mat, p, us) for r in d])
        for perm in itertools.permutations(range(n)):
            before = freeze(d, mat)
            with Patched(X, perm, cpus) as pt:
                out = X.fit_pixel_multiprocess_nnls(d, mat, p, use_snip=us)
            ck.true(unchanged(before, d, mat), "map/input modified", "exp_data or matrix")
            ck.close(out, want, "map/values", "%d rows, completion order %s" % (n, perm), rtol=1e-7, atol=1e-8)
            ck.state("sched", n, us, cpus, tuple(tuple(q.seq) for q in pt.made))
            ck.step(n)
            ck.trace()
    # a row that cannot be fitted is an error, whatever the others do
    n = 3
    for bad, perm in ck.cases("failing row", itertools.product(range(n), itertools.permutations(range(n)))):
        d, mat = make(n, 2)
        data = [r for r in d]
        data[bad] = d[bad][:, :40]
        with Patched(X, perm, 4):
            try:
                r = X.fit_pixel_multiprocess_nnls(data, mat, params())
            except Unsupported:
                raise
            except Exception:
                r = None
        ck.true(r is None, "map/error lost", lambda: "row %d cannot be fitted, but a result was returned" % bad)
        ck.step(n)
    for n, us in ck.cases("real processes", [(3, True), (11, False)], limit=200):
        d, mat = make(n, 2)
        p = params()
        out = X.fit_pixel_multiprocess_nnls(d, mat, p, use_snip=us)
        want = np.array([ref_row(X, r, mat, p, us) for r in d])
        ck.close(out, want, "map/real pool", "%d rows" % n, rtol=1e-7, atol=1e-8)
        # the map goes straight into the areas
        m = X.calculate_area(["a", "b", "c"], mat, out, p)
        for i, e in enumerate("abc"):
            ck.close(m[e], want[:, :, i] * math.fsum(mat[:, i]), "map/areas", "%d rows" % n, rtol=1e-6, atol=1e-6)
        ck.close(m["r_squared"], want[:, :, 4], "map/areas", "%d rows" % n, rtol=1e-6, atol=1e-6)
        ck.trace()


def cs_ratio(el, energy):
    sym, ser = el.split("_")
    x = xr()
    vals = []
    for l in SER[ser]:
        try:
            vals.append(x.CS_FluorLine_Kissel(z_of(sym), line_id(l), energy))
        except ValueError:
            vals.append(0.0)
    return vals[0] / math.fsum(vals)


def areas(ck, X):
    names = ["Fe_K", "Ca_K", "Ce_L", "Pt_M", "compton", "elastic", "user_peak1", "Ca_Ka1-Ca_Ka1"]
    for sel, first, en in ck.cases("areas", itertools.product([c for n in (1, 2, 3) for c in itertools.permutations(names, n)], (False, True), (12.0, 15.0, 12.37, 17.9))):
        k = len(sel)
        mat = np.array([[(3 * i + 5 * j * j) % 7 + 0.5 for j in range(k)] for i in range(5)])
        res = np.arange(2 * 3 * (k + 2), dtype=float).reshape(2, 3, k + 2)
        p = params(en)
        lst = list(sel)
        before = freeze(mat, res)
        m = X.calculate_area(lst, mat, res, p, first_peak_area=first) if first or en == 12.0 else X.calculate_area(lst, mat, res, p)
        ck.true(unchanged(before, mat, res) and lst == list(sel), "area/input modified", "%s" % (sel,))
        ck.equal(set(m), set(sel) | {"snip_bkg", "r_squared"}, "area/names", "%s" % (sel,))
        for i, e in enumerate(sel):
            f = cs_ratio(e, en) if first and e[-2:] in ("_K", "_L", "_M") else 1.0
            ck.close(m[e], res[:, :, i] * math.fsum(mat[:, i]) * f, "area/values", "%s of %s first=%s" % (e, sel, first), rtol=1e-9)
        ck.close(m["snip_bkg"], res[:, :, k], "area/background", "%s" % (sel,))
        ck.close(m["r_squared"], res[:, :, k + 1], "area/r squared", "%s" % (sel,))
        ck.state("area", sel, first, en)
        ck.step()
    for el in ck.cases("first line share", X.K_LINE + X.L_LINE + X.M_LINE):
        for en in (5.0, 12.0, 20.0):
            try:
                w = cs_ratio(el, en)
            except ZeroDivisionError:
                continue
            ck.close(X.get_relative_cs_ratio(el, en), w, "share", "%s at %s" % (el, en))
            ck.step()


def every_line(ck, X):
    """no element list: every element the library offers takes part"""
    x = np.arange(0, 1400, 5)
    offered = [e for s in (X.K_LINE, X.L_LINE, X.M_LINE) for e in s]
    for en, peaks in ck.cases("every line", itertools.product((5.0, 12.0), (("Ca_K",), ("Fe_K", "Ce_L"), ())), limit=200):
        p = params(en)
        y = 4.0 + 2 * np.cos(x / 90.0)
        for i, e in enumerate(peaks):
            c = ref_element(p, x, e, 100)[0]
            if c is not None:
                y = y + (i + 2.0) * c
        xe, res, area = X.linear_spectrum_fitting(x, y, p)
        x2, res2, area2 = X.linear_spectrum_fitting(x, y, p, list(offered))
        ck.equal(list(res), list(res2), "every line/names", "at %s keV" % en)
        for n in res:
            ck.close(res[n], res2[n], "every line/spectrum", "%s at %s keV" % (n, en), rtol=1e-6, atol=1e-7)
            ck.close(area[n], area2[n], "every line/area", "%s at %s keV" % (n, en), rtol=1e-6, atol=1e-7)
        cols = [(e, ref_element(p, x, e, 100)[0]) for e in offered]
        cols = [(e, c) for e, c in cols if c is not None] + [("compton", ref_compton(p, x)), ("elastic", ref_elastic(p, x))]
        bg = snip(X, y, p)
        r = y - bg - sum((res[n] for n in res if n != "background"), np.zeros(len(x)))
        for e, c in cols:  # no absent element would improve the fit
            s = np.linalg.norm(c) * np.linalg.norm(y)
            g = float(c @ r)
            ck.true(g <= 1e-6 * s, "every line/optimal", lambda: "%s at %s keV would improve the fit (%g)" % (e, en, g / s))
            ck.step()
        ck.state("every", en, peaks)


def recovered(ck, X):
    """a spectrum made from the model is fitted back to the values it was made from"""
    x = np.arange(100, 1400, 3)
    sets = [("Fe_K",), ("Ca_K", "Fe_K"), ("Fe_K", "Ce_L"), ("Pt_M", "Zn_K"), ("Fe_K", "Ca_Ka1-Ca_Ka1"), ("user_peak1", "Ca_K")]
    todo = [(s, st, w, sc) for s in sets for st in ("linear", "e_calibration", "adjust_element") for w in (None, 1) for sc in (0.5, 3.0)]
    for els, strat, w, scale in ck.cases("recovered", todo, limit=300):
        c = X.ParamController(params(), list(els))
        names = []
        for e in els:
            if "user" in e:
                names.append(e + "_area")
            elif "-" in e:
                names.append("pileup_" + e.replace("-", "_") + "_area")
            else:
                names.append("%s_%s_area" % (e.split("_")[0], SER[e.split("_")[1]][0]))
        start = copy.deepcopy(c.params)
        true = copy.deepcopy(c.params)
        for i, n in enumerate(names):
            true[n]["value"] = 2000.0 * scale * (i + 1)
        true["compton_amplitude"]["value"] = 1500.0 * scale
        true["coherent_sct_amplitude"]["value"] = 900.0 * scale
        moved = []
        if strat == "e_calibration":
            true["e_offset"]["value"] += 0.004
            true["e_linear"]["value"] *= 1.001
            moved = ["e_offset", "e_linear"]
        if strat == "adjust_element":
            true["compton_fwhm_corr"]["value"] *= 1.05
            moved = ["compton_fwhm_corr"]
        y = ref_compton(true, x) + ref_elastic(true, x)
        for e in els:
            y = y + ref_element(true, x, e, 0)[0]
        c.update_element_prop(list(els), area="none")
        for n in names:
            c.params[n]["value"] = start[n]["value"]
        c.params["compton_amplitude"]["value"] = 1300.0 * scale
        c.params["coherent_sct_amplitude"]["value"] = 1000.0 * scale
        c.set_strategy(strat)
        pb = copy.deepcopy(c.params)
        m = X.ModelSpectrum(c.params, list(els))
        m.assemble_models()
        ww = None if w is None else 1.0 / np.sqrt(1.0 + y)
        args = (x, y, ww)
        before = freeze(*args)
        r = m.model_fit(x, y, weights=ww)
        ck.true(unchanged(before, *args) and c.params == pb, "recovered/input modified", "%s" % (els,))
        where = "%s with %s, weights %s" % (els, strat, w)
        ck.close(r.best_fit, y, "recovered/spectrum", where, rtol=1e-3, atol=1e-3 * float(np.max(y)))
        for n, want in [(n, true[n]["value"]) for n in names] + [("compton_amplitude", 1500.0 * scale), ("elastic_coherent_sct_amplitude", 900.0 * scale)]:
            ck.close(r.values[n], want, "recovered/area", "%s of %s" % (n, where), rtol=1e-2)
        for n in moved:
            ck.close(r.values[n], true[n]["value"], "recovered/parameter", "%s of %s" % (n, where), rtol=1e-2, atol=2e-4)
        for n in ("e_offset", "e_linear", "e_quadratic", "fwhm_offset", "fwhm_fanoprime", "coherent_sct_energy", "compton_angle", "compton_gamma"):
            if n not in moved:
                ck.equal(r.values[n], pb[n]["value"], "recovered/kept", "%s of %s" % (n, where))
        new = copy.deepcopy(c.params)
        X.update_parameter_dict(new, r)
        for n in names + moved + ["compton_amplitude"]:
            ck.close(new[n]["value"], r.values[n], "recovered/written back", "%s of %s" % (n, where))
        ck.close(new["coherent_sct_amplitude"]["value"], r.values["elastic_coherent_sct_amplitude"], "recovered/written back", where)
        for e, n in zip(els, names):
            if e[-2:] in ("_K", "_L", "_M"):
                ck.close(X.sum_area(e, r), r.values[n] / cs_ratio(e, 12.0), "recovered/total area", "%s of %s" % (e, where), rtol=1e-6)
        ck.state("rec", els, strat, w, scale)
        ck.step()
        ck.trace()


def long_rows(ck, X):
    """rows and maps of many pixels; spectra of counts; more elements"""
    for n_cols, us, dt in ck.cases("long rows", itertools.product((17, 64, 257), (False, True), ("f8", "i4", "u2")), limit=200):
        p = params()
        d, mat = make(1, n_cols, seed=1)
        d = np.round(d % 5000).astype(dt)
        before = freeze(d, mat)
        out = X.fit_per_line_nnls(d[0], mat, p, us)
        ck.true(unchanged(before, d, mat), "row/input modified", "fit_per_line_nnls")
        ck.close(out, ref_row(X, d[0].astype(float), mat, p, us), "row/long", "%d pixels of %s, snip %s" % (n_cols, dt, us), rtol=1e-7, atol=1e-7)
        ck.state("long", n_cols, us, dt)
        ck.step(n_cols)
    for n, cols, cpus in ck.cases("long maps", ((40, 3, 3), (130, 1, 8), (300, 2, 16)), limit=200):
        d, mat = make(n, cols)
        p = params()
        want = np.array([ref_row(X, r, mat, p, False) for r in d])
        for order in (range(n), range(n - 1, -1, -1), sorted(range(n), key=lambda k: (k * 37) % n)):
            with Patched(X, tuple(order), cpus):
                out = X.fit_pixel_multiprocess_nnls(d, mat, p)
            ck.close(out, want, "map/long", "%d rows" % n, rtol=1e-7, atol=1e-8)
            ck.step(n)
            ck.trace()
