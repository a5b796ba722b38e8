"""C24 - peak shapes and count distributions: defined values, stated area, position and width, for every parameter."""
import inspect
import itertools
import math

import numpy as np

from vc.harness import freeze, unchanged

AREAS = [1.0, 0.25, 300.0, 0.0, -2.0]
CENTERS = [0.0, -3.5, 12.0, 5]
SIGMAS = [0.05, 0.5, 1, 4.0]
U = [0.0, 0.1, 0.5, 1.0, 1.7, 2.5, 4.0, 9.0]
OFFS = sorted(set(U) | {-u for u in U})


def run(ck):
    from skbeam.core.fitting import lineshapes as L
    from skbeam.core.fitting import models as M
    peaks(ck, L)
    areas(ck, L)
    voigts(ck, L)
    scatter(ck, L)
    counts(ck, L)
    models(ck, L, M)
    stated(ck, L)


def g(x, a, c, s):
    return a / (s * math.sqrt(2 * math.pi)) * math.exp(-((x - c) / s) ** 2 / 2)


def lz(x, a, c, s):
    return a / (math.pi * s) / (1 + ((x - c) / s) ** 2)


def lz2(x, a, c, s):
    return a / (math.pi * s) / (1 + ((x - c) / s) ** 2) ** 2


def step(x, a, c, s, e):
    return a * math.erfc((x - c) / (math.sqrt(2) * s)) / (2 * e)


def tail(x, a, c, s, gm):
    return a * math.exp(min(x - c, 0) / (gm * s)) * math.erfc((x - c) / (math.sqrt(2) * s) + 1 / (gm * math.sqrt(2))) / (
        2 * gm * s * math.exp(-0.5 / gm ** 2))


def same(ck, f, args, x, want, key, rtol=1e-9):
    x = np.array(x)
    before = freeze(x)
    got = f(x, *args)
    ck.true(unchanged(before, x), key + "/input modified", "%s" % (args,))
    ck.close(got, want, key, "%s%s" % (f.__name__, args), rtol=rtol, atol=1e-300)
    ck.step()
    return got


def peaks(ck, L):
    for a, c, s in ck.cases("simple peaks", itertools.product(AREAS, CENTERS, SIGMAS)):
        xs = [c + u * s for u in OFFS]
        for f, ref in ((L.gaussian, g), (L.lorentzian, lz), (L.lorentzian2, lz2)):
            got = same(ck, f, (a, c, s), xs, [ref(x, a, c, s) for x in xs], f.__name__)
            n = len(OFFS)
            ck.close(got[::-1], got, f.__name__ + "/symmetric", "%s" % ((a, c, s),), rtol=1e-6)  # mirror image about the centre
            ck.true(a == 0 or abs(got[n // 2]) >= np.max(np.abs(got)) * (1 - 1e-12), f.__name__ + "/highest at the centre", "%s" % ((a, c, s),))
            # one value at a time, another shape, integers
            ck.close([float(f(np.float64(x), a, c, s)) for x in xs], got, f.__name__ + "/pointwise", "%s" % ((a, c, s),), rtol=1e-12)
            ck.close(f(np.array([xs, xs]), a, c, s), [got, got], f.__name__ + "/2-D", "", rtol=1e-12)
            xi = np.arange(-3, 14)
            ck.close(f(xi, a, c, s), [ref(int(x), a, c, s) for x in xi], f.__name__ + "/integers", "%s" % ((a, c, s),), rtol=1e-9, atol=1e-300)
        for fr in (0, 0.3, 1, 0.5):
            same(ck, L.pvoigt, (a, c, s, fr), xs, [(1 - fr) * g(x, a, c, s) + fr * lz(x, a, c, s) for x in xs], "pvoigt")
        for e in (1.0, 7.5):
            same(ck, L.gausssian_step, (a, c, s, e), xs, [step(x, a, c, s, e) for x in xs], "step")
        for gm in (0.3, 1.0, 2, 10.0):
            same(ck, L.gaussian_tail, (a, c, s, gm), xs, [tail(x, a, c, s, gm) for x in xs], "tail")
        ck.state("pk", a, c, s)
    for name, args in ck.cases("lists", [("gaussian", (2.0, 1.0, 0.5)), ("lorentzian", (2.0, 1.0, 0.5))]):
        f = getattr(L, name)
        ck.close(f(np.array([0, 1, 2]), *args), f(np.array([0.0, 1.0, 2.0]), *args), name + "/integer input", "", rtol=1e-12)


    # extreme widths and centres, long grids
    for a, c, s in ck.cases("extreme peaks", itertools.product((1e-12, 1.0, 1e12), (0.0, 1e7, -1e-7), (1e-9, 1e-4, 1e4, 1e9))):
        if abs(c) > 1e6 * s:
            continue
        xs = [c + u * s for u in OFFS]
        for f, ref in ((L.gaussian, g), (L.lorentzian, lz), (L.lorentzian2, lz2)):
            same(ck, f, (a, c, s), xs, [ref(x, a, c, s) for x in xs], f.__name__, rtol=1e-7)
        same(ck, L.pvoigt, (a, c, s, 0.3), xs, [0.7 * g(x, a, c, s) + 0.3 * lz(x, a, c, s) for x in xs], "pvoigt", rtol=1e-7)
        ck.state("ext", a, c, s)
    for n in ck.cases("long grids", (300, 5000, 70000)):
        x = np.linspace(-50, 50, n)
        u = (x - 3.0) / 4.0
        gs = 5 / (4 * math.sqrt(2 * math.pi)) * np.exp(-u * u / 2)
        lo = 5 / (4 * math.pi) / (1 + u * u)
        for f, w, ex in ((L.gaussian, gs, ()), (L.lorentzian, lo, ()), (L.lorentzian2, 5 / (4 * math.pi) / (1 + u * u) ** 2, ()), (L.pvoigt, 0.25 * gs + 0.75 * lo, (0.75,))):
            ck.close(f(x, 5.0, 3.0, 4.0, *ex), w, "long grid", "%s on %d points" % (f.__name__, n), rtol=1e-9)
            ck.step()
        at = sorted({0, 1, 255, 256, n // 2, n - 2, n - 1})
        tl = L.gaussian_tail(x, 5.0, 3.0, 4.0, 2.0)
        st = L.gausssian_step(x, 5.0, 3.0, 4.0, 7.0)
        vo = L.voigt(x, 5.0, 3.0, 4.0, 2.0)
        for i in at:
            if i < n:
                ck.close([tl[i], st[i]], [tail(x[i], 5.0, 3.0, 4.0, 2.0), step(x[i], 5.0, 3.0, 4.0, 7.0)], "long grid", "tail and step at %d of %d" % (i, n), rtol=1e-9)
                ck.close(vo[i], L.voigt(np.array([x[i]]), 5.0, 3.0, 4.0, 2.0)[0], "long grid", "voigt at %d of %d" % (i, n), rtol=1e-12)
        ck.step(3)
        ck.state("long", n)


def areas(ck, L):
    """area under the curve, by the substitution x = c + s*tan(t) and the (spectrally exact) trapezoid rule"""
    n = 4001
    t = (np.arange(n) + 0.5) / n * math.pi - math.pi / 2
    for f, c, s, a in ck.cases("area", itertools.product(("gaussian", "lorentzian", "voigt", "pvoigt"), (0.0, -3.0, 8.0), (0.2, 1.0, 5.0), (1.0, 40.0))):
        x = c + s * np.tan(t)
        jac = s / np.cos(t) ** 2 * math.pi / n
        extra = {"voigt": [(), (0.5 * s,), (3 * s,)], "pvoigt": [(0.0,), (0.4,), (1.0,)]}.get(f, [()])
        for e in extra:
            v = math.fsum(getattr(L, f)(x, a, c, s, *e) * jac)
            ck.true(abs(v - a) <= 1e-6 * a, "area/" + f, lambda: "%s area %s center %s sigma %s %s integrates to %r" % (f, a, c, s, e, v))
            ck.step()
        ck.state("area", f, c, s, a)


def voigts(ck, L):
    """Voigt profile against its definition: the convolution of the two shapes"""
    n = 6001
    t = (np.arange(n) + 0.5) / n * math.pi - math.pi / 2
    for s, gm, c, a in ck.cases("voigt", itertools.product((0.3, 1.0, 2.5), (None, 0.2, 1.0, 4.0), (0.0, 3.0), (1.0, 7.0))):
        w = s if gm is None else gm
        xs = [c + u * (s + w) for u in (-4, -1.5, -0.3, 0, 0.7, 2, 6)]
        got = L.voigt(np.array(xs), a, c, s) if gm is None else L.voigt(np.array(xs), a, c, s, gm)
        k = w * np.tan(t)
        for x, v in zip(xs, got):
            want = math.fsum([g(x - q, a, c, s) for q in k]) / n
            ck.true(abs(v - want) <= 1e-5 * abs(want) + 1e-9, "voigt/convolution", lambda: "x=%s %s: %r, convolution %r" % (x, (a, c, s, gm), v, want))
        if gm is None:
            ck.close(L.voigt(np.array(xs), a, c, s, s), got, "voigt/default width", "", rtol=1e-13)
        # with no Lorentzian width at all it is the Gaussian, and a small one is still a Voigt profile of that width
        gs = [g(x, a, c, s) for x in xs]
        ck.close(L.voigt(np.array(xs), a, c, s, 0), gs, "voigt/no width", "%s" % ((a, c, s),), rtol=1e-6, atol=1e-12 * a)
        near = [x for x in xs if abs(x - c) < 3 * s]
        ck.close(L.voigt(np.array(near), a, c, s, 1e-7 * s), [g(x, a, c, s) for x in near], "voigt/small width", "%s" % ((a, c, s),), rtol=1e-4)
        ck.state("voigt", s, gm, c, a)
        ck.step()


BASE = dict(amp=1000.0, e0=12.0, fo=0.1, fp=1e-4, eo=0.0, el=0.01, eq=0.0, ang=90.0, corr=1.5, fs=0.01, ft=0.05, gm=2.0, hft=0.1, hgm=3.0)
ALT = dict(amp=[1.0, 0.0], e0=[9.0, 18.5], fo=[0.2], fp=[1.2e-3], eo=[0.2, -0.1], el=[0.02], eq=[1e-6], ang=[45.0, 0.0, 180.0], corr=[0.8],
           fs=[0.0, 0.5, 1e-4, 1e-9], ft=[0.0, 0.7, 1e-4, 1e-9], gm=[0.7, 9.0], hft=[0.0, 0.6, 1e-4, 1e-9], hgm=[0.5, 8.0])


def scatter(ck, L):
    x = np.arange(0, 2000, 37.0)
    t = 2 * math.sqrt(2 * math.log(2))
    cfgs = [dict(BASE)] + [dict(BASE, **{k: v}) for k in ALT for v in ALT[k]]
    cfgs += [dict(BASE, **{k: v, k2: v2}) for k, k2 in itertools.combinations(sorted(ALT), 2) for v, v2 in itertools.product(ALT[k][:1], ALT[k2][:1])]
    for p, eps in ck.cases("scatter peaks", itertools.product(cfgs, (None, 2.96, 3.61))):
        ep = 2.96 if eps is None else eps
        kw = {} if eps is None else {"epsilon": eps}
        E = [p["eo"] + p["el"] * v + p["eq"] * v * v for v in x]
        s = math.sqrt((p["fo"] / t) ** 2 + p["e0"] * ep * p["fp"])
        before = freeze(x)
        got = L.elastic(x, p["amp"], p["e0"], p["fo"], p["fp"], p["eo"], p["el"], p["eq"], **kw)
        ck.close(got, [g(e, p["amp"], p["e0"], s) for e in E], "elastic", "%s" % p, rtol=1e-8, atol=1e-280)
        ce = p["e0"] / (1 + p["e0"] / 511 * (1 - math.cos(math.radians(p["ang"]))))
        s = math.sqrt((p["fo"] / t) ** 2 + ce * ep * p["fp"])
        k = 1 / (1 + p["fs"] + p["ft"] + p["hft"])
        want = [k * (g(e, p["amp"], ce, s * p["corr"]) + p["fs"] * step(e, p["amp"], ce, s, ce) + p["ft"] * tail(e, p["amp"], ce, s, p["gm"])
                     + p["hft"] * tail(-e, p["amp"], -ce, s, p["hgm"])) for e in E]
        got = L.compton(x, p["amp"], p["e0"], p["fo"], p["fp"], p["eo"], p["el"], p["eq"], p["ang"], p["corr"], p["fs"], p["ft"], p["gm"], p["hft"], p["hgm"], **kw)
        ck.close(got, want, "compton", "%s" % p, rtol=1e-9, atol=1e-250)
        ck.true(unchanged(before, x), "scatter/input modified", "x")
        ck.state("sc", sorted(p.items()), eps)
        ck.step(2)


def counts(ck, L):
    ks = [0.2, 0.5, 1, 2, 5, 12, 40]
    ms = [1, 2, 4, 7, 2.5, 30, 0.25, 0.8]
    for K, M in ck.cases("distributions", itertools.product(ks, ms)):
        top = int(60 + K * 30)
        for bins in (np.arange(top), np.arange(top, dtype=float), np.arange(10)):
            before = freeze(bins)
            nb = [math.exp(math.lgamma(b + M) - math.lgamma(b + 1) - math.lgamma(M) + M * math.log(M / (K + M)) + b * math.log(K / (K + M))) for b in bins]
            po = [math.exp(b * math.log(K) - K - math.lgamma(b + 1)) for b in bins]
            ga = [(0.0 if M > 1 else (M / K) * math.exp(0.0) if M == 1 else math.inf) if b == 0 else
                  math.exp(M * math.log(M / K) + (M - 1) * math.log(b) - math.lgamma(M) - M * b / K) for b in bins]
            ck.close(L.nbinom_dist(bins, K, M), nb, "negative binomial", "K=%s M=%s up to %d" % (K, M, bins[-1]), rtol=1e-7, atol=1e-250)
            ck.close(L.poisson_dist(bins, K), po, "poisson", "K=%s up to %d" % (K, bins[-1]), rtol=1e-7, atol=1e-250)
            ck.close(L.gamma_dist(bins, K, M), ga, "gamma", "K=%s M=%s" % (K, M), rtol=1e-7, atol=1e-250)
            ck.true(unchanged(before, bins), "distributions/input modified", "bin_values")
            ck.step(3)
        b = np.arange(top)
        for nm, v in (("negative binomial", L.nbinom_dist(b, K, M)), ("poisson", L.poisson_dist(b, K))):
            if nm == "poisson" or K / M < 3:
                ck.true(abs(math.fsum(v) - 1) < 1e-6, nm + "/sums to one", lambda: "K=%s M=%s: %r" % (K, M, math.fsum(v)))
                ck.true(abs(math.fsum(v * b) - K) < 1e-4 * K, nm + "/mean", lambda: "K=%s M=%s: %r" % (K, M, math.fsum(v * b)))
        ck.state("dist", K, M)


    # no counts at all on average: always zero counts
    for M, n in ck.cases("mean of zero", itertools.product(ms, (1, 5, 300))):
        want = [1.0] + [0.0] * (n - 1)
        for b in (np.arange(n), np.arange(float(n))):
            ck.close(L.nbinom_dist(b, 0, M), want, "negative binomial", "K=0 M=%s" % M)
            ck.close(L.poisson_dist(b, 0), want, "poisson", "K=0")
            ck.step(2)
    # large mean counts and many bins
    for K, M in ck.cases("large counts", itertools.product((200, 1500.5, 20000), (1, 4, 30.5, 1000))):
        top = int(K * 4)
        b = np.arange(top) if K < 5000 else np.arange(int(K) - 3000, int(K) + 3000)
        po = [math.exp(v * math.log(K) - K - math.lgamma(v + 1)) for v in b.tolist()]
        nb = [math.exp(math.lgamma(v + M) - math.lgamma(v + 1) - math.lgamma(M) + M * math.log(M / (K + M)) + v * math.log(K / (K + M))) for v in b.tolist()]
        ga = [0.0 if (v == 0 and M > 1) else (M / K if v == 0 else math.exp(M * math.log(M / K) + (M - 1) * math.log(v) - math.lgamma(M) - M * v / K)) for v in b.tolist()]
        for dt in ("i8", "f8", "i4", "u4"):
            bb = b.astype(dt)
            ck.close(L.poisson_dist(bb, K), po, "poisson", "K=%s" % K, rtol=1e-6, atol=1e-200)
            ck.close(L.nbinom_dist(bb, K, M), nb, "negative binomial", "K=%s M=%s" % (K, M), rtol=1e-6, atol=1e-200)
            ck.close(L.gamma_dist(bb, K, M), ga, "gamma", "K=%s M=%s" % (K, M), rtol=1e-6, atol=1e-200)
            ck.step(3)
        v = L.poisson_dist(b, K)
        ck.true(abs(math.fsum(v) - 1) < 1e-6 and abs(math.fsum(v * b) - K) < 1e-4 * K, "poisson/sums to one", "K=%s: %r" % (K, math.fsum(v)))
        ck.state("dist", K, M)


def models(ck, L, M):
    x = np.arange(0, 2000, 37.0)
    table = {"ElasticModel": (M.ElasticModel, L.elastic), "ComptonModel": (M.ComptonModel, L.compton), "Lorentzian2Model": (M.Lorentzian2Model, L.lorentzian2)}
    vals = {"compton_amplitude": 1000.0, "coherent_sct_amplitude": 500.0, "coherent_sct_energy": 12.0, "fwhm_offset": 0.1, "fwhm_fanoprime": 1e-4, "e_offset": 0.01,
            "e_linear": 0.01, "e_quadratic": 1e-7, "compton_angle": 90.0, "compton_fwhm_corr": 1.5, "compton_f_step": 0.01, "compton_f_tail": 0.05, "compton_gamma": 2.0,
            "compton_hi_f_tail": 0.1, "compton_hi_gamma": 3.0, "epsilon": 2.96, "area": 3.0, "center": 700.0, "sigma": 60.0}
    for name, prefix in ck.cases("models", itertools.product(sorted(table), ("", "a_", "b2_"))):
        cls, f = table[name]
        m = cls(prefix=prefix)
        args = list(inspect.signature(f).parameters)[1:]
        ck.equal(sorted(m.param_names), sorted(prefix + a for a in args), "model/parameters", name)
        pars = m.make_params(**{a: vals[a] for a in args})
        ck.close(m.eval(pars, x=x), f(x, **{a: vals[a] for a in args}), "model/value", "%s prefix %r" % (name, prefix), rtol=1e-12)
        if "epsilon" in args:
            q = m.make_params()[prefix + "epsilon"]
            ck.equal((q.value, q.vary), (2.96, False), "model/epsilon", name)
        ck.state("model", name, prefix)
        ck.step()
    # the model is the function at every parameter value, one and two of them moved at a time
    moved = {"e_offset": (-0.02, 0.0, 0.3), "e_quadratic": (-1e-7, 0.0), "e_linear": (0.004, 0.02), "coherent_sct_energy": (6.0, 25.0), "fwhm_offset": (0.02, 0.5),
             "fwhm_fanoprime": (1e-6, 1e-2), "compton_angle": (0.0, 45.0, 180.0), "compton_fwhm_corr": (0.5, 4.0), "compton_f_step": (0.0, 0.5), "compton_f_tail": (0.0, 0.9),
             "compton_gamma": (0.3, 20.0), "compton_hi_f_tail": (0.0, 0.9), "compton_hi_gamma": (0.2, 12.0), "epsilon": (1.0, 3.85), "compton_amplitude": (-10.0, 0.0, 1e7),
             "coherent_sct_amplitude": (-10.0, 0.0, 1e7), "area": (-3.0, 0.0, 1e6), "center": (-50.0, 0.0, 5000.0), "sigma": (1.0, 900.0)}
    sets = [(name, c) for name in sorted(table) for k in (1, 2)
            for names in itertools.combinations([a for a in inspect.signature(table[name][1]).parameters if a in moved], k) for c in itertools.product(*[[(a, y) for y in moved[a]] for a in names])]
    for name, change in ck.cases("model values", sets):
        cls, f = table[name]
        args = list(inspect.signature(f).parameters)[1:]
        cur = dict({a: vals[a] for a in args}, **dict(change))
        m = cls(prefix="q_")
        with np.errstate(all="ignore"):
            got, want = m.eval(m.make_params(**cur), x=x), f(x, **cur)
        if np.all(np.isfinite(want)):
            ck.close(got, want, "model/value", "%s with %s" % (name, change), rtol=1e-12)
        ck.state("model", name, change)
        ck.step()
    # two instances do not share their hints
    for i, j in ck.cases("instances", itertools.product((1.0, 3.0), repeat=2)):
        a, b = M.ElasticModel(prefix="a_"), M.ElasticModel(prefix="b_")
        a.set_param_hint("e_offset", value=i)
        b.set_param_hint("e_offset", value=j)
        ck.equal((a.make_params()["a_e_offset"].value, b.make_params()["b_e_offset"].value), (i, j), "model/shared", "hints")
    from skbeam.core.fitting.base.parameter_data import get_para
    for name in ck.cases("defaults", ("ElasticModel", "ComptonModel")):
        cls, f = table[name]
        m = cls()
        M.set_default(m, f)
        para = get_para()
        for a in list(inspect.signature(f).parameters)[1:]:
            if a not in para:
                continue
            d = para[a]
            p = m.make_params()[a]
            bt = d["bound_type"]
            ck.equal(p.vary, bt != "fixed", "default/vary", "%s %s" % (name, a))
            if bt != "none":
                ck.equal(p.value, d["value"], "default/value", "%s %s" % (name, a))
            ck.equal(p.min, d["min"] if bt in ("lo", "lohi") else -math.inf, "default/min", "%s %s" % (name, a))
            ck.equal(p.max, d["max"] if bt in ("hi", "lohi") else math.inf, "default/max", "%s %s" % (name, a))
            ck.step()
    # every kind of bound, through the (shared, documented) default table
    for bt, name in ck.cases("kinds of bound", itertools.product(("none", "fixed", "lo", "hi", "lohi", "other"), ("ElasticModel", "ComptonModel"))):
        cls, f = table[name]
        para = get_para()
        a = "coherent_sct_energy"
        old = dict(para[a])
        try:
            para[a].update(bound_type=bt, value=11.5, min=10.5, max=12.5)
            m = cls()
            if bt == "other":
                ck.raises(lambda: M.set_default(m, f), TypeError, "default/unknown bound", name)
                continue
            M.set_default(m, f)
            p = m.make_params()[a]
            ck.equal(p.vary, bt != "fixed", "default/vary", "%s %s" % (name, bt))
            if bt != "none":
                ck.equal(p.value, 11.5, "default/value", "%s %s" % (name, bt))
            ck.equal(p.min, 10.5 if bt in ("lo", "lohi") else -math.inf, "default/min", "%s %s" % (name, bt))
            ck.equal(p.max, 12.5 if bt in ("hi", "lohi") else math.inf, "default/max", "%s %s" % (name, bt))
        finally:
            para[a].clear()
            para[a].update(old)
        ck.state("bound", bt, name)
        ck.step()


def stated(ck, L):
    """areas that the documentation states to be unity (listed findings)"""
    n = 4001
    t = (np.arange(n) + 0.5) / n * math.pi - math.pi / 2
    for f, e in ck.cases("stated areas", [("lorentzian2", ()), ("gaussian_tail", (2.0,))]):
        x = np.tan(t)
        v = math.fsum(getattr(L, f)(x, 1.0, 0.0, 1.0, *e) * (1 / np.cos(t) ** 2) * math.pi / n)
        ck.true(abs(v - 1) < 1e-3, f + " area", lambda: "integral of %s with area 1 is %r" % (f, v))
        ck.step()
