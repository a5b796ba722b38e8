"""C20 - XRF model parameters: strategies, per-line adjustments and the spectrum they produce agree with the definition."""
import copy
import itertools
import math

import numpy as np

SER = {"K": ["ka1", "ka2", "ka3", "kb1", "kb2", "kb3", "kb4", "kb5"],
       "L": ["la1", "la2", "lb1", "lb2", "lb3", "lb4", "lb5", "lg1", "lg2", "lg3", "lg4", "ll", "ln"],
       "M": ["ma1", "ma2", "mb", "mg"]}
SUFFIX = {"pos": "delta_center", "width": "delta_sigma", "ratio": "ratio_adjust"}
DEFAULT = {"area": {"bound_type": "none", "max": 1000000000.0, "min": 0.0, "value": 1000.0},
           "pos": {"bound_type": "fixed", "max": 0.005, "min": -0.005, "value": 0.0},
           "ratio": {"bound_type": "fixed", "max": 5.0, "min": 0.1, "value": 1.0},
           "width": {"bound_type": "fixed", "max": 0.02, "min": -0.02, "value": 0.0}}


# the five strategies the library offers: which global parameters they free, and how
_GLOBAL = ("coherent_sct_amplitude coherent_sct_energy compton_amplitude compton_angle compton_f_step compton_f_tail compton_fwhm_corr compton_gamma "
           "compton_hi_f_tail compton_hi_gamma e_linear e_offset e_quadratic fwhm_fanoprime fwhm_offset non_fitting_values").split()
_TUNE = ["coherent_sct_energy", "compton_angle", "compton_fwhm_corr", "e_linear", "e_offset", "e_quadratic", "fwhm_fanoprime", "fwhm_offset"]


def _strategy(free):
    return {k: "none" if k in ("coherent_sct_amplitude", "compton_amplitude") else "lohi" if k in free else "fixed" for k in _GLOBAL}


STRATEGIES = {"linear": _strategy([]), "adjust_element": _strategy(["compton_fwhm_corr"]), "e_calibration": _strategy(["e_linear", "e_offset"]),
              "fit_with_tail": _strategy(_TUNE + ["compton_f_tail"]), "free_more": _strategy(_TUNE + ["compton_f_step", "compton_gamma"])}


def xr():
    import xraylib
    return xraylib


def line_id(name):
    n = {"ln": "LE"}.get(name, name.upper())
    return getattr(xr(), n + "_LINE")


def z_of(sym):
    return xr().SymbolToAtomicNumber(sym)


_cs = {}


def cs(sym, line, energy):
    k = (sym, line, energy)
    if k not in _cs:
        try:
            _cs[k] = xr().CS_FluorLine_Kissel(z_of(sym), line_id(line), energy)
        except ValueError:
            _cs[k] = 0.0
    return _cs[k]


def line_energy(sym, line):
    try:
        return xr().LineEnergy(z_of(sym), line_id(line))
    except ValueError:
        return 0.0


def active(elemental_line, energy):
    """names of the lines of one series that the beam excites; empty when the main line is not excited"""
    sym, ser = elemental_line.split("_")
    if not cs(sym, SER[ser][0], energy):
        return []
    return [l for l in SER[ser] if cs(sym, l, energy)]


def base_params(energy=12.0):
    from skbeam.core.fitting.base.parameter_data import get_para
    p = copy.deepcopy(get_para())
    p["coherent_sct_energy"].update(value=energy, min=energy - 3, max=energy + 1)
    return p


def run(ck):
    from skbeam.core.fitting import xrf_model as X
    activated(ck, X)
    controller(ck, X)
    strategies(ck, X)
    spectrum(ck, X)
    assembled(ck, X)
    defaults(ck, X)
    bounds(ck, X)
    small(ck, X)


def activated(ck, X):
    for el in ck.cases("activated", X.K_LINE + X.L_LINE + X.M_LINE):
        sym = el.split("_")[0]
        for en in (0.5, 2.0, 5.0, 9.7, 12.0, 18.0, 40.0):
            want = [sym + "_" + l for l in active(el, en)]
            ck.equal(sorted(X.get_activated_lines(en, [el])), sorted(want), "activated", "%s at %s keV" % (el, en))
            both = X.get_activated_lines(en, [el, "Fe_K", el])
            ck.equal(sorted(both), sorted(want * 2 + ["Fe_" + l for l in active("Fe_K", en)]), "activated/list", "%s and Fe_K at %s keV" % (el, en))
            ck.step(2)
        ck.state("act", el)
        sym, ser = el.split("_")
        for en in (6.0, 12.0, 30.0):
            if active(el, en):
                tot = sum(cs(sym, l, en) for l in SER[ser])
                ck.close(X.get_relative_cs_ratio(el, en), cs(sym, SER[ser][0], en) / tot, "relative ratio", "%s at %s keV" % (el, en))
        for form, line in ((el, SER[ser][0]), (el.replace("_" + ser, "_" + ser.lower()), SER[ser][0]), (sym + "_" + SER[ser][0], SER[ser][0]),
                           (sym + "_" + SER[ser][0].upper(), SER[ser][0]), (sym + "_" + ser + "a", ser.lower() + "a1")):
            ck.close(X.get_line_energy(form), line_energy(sym, line), "line energy", form)


# --- parameter controller -------------------------------------------------
class Ref:
    """reference controller"""

    def __init__(self, params, els, energy, strat):
        self.params = copy.deepcopy(params)
        self.els = []
        self.strategy = {}
        self.energy = energy
        self.reg = strat
        for e in els:
            self.els.append(e)
            for kind in ("pos", "width", "area", "ratio"):
                self.add(kind, e)

    def names(self, kind, el):
        low = el.lower()
        if "user" in low:
            return [el + "_" + ("area" if kind == "area" else SUFFIX[kind])]
        if "-" in el:
            return ["pileup_" + el.replace("-", "_") + "_" + ("area" if kind == "area" else SUFFIX[kind])]
        sym, ser = el.split("_")
        if kind == "area":
            return [sym + "_" + SER[ser][0] + "_area"]
        return [sym + "_" + l + "_" + SUFFIX[kind] for l in active(el, self.energy)]

    def add(self, kind, el, constraint=None):
        if el not in self.els:
            self.els.append(el)
        for n in self.names(kind, el):
            self.params[n] = dict(DEFAULT[kind])
            if constraint is not None:
                self.strategy[n] = constraint

    def set(self, name):
        for k, v in self.params.items():
            if k == "non_fitting_values":
                continue
            v["bound_type"] = self.reg[name].get(k) or self.strategy.get(k, "fixed")


def canon(r):
    return (tuple(sorted((k, v.get("bound_type"), v.get("value")) for k, v in r.params.items())), tuple(sorted(r.strategy.items())), tuple(r.els))


def controller(ck, X):
    start = [[], ["Fe_K"], ["Ce_L", "Pt_M"]]
    els = ["Fe_K", "Ce_L", "Pt_M", "Si_Ka1-Si_Ka1", "user_peak1", "Ga_L"]
    ops = [("add", k, e, c) for k in ("pos", "width", "area", "ratio") for e in els for c in (None, "lohi")]
    ops += [("prop", [els[0], els[3]], dict(pos="lohi", area="none")), ("prop", [els[1], els[5]], dict(width="fixed", ratio="lo"))]
    ops += [("set", s) for s in ("linear", "adjust_element", "e_calibration", "fit_with_tail", "free_more")]
    seqs = [(s, q) for s in range(len(start)) for q in itertools.product(range(len(ops)), repeat=2)]
    if ck.thorough:
        seqs += [(s, q) for s in range(len(start)) for q in itertools.product(range(0, len(ops), 3), repeat=3)]
    for (s, q), energy in ck.cases("controller", itertools.product(seqs, (12.0,))):
        params = base_params(energy)
        frozen = copy.deepcopy(params)
        lst = list(start[s])
        c = X.ParamController(params, lst)
        r = Ref(params, lst, energy, STRATEGIES)
        hist = []
        for i in (None,) + q:
            if i is not None:
                op = ops[i]
                hist.append(op)
                if op[0] == "add":
                    if op[3] is None:
                        c.add_param(op[1], op[2])
                    else:
                        c.add_param(op[1], op[2], op[3])
                    r.add(op[1], op[2], op[3])
                elif op[0] == "prop":
                    c.update_element_prop(op[1], **op[2])
                    for e in op[1]:
                        for k, v in op[2].items():
                            r.add(k, e, v)
                else:
                    c.set_strategy(op[1])
                    r.set(op[1])
            ck.step()
            ck.equal(c.params, r.params, "controller/parameters", "start %s operations %s" % (start[s], hist))
            ck.equal(list(c.element_list), r.els, "controller/elements", "start %s operations %s" % (start[s], hist))
        ck.equal(params, frozen, "controller/input", "parameters of the caller changed by %s" % hist)
        ck.equal(lst, start[s], "controller/input", "element list of the caller changed by %s" % hist)
        ck.equal(DEFAULT, X.PARAM_DEFAULTS, "controller/defaults", "defaults changed by %s" % hist)
        ck.state(canon(r))
        ck.trace()


def strategies(ck, X):
    names = ["linear", "adjust_element", "e_calibration", "fit_with_tail", "free_more"]
    for seq in ck.cases("strategies", itertools.product(names, repeat=2)):
        p = base_params()
        extra = {"Fe_ka1_area": "lo", "e_linear": "hi"}
        p["Fe_ka1_area"] = dict(DEFAULT["area"])
        p["Fe_kb1_area"] = dict(DEFAULT["area"])
        for n in seq:
            X.set_parameter_bound(p, n, extra)
            reg = STRATEGIES[n]
            for k, v in p.items():
                if k == "non_fitting_values":
                    ck.true("bound_type" not in v, "strategy/non fitting", "%s" % n)
                    continue
                want = reg[k] if k in reg else extra.get(k, "fixed")
                ck.equal(v["bound_type"], want, "strategy/bound", "%s after %s" % (k, seq))
            e = X.extract_strategy(p, "bound_type")
            ck.equal(e, {k: v["bound_type"] for k, v in p.items() if k != "non_fitting_values"}, "strategy/extract", "%s" % (seq,))
            ck.step(2)
        ck.state("strat", seq)
    for ow, same in ck.cases("register", itertools.product((True, False), repeat=2)):
        name = "vc_new_%d_%d" % (ow, same)
        a, b = {"e_linear": "lo"}, {"e_linear": "hi"}

        def used():
            p = base_params()
            X.set_parameter_bound(p, name)
            ck.equal(p["e_offset"]["bound_type"], "fixed", "register/used", "bound of a parameter the strategy does not name")
            return p["e_linear"]["bound_type"]
        X.register_strategy(name, a)
        ck.equal(used(), "lo", "register", "new strategy")
        if ow or same:
            if ow and not same:
                X.register_strategy(name, b)
            else:
                X.register_strategy(name, a if same else b, overwrite=ow)
            ck.equal(used(), "lo" if same else "hi", "register", "overwritten strategy")
        else:
            ck.raises(lambda: X.register_strategy(name, b, overwrite=False), RuntimeError, "register/refused", "another strategy of the same name")
            ck.equal(used(), "lo", "register", "refused overwrite changed the registry")
        c = X.ParamController(base_params(), ["Fe_K"])
        c.set_strategy(name)
        ck.equal(c.params["e_linear"]["bound_type"], "lo" if same or not ow else "hi", "register/controller", "bound")
        ck.step(3)


# --- spectrum ---------------------------------------------------------------
def gauss(x, area, c, s):
    return area / (math.sqrt(2 * math.pi) * s) * np.exp(-(x - c) ** 2 / (2 * s * s))


def val(p, k, d):
    return p[k]["value"] if k in p else d


def energy_axis(p, x):
    return p["e_offset"]["value"] + p["e_linear"]["value"] * x + p["e_quadratic"]["value"] * x ** 2


def width(p, c):
    t = 2 * math.sqrt(2 * math.log(2))
    return math.sqrt((p["fwhm_offset"]["value"] / t) ** 2 + c * p["non_fitting_values"]["epsilon"] * p["fwhm_fanoprime"]["value"])


def peak(p, x, area, c, dc, ds, ratio, adj):
    return gauss(energy_axis(p, x), area, c + dc, ds + width(p, c + dc)) * ratio * adj


def ref_element(p, x, el, default):
    en = p["coherent_sct_energy"]["value"]
    if "user" in el.lower() or "-" in el:
        if "-" in el:
            pre = "pileup_" + el.replace("-", "_") + "_"
            c = 0
            for h in el.split("-"):
                sym, l = h.split("_")
                c += line_energy(sym, l.lower())
        else:
            pre, c = el + "_", 5.0
        area = val(p, pre + "area", default)
        return peak(p, x, area, c, val(p, pre + "delta_center", 0), val(p, pre + "delta_sigma", 0), 1.0, val(p, pre + "ratio_adjust", 1)), area
    sym, ser = el.split("_")
    ls = active(el, en)
    if not ls:
        return None, None
    first = SER[ser][0]
    area = val(p, "%s_%s_area" % (sym, first), default)
    y = 0
    for l in ls:
        src = first if (ser == "K" and l == "ka2") else l
        y = y + peak(p, x, area, line_energy(sym, l), val(p, "%s_%s_delta_center" % (sym, src), 0), val(p, "%s_%s_delta_sigma" % (sym, src), 0),
                     cs(sym, l, en) / cs(sym, first, en), val(p, "%s_%s_ratio_adjust" % (sym, l), 1))
    return y, area


def ref_compton(p, x):
    from scipy.special import erfc
    g = lambda k: p[k]["value"]  # noqa
    e0 = g("coherent_sct_energy")
    ce = e0 / (1 + e0 / 511 * (1 - math.cos(math.radians(g("compton_angle")))))
    s = width(p, ce)
    E = energy_axis(p, x)
    amp = g("compton_amplitude")
    f = 1 / (1 + g("compton_f_step") + g("compton_f_tail") + g("compton_hi_f_tail"))

    def tail(d, gamma):  # d: distance from the peak, the tail on the negative side
        return amp * np.exp(np.minimum(d, 0) / (gamma * s)) * erfc(d / (math.sqrt(2) * s) + 1 / (gamma * math.sqrt(2))) / (
            2 * gamma * s * math.exp(-0.5 / gamma ** 2))
    y = f * gauss(E, amp, ce, s * g("compton_fwhm_corr"))
    y = y + f * g("compton_f_step") * amp * erfc((E - ce) / (math.sqrt(2) * s)) / (2 * ce)
    y = y + f * g("compton_f_tail") * tail(E - ce, g("compton_gamma"))
    y = y + f * g("compton_hi_f_tail") * tail(ce - E, g("compton_hi_gamma"))
    return y


def ref_elastic(p, x):
    e0 = p["coherent_sct_energy"]["value"]
    return gauss(energy_axis(p, x), p["coherent_sct_amplitude"]["value"], e0, width(p, e0))


def tweaks(el, energy):
    """one adjustment at a time, on every line of the element"""
    yield {}
    if "user" in el or "-" in el:
        pre = el if "user" in el else "pileup_" + el.replace("-", "_")
        lines = [pre]
    else:
        sym, ser = el.split("_")
        lines = ["%s_%s" % (sym, l) for l in active(el, energy)]
    for i, l in enumerate(lines):
        yield {l + "_delta_center": 0.003}
        yield {l + "_delta_sigma": -0.011}
        yield {l + "_ratio_adjust": 1.7}
        if i == 0:
            yield {l + "_area": 777.0}
            yield {l + "_area": 777.0, l + "_delta_center": -0.004, l + "_delta_sigma": 0.01, l + "_ratio_adjust": 0.5}
    for k, v in (("e_offset", 0.012), ("e_linear", 0.0103), ("e_quadratic", 3e-7), ("fwhm_offset", 0.165), ("fwhm_fanoprime", 4e-5)):
        yield {k: v}


def with_tweak(p, t, bound="fixed"):
    for k, v in t.items():
        kind = "area" if k.endswith("_area") else "pos" if "delta_center" in k else "width" if "delta_sigma" in k else "ratio"
        if k in p:
            p[k]["value"] = v
        else:
            p[k] = dict(DEFAULT[kind], value=v, bound_type=bound)
    return p


def spectrum(ck, X):
    x = np.arange(0, 1500, 7.0)
    els = (X.K_LINE[10:33:2] + X.L_LINE[::7] + X.M_LINE[::5] + ["Si_Ka1-Si_Ka1", "Si_Ka1-Ce_La1", "user_peak1", "user_peak2"])
    if ck.thorough:
        els = X.K_LINE + X.L_LINE + X.M_LINE + ["Si_Ka1-Si_Ka1", "Si_Ka1-Ce_La1", "user_peak1"]
    for el, energy in ck.cases("single element", itertools.product(els, (12.0,) if not ck.thorough else (3.0, 12.0, 18.0))):
        for n, t in enumerate(tweaks(el, energy)):
            p = with_tweak(base_params(energy), t)
            frozen = copy.deepcopy(p)
            sel, mat, areas = X.construct_linear_model(x, p, [el])
            ck.equal(p, frozen, "model/input", "parameters changed")
            want, area = ref_element(p, x, el, 100)
            where = "%s at %s keV with %s" % (el, energy, t)
            if want is None:
                ck.equal(list(sel), ["compton", "elastic"], "model/not activated", where)
            else:
                ck.equal(list(sel), [el, "compton", "elastic"], "model/selected", where)
                ck.close(mat[:, 0], want, "model/element", where, rtol=1e-7, atol=1e-9)
                ck.close(areas[el], area, "model/area", where)
            ck.equal(np.shape(mat), (len(x), len(sel)), "model/shape", where)
            if n == 0 or any(k in ("e_offset", "e_linear", "e_quadratic", "fwhm_offset", "fwhm_fanoprime") for k in t):
                ck.close(mat[:, -2], ref_compton(p, x), "model/compton", where, rtol=1e-7, atol=1e-9)
                ck.close(mat[:, -1], ref_elastic(p, x), "model/elastic", where, rtol=1e-7, atol=1e-9)
            ck.step()
        ck.state("el", el, energy)
    cp = [("compton_amplitude", 5e4), ("compton_angle", 83.0), ("compton_f_step", 0.0), ("compton_f_step", 0.004), ("compton_f_tail", 0.2), ("compton_gamma", 3.9),
          ("compton_hi_f_tail", 0.3), ("compton_hi_gamma", 1.1), ("compton_fwhm_corr", 2.2), ("coherent_sct_energy", 11.0), ("coherent_sct_amplitude", 33.0)]
    for k, v in ck.cases("scatter", cp):
        p = base_params()
        p[k]["value"] = v
        sel, mat, areas = X.construct_linear_model(x, p, [])
        ck.close(mat[:, 0], ref_compton(p, x), "model/compton", "%s=%s" % (k, v), rtol=1e-7, atol=1e-9)
        ck.close(mat[:, 1], ref_elastic(p, x), "model/elastic", "%s=%s" % (k, v), rtol=1e-7, atol=1e-9)
        ck.close([areas["compton"], areas["elastic"]], [p["compton_amplitude"]["value"], p["coherent_sct_amplitude"]["value"]], "model/area", "%s=%s" % (k, v))
        ck.step()
    pool = ["Fe_K", "Ce_L", "Pt_M", "Ga_L", "Sn_K", "Si_Ka1-Si_Ka1", "user_peak1"]
    for combo in ck.cases("several", [c for n in (2, 3) for c in itertools.permutations(pool, n)]):
        p = with_tweak(base_params(), {"Fe_ka1_area": 321.0, "Ce_la1_delta_center": 0.002})
        sel, mat, areas = X.construct_linear_model(x, p, list(combo), default_area=50)
        ref = [(e,) + ref_element(p, x, e, 50) for e in combo]
        ref = [r for r in ref if r[1] is not None]
        ck.equal(list(sel), [r[0] for r in ref] + ["compton", "elastic"], "several/selected", "%s" % (combo,))
        for i, r in enumerate(ref):
            ck.close(mat[:, i], r[1], "several/column", "%s of %s" % (r[0], combo), rtol=1e-7, atol=1e-9)
            ck.close(areas[r[0]], r[2], "several/area", "%s of %s" % (r[0], combo))
        ck.state("sev", combo)
        ck.step()


def assembled(ck, X):
    x = np.arange(0, 1500, 11.0)
    pool = ["Fe_K", "Ce_L", "Pt_M", "Sn_K", "Si_Ka1-Si_Ka1", "user_peak1"]
    combos = [c for n in (1, 2) for c in itertools.combinations(pool, n)]
    for combo, strat in ck.cases("assembled", itertools.product(combos, ("linear", "e_calibration", "free_more"))):
        c = X.ParamController(base_params(), list(combo))
        c.update_element_prop([combo[0]], pos="lohi", width="fixed", area="none")
        c.set_strategy(strat)
        m = X.ModelSpectrum(c.params, list(combo))
        m.assemble_models()
        pars = m.mod.make_params()
        p = c.params
        want = ref_compton(p, x) + ref_elastic(p, x)
        for e in combo:
            y, _ = ref_element(p, x, e, 1e5)
            if y is not None:
                want = want + y
        ck.close(m.mod.eval(x=x, params=pars), want, "assembled/spectrum", "%s with %s" % (combo, strat), rtol=1e-6, atol=1e-8)
        # which parameters are free and how they are tied
        glob = ["e_offset", "e_linear", "e_quadratic", "fwhm_offset", "fwhm_fanoprime", "coherent_sct_energy"]
        for k in glob + ["compton_amplitude", "compton_angle", "compton_f_tail", "compton_gamma", "compton_fwhm_corr"]:
            b = p[k]["bound_type"]
            q = pars[k]
            ck.equal(q.vary, b != "fixed", "assembled/free", "%s with %s" % (k, strat))
            if b == "lohi":
                ck.equal((q.min, q.max), (p[k]["min"], p[k]["max"]), "assembled/bounds", "%s with %s" % (k, strat))
        # nothing else is free
        free = {k for k in pars if pars[k].vary and not pars[k].expr}
        allowed = {k for k, v in p.items() if v.get("bound_type", "fixed") != "fixed"}
        allowed = {("elastic_" + k if k == "coherent_sct_amplitude" else k).replace("-", "_") for k in allowed}
        allowed |= {"pileup_" + e.replace("-", "_") + "_area" for e in combo if "-" in e}
        ck.equal(sorted(free - allowed), [], "assembled/only these", "%s with %s" % (combo, strat))
        for k in pars:
            if k.endswith("epsilon"):
                ck.close(pars[k].value, p["non_fitting_values"]["epsilon"], "assembled/epsilon", "%s with %s" % (k, combo))
        # moving a global parameter moves every element with it
        for k, v in (("e_offset", 0.01), ("e_linear", 0.0101), ("fwhm_offset", 0.17)):
            pp = m.mod.make_params()
            pp[k].value = v
            p2 = copy.deepcopy(p)
            p2[k]["value"] = v
            want = ref_compton(p2, x) + ref_elastic(p2, x)
            for e in combo:
                y, _ = ref_element(p2, x, e, 1e5)
                if y is not None:
                    want = want + y
            ck.close(m.mod.eval(x=x, params=pp), want, "assembled/global parameter", "%s=%s for %s" % (k, v, combo), rtol=1e-6, atol=1e-8)
            ck.step()
        for e in combo:
            if "_" in e and len(e) <= 4 and active(e, 12.0):
                sym, ser = e.split("_")
                pp = m.mod.make_params()
                name = "%s_%s_area" % (sym, SER[ser][0])
                pp[name].value = 4321.0
                p2 = copy.deepcopy(p)
                p2[name]["value"] = 4321.0
                d = m.mod.eval(x=x, params=pp) - m.mod.eval(x=x, params=m.mod.make_params())
                want = ref_element(p2, x, e, 0)[0] - ref_element(p, x, e, 0)[0]
                ck.close(d, want, "assembled/area ties", "area of %s in %s" % (e, combo), rtol=1e-6, atol=1e-6)
        ck.state("as", combo, strat)


def defaults(ck, X):
    """areas nobody has given, a detector of another material, and parameters the caller changes afterwards"""
    x = np.arange(0, 1500, 11.0)
    pool = ["Fe_K", "Ce_L", "Pt_M", "Si_Ka1-Si_Ka1", "user_peak1"]
    combos = [c for n in (0, 1, 2) for c in itertools.permutations(pool, n)]
    for combo, eps, areas in ck.cases("default areas", itertools.product(combos, (2.96, 3.85), (False, True))):
        p = base_params()
        p["non_fitting_values"]["epsilon"] = eps
        for g in _GLOBAL[:-1]:
            p[g]["bound_type"] = "fixed"
        if areas and combo:
            with_tweak(p, {"Fe_ka1_area": 234.0, "Ce_la1_area": 345.0, "Pt_ma1_area": 456.0, "user_peak1_area": 567.0, "pileup_Si_Ka1_Si_Ka1_area": 678.0}, "none")
        want = ref_compton(p, x) + ref_elastic(p, x)
        for e in combo:
            want = want + ref_element(p, x, e, 1e5)[0]
        given, lst = copy.deepcopy(p), list(combo)
        m = X.ModelSpectrum(given, lst)
        # the model belongs to the values it was made from
        for k in given:
            if k != "non_fitting_values":
                given[k]["value"] = 7.7
        given["non_fitting_values"]["epsilon"] = 1.0
        lst.append("Zn_K")
        m.assemble_models()
        ck.close(m.mod.eval(x=x, params=m.mod.make_params()), want, "default areas", "%s epsilon %s" % (combo, eps), rtol=1e-6, atol=1e-8)
        ck.step()
        ck.state("def", combo, eps, areas)
    # the controller, too, keeps its own values
    for el in ck.cases("controller owns its values", pool):
        given, lst = base_params(), [el]
        c = X.ParamController(given, lst)
        keep = copy.deepcopy(c.params)
        for k in given:
            if k != "non_fitting_values":
                given[k]["value"] = 7.7
        lst.append("Zn_K")
        ck.equal(c.params, keep, "controller/own values", el)
        ck.equal(list(c.element_list), [el], "controller/own values", el)
        ck.step()
    for pre in ck.cases("element model", ("", "Fe_ka1_", "x_")):
        q = X.ElementModel(prefix=pre).make_params()[pre + "epsilon"]
        ck.equal((q.value, bool(q.vary)), (2.96, False), "element model/epsilon", "prefix %r" % pre)


def bounds(ck, X):
    """every bound type on every parameter reaches the model that is fitted"""
    def agree(q, d, tag, where):
        b = d["bound_type"]
        ck.equal(bool(q.vary), b != "fixed", tag + "/free", where)
        ck.close(q.value, d["value"], tag + "/value", where)
        if b in ("lo", "lohi"):
            ck.equal(q.min, d["min"], tag + "/least", where)
        if b in ("hi", "lohi"):
            ck.equal(q.max, d["max"], tag + "/largest", where)
        if b == "lo":
            ck.equal(q.max, np.inf, tag + "/unlimited", where)
        ck.step()
    kinds = ("none", "fixed", "lo", "hi", "lohi")
    glob = [k for k in _GLOBAL if k != "non_fitting_values"]
    for k, b in ck.cases("bounds/global", itertools.product(glob, kinds)):
        p = base_params()
        for g in glob:
            p[g]["bound_type"] = "fixed"
        p[k]["bound_type"] = b
        m = X.ModelSpectrum(p, ["Fe_K"])
        m.assemble_models()
        pars = m.mod.make_params()
        for g in glob:
            name = "elastic_" + g if g == "coherent_sct_amplitude" else g
            agree(pars[name], p[g], "bounds/global", "%s with %s bound by %s" % (g, k, b))
        ck.state("bound", k, b)
    els = {"Fe_K": ["Fe_ka1", "Fe_kb1"], "Ce_L": ["Ce_la1", "Ce_lb1"], "Pt_M": ["Pt_ma1", "Pt_mb"], "Si_Ka1-Si_Ka1": ["pileup_Si_Ka1_Si_Ka1"],
           "user_peak1": ["user_peak1"]}
    for el, kind, b in ck.cases("bounds/element", itertools.product(els, ("pos", "width", "ratio", "area"), kinds)):
        c = X.ParamController(base_params(), [el])
        c.add_param(kind, el, b)
        c.set_strategy("linear")
        m = X.ModelSpectrum(c.params, [el])
        m.assemble_models()
        pars = m.mod.make_params()
        suffix = "area" if kind == "area" else SUFFIX[kind]
        for i, l in enumerate(els[el]):
            if kind == "area" and i:
                continue
            name = l + "_" + suffix
            ck.equal(c.params[name]["bound_type"], b, "bounds/element/strategy", "%s of %s" % (b, name))
            agree(pars[name], c.params[name], "bounds/element", "%s of %s" % (b, name))
        ck.state("bound", el, kind, b)
    for k in ck.cases("bounds/unknown", ("e_linear", "compton_angle", "coherent_sct_amplitude")):
        p = base_params()
        p[k]["bound_type"] = "loose"
        ck.raises(lambda: X.ModelSpectrum(p, []).assemble_models(), ValueError, "bounds/unknown", k)
        ck.step()


class FakeResult:
    def __init__(self, values):
        self.values = values


def small(ck, X):
    # results of a fit written back into the parameters
    for mask in ck.cases("write back", range(32)):
        p = base_params()
        p["Fe_ka1_area"] = dict(DEFAULT["area"])
        p["pileup_Si_Ka1-Si_Ka1_area"] = dict(DEFAULT["area"])
        want = copy.deepcopy(p)
        vals = {}
        keys = [("e_linear", "e_linear"), ("coherent_sct_energy", "elastic_coherent_sct_energy"), ("coherent_sct_amplitude", "elastic_coherent_sct_amplitude"),
                ("Fe_ka1_area", "Fe_ka1_area"), ("pileup_Si_Ka1-Si_Ka1_area", "pileup_Si_Ka1_Si_Ka1_area")]
        for i, (k, name) in enumerate(keys):
            if mask >> i & 1:
                vals[name] = np.float64(1.5 + i)
                want[k]["value"] = 1.5 + i
        vals["unrelated"] = 3.0
        X.update_parameter_dict(p, FakeResult(vals))
        ck.equal(p, want, "write back", "results %s" % vals)
        ck.step()
    data = np.arange(40.0) ** 2
    for lo, hi, (a0, a1) in ck.cases("range", itertools.product((-1.0, 0.0, 0.2, 1.04, 2.5), (0.1, 0.3, 1.96, 3.9, 9.0), ((0.0, 0.1), (0.05, 0.1), (-0.2, 0.07)))):
        x, y = X.define_range(data, lo, hi, a0, a1)
        l, h = int(np.around((lo - a0) / a1)), int(np.around((hi - a0) / a1))
        idx = [k for k in range(40) if l <= k <= h]
        ck.equal((list(x), list(y)), (idx, [float(k * k) for k in idx]), "range", "%s..%s calibration %s" % (lo, hi, (a0, a1)))
        xs = np.array([0.3, 1.0, 0.2, 2.5, 1.0, 3.9])
        ys = np.arange(6)
        tx, ty = X.trim(xs, ys, lo, hi)
        sel = [k for k in range(6) if lo <= xs[k] <= hi]
        ck.equal((list(tx), list(ty)), ([xs[k] for k in sel], sel), "trim", "%s..%s" % (lo, hi))
        ck.step(2)
    for ratio, esc in ck.cases("escape", itertools.product((0.0, 0.01, 1.0), (1.73998, 0.5, None))):
        p = base_params()
        p["e_offset"]["value"] = 0.1
        p["e_quadratic"]["value"] = 1e-5
        ex, ey = X.compute_escape_peak(data, ratio, p, esc) if esc is not None else X.compute_escape_peak(data, ratio, p)
        esc = 1.73998 if esc is None else esc  # Ka1 line of silicon
        k = np.arange(40)
        ck.close(ex, 0.1 + 0.01 * k + 1e-5 * k ** 2 - esc, "escape/energy", "escape %s" % esc)
        ck.close(ey, data * ratio, "escape/counts", "ratio %s" % ratio)
    for el in ck.cases("sum of areas", ["Fe_K", "Ce_L", "Pt_M"]):
        sym, ser = el.split("_")
        for present, sc in itertools.product(itertools.product((0, 1), repeat=3), (1.0, 1e-5, 1e7)):
            v, tot = {}, 0.0
            for i, l in enumerate(SER[ser][:3]):
                if present[i]:
                    v.update({"%s_%s_area" % (sym, l): (10.0 + i) * sc, "%s_%s_ratio" % (sym, l): 0.5 / (i + 1), "%s_%s_ratio_adjust" % (sym, l): 1.0 + i})
                    tot += sc * (10.0 + i) * 0.5 / (i + 1) * (1.0 + i)
            v.update({"Zz_ka1_area": 5.0, "Zz_ka1_ratio": 5.0, "Zz_ka1_ratio_adjust": 5.0})
            ck.close(X.sum_area(el, FakeResult(v)), tot, "sum of areas", "%s %s" % (el, present), rtol=1e-9, atol=1e-12)
            ck.step()
