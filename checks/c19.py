"""C19 - element and powder-standard tables: every name finds the same element, every line query is exact."""
import itertools
import math
import os

import numpy as np

from vc.harness import freeze

FIELDS = ["atomic_radius", "covalent_radius", "mass", "bp", "mp", "density", "atomic_volume", "coherent_scattering_length",
          "incoherent_crosssection", "absorption", "debye_temp", "thermal_conductivity"]
LINES = dict(Ka1="KA1", Ka2="KA2", Ka3="KA3", Kb1="KB1", Kb2="KB2", Kb3="KB3", Kb4="KB4", Kb5="KB5", La1="LA1", La2="LA2", Lb1="LB1",
             Lb2="LB2", Lb3="LB3", Lb4="LB4", Lb5="LB5", Lg1="LG1", Lg2="LG2", Lg3="LG3", Lg4="LG4", Ll="LL", Ln="LE", Ma1="MA1",
             Ma2="MA2", Mb="MB", Mg="MG")
SHELLS = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "N1", "N2", "N3", "N4", "N5", "N6", "N7", "O1", "O2", "O3", "O4", "O5",
          "P1", "P2", "P3"]


def run(ck):
    elements(ck)
    lines(ck)
    search(ck)
    standards(ck)


def cased(s):
    """every way of capitalising a symbol, a few for names"""
    if len(s) <= 2:
        return {"".join(t) for t in itertools.product(*[(c.lower(), c.upper()) for c in s])}
    return {s, s.lower(), s.upper(), s.title(), s[:-1].lower() + s[-1].upper()}


def table(path):
    """independent reading of the data file: per-element scans and the summary scan"""
    per, summary, names, syms = {}, {}, {}, {}
    cur = None
    for line in open(path):
        w = line.split()
        if not w:
            continue
        if w[0] == "#S":
            cur = int(w[1])
            if cur != 1000:
                syms[cur] = w[2]
        elif w[0] == "#UNAME" and cur != 1000:
            names[cur] = w[1]
        elif not line.startswith("#"):
            v = [float(x) for x in w]
            if cur == 1000:
                summary[int(v[0])] = v[1:]
            else:
                per[cur] = v
    return per, summary, names, syms


def elements(ck):
    import skbeam.core.constants.basic as B
    from skbeam.core.constants import BasicElement
    import xraylib
    per, summary, names, syms = table(os.path.join(os.path.dirname(B.__file__), "data", "AtomicConstants.dat"))
    ck.equal(sorted(per), list(range(1, 104)), "table", "elements in the data file")
    seen = {}
    for z in ck.cases("elements", range(1, 104)):
        ck.equal(per[z], summary[z], "table/summary", "the two copies of the constants of element %d" % z)
        e = BasicElement(z)
        keys = [z, np.int64(z)] + sorted(cased(syms[z]) | cased(names[z]))
        for k in keys:
            f = BasicElement(k)
            ck.step()
            ck.equal((f.Z, f.sym, f.name), (z, syms[z], names[z]), "element/identity", "element looked up as %r" % (k,))
            ck.equal([getattr(f, n) for n in FIELDS], per[z], "element/constants", "constants of %r" % (k,))
            ck.equal([f[n] for n in ["Z", "sym", "name"] + FIELDS], [z, syms[z], names[z]] + per[z], "element/as mapping", "fields of %r" % (k,))
            ck.true(f == e and not (f < e) and not (f > e) and f <= e and not f != e, "element/equality", "%r compared with itself" % (k,))
        ck.equal(xraylib.AtomicNumberToSymbol(z), e.sym, "element/symbol", "symbol of %d" % z)
        if e.mass > 0:
            ck.true(abs(xraylib.AtomicWeight(z) - e.mass) < 0.05 * e.mass, "element/mass", "mass of %s" % e.sym)
        ck.true(e.name in str(e) and str(e.Z) in repr(e) and str(e.mass) in str(e), "element/text", "text of %s" % e.sym)
        for z2 in range(1, 104):
            f = BasicElement(z2)
            ck.equal((e < f, e <= f, e == f, e != f, e >= f, e > f), (z < z2, z <= z2, z == z2, z != z2, z >= z2, z > z2),
                     "element/order", "%d compared with %d" % (z, z2))
        ck.state("el", z)
    for bad in ck.cases("unknown", [0, 104, -1, 1000, "", "xx", "Zz", "irn", "26", None, 26.5]):
        ck.raises(lambda: BasicElement(bad), Exception, "element/unknown", "element %r" % (bad,))


def xl(fn, *a):
    try:
        return fn(*a)
    except ValueError:
        return 0


def lines(ck):
    import xraylib
    from skbeam.core.constants import XrfElement
    ens = [0.9, 5.0, 7.2, 12.0, 30.0, 90.0] if not ck.thorough else [0.2 * 1.12 ** k for k in range(60)]
    for z in ck.cases("lines", range(1, 101)):
        e = XrfElement(z)
        ck.equal(e.Z, z, "line/element", "atomic number")
        want = {k.lower(): xl(xraylib.LineEnergy, z, getattr(xraylib, v + "_LINE")) for k, v in LINES.items()}
        ck.equal(dict(e.emission_line), want, "line/energy", "emission lines of %s" % e.sym)
        ck.equal(sorted(e.emission_line.all), sorted(want.items()), "line/all", "list of lines of %s" % e.sym)
        ck.equal(len(e.emission_line), len(LINES), "line/number", "number of lines")
        for k in LINES:
            for s in cased(k) if len(k) == 2 else {k, k.lower(), k.upper()}:
                ck.equal(e.emission_line[s], want[k.lower()], "line/case", "line %r of %s" % (s, e.sym))
                ck.step()
        for attr, fn in (("bind_energy", xraylib.EdgeEnergy), ("jump_factor", xraylib.JumpFactor), ("fluor_yield", xraylib.FluorYield)):
            w = {s.lower(): xl(fn, z, getattr(xraylib, s + "_SHELL")) for s in SHELLS}
            ck.equal(dict(getattr(e, attr)), w, "shell/" + attr, "%s of %s" % (attr, e.sym))
            for s in SHELLS:
                ck.equal(getattr(e, attr)[s], w[s.lower()], "shell/case", "%s %s of %s" % (attr, s, e.sym))
            ck.step(len(SHELLS))
        for en in ens:
            for attr, fn in (("cs", xraylib.CS_FluorLine_Kissel), ("csb", xraylib.CSb_FluorLine_Kissel)):
                w = {k.lower(): xl(fn, z, getattr(xraylib, v + "_LINE"), en) for k, v in LINES.items()}
                obj = getattr(e, attr)(en)
                ck.equal(dict(obj), w, "cross section/" + attr, "%s of %s at %s keV" % (attr, e.sym, en))
                ck.equal(obj.incident_energy, en, "cross section/energy", "energy")
                # changing the energy afterwards gives what a new object gives
                en2 = ens[(ens.index(en) + 1) % len(ens)]
                obj.incident_energy = en2
                ck.equal(dict(obj), dict(getattr(e, attr)(en2)), "cross section/changed energy", "%s of %s" % (attr, e.sym))
                obj.incident_energy = en2 + 0.00043721
                ck.equal(obj.incident_energy, en2 + 0.00043721, "cross section/energy", "energy")
                ck.equal(obj["La1"], getattr(e, attr)(en2 + 0.00043721)["La1"], "cross section/changed energy", "%s of %s" % (attr, e.sym))
                ck.step(2)
        for bad in ("xx1", "", "Ka", "L4"):
            ck.raises(lambda: e.emission_line[bad], KeyError, "line/unknown", "line %r" % bad)
            for obj in (e.cs(12.0), e.csb(12.0), e.bind_energy, e.jump_factor, e.fluor_yield):
                ck.raises(lambda: obj[bad], KeyError, "line/unknown", "line or shell %r" % bad)
        ck.state("lines", z)


def search(ck):
    import xraylib
    from skbeam.core.constants import XrfElement, emission_line_search
    cache = {}

    def near(z, energy, delta, inc):
        out = {}
        for k, v in LINES.items():
            le = xl(xraylib.LineEnergy, z, getattr(xraylib, v + "_LINE"))
            if (z, k, inc) not in cache:
                cache[z, k, inc] = xl(xraylib.CS_FluorLine_Kissel, z, getattr(xraylib, v + "_LINE"), inc)
            if cache[z, k, inc] and abs(le - energy) < delta:
                out[k.lower()] = le
        return out

    zs = range(1, 101)
    for z, inc in ck.cases("near", itertools.product(zs, (0.05, 1.5, 8.0, 9.66, 12.0, 40.0))):
        e = XrfElement(z)
        es = sorted({v for v in e.emission_line.values() if v}) + [0.0, 5.0]
        for energy in es:
            gaps = sorted({abs(energy - x) for x in es})[:6]
            for d in [0.0, 0.1] + gaps + [g * 1.0001 + 1e-6 for g in gaps]:
                ck.equal(e.line_near(energy, d, inc), near(z, energy, d, inc), "near", "lines of %s within %s of %s keV at %s keV" % (e.sym, d, energy, inc))
                ck.step()
        ck.state("near", z, inc)
    # incident energies closely below and above every absorption edge
    syms = {z: XrfElement(z).sym for z in range(1, 101)}
    for z in ck.cases("edges", zs):
        e = XrfElement(z)
        edges = sorted({e.bind_energy[s] for s in SHELLS if e.bind_energy[s]})
        for edge, dx in itertools.product(edges, (-0.03, -0.003, -0.0003, -1e-5, 0.0, 1e-5, 0.0003, 0.003, 0.03)):
            inc = edge + dx
            if inc <= 0:
                continue
            w = {k.lower(): xl(xraylib.CS_FluorLine_Kissel, z, getattr(xraylib, v + "_LINE"), inc) for k, v in LINES.items()}
            ck.equal(dict(e.cs(inc)), w, "cross section/edge", "cross sections of %s at %.6f keV" % (e.sym, inc))
            for energy in (edge, e.emission_line["ka1"], e.emission_line["la1"]):
                ck.equal(e.line_near(energy, 60.0, inc), near(z, energy, 60.0, inc), "near/edge", "lines of %s around %s keV at %.6f keV" % (e.sym, energy, inc))
            ck.step(4)
        if edges:
            for inc in (edges[-1] - 1e-4, edges[-1] + 1e-4):
                ck.equal(emission_line_search(edges[-1], 1.0, inc, [z]), {syms[z]: n for n in [near(z, edges[-1], 1.0, inc)] if n}, "search/edge", "search for %s at %.6f keV" % (e.sym, inc))
        ck.state("edges", z)
    for energy, d, inc in ck.cases("search", itertools.chain(
            itertools.product((0.5, 1.74, 6.4, 8.05, 8.639, 10.5, 15.66, 25.0), (0.01, 0.1, 0.5), (3.0, 10.0, 12.0, 45.0)),
            ((XrfElement(z).emission_line[k], d, inc) for z in (1, 3, 5, 6, 92, 97, 98, 99, 100) for k in ("ka1", "la1", "lb1", "ma1") for d in (1e-3, 0.05) for inc in (30.0, 200.0)))):
        full = {syms[z]: n for z in range(1, 101) for n in [near(z, energy, d, inc)] if n}
        ck.equal(emission_line_search(energy, d, inc), full, "search/all", "search at %s +- %s" % (energy, d))
        for lst in ([], ["Zn"], ["zn", "CU", 26], ["Iron", "hG", 30, 30], list(range(20, 40))):
            zl = [XrfElement(x).Z for x in lst]
            ck.equal(emission_line_search(energy, d, inc, lst), {syms[z]: n for z in zl for n in [near(z, energy, d, inc)] if n},
                     "search/list", "search at %s +- %s in %s" % (energy, d, lst))
            ck.step()
        ck.state("search", energy, d, inc)


def standards(ck):
    from skbeam.core.constants.xrs import HKL, PowderStandard, calibration_standards
    for name in ck.cases("standards", sorted(calibration_standards)):
        st = calibration_standards[name]
        ck.equal(st.name, name, "standard/name", "name")
        refl = list(st)
        ck.equal(len(st), len(refl), "standard/len", name)
        ck.true(len(refl) > 3, "standard/len", name)
        qs = [r.q for r in refl]
        ck.equal(qs, sorted(qs), "standard/order", "reflections of %s sorted by q" % name)
        for r in refl:
            ck.true(abs(r.q * r.d - 2 * math.pi) < 1e-9, "standard/q and d", "%s: q=%s d=%s" % (name, r.q, r.d))
            ck.step()
        lat = {"Si": 5.43, "CeO2": 5.41}.get(name)
        if lat:
            for r in refl:
                ck.true(abs(r.d - lat / r.hkl.length) < 0.02, "standard/hkl", "%s %s has d=%s" % (name, tuple(r.hkl), r.d))
        for wl in (0.1, 0.18, 0.3, 1.0, 2.5, 5.0, 12.0):
            with np.errstate(all="ignore"):
                tt = st.convert_2theta(wl)
            ck.equal(len(tt), len(refl), "standard/2theta", "%s: one angle per spacing at %s" % (name, wl))
            for r, t in zip(refl, tt):
                s = wl / (2 * r.d)
                if s > 1 + 1e-9:
                    ck.true(math.isnan(t), "standard/2theta", "%s: angle %s for a spacing not reachable at %s" % (name, t, wl))
                elif s < 1 - 1e-9:
                    ck.true(abs(2 * math.asin(s) - t) < 1e-9, "standard/2theta", "%s at %s" % (name, wl))
        ck.state("std", name)
    hk = [(1, 0, 0), (1, 1, 0), (2, 0, 1), (3, 1, 4)]
    for ds, perm in ck.cases("new standards", itertools.product(([4.0, 2.5, 3.1, 1.25], [3.1, 3.1004, 3.10041, 3.0999], [2.0, 2.0 + 1e-7, 2.0 - 1e-7, 40.0]),
                                                                itertools.permutations(range(4)))):
        for n in range(1, 5):
            p = perm[:n]
            d = np.array([ds[i] for i in p])
            for hkl in (None, [hk[i] for i in p]):
                for wl in (0.5, 1.2):
                    tt = 2 * np.arcsin(wl / (2 * d))
                    for made in (PowderStandard.from_d("s", d, hkl), PowderStandard.from_lambda_2theta_hkl("s", wl, tt, hkl)):
                        order = sorted(p, key=lambda i: -ds[i])
                        got = [(round(float(r.d), 9), tuple(r.hkl), round(float(r.q), 9)) for r in made]
                        want = [(round(ds[i], 9), hk[i] if hkl is not None else (0, 0, 0), round(2 * math.pi / ds[i], 9)) for i in order]
                        ck.equal(got, want, "standard/new", "spacings %s" % (d,))
                        ck.close(made.convert_2theta(wl), np.sort(tt), "standard/round trip", "angles at the calibration wavelength")
                        ck.equal(len(made), n, "standard/len", "new")
                        ck.step()
        ck.state("new", ds, perm)
    for h in ck.cases("hkl", itertools.product((-2, 0, 3), repeat=3)):
        for made in (HKL(*h), HKL(*[float(x) for x in h]), HKL(*[str(x) for x in h]), HKL(h=h[0], k=h[1], l=h[2]), HKL(h[0], k=str(h[1]), l=float(h[2]))):
            ck.equal(tuple(made), h, "hkl", "indices")
            ck.true(all(type(x) is int for x in made), "hkl/type", "indices are integers")
            ck.close(made.length, math.sqrt(sum(x * x for x in h)), "hkl/length", "length of %s" % (h,))
            ck.step()
