"""C22: spectra of fluorescence lines and scattering."""
import copy
import math
import pickle
import numpy as np
import scipy.integrate
import scipy.special
import xraylib
from vh import st, given, assume, check, rec, rule
from spectrocrunch.materials import element, compound, types, interaction
from spectrocrunch.materials import xrayspectrum as xs
from spectrocrunch.materials.xrayspectrum import Spectrum, FluoLine, FluoZLine, Shell, RayleighLine, ComptonLine, Line
from spectrocrunch.geometries import xrf as xrfgeometries
from spectrocrunch.detectors import xrf as xrfdetectors
from spectrocrunch.sources import xray as xraysources
from spectrocrunch.sources import emspectrum
from spectrocrunch.utils import lut
from spectrocrunch.patch.pint import ureg
from spectrocrunch.patch import jsonpickle
from spectrocrunch.patch import xraylib as pxraylib

rule(
    "Generated spectra (element lines, elastic and inelastic scattering of 1 to 4 source lines, angle dependent "
    "values), scattering energies and angles, detector responses and shell/line selections. Non-trivial: more than "
    "one line, a scattering angle that is not zero, a peak with a tail or step, or a shell with subshells."
)
B = st.booleans()
SYMBOLS = ["Al", "S", "Ca", "Fe", "Cu", "Zn", "Sr", "Ag", "Ba", "Au", "Pb", "U"]
LINES = ["KL3", "KL2", "KM3", "KM2", "KN3", "L3M5", "L3M4", "L2M4", "L1M3", "L3N5", "M5N7"]
RATE = st.one_of(st.floats(1e-6, 10), st.floats(0, 1), st.sampled_from([0.0, 1.0])).map(lambda x: round(x, 9))
ENERGY = st.one_of(st.floats(1, 60), st.floats(0.1, 500), st.integers(1, 30)).map(lambda x: round(float(x), 4))
MC2 = 510.99895069


def z(s):
    return xraylib.SymbolToAtomicNumber(s)


def compton(e, polar):
    return e / (1 + e / MC2 * (1 - math.cos(polar)))


def close(a, b, rtol=1e-9, atol=0.0, msg=""):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape, (msg, a.shape, b.shape)
    np.testing.assert_allclose(a, b, rtol=rtol, atol=atol, err_msg=msg)


# ----------------------------------------------------------- kinematics
@check(quick=400, thorough=20000, shards={"quick": 2, "thorough": 8})
@given(st.data())
def kinematics(data):
    es = data.draw(st.lists(ENERGY, min_size=1, max_size=4), "energies")
    scalar = len(es) == 1 and data.draw(B, "scalar")
    theta = data.draw(st.one_of(st.floats(0, 180), st.sampled_from([0.0, 0, 90, 180, 1e-3, 45.0, -30.0])), "theta")
    polar = math.radians(theta)
    rec.case(repr((es, theta)), nontrivial=theta != 0)
    src = es[0] if scalar else np.array(es)
    r, c = RayleighLine(src), ComptonLine(src)
    kw = {"polar": polar}
    if data.draw(B, "azimuth"):
        kw["azimuth"] = 1.0
    close(r.energy(**kw), src)
    want = np.array([compton(e, polar) for e in es])
    got = np.asarray(c.energy(**kw), dtype=float)
    close(got, want[0] if scalar else want, 1e-7, msg="inelastic energy")
    assert np.all(got <= np.asarray(src) * (1 + 1e-12))
    close(c.energy(), src, msg="without angle")
    assert r.nenergy == c.nenergy == (1 if scalar else len(es))
    # back
    if 0.5 < theta < 179.5 and min(es) > 1:
        close(c.scatteringangle(c.energy(polar=polar)), polar if scalar else np.full(len(es), polar), 1e-4, msg="angle")
    # energy from the angle and angle from the energy
    e = es[0]
    f = data.draw(st.floats(0.02, 0.98), "f")
    lo, hi = compton(e, math.pi), e
    e1 = lo + f * (hi - lo)
    ang = ComptonLine(e).scatteringangle(e1)
    assert 0 <= ang <= math.pi
    close(ComptonLine(e).energy(polar=ang), e1, 1e-6, msg="energy of the angle")
    # interactions
    s = interaction.InteractionSource(e, 0)
    close(s.energy, e)
    el, inel = interaction.InteractionElScat(s), interaction.InteractionInelScat(s, theta)
    close(el.energy, e)
    close(inel.energy, compton(e, polar), 1e-7, msg="interaction")
    twice = interaction.InteractionInelScat(inel, theta)
    close(twice.energy, compton(compton(e, polar), polar), 1e-7, msg="scattered twice")
    assert str(el) == "RScat(Source-0)" and str(inel) == "CScat(Source-0)" and el != inel and el == interaction.InteractionElScat(s)
    if compton(e, polar) < e:
        assert inel < s and s > inel and sorted([s, twice, inel]) == [twice, inel, s]
    # separate lines
    for line in (r, c):
        parts = line.split()
        assert len(parts) == line.nenergy and all(type(p) is type(line) for p in parts)
        close([np.ravel(p.energy(polar=polar))[0] for p in parts], np.ravel(line.energy(polar=polar)), 1e-12)
        assert str(line) == line.name == line.groupname and line == line.name and line.valid
    assert r != c and r == RayleighLine(1.0)
    # element lines do not depend on the angle
    sym, name = data.draw(st.sampled_from(SYMBOLS), "el"), data.draw(st.sampled_from(LINES), "line")
    k = FluoZLine(element.Element(sym), FluoLine(name))
    try:
        en = xraylib.LineEnergy(z(sym), getattr(xraylib, name + "_LINE"))
    except ValueError:
        en = None
    if en:
        close(k.energy(**kw), en)
        assert k.valid and k.nenergy == 1 and k.split() == [k]
        f = interaction.InteractionFluo(sym, k.line.shell, k.line)
        close(f.energy, en)
        assert str(f) == str(k) == "%s-%s" % (sym, name)
        close(f._prob, xraylib.FluorYield(z(sym), f_shell(name)) * rr(sym, name), 1e-9)
    for how in (copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)), lambda x: jsonpickle.loads(jsonpickle.dumps(x))):
        k2 = how(k)
        assert k2 == k and str(k2) == str(k) and hash(k2) == hash(k) and k2.energy() == k.energy()


def f_shell(name):
    return getattr(xraylib, ("K" if name[0] == "K" else name[:2]) + "_SHELL")


def rr(sym, name):
    try:
        return xraylib.RadRate(z(sym), getattr(xraylib, name + "_LINE"))
    except ValueError:
        return 0.0


# ----------------------------------------------------------- spectra
class Geometry(object):
    def __init__(self, polar, azimuth, detector=None):
        self.polar, self.azimuth, self.detector = polar, azimuth, detector

    def xrayspectrumkwargs(self):
        return {"polar": self.polar, "azimuth": self.azimuth}


@st.composite
def linelists(draw, n, funcs=True):
    """dict of name to values per source line, and to line"""
    out = {}
    for _ in range(draw(st.integers(0, 5))):
        sym, name = draw(st.sampled_from(SYMBOLS)), draw(st.sampled_from(LINES))
        try:
            xraylib.LineEnergy(z(sym), getattr(xraylib, name + "_LINE"))
        except ValueError:
            continue
        out[sym + "-" + name] = [draw(RATE) for _ in range(n)]
    for s in ("Rayleigh", "Compton"):
        if draw(st.integers(0, 3)):
            out[s] = [draw(RATE) for _ in range(n)]
    return out


def mkline(name, src):
    if name == "Rayleigh":
        return RayleighLine(src)
    if name == "Compton":
        return ComptonLine(src)
    sym, line = name.split("-")
    return FluoZLine(element.Element(sym), FluoLine(line))


def angular(vals):
    return lambda polar=None, azimuth=None: np.array(vals) * (1 + polar**2) * (2 + azimuth)


def energyof(name, src, polar):
    if name == "Rayleigh":
        return list(src)
    if name == "Compton":
        return [compton(e, polar) for e in src]
    sym, line = name.split("-")
    return [xraylib.LineEnergy(z(sym), getattr(xraylib, line + "_LINE"))] * len(src)


def table(s):
    return {str(k): np.asarray(v, dtype=float) for k, v in s.items()}


def same(got, want, rtol=1e-9, msg=""):
    assert set(got) == set(want), (msg, got, want)
    for k in want:
        close(got[k], want[k], rtol, 1e-300, "%s %s" % (msg, k))


@check(quick=400, thorough=20000, shards={"quick": 3, "thorough": 8})
@given(st.data())
def spectra(data):
    src = data.draw(st.lists(ENERGY, min_size=1, max_size=4, unique=True), "source")
    n = len(src)
    asrc = np.array(src)
    polar = data.draw(st.one_of(st.floats(0.05, 3.1), st.sampled_from([math.pi / 2])), "polar")
    azimuth = data.draw(st.floats(0, 3), "azimuth")
    usegeom = data.draw(B, "usegeom")
    typ = data.draw(st.sampled_from(["rate", "crosssection", "diffcrosssection"]), "type")
    density = data.draw(st.floats(0.5, 10), "density")
    funcs = data.draw(st.integers(0, 2), "funcs") == 0
    rec.label(typ)

    def mk(lines, fluo_scalar=False):
        kw = {"type": getattr(Spectrum.TYPES, typ), "density": None if typ == "rate" else density, "xlim": [0, 30], "title": "t"}
        if usegeom:
            kw["geometry"] = Geometry(polar, azimuth)
        else:
            kw["geomkwargs"] = {"polar": polar, "azimuth": azimuth}
        d = {}
        for k, v in lines.items():
            d[mkline(k, asrc)] = angular(v) if funcs else np.array(v, dtype=float)
        return Spectrum(d, **kw)

    def val(v):
        v = np.array(v, dtype=float)
        return v * (1 + polar**2) * (2 + azimuth) if funcs else v

    a = data.draw(linelists(n), "a")
    b = data.draw(linelists(n), "b")
    c = data.draw(linelists(n), "c")
    rec.current = repr((src, polar, usegeom, typ, funcs, a, b, c))
    rec.case(rec.current, nontrivial=len(a) + len(b) > 1)
    A, Bm, C = ({k: val(v) for k, v in x.items()} for x in (a, b, c))
    sa, sb, sc = mk(a), mk(b), mk(c)
    same(table(sa), A, msg="content")
    assert len(sa) == len(a)

    def plus(x, y):
        return {k: x.get(k, 0) + y.get(k, 0) for k in set(x) | set(y)}

    s = sa + sb
    same(table(s), plus(A, Bm), msg="sum")
    s += sc
    same(table(s), plus(plus(A, Bm), C), msg="sum of three")
    tot = Spectrum(type=sa.type, density=sa.density, xlim=sa.xlim, geomkwargs={"polar": polar, "azimuth": azimuth}, geometry=sa.geometry)
    for x in (sa, sb, sc, sa):
        tot += x
    same(table(tot), plus(plus(plus(A, Bm), C), A), msg="accumulated")
    for x, X in ((sa, A), (sb, Bm), (sc, C)):
        same(table(x), X, msg="operand of a sum")
    # conversion
    m = {"rate": 1.0, "crosssection": density / (4 * math.pi), "diffcrosssection": density}[typ]
    conv = {k: v * m for k, v in plus(A, Bm).items()}
    s = sa + sb
    assert s.line_multiplier(convert=False) == 1
    close(s.line_multiplier(), m)
    same({str(k): np.asarray(v) for k, v in s.items_converted()}, conv, msg="converted")
    same({str(k): np.asarray(v) for k, v in s.items_converted(convert=False)}, plus(A, Bm), msg="not converted")
    for k in s:
        close(s.getitem_converted(k, convert=True), conv[str(k)])
        close(s.getitem_converted(k), plus(A, Bm)[str(k)])
    if typ == "rate":
        same({str(k): v for k, v in dict(s.rates).items()}, conv)
        same({str(k): v for k, v in s.rates_dict.items()}, conv)
        wrong = "probabilities"
    else:
        same({str(k): v for k, v in dict(s.probabilities).items()}, conv)
        same({str(k): v for k, v in s.probabilities_dict.items()}, conv)
        wrong = "rates"
    try:
        list(getattr(s, wrong))
    except RuntimeError:
        pass
    else:
        assert False, "wrong type of intensities"
    # single lines
    energies = {k: energyof(k, src, polar) for k in conv}
    flat = []
    for k, v in conv.items():
        if k in ("Rayleigh", "Compton"):
            flat += list(zip(energies[k], v))
        else:
            flat.append((energies[k][0], v.sum()))
    got = sorted((float(np.ravel(e)[0]), float(v)) for e, v in s.spectrum())
    flat.sort()
    assert len(got) == len(flat), (got, flat)
    for (e1, v1), (e2, v2) in zip(sorted(got), flat):
        assert abs(e1 - e2) <= 1e-6 * e2
    close(sum(v for _, v in got), sum(v for _, v in flat), 1e-9, 1e-300, "total intensity")
    close(sum(e * v for e, v in got), sum(e * v for e, v in flat), 1e-6, 1e-300, "total energy")
    srt = [float(np.max(line.energy(polar=polar))) for line, _ in s.items_sorted(sort=True)]
    assert srt == sorted(srt) and len(srt) == len(conv)
    d = s.spectrum_dict
    close(sum(d.values()), sum(v for _, v in flat), 1e-9, 1e-300, "intensity per energy")
    close(sum(e * v for e, v in d.items()), sum(e * v for e, v in flat), 1e-6, 1e-300, "intensity per energy")
    if typ == "rate":
        flux = data.draw(st.floats(1, 1e6), "flux")
        close(s.power(flux).to("keV/s").magnitude, flux * sum(e * v for e, v in flat), 1e-6, 1e-300, "power")
    # groups
    groups = s.linegroups(convert=True)
    tot1 = {}
    for g, lines in groups.items():
        for line, v in lines.items():
            assert line.groupname == g
            tot1[str(line)] = np.asarray(v)
    same(tot1, {k: (v if k in ("Rayleigh", "Compton") else v.sum()) for k, v in conv.items()}, msg="groups")
    if conv and not any(k in ("Rayleigh", "Compton") and n == 0 for k in conv):
        info = s.lineinfo(convert=True)
        rows = sorted((float(np.ravel(i["energy"])[0]), float(i["area"])) for i in info.values())
        assert len(rows) == len(flat)
        close(sum(x[1] for x in rows), sum(x[1] for x in flat), 1e-9, 1e-300, "line info")
        close([x[0] for x in rows], [x[0] for x in flat], 1e-6, 0, "line info energies")
        es = [float(np.ravel(i["energy"])[0]) for i in info.values()]
        assert es == sorted(es)
        labels = [i["label"] for i in info.values() if i["label"]]
        assert sorted(labels) == sorted(set(i["group"] for i in info.values()))
        for g in groups:
            top = [i for i in info.values() if i["label"] == g][0]
            assert top["area"] == max(i["area"] for i in info.values() if i["group"] == g)
    if "Rayleigh" in conv:
        close(s.energysource, asrc)
        assert s.nsource == n
    # weights and sums over the source lines
    w = np.array([data.draw(st.floats(0.05, 5), "w") for _ in src])
    s2 = copy.deepcopy(s)
    s2.apply_weights(None)
    same(table(s2), plus(A, Bm), msg="no weights")
    s2.apply_weights(w)
    same(table(s2), {k: v * w / w.sum() for k, v in plus(A, Bm).items()}, msg="weighted")
    s2.sum_sources()
    for k, v in s2.items():
        x = plus(A, Bm)[str(k)] * w / w.sum()
        close(v, x if str(k) in ("Rayleigh", "Compton") else x.sum(), 1e-9, 1e-300, "summed")
    same(table(s), plus(A, Bm), msg="original of a copy")
    # other type cannot be added
    other = copy.deepcopy(sa)
    other.type = Spectrum.TYPES.rate if typ != "rate" else Spectrum.TYPES.crosssection
    try:
        s += other
    except ValueError:
        pass
    else:
        assert False, "types mixed"
    if conv:
        k = data.draw(st.sampled_from(sorted(conv)), "del")
        line = [x for x in s if str(x) == k][0]
        del s[line]
        assert set(str(x) for x in s) == set(conv) - {k}
    str(sa)


# ----------------------------------------------------------- peak profiles
@st.composite
def detectors(draw):
    kw = {"mcazero": draw(st.sampled_from([0.0, 0.0, 0.05, -0.01])), "mcagain": draw(st.sampled_from([0.005, 0.01])), "mcanoise": draw(st.sampled_from([0.05, 0.1, 0.02])), "mcafano": draw(st.sampled_from([0.1, 0.19])), "ehole": 3.65, "activearea": 0.5}
    kind = draw(st.sampled_from(["plain", "fixed", "fixed", "pymca", "pymca"]))
    flags = {k: draw(st.integers(0, 3)) > 0 for k in ("bpeak", "bstail", "bltail", "bstep")}
    par = {}
    if kind == "fixed":
        par = {
            "stailbroadening": draw(st.one_of(st.floats(0.1, 3), st.sampled_from([0.01, 0.5]))),
            "stailfraction": draw(st.sampled_from([0.0, 0.05, 0.2])),
            "ltailbroadening": draw(st.one_of(st.floats(0.5, 10), st.sampled_from([0.02]))),
            "ltailfraction": draw(st.sampled_from([0.0, 0.01, 0.1])),
            "stepfraction": draw(st.sampled_from([0.0, 0.005, 0.1])),
        }
        kw["shape_fixedarearatios"] = dict(par, **flags)
    elif kind == "pymca":
        par = {
            "stailslope_ratio": draw(st.floats(0.005, 0.5)),
            "stailarea_ratio": draw(st.sampled_from([0.0, 0.05, 0.3])),
            "ltailslope_ratio": draw(st.floats(0.05, 2)),
            "ltailarea_ratio": draw(st.sampled_from([0.0, 0.02, 0.2])),
            "stepheight_ratio": draw(st.sampled_from([0.0, 0.0001, 0.005])),
        }
        kw["shape_pymca"] = dict(par, **flags)
    return kind, flags, par, kw


def integrate(func, u, sigma, scales, lo=0.0):
    """integrals of the columns of func over [lo, u+12 sigma]"""
    pts = [lo, u + 12 * sigma]
    for s in [sigma] + scales:
        pts += [u - k * s for k in (0.25, 0.5, 1, 2, 4, 8, 16, 32)]
        pts += [u + k * s for k in (0.25, 0.5, 1, 2, 4, 8)]
    pts.append(u)
    pts = sorted(p for p in set(pts) if lo <= p <= u + 12 * sigma)
    x, w = np.polynomial.legendre.leggauss(20)
    tot = 0
    for a, b in zip(pts[:-1], pts[1:]):
        y = func((b - a) / 2 * x + (a + b) / 2)
        tot = tot + (np.asarray(y) * w[:, None]).sum(axis=0) * (b - a) / 2
    return tot


@check(quick=250, thorough=8000, shards={"quick": 3, "thorough": 8})
@given(st.data())
def profiles(data):
    kind, flags, par, kw = data.draw(detectors(), "detector")
    det = xrfdetectors.XRFDetector(**kw)
    us = data.draw(st.lists(st.floats(2.5, 25).map(lambda x: round(x, 3)), min_size=1, max_size=3), "energies")
    rec.current = repr((kind, flags, par, kw, us))
    shape = kind != "plain" and any(par.get(k) for k in par if "frac" in k or "area" in k or "height" in k)
    rec.case(rec.current, nontrivial=bool(shape))
    rec.label(kind)
    # width
    ehole = 3.65e-3
    var = [(kw["mcanoise"] / 2.3548200450309493) ** 2 + kw["mcafano"] * ehole * u for u in us]
    close(det.gaussianVAR(np.array(us)), var, 1e-9, 0, "variance")
    close(det.gaussianFWHM(np.array(us)), np.sqrt(var) * 2.3548200450309493, 1e-9)
    if kind == "plain":
        flags = {"bpeak": True, "bstail": False, "bltail": False, "bstep": False}
    x = np.array(sorted(data.draw(st.lists(st.floats(0.01, 27), min_size=1, max_size=6), "x") + [us[0]]))
    # total and components
    for normalized in (None, True, False):
        parts = det.lineprofile(x, us, normalized=normalized, decomposed=True)
        tot = det.lineprofile(x, us, normalized=normalized)
        assert tot.shape == (len(x), len(us)) and np.all(np.isfinite(tot)) and np.all(tot >= 0)
        close(sum(np.broadcast_to(p, tot.shape) for p in parts), tot, 1e-9, 1e-300, "components")
        h = det.lineprofile(us[:1], us[:1], normalized=normalized, onlyheight=True)
        close(np.ravel(h), np.ravel(det.lineprofile(us[:1], us[:1], normalized=normalized)), 1e-9, 1e-300, "height")
    for j, u in enumerate(us):
        sigma = math.sqrt(var[j])
        if kind == "fixed":
            ws = [par["stailfraction"] * flags["bstail"], par["ltailfraction"] * flags["bltail"], par["stepfraction"] * flags["bstep"]]
            wpeak = 1 - par["stailfraction"] - par["ltailfraction"] - par["stepfraction"]
            slopes = [par["stailbroadening"] * sigma, par["ltailbroadening"] * sigma]
            want = [wpeak * flags["bpeak"]] + ws
            y = lambda e: np.column_stack([np.broadcast_to(p, (len(e), 1)) for p in det.lineprofile(e, [u], normalized=True, decomposed=True)])
            close(integrate(y, u, sigma, slopes), want, 1e-5, 1e-7, "area of the components")
            if all(flags.values()):
                tot = integrate(lambda e: det.lineprofile(e, [u]), u, sigma, slopes)
                close(tot, [1.0], 1e-5, 0, "area of the peak")
            if flags["bpeak"]:
                # relative to the area of the Gaussian
                y2 = lambda e: np.column_stack([np.broadcast_to(p, (len(e), 1)) for p in det.lineprofile(e, [u], normalized=False, decomposed=True)])
                close(integrate(y2, u, sigma, slopes), np.array(want) / wpeak, 1e-5, 1e-7, "area ratios")
        else:
            y = lambda e: np.column_stack([np.broadcast_to(p, (len(e), 1)) for p in det.lineprofile(e, [u], decomposed=True)])
            if kind == "plain":
                close(integrate(y, u, sigma, []), [1, 0, 0, 0], 1e-6, 1e-9, "Gaussian")
            else:
                slopes = [par["stailslope_ratio"], par["ltailslope_ratio"]]
                got = integrate(y, u, sigma, slopes, lo=u - 40 * max(slopes + [sigma]))
                on = [flags["bpeak"] * 1.0, par["stailarea_ratio"] * flags["bstail"], par["ltailarea_ratio"] * flags["bltail"]]
                close(got[:3], on, 1e-5, 1e-7, "areas")
                ystep = det.lineprofile(np.array([u - 8 * sigma]), [u], decomposed=True)[3]
                wantstep = par["stepheight_ratio"] * flags["bstep"] / (sigma * math.sqrt(2 * math.pi))
                close(np.ravel(ystep)[:1], [wantstep], 1e-6, 1e-12, "step height")
                if flags["bpeak"] and flags["bstail"] and flags["bltail"] and flags["bstep"]:
                    tot = integrate(lambda e: det.lineprofile(e, [u], normalized=True), u, sigma, slopes)
                    close(tot, [1.0], 1e-5, 0, "normalized area")
    # natural width
    W = data.draw(st.floats(1e-4, 0.1), "width")
    if kind == "plain":
        u, sigma = us[0], math.sqrt(var[0])
        wide = 3000 * (W + sigma)
        pts = np.concatenate([-np.geomspace(wide, 1e-3 * sigma, 300), [0], np.geomspace(1e-3 * sigma, wide, 300)])
        xg, wg = np.polynomial.legendre.leggauss(6)
        ee = np.concatenate([(b - a) / 2 * xg + (a + b) / 2 for a, b in zip(pts[:-1], pts[1:])])
        ww = np.concatenate([(b - a) / 2 * wg for a, b in zip(pts[:-1], pts[1:])])
        area = (det.lineprofile(ee + u, [u], linewidth=[W])[:, 0] * ww).sum()
        close(area, 1.0, 1e-3, 0, "area with natural width")
        # convolution of both
        e0 = u + data.draw(st.floats(-3, 3), "k") * sigma
        t = np.linspace(-8 * sigma, 8 * sigma, 4001)
        g = np.exp(-(t**2) / (2 * sigma**2)) / (sigma * math.sqrt(2 * math.pi))
        lor = W / (2 * math.pi) / (W**2 / 4 + (e0 - u - t) ** 2)
        if W > 0.02:
            close(det.lineprofile([e0], [u], linewidth=[W])[0, 0], scipy.integrate.trapezoid(g * lor, t), 1e-4, 0, "convolution")
        f = det.voigtFWHM(u, linewidth=W)
        assert max(W, det.gaussianFWHM(u)) < f < W + det.gaussianFWHM(u)
        # half width
        hm = det.lineprofile([u, u + f / 2], [u], linewidth=[W])[:, 0]
        close(hm[1] / hm[0], 0.5, 2e-3, 0, "half width")
    # descriptions of the same shape
    if kind != "plain" and all(flags.values()):
        u = us[0]
        try:
            det2 = det.convert(shape_conversionenergy=u)
        except RuntimeError:
            return
        assert det2.fixedarearatios is not det.fixedarearatios
        e = np.linspace(max(u - 2, 0.1), u + 1, 50)
        close(det2.lineprofile(e, [u], normalized=True), det.lineprofile(e, [u], normalized=True), 1e-5, 1e-9, "converted shape")
        close(det2.lineprofile(e, [u], normalized=False), det.lineprofile(e, [u], normalized=False), 1e-5, 1e-9, "converted shape")


@check(quick=80, thorough=2500, shards={"quick": 4, "thorough": 8})
@given(st.data())
def detected(data):
    """spectra as measured by a detector"""
    kind, flags, par, kw = data.draw(detectors(), "detector")
    if kind != "fixed":
        kw.pop("shape_pymca", None)
        kind = "plain"
    else:
        assume(all(flags.values()))
        # the profile is evaluated on a grid
        assume(par["stailbroadening"] >= 0.3 and par["ltailbroadening"] >= 0.3)
    det = xrfdetectors.XRFDetector(**kw)
    g = xrfgeometries.factory("sxm120", detectorposition=-15.0, detector=det, source=xraysources.factory("synchrotron"))
    src = sorted(data.draw(st.lists(st.floats(9, 20).map(lambda x: round(x, 3)), min_size=1, max_size=3, unique=True), "source"))
    lines = {k: v for k, v in data.draw(linelists(len(src)), "lines").items()}
    polar = math.radians(g.scatteringangle)
    hi = src[-1] + 3
    lines = {k: v for k, v in lines.items() if min(energyof(k, src, polar)) > 1.5 and max(energyof(k, src, polar)) < hi - 1}
    assume(lines and any(sum(v) > 0 for v in lines.values()))
    rec.current = repr((src, lines, kw))
    rec.case(rec.current, nontrivial=len(lines) > 1)
    s = Spectrum({mkline(k, np.array(src)): np.array(v) for k, v in lines.items()}, xlim=[0.0, hi], type=Spectrum.TYPES.rate, geometry=g, title="t")
    energies = s.mcaenergies()
    gain, zero = kw["mcagain"], kw["mcazero"]
    assert abs(energies[-1] - hi) <= gain / 2 * 1.001
    close(np.diff(energies), np.full(len(energies) - 1, gain), 1e-6, 1e-12)
    close(energies[0], zero + gain * max(round(-zero / gain), 0), 1e-9, 1e-12)
    ch = data.draw(st.integers(0, 2000), "channel")
    assert s.energytochannel(zero + gain * ch) == ch
    assert list(s.energytochannel([zero + gain * ch, -10.0])) == [ch, 0]
    fluxtime = data.draw(st.sampled_from([None, 1e3, 1e6]), "fluxtime")
    histogram = data.draw(B, "histogram")
    total = sum(sum(v) for v in lines.values())
    mult = (fluxtime or 1) * (1 if histogram else 1 / gain)
    opt = {"fluxtime": fluxtime, "histogram": histogram}
    e1, prof, _ = s.sumspectrum(**opt)[:3]
    close(e1, energies)
    # a step over the whole spectrum is not sampled below zero
    close(prof.sum(), total * mult, 5e-3 if kind == "fixed" else 1e-4, 0, "measured intensity")
    e1, prof2, _, info = s.linespectra(**opt)
    close(prof2.sum(axis=1), prof, 1e-9, 1e-9 * prof.max(), "sum of the lines")
    for j, (name, i) in enumerate(info.items()):
        close(i["area"], prof2[:, j].sum() / (1 if histogram else 1 / gain) * (gain if histogram else 1), 5e-3, 1e-9 * prof.max(), "area of a line")
        if i["area"] > 0 and kind == "plain":
            centre = (prof2[:, j] * energies).sum() / prof2[:, j].sum()
            assert abs(centre - float(np.ravel(i["energy"])[0])) < 1e-3, (name, centre, i)
    e1, prof3, _, grp = s.groupspectra(**opt)
    close(prof3.sum(axis=1), prof, 1e-9, 1e-9 * prof.max(), "sum of the groups")
    names = list(grp)
    assert prof3.shape[1] == len(names)
    lst = list(info.items())
    for j, gname in enumerate(names):
        cols = [k for k, (_, i) in enumerate(lst) if i["group"] == gname]
        close(prof2[:, cols].sum(axis=1), prof3[:, j], 1e-9, 1e-9 * prof.max(), "group")
        assert set(grp[gname]) == {n for n, i in lst if i["group"] == gname}
    b = data.draw(st.floats(0, 5), "bkg")
    _, prof4, _ = s.sumspectrum(backfunc=lambda x: np.full_like(x, b), **opt)
    close(prof4, prof + b, 1e-9)
    # signal and background of one line
    isolated = [k for k in info if all(abs(np.ravel(info[k]["energy"])[0] - np.ravel(i["energy"])[0]) > 1 for n, i in info.items() if n != k)]
    if isolated and kind == "plain" and fluxtime:
        k = isolated[0]
        area = float(np.ravel(info[k]["area"])[0])
        if area > 1e-3 * sum(float(np.ravel(i["area"])[0]) for i in info.values()):
            ks = data.draw(st.sampled_from([1, 2, 3]), "kstd")
            rec.label("snr")
            bk = area / 10
            r = s.snr(lambda n: n == k, fluxtime=fluxtime, histogram=histogram, kstd=ks, backfunc=lambda x: np.full_like(np.asarray(x, dtype=float), bk))
            want = area * math.erf(ks / math.sqrt(2))
            close(r["signal"], want, 1e-3, 0, "signal")
            sig = math.sqrt(det.gaussianVAR(float(np.ravel(info[k]["energy"])[0])))
            close(r["background"], bk * 2 * ks * sig, 2e-2, 1e-3 * area, "background")
            close(r["SNR"], r["signal"] / math.sqrt(r["signal"] + 2 * r["background"]), 1e-6)


# ----------------------------------------------------------- text
SHELLS = {"K": ["K"], "L": ["L1", "L2", "L3"], "M": ["M%d" % i for i in range(1, 6)], "N": ["N%d" % i for i in range(1, 8)]}


@check(quick=300, thorough=15000, shards={"quick": 2, "thorough": 8})
@given(st.data())
def text(data):
    sel = data.draw(st.lists(st.one_of(st.sampled_from("KLMN"), st.sampled_from(sum(SHELLS.values(), []))), min_size=1, max_size=6), "shells")
    rec.case(repr(sel), nontrivial=any(s in ("L", "M", "N") for s in sel))
    want = sorted(set(sum([SHELLS.get(s, [s]) for s in sel], [])))
    got = Shell.expandall(sel if len(sel) > 1 or data.draw(B, "list") else sel[0])
    assert list(got) == want, (sel, got)
    assert list(Shell.expandall(got)) == want
    one = data.draw(st.sampled_from("KLMN"), "one")
    e = Shell.expand(one)
    assert ([e] if isinstance(e, str) else list(e)) == SHELLS[one]
    # shrink
    small = Shell.shrink(want)
    wantsmall = []
    for s, sub in SHELLS.items():
        if all(x in want for x in sub):
            wantsmall.append(s)
        else:
            wantsmall += [x for x in sub if x in want]
    assert sorted(small) == sorted(wantsmall), (want, small)
    assert list(Shell.expandall(small)) == want
    # only some of them
    which = data.draw(st.lists(st.sampled_from("KLMN"), min_size=1, max_size=2, unique=True), "which")
    part = Shell.expandselection(list(small), which if len(which) > 1 or data.draw(B, "l2") else which[0])
    wantpart = []
    for s in wantsmall:
        wantpart += SHELLS[s] if s in which else [s]
    assert sorted(part) == sorted(wantpart), (small, which, part)
    # objects and names
    for s in want:
        sh = Shell(s)
        code = getattr(xraylib, s + "_SHELL")
        assert sh.code == code and sh.name == s and str(sh) == s and sh == s and Shell(code) == sh and Shell(sh) == sh
        assert hash(Shell(code)) == hash(sh) and not (sh != s) and sh == code
        sym = data.draw(st.sampled_from(SYMBOLS), "sym")
        try:
            edge = xraylib.EdgeEnergy(z(sym), code)
        except ValueError:
            edge = 0.0
        close(sh.edgeenergy(z(sym)), edge)
        lines = sh.fluolines
        assert all(str(x).startswith(s) for x in lines)
        assert len(set(str(x) for x in lines)) == len(lines)
    objs = [Shell(s) for s in data.draw(st.permutations(want), "perm")]
    codes = [s.code for s in sorted(objs)]
    assert codes == sorted(codes)
    name = data.draw(st.sampled_from(LINES + ["KL1", "KM5", "KN5", "L1N2", "L2N4", "M5N6", "KO2", "KP3"]), "line")
    line = FluoLine(name)
    code = getattr(xraylib, name + "_LINE")
    assert line.code == code and line.name == name and FluoLine(code) == line and FluoLine(line) == line and line == name
    assert hash(FluoLine(code)) == hash(line) and str(line) == name
    shell = "K" if name[0] == "K" else name[:2]
    assert str(line.shell) == shell and str(line.shellsource) == name[len(shell):]
    group = {"KL": "KA"}.get(name[:2], "KB") if name[0] == "K" else shell
    assert str(line.groupname) == group, (name, line.groupname)
    for bad in ("X1", "KL33", ""):
        for cls in (Shell, FluoLine):
            try:
                cls(bad)
            except (ValueError, KeyError):
                pass
            else:
                assert False, bad
    for how in (copy.copy, lambda x: pickle.loads(pickle.dumps(x)), lambda x: jsonpickle.loads(jsonpickle.dumps(x))):
        assert how(line) == line and how(Shell(shell)) == Shell(shell)
    # selection by energy
    sym = data.draw(st.sampled_from(SYMBOLS), "sym2")
    lo, hi = sorted([data.draw(st.floats(0.1, 30), "lo"), data.draw(st.floats(0.1, 90), "hi")])
    Z = data.draw(st.sampled_from([z(sym), sym]), "Z")
    got = FluoLine.factory(energybounds=[Z, lo, hi])
    every = [l for l in FluoLine.all_lines()]
    want2 = {str(l) for l in every if l.energy(z(sym)) > 0 and lo <= l.energy(z(sym)) <= hi}
    assert {str(l) for l in got} == want2 and len(got) == len(want2)
    gotk = FluoLine.factory(shells=[shell], energybounds=[Z, lo, hi])
    assert {str(l) for l in gotk} == {l for l in want2 if l.startswith(shell)}
    gots = Shell.factory(energybounds=[Z, lo, hi])
    for s in gots:
        assert lo <= s.edgeenergy(z(sym)) <= hi and {str(l) for l in s.fluolines} == {l for l in want2 if l.startswith(s.name)}
    names = {s.name for s in gots}
    for s in Shell.all_shells():
        if lo <= s.edgeenergy(z(sym)) <= hi and any(l.startswith(s.name) for l in want2):
            assert s.name in names
    # the same for PyMca: K, L and M shells, subshells only when some are missing
    pm = Shell.pymcafactory(energybounds=[Z, lo, hi], allowsplitM=True)
    assert list(Shell.expandall(pm)) == sorted(n for n in names if n[0] in "KLM") if pm else not any(n[0] in "KLM" for n in names)
    assert sorted(pm) == sorted(Shell.shrink(Shell.expandall(pm))) if pm else True
    pm2 = Shell.pymcafactory(energybounds=[Z, lo, hi], split=["L"], allowsplitM=True)
    assert sorted(pm2) == sorted(sum([SHELLS["L"] if s == "L" else [s] for s in pm], []))
    pm3 = Shell.pymcafactory(energybounds=[Z, lo, hi])
    assert sorted(pm3) == sorted(s for s in pm if s[0] != "M" or s == "M")


# ----------------------------------------------------------- visible light spectra
@check(quick=200, thorough=10000, shards={"quick": 2, "thorough": 8})
@given(st.data())
def discrete(data):
    NM = st.integers(100, 900)

    def mk():
        lines = data.draw(st.lists(NM, min_size=1, max_size=5, unique=True), "lines")
        w = [data.draw(st.floats(0.05, 5).map(lambda x: round(x, 3)), "w") for _ in lines]
        unit = data.draw(st.sampled_from(["nm", "um"]), "unit")
        q = ureg.Quantity(np.array(lines, dtype=float), "nm").to(unit)
        return dict(zip(lines, w)), emspectrum.Discrete(q, w)

    a, sa = mk()
    b, sb = mk()
    rec.case(repr((a, b)), nontrivial=len(set(a) | set(b)) > 1)
    hc = 1.2398419843320026

    def compare(s, d, msg):
        lam = np.sort(hc / s.energies)
        assert s.nlines == len(d)
        close(lam, sorted(d), 1e-6, 0, msg)
        order = np.argsort(hc / s.energies)
        close(np.asarray(s.intensities)[order], [d[k] for k in sorted(d)], 1e-9, 0, msg)
        close(s.total, sum(d.values()), 1e-9)
        close(np.asarray(s.ratios)[order], [d[k] / sum(d.values()) for k in sorted(d)], 1e-9)

    compare(sa, a, "content")
    tot = {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}
    s = sa + sb
    # equal wavelengths given in other units may differ by rounding
    if len(s) == len(tot):
        compare(s, tot, "sum")
    close(s.total, sum(tot.values()), 1e-9, 0, "total")
    compare(sa, a, "operand")
    compare(sb, b, "operand")
    # weighted mean of a curve
    xs_ = sorted(data.draw(st.lists(NM, min_size=2, max_size=5, unique=True), "x"))
    ys = [data.draw(st.floats(0, 2), "y") for _ in xs_]
    l = lut.LUT(x=ureg.Quantity(np.array(xs_, dtype=float), "nm"), y=np.array(ys))
    want = sum(v * np.interp(k, xs_, ys) for k, v in a.items()) / sum(a.values())
    got = sa.sample(l)
    close(got.magnitude if hasattr(got, "magnitude") else got, want, 1e-6, 1e-9, "sample")
    dark = emspectrum.Dark()
    got = sa.sample(emspectrum.Dark())
    assert got == 0
    d2 = dark + sa
    assert d2.isempty() and dark.isempty()
    for how in (copy.copy, copy.deepcopy, lambda x: jsonpickle.loads(jsonpickle.dumps(x))):
        assert how(sa) == sa
