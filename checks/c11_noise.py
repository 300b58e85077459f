"""C11: noise propagation and the beam path."""
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.math import noisepropagation as npg
from spectrocrunch.utils import units, lut
from spectrocrunch.patch.pint import ureg
from spectrocrunch.detectors import area, base as detbase
from spectrocrunch.materials import scintillators, lenses, multilayer
from spectrocrunch.materials import visirlib
from spectrocrunch.materials.compoundfromformula import CompoundFromFormula
from spectrocrunch.geometries import flatarea, base as geombase
from spectrocrunch.optics import xray as xrayoptics
from spectrocrunch.sources import emspectrum
from spectrocrunch.simulation import calcnoise

rule(
    "Random variables with means and deviations over several decades, scalars, arrays and "
    "quantities; explicit probability tables for compounding; random samples, scintillators, "
    "lenses, area detectors, filters, fluxes, energies and exposure settings. Non-trivial: "
    "non-zero deviation, more than one component or array-valued input."
)


class Glass(object):
    """Stand-in for the optical glass data base, which is not installed."""

    def __init__(self, *args):
        self.args = args
        self.mu = 0.002

    def linear_attenuation_coefficient(self, lines):
        wl = lines.to("nm", "spectroscopy").magnitude
        return self.mu * wl / 500.0

    def __eq__(self, other):
        return isinstance(other, Glass) and self.mu == other.mu


if not hasattr(visirlib, "Material"):
    visirlib.Material = Glass


def q(lo, hi):
    """Numbers of at most 4 digits, log-distributed."""
    return st.floats(np.log(lo), np.log(hi), allow_nan=False).map(
        lambda v: float("%.4g" % np.exp(v))
    )


def close(a, b, what, rtol=1e-9, atol=0.0):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    assert a.shape == b.shape, "%s: shape %r instead of %r" % (what, a.shape, b.shape)
    assert np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True), "%s: %r instead of %r" % (
        what, a, b)


RV = st.tuples(q(0.05, 1e4), q(0.01, 0.5))  # mean, relative deviation


def shaped(draw, kind):
    """Means and deviations as scalar, list or array."""
    if kind == "scalar":
        m, r = draw(RV)
        return m, m * r
    shape = (draw(st.integers(1, 3)),)
    if kind == "array2":
        shape += (draw(st.integers(1, 2)),)
    n = int(np.prod(shape))
    v = [draw(RV) for _ in range(n)]
    m = np.array([a for a, _ in v]).reshape(shape)
    s = np.array([a * b for a, b in v]).reshape(shape)
    return m, s


KIND = st.sampled_from(["scalar", "array", "array2"])


@check(quick=700, thorough=15000)
@given(st.data(), KIND)
def moments(data, kind):
    m, s = shaped(data.draw, kind)
    unit = data.draw(st.sampled_from([None, "mm", "keV"]))
    X = npg.randomvariable(m, s)
    rec.case((kind, m, s, unit))

    def mag(v):
        if unit:
            assert units.ureg.Quantity(1, unit).units == v.units
            v = v.magnitude
        return v

    Xu = units.Quantity(X, unit) if unit else X
    close(mag(npg.E(Xu)), m, "mean")
    close(mag(npg.S(Xu)), s, "deviation")
    if unit is None:
        close(npg.VAR(X), s ** 2, "variance")
        close(npg.SNR(X), m / s, "SNR")
        close(npg.NSR(X), s / m, "NSR")
        close(npg.RVAR(X), (s / m) ** 2, "relative variance")
    else:
        close(npg.VAR(Xu).to(ureg.Quantity(1, unit).units ** 2).magnitude, s ** 2, "variance")
    # certain values have no deviation
    close(npg.E(m), m, "mean of a number")
    close(npg.S(m), np.asarray(m) * 0, "deviation of a number")
    # distributions
    p = data.draw(st.floats(0, 1).map(lambda v: round(v, 4)))
    B = npg.bernouilli(p)
    close(npg.E(B), p, "bernouilli mean")
    close(npg.VAR(B), p * (1 - p), "bernouilli variance", atol=1e-15)
    close(npg.E(npg.poisson(m)), m, "poisson mean")
    close(npg.VAR(npg.poisson(m)), m, "poisson variance")


@check(quick=900, thorough=20000)
@given(st.data(), KIND, st.sampled_from(["add", "sub", "mult", "div", "log", "exp", "pow", "repeat", "compound"]))
def operations(data, kind, op):
    """Analytical first order moments and their reversal."""
    m, s = shaped(data.draw, kind)
    rec.case((kind, op, m, s))
    rec.label(op)
    X = npg.randomvariable(m, s)
    v = s ** 2
    if op in ("add", "sub", "mult", "div", "compound"):
        if data.draw(st.booleans()) and kind != "scalar":
            vals = [data.draw(RV) for _ in range(np.asarray(m).size)]
            m2 = np.array([a for a, _ in vals]).reshape(m.shape)
            s2 = np.array([a * b for a, b in vals]).reshape(m.shape)
        else:
            m2, r2 = data.draw(RV)
            s2 = m2 * r2
        if data.draw(st.integers(0, 5)) == 0:
            # certain number
            Y, s2 = m2, np.asarray(m2) * 0
            if np.ndim(s2) == 0:
                s2 = 0.0
        else:
            Y = npg.randomvariable(m2, s2)
        v2 = s2 ** 2
    if op == "add":
        Z, Em, Vm = X + Y, m + m2, v + v2
        back = npg.reverse_add(Z, Y)
    elif op == "sub":
        Z, Em, Vm = X - Y, m - m2, v + v2
        back = npg.reverse_sub(Z, Y)
    elif op == "mult":
        Z, Em, Vm = X * Y, m * m2, m2 ** 2 * v + m ** 2 * v2
        back = npg.reverse_mult(Z, Y)
    elif op == "div":
        Z, Em, Vm = X / Y, m / m2, v / m2 ** 2 + m ** 2 / m2 ** 4 * v2
        back = npg.reverse_div(Z, Y)
    elif op == "log":
        from uncertainties import unumpy

        Z = unumpy.log(X) if kind != "scalar" else unumpy.log(X)[()]
        if kind == "scalar":
            Z = unumpy.log([X])[0]
        Em, Vm = np.log(m), v / m ** 2
        back = npg.reverse_log(Z)
    elif op == "exp":
        # the reversal of the logarithm is the exponential
        mm, ss = np.log(m), s / m
        Z = npg.reverse_log(npg.randomvariable(mm, ss))
        close(npg.E(Z), m, "exp mean")
        close(npg.S(Z), s, "exp deviation")
        return
    elif op == "pow":
        p = data.draw(st.sampled_from([-1, 2, 3, 0.5, 1]))
        Z, Em, Vm = X ** p, m ** p, (p * m ** (p - 1.0)) ** 2 * v
        back = Z ** (1.0 / p)
    elif op == "repeat":
        n = data.draw(st.integers(1, 100))
        Z, Em, Vm = npg.repeat(n, X), n * m, n * v
        back = npg.repeat(n, Z, forward=False)
        close(npg.SNR(Z), npg.SNR(X) * np.sqrt(n), "SNR of repeats")
    else:
        Z = npg.compound(X, Y)
        Em, Vm = m * m2, v * m2 ** 2 + v2 * m
        back = npg.compound(Z, Y, forward=False)
    scale = np.abs(m) + (np.abs(m2) if op in ("add", "sub") else 0)
    close(npg.E(Z), Em, op + " mean", rtol=1e-9, atol=1e-12 * np.max(scale))
    close(npg.VAR(Z), Vm, op + " variance")
    close(npg.E(back), m, op + " reversed mean", rtol=1e-8, atol=1e-12 * np.max(scale))
    # subtracting variances loses digits
    if op in ("add", "sub"):
        amp = (v + v2) / v
    elif op == "mult":
        amp = Vm / (m2 ** 2 * v)
    elif op == "div":
        amp = Vm / (v / m2 ** 2)
    elif op == "compound":
        amp = Vm / (m2 ** 2 * v)
    else:
        amp = 1.0
    assume(np.max(amp) < 1e8)
    close(npg.VAR(back), v, op + " reversed variance", rtol=1e-12 * float(np.max(amp)) + 1e-9)


@check(quick=400, thorough=8000)
@given(st.data())
def compound_exact(data):
    """Mean and variance of a random sum from its exact probability table."""
    n = data.draw(st.lists(st.integers(0, 5), min_size=2, max_size=6))
    x = data.draw(st.lists(st.integers(0, 5), min_size=2, max_size=6))
    pn = np.array(n, dtype=float)
    px = np.array(x, dtype=float)
    assume(pn.sum() and px.sum())
    pn /= pn.sum()
    px /= px.sum()
    EN, EX = np.dot(pn, np.arange(pn.size)), np.dot(px, np.arange(px.size))
    VN = np.dot(pn, np.arange(pn.size) ** 2) - EN ** 2
    VX = np.dot(px, np.arange(px.size) ** 2) - EX ** 2
    py = np.zeros(pn.size * px.size)
    conv = np.array([1.0])
    for k in range(pn.size):
        py[: conv.size] += pn[k] * conv
        conv = np.convolve(conv, px)
    y = np.arange(py.size)
    EY = np.dot(py, y)
    VY = np.dot(py, y ** 2) - EY ** 2
    rec.case((n, x), nontrivial=VN > 1e-9 and VX > 1e-9)
    Y = npg.compound(
        npg.randomvariable(EN, np.sqrt(max(VN, 0))), npg.randomvariable(EX, np.sqrt(max(VX, 0)))
    )
    close(npg.E(Y), EY, "mean", atol=1e-9)
    close(npg.VAR(Y), VY, "variance", atol=1e-9)
    k = data.draw(st.integers(1, 4))
    conv = np.array([1.0])
    for _ in range(k):
        conv = np.convolve(conv, px)
    y = np.arange(conv.size)
    EY = np.dot(conv, y)
    R = npg.repeat(k, npg.randomvariable(EX, np.sqrt(max(VX, 0))))
    close(npg.E(R), EY, "repeat mean", atol=1e-9)
    close(npg.VAR(R), np.dot(conv, y ** 2) - EY ** 2, "repeat variance", atol=1e-9)


# ------------------------------------------------------------ beam path
FORMULAS = [("CaCO3", 2.71), ("Fe2O3", 5.24), ("C6H12O6", 1.5), ("Si", 2.33), ("Pb", 11.3)]
_mats = {}


def material(i):
    if i not in _mats:
        _mats[i] = CompoundFromFormula(*FORMULAS[i], name=FORMULAS[i][0] + str(i))
    return _mats[i]


@st.composite
def stages(draw):
    """Description of one stage of a beam path."""
    kind = draw(st.sampled_from(["sample", "scintillator", "lens", "area"]))
    if kind == "sample":
        n = draw(st.integers(1, 3))
        return kind, {
            "materials": [draw(st.integers(0, len(FORMULAS) - 1)) for _ in range(n)],
            "thickness": [draw(q(1e-6, 1e-3)) for _ in range(n)],
            "anglein": draw(st.sampled_from([90, 62, 30])),
        }
    if kind == "scintillator":
        return kind, {
            "name": draw(st.sampled_from(["LSO ID21", "GGG ID21"])),
            "thickness": draw(q(1, 50)),
        }
    if kind == "lens":
        return kind, {
            "magnification": draw(q(1, 20)), "NA": draw(q(0.1, 0.8)),
            "thickness": draw(q(0.1, 10)), "source": draw(st.sampled_from(["point", "lambertian"])),
            "lightyieldcor": draw(st.sampled_from([1, 0.1])),
        }
    return kind, {
        "name": draw(st.sampled_from(["pcoedge55", "frelon2k16", "frelon2k14", "own"])),
        "tframe": draw(q(0.01, 10)), "nframe": draw(st.integers(1, 50)),
    }


def vis():
    return emspectrum.Discrete(ureg.Quantity([595, 610, 715], "nm"), [1, 2, 1])


def make_area(name):
    if name == "own":
        qe = lut.LUT(x=ureg.Quantity([400.0, 800.0], "nm"), y=[0.4, 0.8], default=0)
        return area.AreaDetector(
            etoDU=0.7, qe=qe, DUoffset=12.0, darkcurrent=3.0, readoutnoise=2.0
        )
    return area.factory(name)


def make_stage(stage):
    """(propagation function, mean gain, mean offset, variance function)"""
    kind, p = stage
    if kind == "sample":
        o = multilayer.Multilayer(
            material=[material(i) for i in p["materials"]], thickness=p["thickness"],
            geometry=geombase.FlatSample(anglein=p["anglein"], angleout=-(180 - p["anglein"])),
        )

        def func(N, energy, **kw):
            return o.propagate(N, energy, **kw)

        def T(energy):
            mu = sum(
                material(i).mass_att_coeff(energy) * material(i).density * t
                for i, t in zip(p["materials"], p["thickness"])
            )
            return np.exp(-mu / np.sin(np.radians(p["anglein"])))

        return func, T, lambda e: 0.0, lambda EN, VN, e: VN * T(e) ** 2 + T(e) * (1 - T(e)) * EN
    if kind == "scintillator":
        o = scintillators.factory(p["name"], thickness=p["thickness"])

        def func(N, energy, **kw):
            return o.propagate(N, energy, **kw)

        def A(energy):
            m = o.material
            return 1 - np.exp(-m.density * p["thickness"] * 1e-4 * m.mass_abs_coeff(energy))

        def var(EN, VN, e):
            a, g = A(e), e * o.nvisperkeV
            return (VN * a ** 2 + a * (1 - a) * EN) * g ** 2 + g * EN * a

        return func, lambda e: A(e) * e * o.nvisperkeV, lambda e: 0.0, var
    if kind == "lens":
        o = lenses.Lens(
            magnification=p["magnification"], NA=p["NA"], thickness=p["thickness"],
            material=Glass(), lightyieldcor=p["lightyieldcor"],
        )

        def func(N, energy, **kw):
            return o.propagate(N, vis(), nrefrac=1.8, source=p["source"], **kw)

        M, k = p["magnification"], np.tan(np.arcsin(p["NA"]))
        if p["source"] == "point":
            y = (k * M / (2 * (M + 1.0))) ** 2
        else:
            y = M ** 2 / (((M + 1.0) / k) ** 2 + M ** 2)
        y *= p["lightyieldcor"]
        s = [(595, 0.25), (610, 0.5), (715, 0.25)]
        T = sum(r * np.exp(-0.002 * wl / 500.0 * p["thickness"]) for wl, r in s)

        def var(EN, VN, e):
            return (VN * T ** 2 + T * (1 - T) * EN) * y ** 2 + y * EN * T

        return func, lambda e: T * y + 0 * e, lambda e: 0.0, var
    o = make_area(p["name"])
    tf, nf = p["tframe"], p["nframe"]

    def func(N, energy, **kw):
        return o.propagate(N, vis(), tframe=tf, nframe=nf, **kw)

    if o.qe.isempty():
        qe = float(o.qe(None).magnitude) if False else float(o.qe.default.magnitude)
    else:
        wl = np.array([595.0, 610, 715])
        if p["name"] == "own":
            yy = np.interp(wl, [400, 800], [0.4, 0.8])
        else:
            # keys in keV or nm
            ls = ureg.Quantity(wl, "nm").to(o.qe.xunits, "spectroscopy").magnitude
            yy = np.interp(ls, o.qe.x.magnitude, o.qe.y.magnitude)
        qe = float(np.dot(yy, [0.25, 0.5, 0.25]))

    def var(EN, VN, e):
        v = VN * qe ** 2 + qe * EN + o.darkcurrent * tf ** 2 + o.readoutnoise ** 2
        return v * o.etoDU ** 2 * nf

    return (
        func,
        lambda e: nf * qe * o.etoDU + 0 * e,
        lambda e: nf * (o.darkcurrent * tf * o.etoDU + o.DUoffset) + 0 * e,
        var,
    )


@st.composite
def photons(draw):
    """Number of photons and energies, scalars or arrays."""
    def arr(s, kind):
        return draw(s) if kind == "scalar" else np.array(draw(st.lists(s, min_size=1, max_size=3, unique=True)))

    N = arr(q(1e2, 1e9), draw(st.sampled_from(["scalar", "array"])))
    E = arr(q(2.5, 30), draw(st.sampled_from(["scalar", "array"])))
    return N, E


@check(quick=400, thorough=6000, shards={"quick": 2, "thorough": 8})
@given(stages(), photons(), st.booleans(), st.data())
def one_stage(stage, ph, fano, data):
    N, E = ph
    rec.case((stage, repr(N), repr(E)))
    rec.label(stage[0])
    func, gain, offset, var = make_stage(stage)
    g, b = np.asarray(gain(np.asarray(E, dtype=float))), offset(np.asarray(E, dtype=float))
    if stage[0] in ("lens", "area"):
        # not energy dependent: one row
        e0 = np.ravel(E)[:1]
        g, b = gain(e0)[0], offset(e0)[0] if stage[0] == "area" else 0.0
        isarr = np.ndim(N) > 0
    else:
        isarr = np.ndim(N) > 0 or np.ndim(E) > 0
    expected = np.atleast_1d(g)[:, np.newaxis] * np.atleast_1d(N)[np.newaxis, :] + np.atleast_1d(b)[:, np.newaxis]
    if not isarr:
        expected = expected[0, 0]
    assume(np.min(g) > 1e-12)
    out = func(N, E)
    close(out, expected, "propagated number", rtol=1e-8)
    # reverse the result
    if isarr:
        want = np.broadcast_to(np.atleast_1d(N), expected.shape)
    else:
        want = N
    close(func(out, E, forward=False), want, "reversed number", rtol=1e-6)
    # with noise
    s = np.asarray(N) ** 0.5 * data.draw(st.sampled_from([1.0, 3.0]))
    NRV = npg.randomvariable(N, s if np.ndim(N) else float(s))
    outn = func(NRV, E)
    close(npg.E(outn), expected, "mean of the propagated variable", rtol=1e-8)
    e = np.atleast_1d(np.asarray(E, dtype=float))[:, np.newaxis]
    if stage[0] in ("lens", "area"):
        e = e[:1]
    v = np.asarray(var(np.atleast_1d(N)[np.newaxis, :], np.atleast_1d(s)[np.newaxis, :] ** 2, e[:, 0][:, np.newaxis] if stage[0] in ("lens", "area") else e), dtype=float)
    v = v if isarr else v.ravel()[0]
    close(npg.VAR(outn), v, "variance of the propagated variable", rtol=1e-8)
    back = func(outn, E, forward=False)
    close(npg.E(back), want, "mean of the reversed variable", rtol=1e-6)
    amp = np.max(v / (np.min(g) ** 2 * np.min(s) ** 2))
    if amp < 1e9:
        want2 = np.broadcast_to(np.atleast_1d(s), expected.shape) ** 2 if isarr else s ** 2
        close(npg.VAR(back), want2, "variance of the reversed variable", rtol=1e-6 + amp * 1e-12)
    # never more signal with less photons
    less = func(np.asarray(N) * 0.5 if np.ndim(N) else N * 0.5, E)
    assert np.all(np.asarray(less) <= np.asarray(out) * (1 + 1e-12))
    if stage[0] == "area":
        # poisson approximation after conversion to electrons
        a = func(NRV, E, poissonapprox=True)
        close(npg.E(a), expected, "mean of the poisson approximation", rtol=1e-8)


@st.composite
def setups(draw):
    n = draw(st.integers(0, 2))
    return {
        "materials": [draw(st.integers(0, len(FORMULAS) - 1)) for _ in range(n)],
        "thickness": [draw(q(1e-6, 5e-4)) for _ in range(n)],
        "scint": draw(st.sampled_from(["LSO", "GGG"])),
        "lens": draw(st.sampled_from(["x10", "x20"])),
        "det": draw(st.sampled_from(["pcoedge55", "frelon2k16", "frelon2k14"])),
    }


def make_setup(p):
    sample = None
    if p["materials"]:
        sample = multilayer.Multilayer(
            material=[material(i) for i in p["materials"]], thickness=list(p["thickness"]),
            geometry=flatarea.factory("perpendicular"),
        )
    return calcnoise.id21_ffsetup(sample=sample, scint=p["scint"], lens=p["lens"], det=p["det"])


@check(quick=240, thorough=4000, shards={"quick": 2, "thorough": 8})
@given(setups(), photons(), q(0.01, 2), st.integers(1, 100), st.data())
def instrument(setup, ph, tframe, nframe, data):
    N, E = ph
    isarr = np.ndim(N) > 0 or np.ndim(E) > 0
    rec.case((setup, repr(N), repr(E), tframe, nframe), nontrivial=isarr)
    o = make_setup(setup)
    shape = (np.size(E), np.size(N))
    want = np.broadcast_to(np.atleast_1d(N), shape) if isarr else N
    for samplein in (False, True):
        kw = {"samplein": samplein}
        out = o.propagate(N, E, tframe, nframe, **kw)
        assert np.shape(out) == np.shape(want)
        # the offset may hide the signal
        m, D = o.photontoDU(E, tframe, nframe, samplein=samplein)
        gain = np.asarray(m, dtype=float).reshape(-1, 1) if np.ndim(m) else float(m)
        assert np.all(np.asarray(gain) > 0)
        signal = gain * np.atleast_1d(N)[np.newaxis, :] if isarr else gain * N
        D = np.ravel(np.asarray(D, dtype=float))[0]
        close(out, signal + D, "linear relation", rtol=1e-8)
        lost = float(np.max(out / signal))
        assume(lost < 1e8)
        back = o.propagate(out, E, tframe, nframe, forward=False, **kw)
        close(back, want, "recovered photons", rtol=1e-7 + 1e-14 * lost)
        N_rv = npg.poisson(N)
        outn = o.propagate(N_rv, E, tframe, nframe, **kw)
        close(npg.E(outn), out, "mean with noise", rtol=1e-8)
        backn = o.propagate(outn, E, tframe, nframe, forward=False, **kw)
        close(npg.E(backn), want, "recovered mean", rtol=1e-6 + 1e-13 * lost)
        amp = float(np.max(npg.VAR(outn) / (np.asarray(signal) ** 2 / want)))
        if amp < 1e8:
            close(npg.VAR(backn), want, "recovered variance", rtol=1e-6 + 1e-12 * amp * lost)
        if samplein:
            assert np.all(np.asarray(out) <= np.asarray(out0) * (1 + 1e-12))
        out0 = out
    # flux <-> flat field
    img = o.flatfromflux(N, E, tframe, nframe)
    close(img, o.propagate(np.asarray(N) * tframe if np.ndim(N) else N * tframe, E, tframe, nframe), "flat field")
    lost2 = float(np.max(np.asarray(img) / np.maximum(np.asarray(img) - D, 1e-300)))
    assume(lost2 < 1e8)
    flux = o.fluxfromflat(img, E, tframe, nframe)
    close(flux, want, "flux from the flat field", rtol=1e-7 + 1e-14 * lost2)


@check(quick=200, thorough=3000, shards={"quick": 2, "thorough": 8})
@given(setups(), photons(), st.data())
def absorption_spectrum(setup, ph, data):
    """The normalized signal is the sample transmission, whatever the exposure."""
    flux, E = ph
    E = np.sort(np.atleast_1d(E))
    flux = float(np.ravel(flux)[0])
    kw = {
        "tframe_data": data.draw(q(0.05, 2)), "nframe_data": data.draw(st.integers(1, 50)),
        "tframe_flat": data.draw(q(0.05, 2)), "nframe_flat": data.draw(st.integers(1, 50)),
        "nframe_dark": data.draw(st.integers(1, 20)),
    }
    rec.case((setup, flux, E.tolist(), kw), nontrivial=bool(setup["materials"]))
    o = make_setup(setup)
    if setup["materials"]:
        mu = sum(
            material(i).mass_att_coeff(E) * material(i).density * t
            for i, t in zip(setup["materials"], setup["thickness"])
        )
    else:
        mu = np.zeros(E.shape)
    N, N0, D, D0 = o.measurement(flux, E, withnoise=False, **kw)
    lost = float(np.max(N0 / (N0 - np.ravel(D0)[0] / kw["nframe_dark"] * kw["nframe_flat"])))
    assume(lost < 1e6)
    assume(np.max(mu) < 8)
    T = calcnoise.transmission(N, N0, D=D, D0=D0, **kw)
    close(np.ravel(np.asarray(T, dtype=float)), np.exp(-mu), "transmission", rtol=1e-6, atol=1e-13 * lost * 100)
    assert np.all(np.asarray(T, dtype=float) <= 1 + 1e-7)
    signal, noise = o.xanes(flux, E, **kw)
    Trv = calcnoise.transmission(*o.measurement(flux, E, **kw)[:2], *o.measurement(flux, E, **kw)[2:], **kw)
    ok = np.ravel(npg.E(Trv)) > 1e-4
    close(np.ravel(signal)[ok], mu[ok], "absorbance", rtol=1e-4, atol=1e-6 + 1e-9 * lost)
    assert np.all(np.ravel(noise) > 0)
    # more photons, less noise
    _, noise2 = o.xanes(flux * 4, E, **kw)
    assert np.all(np.ravel(noise2) <= np.ravel(noise) * (1 + 1e-9))


# ------------------------------------------------------------ filters
@st.composite
def filters(draw):
    n = draw(st.integers(0, 5))
    return [
        (
            draw(st.sampled_from(["beam", "beamnamed", "detector", "cover", "remove", "clearbeam", "cleardet"])),
            draw(st.integers(0, len(FORMULAS) - 1)),
            draw(q(1e-6, 1e-2)),
            draw(st.integers(0, 3)),
        )
        for _ in range(n)
    ]


@check(quick=400, thorough=8000, shards={"quick": 2, "thorough": 8})
@given(
    filters(), st.lists(q(2.5, 30), min_size=1, max_size=3), st.lists(q(2.5, 30), min_size=1, max_size=3),
    st.one_of(st.none(), st.tuples(st.integers(0, 4), q(1e-4, 0.1))),
    st.one_of(st.none(), st.tuples(st.integers(0, 4), q(1e-2, 100))), st.booleans(), st.booleans(),
)
def filter_chain(ops, e0, e1, detmat, atm, withdet, scalar):
    """Filters before the sample act on the source energies, the others on the emitted ones."""
    rec.case((ops, e0, e1, detmat, atm), nontrivial=len(ops) > 1)

    class Geometry(object):
        pass

    det = detbase.SolidState(ehole=3.6)
    det.geometry = Geometry()
    if atm:
        det.geometry.atmosphere = material(atm[0])
        det.geometry.distance = ureg.Quantity(atm[1], "cm")
    if detmat:
        det.addattenuator(det.DETMATERIALLABEL, material(detmat[0]), detmat[1])
    before, after = {}, {}
    last = None
    e0, e1 = np.array(e0), np.array(e1)

    def tau(e, filt):
        return sum(
            (material(i).mass_att_coeff(e) * material(i).density * t for i, t in filt.values()),
            np.zeros(len(e)),
        )

    for op, i, t, k in ops:
        removed = False
        if op == "beam":
            names = set(det.attenuators)
            det.addbeamfilter(None, material(i), t)
            new = set(det.attenuators) - names
            assert len(new) == 1, "an existing filter is replaced"
            before[new.pop()] = i, t
        elif op == "beamnamed":
            name = "BeamFilter%d" % (20 + k)
            replaced = name in before
            det.addbeamfilter(name, material(i), t)
            before[name] = i, t
            removed = replaced
        elif op == "detector":
            name = "Filter%d" % k
            replaced = name in after
            det.adddetectorfilter(name, material(i), ureg.Quantity(t * 10, "mm"))
            after[name] = i, t
            removed = replaced
        elif op == "cover":
            name = "Cover%d" % k
            replaced = name in after
            names = set(det.attenuators) | {name}
            det.addsamplecover(name, material(i), t)
            after[name] = i, t
            new = set(det.attenuators) - names
            assert len(new) == 1, "an existing filter is replaced"
            before[new.pop()] = i, t
            removed = replaced
        elif op == "remove":
            det.removeattenuator("Filter%d" % k)
            after.pop("Filter%d" % k, None)
            removed = True
        elif op == "clearbeam":
            det.removebeamfilters()
            before = {}
            removed = True
        else:
            det.removedetectorfilters(include_atmosphere=False)
            after = {}
            removed = True
        after2 = dict(after)
        if atm:
            after2["atm"] = atm
        assert len(det.beamfilters()) == len(before)
        assert len(det.detectorfilters()) == len(after2)
        assert len(det.beamfilters(include_atmosphere=True)) == len(before) + bool(atm)
        assert len(det.detectorfilters(include_atmosphere=False)) == len(after)
        T0, T1 = np.exp(-tau(e0, before)), np.exp(-tau(e1, after2))
        close(det.filter_transmission(e0, source=True), T0, "transmission before the sample", atol=1e-300)
        close(det.filter_transmission(e1), T1, "transmission after the sample", atol=1e-300)
        close(det.filter_attenuation(e1), 1 - T1, "attenuation", atol=1e-12)
        A = 1.0
        if detmat:
            A = 1 - np.exp(-tau(e1, {"d": detmat}))
        close(det.attenuation(e1) + 0 * e1, A + 0 * e1, "detector attenuation", atol=1e-12)
        close(det.transmission(e1) + 0 * e1, 1 - A + 0 * e1, "detector transmission", atol=1e-12)
        eff = det.efficiency(e0, e1, withdetectorattenuation=withdet)
        exp = T0[:, None] * (T1 * (A if withdet else 1.0))[None, :]
        close(eff, exp, "efficiency", rtol=1e-8, atol=1e-15)
        assert np.all((eff >= 0) & (eff <= 1))
        if last is not None and not removed:
            assert np.all(eff <= last * (1 + 1e-12)), "more absorption, more signal"
        last = eff
    if scalar:
        close(det.filter_transmission(float(e1[0])), np.exp(-tau(e1[:1], after2))[0] if ops else det.filter_transmission(e1)[0], "scalar energy", atol=1e-300)


@check(quick=300, thorough=6000)
@given(
    st.sampled_from(["KB", "ZonePlate"]),
    st.lists(st.tuples(st.integers(2, 20), st.integers(0, 100)), max_size=4), st.lists(q(1, 25), min_size=1, max_size=3),
    st.integers(0, 4), q(1e-6, 1e-2),
)
def optics(name, points, energies, i, t):
    o = xrayoptics.factory(name)
    rec.case((name, points, energies, i, t), nontrivial=len(points) > 1)
    table = {}
    for e, p in points:
        o.set_transmission(e, p / 100.0)
        table[e] = p / 100.0
        close(o.transmission(e), p / 100.0, "transmission as set")
    e = np.array(energies)
    if table:
        x = sorted(table)
        exp = np.interp(e, x, [table[k] for k in x])
    else:
        exp = np.ones(len(e))
    T = o.transmission(e)
    close(T, exp, "interpolated transmission", atol=1e-12)
    assert np.all((T >= 0) & (T <= 1 + 1e-12))
    o.reset_transmission()
    close(o.transmission(e), np.ones(len(e)), "transmission after reset")
    f = xrayoptics.factory("Filter", material=material(i), thickness=t)
    T = f.transmission(e)
    close(T, np.exp(-material(i).mass_att_coeff(e) * material(i).density * t), "filter", atol=1e-300)
    f2 = xrayoptics.factory("Filter", material=material(i), thickness=t * 1.5)
    assert np.all(f2.transmission(e) <= T)
