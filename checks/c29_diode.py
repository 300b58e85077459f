"""C29: diode and flux calibration."""
import copy
import logging
import warnings
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.utils import units, constants
from spectrocrunch.patch import jsonpickle
from spectrocrunch.detectors import diode
from spectrocrunch.geometries import qxrf
from spectrocrunch.optics import xray as xrayoptics
from spectrocrunch.materials import element, compoundfromname

rule(
    "Generated diodes (bare photodiodes and all instrument classes; gain as V/A or full-scale current with discrete "
    "gain steps, dark current, voltage-to-frequency converter with offset, thickness, filters, optics with tabulated "
    "transmission or material filters, secondary target), source spectra (one line, several weighted lines, several "
    "sources), fluxes, exposure times and calibration data generated with known parameters. Non-trivial: dark "
    "current or frequency offset not zero, or several lines, or filters or optics present."
)
logging.getLogger("spectrocrunch.detectors.diode").setLevel(logging.CRITICAL)
B = st.booleans()
Q = units.Quantity
E_CHARGE = 1.602176634e-19


def F(lo, hi):
    return st.floats(lo, hi, allow_nan=False)


def logf(lo, hi):
    return st.floats(np.log10(lo), np.log10(hi)).map(lambda x: 10.0**x)


def near(a, b, rtol=1e-9, atol=0.0, msg=""):
    np.testing.assert_allclose(np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=atol, err_msg=msg)


def mag(q, u):
    return np.asarray(q.to(u).magnitude, float)


MATERIALS = {}


def material(name):
    if name not in MATERIALS:
        if len(name) <= 2:
            MATERIALS[name] = element.Element(name)
        else:
            MATERIALS[name] = compoundfromname.compoundfromname(name)
    return MATERIALS[name]


FILTERS = {"Al": (1e-4, 5e-3), "Ti": (1e-4, 1e-3), "Si": (1e-4, 5e-3), "air": (0.1, 20.0), "kapton": (1e-4, 2e-2)}


@st.composite
def filters(draw, maxsize=2):
    out = []
    for _ in range(draw(st.integers(0, maxsize))):
        name = draw(st.sampled_from(sorted(FILTERS)))
        out.append((draw(st.sampled_from(["beam", "det"])), name, draw(F(*FILTERS[name]))))
    return out


@st.composite
def optics(draw, maxsize=2):
    out = []
    for _ in range(draw(st.integers(0, maxsize))):
        kind = draw(st.sampled_from(["kb", "zp", "filter"]))
        if kind == "filter":
            name = draw(st.sampled_from(sorted(FILTERS)))
            out.append((kind, name, draw(F(*FILTERS[name]))))
        else:
            n = draw(st.integers(0, 3))
            pts = {draw(st.integers(4, 15)): draw(F(0.05, 1)) for _ in range(n)}
            out.append((kind, pts))
    return out


def make_optics(spec):
    out = []
    for item in spec:
        if item[0] == "filter":
            out.append(xrayoptics.Filter(material=material(item[1]), thickness=item[2]))
        else:
            dev = xrayoptics.factory(item[0])
            for en, t in item[1].items():
                dev.set_transmission(float(en), t)
            out.append(dev)
    return out


def optics_transmission(spec, energy):
    t = np.ones_like(energy)
    for item in spec:
        if item[0] == "filter":
            mat = material(item[1])
            t = t * np.exp(-mat.mass_att_coeff(energy) * mat.density * item[2])
        elif item[1]:
            x = np.array(sorted(item[1]), float)
            y = np.array([item[1][int(k)] for k in x])
            t = t * np.interp(energy, x, y)
    return t


GENERIC = "generic"
DIRECT = ["idet", "fdet", "microdiff_pico1", "id16b_It", "id16b_I0"]
INDIRECT = ["iodet1", "iodet2", "ID16B_IC"]


@st.composite
def diodespecs(draw, kinds, allowoptics=True):
    kind = draw(st.sampled_from(kinds))
    spec = {"kind": kind}
    spec["filters"] = draw(filters())
    spec["dark"] = draw(st.sampled_from([0.0, None])) if draw(B) else draw(logf(1e-14, 1e-9))
    spec["offset"] = draw(st.sampled_from([0.0, 10.0, 1234.5]))
    spec["gain"] = draw(st.integers(4, 10))
    spec["thickness"] = draw(logf(5e-4, 5e-2))
    spec["optics"] = []
    if kind == GENERIC:
        spec["before"] = draw(B)
        spec["gaintype"] = draw(st.sampled_from(["V/A", "A"]))
        spec["gainvalue"] = draw(logf(1e3, 1e10))
        spec["fmax"] = draw(logf(1e4, 1e8))
        spec["vmax"] = draw(F(0.5, 12))
        spec["ownvmax"] = draw(st.sampled_from([None, 2.1, 7.0]))
        spec["ehole"] = draw(F(2.5, 30))
    if allowoptics and kind not in ("idet", "fdet", "microdiff_pico1", "id16b_It"):
        spec["optics"] = draw(optics())
    if spec.get("before") is False:
        # only optics between the source and the sample
        spec["optics"] = []
    return spec


def make_diode(spec, **kwargs):
    kind = spec["kind"]
    opt = make_optics(spec["optics"])
    if kind == GENERIC:
        osc = diode.Oscillator(Fmax=Q(spec["fmax"], "Hz"), F0=Q(spec["offset"], "Hz"), Vmax=Q(spec["vmax"], "volt"))
        if spec["gaintype"] == "A":
            gain = Q(1 / spec["gainvalue"], "A")
        else:
            gain = Q(spec["gainvalue"], "V/A")
        o = diode.NonCalibratedPNdiode(
            gain=gain,
            darkcurrent=Q(spec["dark"] or 0.0, "A"),
            oscillator=osc,
            Vmax=None if spec["ownvmax"] is None else Q(spec["ownvmax"], "volt"),
            beforesample=spec["before"],
            optics=opt,
            ehole=Q(spec["ehole"], "eV"),
            attenuators={"Detector": {"material": material("Si"), "thickness": spec["thickness"]}},
            **kwargs
        )
    else:
        o = diode.factory(kind, optics=opt, **kwargs)
        if spec["dark"] is not None:
            o.darkcurrent = Q(spec["dark"], "A")
        if o.oscillator is not None:
            o.oscillator.F0 = spec["offset"]
        if o.gainunits == units.Quantity(1, "A").units:
            o.gain = 2.1 * 10.0 ** -spec["gain"]
        else:
            o.gain = 10.0 ** spec["gain"]
        if kind != "idet":
            o.thickness = spec["thickness"]
    for where, name, thickness in spec["filters"]:
        if where == "beam":
            o.addbeamfilter(None, material(name), thickness)
        else:
            o.adddetectorfilter("filter_%d" % len(o.attenuators), material(name), Q(thickness * 10, "mm"))
    return o


ENERGY = st.integers(400, 1500).map(lambda i: i / 100.0)


@st.composite
def spectra(draw, multisource=True, maxlines=3):
    mode = draw(st.sampled_from(["one", "one", "lines", "lines", "sources"] if multisource else ["one", "lines"]))
    if mode == "one":
        return mode, draw(ENERGY), None
    ns = draw(st.integers(1, 3)) if mode == "sources" else 1
    nl = draw(st.integers(1, maxlines))
    en = np.array([draw(st.lists(ENERGY, min_size=nl, max_size=nl, unique=True)) for _ in range(ns)])
    w = None
    if draw(B):
        w = np.array([[draw(st.integers(1, 20)) / draw(st.sampled_from([1.0, 7.0])) for _ in range(nl)] for _ in range(ns)])
    if mode == "lines":
        return mode, en[0], None if w is None else w[0]
    return mode, en, w


def lines(energy, weights):
    en = np.atleast_2d(np.asarray(energy, float))
    w = np.ones_like(en) if weights is None else np.atleast_2d(np.asarray(weights, float))
    return en, w / w.sum(axis=-1, keepdims=True)


def filter_t(spec, kind, where, energy):
    t = np.ones_like(energy)
    if kind == "id16b_It" and where == "det":
        mat = material("air")
        t = t * np.exp(-mat.mass_att_coeff(energy) * mat.density * 80.0)
    for w, name, thickness in spec["filters"]:
        if w == where:
            mat = material(name)
            t = t * np.exp(-mat.mass_att_coeff(energy) * mat.density * thickness)
    return t


def charge_direct(spec, o, energy, weights):
    """C per photon at the sample (direct detection)"""
    en, w = lines(energy, weights)
    flat = en.ravel()
    fs = filter_t(spec, spec["kind"], "beam", flat)
    fd = filter_t(spec, spec["kind"], "det", flat)
    si = material("Si")
    if spec["kind"] == "idet":
        thickness = 300e-4
        resp = idet_response(flat)
    else:
        thickness = spec["thickness"]
        ehole = spec.get("ehole")
        if ehole is None:
            ehole = constants.eholepair_si().to("eV").magnitude
        a = 1 - np.exp(-si.mass_att_coeff(flat) * si.density * thickness)
        resp = a / ehole
    charge = fs * fd * flat * 1e3 * resp * E_CHARGE
    t = np.ones_like(flat)
    if o.beforesample:
        si_t = np.exp(-si.mass_att_coeff(flat) * si.density * thickness)
        t = optics_transmission(spec["optics"], flat) * fs * fd * si_t
    charge = charge.reshape(en.shape)
    t = t.reshape(en.shape)
    return (w * charge).sum(axis=-1) / (w * t).sum(axis=-1)


_IDET = {}


def idet_response(energy):
    """e/eV"""
    if not _IDET:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            from spectrocrunch.resources import resource_filename

            ird = np.loadtxt(resource_filename("id21/ird.dat"))
            ptb = diode.SXM_PTB(model=True)
            x = ird[:-4, 0]
            y = ird[:-4, 1]
            if x[-1] < 8.4:
                x = np.append(x, 8.4)
                y = np.append(y, 3.22)
            si = material("Si")
            thickness = ptb.thickness
            ehole = ptb.ehole.to("eV").magnitude
            ref = (1 - np.exp(-si.mass_att_coeff(x) * si.density * thickness)) / ehole
            _IDET["x"], _IDET["y"] = x, y * ref
    x, y = _IDET["x"], _IDET["y"]
    si = material("Si")
    full = (1 - np.exp(-si.mass_att_coeff(energy) * si.density * 300e-4)) / constants.eholepair_si().to("eV").magnitude
    return np.where((energy >= x[0]) & (energy <= x[-1]), np.interp(energy, x, y), full)


def charge_of(o, energy, weights):
    """charge per photon from two fluxes"""
    i1 = mag(o.fluxtocurrent(energy, 2e9, weights=weights), "A")
    i0 = mag(o.fluxtocurrent(energy, 0.0, weights=weights), "A")
    return np.ravel((i1 - i0) / 2e9)


def vmax_of(spec, o):
    return o.Vmax.to("V").magnitude


def conversions(data, spec, o, energy, weights, charge, nmax=None):
    """all conversions against the chain of linear relations"""
    draw = data.draw
    array = draw(B)
    n = draw(st.integers(1, 3)) if array else 1
    flux = np.array([draw(logf(1e5, 1e12)) for _ in range(n)])
    ns = np.atleast_2d(energy).shape[0] if np.ndim(energy) == 2 else None
    arg = flux if array else float(flux[0])
    if ns is not None:
        arg = np.broadcast_to(flux, (ns, n)) if draw(B) else flux[np.newaxis, :]
    qarg = Q(arg, "Hz").to("kHz") if draw(B) else arg
    time = draw(logf(1e-3, 1e2))
    qtime = Q(time, "s") if draw(B) else time
    dark = spec["dark"] or 0.0
    cur = flux[np.newaxis, :] * charge[:, np.newaxis] + dark
    rec.current = repr((spec, energy, weights, flux, time))
    got = mag(o.fluxtocurrent(energy, qarg, weights=weights), "A")
    near(np.broadcast_to(got, cur.shape), cur, rtol=1e-6, msg="current")
    cur = got
    tol = dict(rtol=1e-8 + 1e-12 * np.max(np.abs(cur)) / np.min(charge[:, np.newaxis] * flux))

    def inverse(q, what):
        got = mag(q, "Hz")
        assert np.ndim(got) >= (2 if ns is not None else 0)
        near(np.broadcast_to(got, (len(charge), n)), np.broadcast_to(flux, (len(charge), n)), msg=what, **tol)

    todo = []  # expensive conversions (need the charge per photon)
    inverse_ = lambda call, what: todo.append((call, what))
    fl = dict(weights=weights)
    inverse_(lambda: o.currenttoflux(energy, Q(cur, "A"), **fl), "flux of current")
    inverse_(lambda: o.currenttoflux(energy, cur, **fl), "flux of current")
    inverse_(lambda: o.responsetoflux(energy, Q(cur * 1e12, "pA"), **fl), "flux of response in pA")
    inverse_(lambda: o.fluxop(energy, Q(cur, "A"), **fl)(Q(cur, "A")), "operator current")
    todo.append((lambda: (o.op_currenttoflux(energy, **fl), o.op_fluxtocurrent(energy, **fl)), None))
    if o.Vmax is not None:
        # ammeter
        if spec["kind"] == GENERIC:
            r = spec["gainvalue"]
            vmax = spec["ownvmax"] or spec["vmax"]
            if spec["gaintype"] == "A":
                r = r * vmax
            near(vmax_of(spec, o), vmax)
        elif o.gainunits == units.Quantity(1, "A").units:
            r = 2.1 / (2.1 * 10.0 ** -spec["gain"])
        else:
            r = 10.0 ** spec["gain"]
        near(mag(o.Rout, "V/A"), r)
        near(mag(o.Imax, "A"), vmax_of(spec, o) / r)
        volt = cur * r
        near(mag(o.currenttovoltage(Q(cur, "A")), "V"), volt)
        inverse_(lambda: o.voltagetoflux(energy, volt, **fl), "flux of voltage")
        inverse_(lambda: o.responsetoflux(energy, Q(volt, "V").to("mV"), **fl), "flux of response in V")
        inverse_(lambda: o.fluxop(energy, Q(volt, "V"), **fl)(Q(volt, "V")), "operator voltage")
        # oscillator
        osc = o.oscillator
        if spec["kind"] == GENERIC:
            fmax, v = spec["fmax"], spec["vmax"]
        else:
            fmax, v = mag(osc.Fmax, "Hz"), mag(osc.Vmax, "V")
            near([fmax, v], [5e7, 2.5] if "16" in spec["kind"] else [1e6, 10])
        cps = volt * fmax / v + spec["offset"]
        tol["rtol"] += 1e-12 * np.max(np.abs(cps)) / np.min(charge[:, np.newaxis] * flux * r * fmax / v)
        near(mag(o.voltagetocps(volt), "Hz"), cps)
        near(mag(o.currenttocps(cur), "Hz"), cps)
        todo.append((lambda: near(mag(o.fluxtocps(energy, qarg, **fl), "Hz"), cps), None))
        todo.append((lambda: near(mag(o.fluxtovoltage(energy, qarg, **fl), "V"), volt), None))
        atol = 1e-12 * np.max(np.abs(cps))
        near(mag(o.cpstovoltage(Q(cps, "Hz")), "V"), volt, atol=atol * v / fmax)
        near(mag(o.cpstocurrent(cps), "A"), cur, atol=atol * v / fmax / r)
        inverse_(lambda: o.cpstoflux(energy, cps, **fl), "flux of count rate")
        inverse_(lambda: o.cpstoflux(energy, Q(cps, "Hz").to("MHz"), **fl), "flux of count rate")
        inverse_(lambda: o.responsetoflux(energy, cps, **fl), "flux of response")
        inverse_(lambda: o.responsetoflux(energy, Q(cps, "Hz"), time=qtime, **fl), "flux of response in Hz")
        inverse_(lambda: o.fluxop(energy, cps, **fl)(Q(cps, "Hz")), "operator count rate")
        # counts
        counts = cps * time
        near(mag(o.countstocps(qtime, counts), "Hz"), cps)
        near(mag(o.countstovoltage(qtime, counts), "V"), volt, atol=atol * v / fmax)
        near(mag(o.countstocurrent(qtime, counts), "A"), cur, atol=atol * v / fmax / r)
        inverse_(lambda: o.countstoflux(energy, qtime, counts, **fl), "flux of counts")
        inverse_(lambda: o.responsetoflux(energy, counts, time=qtime, **fl), "flux of response in counts")
        inverse_(
            lambda: o.fluxop(energy, counts, time=qtime, **fl)(Q(counts, "dimensionless")), "operator counts"
        )
        try:
            o.responsetoflux(energy, Q(counts, "dimensionless"), **fl)
        except RuntimeError:
            pass
        else:
            raise AssertionError("counts are converted to a flux without exposure time")
        # operators are each other's inverse
        todo.append((lambda: (o.op_cpstoflux(energy, **fl), o.op_fluxtocps(energy, **fl)), None))
        todo.append((lambda: (o.op_voltagetoflux(energy, **fl), o.op_fluxtovoltage(energy, **fl)), None))
        for a, b in [
            (o.op_cpstocurrent(), o.op_currenttocps()),
            (o.op_cpstovoltage(), o.op_voltagetocps()),
            (o.op_currenttovoltage(), o.op_voltagetocurrent()),
        ]:
            isone(a * b)
            isone(b * a)
    if nmax is not None and len(todo) > nmax:
        sel = draw(st.lists(st.integers(0, len(todo) - 1), min_size=nmax, max_size=nmax, unique=True))
        todo = [todo[i] for i in sel]
    for call, what in todo:
        ret = call()
        if what is not None:
            inverse(ret, what)
        elif ret is not None:
            isone(ret[0] * ret[1])
            isone(ret[1] * ret[0])


def isone(op):
    m = units.magnitude(op.m, "dimensionless")
    near(m, np.ones_like(m))


def trivial(spec, energy):
    return not (spec["dark"] or spec["offset"] or np.size(energy) > 1 or spec["filters"] or spec["optics"])


@check(quick=160, thorough=4000, shards={"quick": 2, "thorough": 4})
@given(st.data())
def direct(data):
    """direct detection"""
    draw = data.draw
    spec = draw(diodespecs([GENERIC, GENERIC, GENERIC] + DIRECT))
    mode, energy, weights = draw(spectra())
    rec.current = repr((spec, energy, weights))
    rec.case(rec.current, nontrivial=not trivial(spec, energy))
    rec.label(spec["kind"])
    rec.label("lines:" + mode)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = make_diode(spec)
        if o.oscillator is None:
            spec["offset"] = 0.0
        charge = charge_direct(spec, o, energy, weights)
        assume(np.all(charge > 1e-24) and np.all(np.isfinite(charge)) and np.all(charge < 1e-6))
        near(charge_of(o, energy, weights), charge, rtol=1e-5)
        conversions(data, spec, o, energy, weights, charge)


def same_diode(a, b, energy, weights=None):
    assert a == b and not (a != b)
    near(charge_of(a, energy, weights), charge_of(b, energy, weights))
    if a.oscillator is not None:
        near(mag(a.fluxtocps(energy, 1e9, weights=weights), "Hz"), mag(b.fluxtocps(energy, 1e9, weights=weights), "Hz"))


@check(quick=48, thorough=1200, shards={"quick": 3, "thorough": 4})
@given(st.data())
def indirect(data):
    """secondary target: linear in the source lines"""
    draw = data.draw
    spec = draw(diodespecs(INDIRECT))
    mode, energy, weights = draw(spectra())
    rec.current = repr((spec, energy, weights))
    rec.case(rec.current, nontrivial=not trivial(spec, energy))
    rec.label(spec["kind"])
    rec.label("lines:" + mode)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = make_diode(spec)
        en, w = lines(energy, weights)
        flat = sorted(set(en.ravel()))
        single = {e: charge_of(o, e, None)[0] for e in flat}
        assert all(np.isfinite(v) and v > 0 for v in single.values())
        # transmission to the sample
        t = {}
        for e in flat:
            e1 = np.array([e])
            t[e] = float(
                (
                    optics_transmission(spec["optics"], e1)
                    * filter_t(spec, spec["kind"], "beam", e1)
                    * o.secondarytarget.transmission(e1)
                ).ravel()[0]
            )
        wt = np.array([[wi * t[e] for e, wi in zip(row, wrow)] for row, wrow in zip(en, w)])
        wt = wt / wt.sum(axis=-1, keepdims=True)
        near(np.asarray(o.samplelineweights(energy, weights=weights)).reshape(wt.shape), wt, rtol=1e-7)
        charge = np.array([sum(wi * single[e] for e, wi in zip(row, wrow)) for row, wrow in zip(en, wt)])
        near(charge_of(o, energy, weights), charge, rtol=1e-6)
        # proportional to the solid angle
        f = draw(F(0.2, 2))
        sa = o.geometry.solidangle
        o.geometry.solidangle = sa * f
        near(charge_of(o, energy, weights), charge * f, rtol=1e-6)
        o.geometry.solidangle = sa
        conversions(data, spec, o, energy, weights, charge, nmax=4)


@check(quick=40, thorough=600, shards={"quick": 2, "thorough": 4})
@given(st.data())
def copies(data):
    """copies and serialized diodes convert identically"""
    draw = data.draw
    simple = draw(B)
    spec = draw(diodespecs([GENERIC] + DIRECT + INDIRECT))
    energy = draw(ENERGY)
    calibrated = draw(B) if spec["kind"] != "idet" else False
    m = draw(F(0.3, 3))
    spec["thickness"] = min(spec["thickness"], 5e-3)
    rec.current = repr((spec, energy, calibrated, simple, m))
    rec.case(rec.current, nontrivial=not trivial(spec, energy))
    rec.label(spec["kind"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = make_diode(spec, simplecalibration=simple)
        if calibrated and simple:
            flux = np.linspace(1e9, 1e10, 4)
            cur = o.fluxtocurrent(energy, flux)
            o.calibrate(cur, flux * m, energy, fixdark=True)
            near(mag(o.currenttoflux(energy, cur), "Hz"), flux * m, rtol=1e-7)
        before = charge_of(o, energy, None)
        others = [jsonpickle.loads(jsonpickle.dumps(o)), copy.deepcopy(o)]
        for other in others:
            same_diode(o, other, energy)
        # independent of each other
        c = others[1]
        c.thickness = c.thickness * 2
        c.darkcurrent = Q(1e-7, "A")
        if c.oscillator is not None:
            c.oscillator.F0 = 77.0
        if not (calibrated and simple) and spec["kind"] in INDIRECT:
            c.geometry.solidangle = c.geometry.solidangle * 0.5
            assert c.geometry.solidangle != o.geometry.solidangle
        near(charge_of(o, energy, None), before)
        assert c != o
        near(mag(o.darkcurrent, "A"), spec["dark"] or 0.0)
        assert str(o)


# calibrations
@check(quick=110, thorough=2500, shards={"quick": 3, "thorough": 4})
@given(st.data())
def calibrate(data):
    """recover the parameters of a diode from data generated with them"""
    draw = data.draw
    spec = draw(diodespecs([GENERIC, GENERIC, "iodet1", "iodet2", "ID16B_IC", "id16b_I0"]))
    option = draw(st.sampled_from(["simple", "simple", "optics", "optics", "solidangle", "thickness"]))
    indirect_ = spec["kind"] in INDIRECT
    if option == "solidangle" and not indirect_:
        option = "optics"
    calibopt = {}
    if option == "optics":
        if spec["kind"] == GENERIC:
            spec["before"] = True
        spec["optics"] = [o for o in spec["optics"] if o[0] == "filter"][:1]
        where = draw(st.integers(0, len(spec["optics"])))
        spec["optics"].insert(where, ("kb", {}))
    spec["thickness"] = min(spec["thickness"], 5e-3)
    _, energy, weights = draw(spectra(multisource=False))
    npts = draw(st.integers(1, 8))
    flux = np.array(sorted(draw(st.lists(st.integers(1, 1000), min_size=npts, max_size=npts, unique=True)))) * 1e7
    fixdark = draw(B)
    form = draw(st.sampled_from(["cps", "current"]))
    window = npts > 2 and draw(B)
    rec.current = repr((spec, option, energy, weights, flux, fixdark, form, window))
    rec.case(rec.current, nontrivial=True)
    rec.label(option)
    rec.label("%s:%s" % (option, "direct" if not indirect_ else "indirect"))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        truth = make_diode(spec, simplecalibration=False)
        # the calibrated diode starts with other parameters
        o = make_diode(spec, simplecalibration=option == "simple")
        en, w = lines(energy, weights)
        en = en[0]
        if option == "optics":
            nl = len(en)
            t = draw(F(0.05, 1)) * np.ones(nl)
            [dev for dev in truth.optics if dev.uselut][0].set_transmission(en, t)
        elif option == "solidangle":
            truth.geometry.solidangle = draw(F(0.01, 6))
        elif option == "thickness":
            truth.thickness = spec["thickness"] * draw(F(0.5, 2))
        else:
            f = draw(F(0.2, 5))
            if indirect_:
                truth.geometry.solidangle = 0.5 * f
            else:
                truth.thickness = spec["thickness"] * f
        newdark = spec["dark"] or 0.0
        if not fixdark and npts > 1 and draw(B):
            newdark = draw(logf(1e-13, 1e-10))
            truth.darkcurrent = Q(newdark, "A")
        charge = charge_of(truth, energy, weights)
        assume(np.all(np.isfinite(charge)) and charge[0] > 1e-22)
        current = mag(truth.fluxtocurrent(energy, flux, weights=weights), "A")
        response = Q(current, "A")
        if form == "cps":
            response = truth.fluxtocps(energy, flux, weights=weights)
        kwargs = {}
        bad = response.copy() if hasattr(response, "copy") else copy.deepcopy(response)
        if window:
            # points outside the flux window do not count
            kwargs = {"fluxmin": flux[1] * 0.999, "fluxmax": Q(flux[-1] * 1.001, "Hz")}
            m = np.array(bad.magnitude, float)
            m[0] = m[0] * 3 + m[-1]
            bad = Q(m, bad.units)
        resp = bad
        if draw(B) and form == "cps":
            resp = bad.magnitude
        sampleflux = Q(flux, "Hz") if draw(B) else flux
        info = o.calibrate(
            resp,
            sampleflux,
            energy,
            weights=weights,
            caliboption="optics" if option == "simple" else option,
            fixdark=fixdark,
            **kwargs
        )
        rtol = 1e-6
        sig = (charge[0] * flux)
        dtol = 1e-8 * np.max(np.abs(current))
        near(charge_of(o, energy, weights), charge, rtol=rtol, atol=dtol / np.max(flux), msg="charge per photon")
        near(mag(o.darkcurrent, "A"), newdark, atol=dtol * 10, msg="dark current")
        near(
            mag(o.responsetoflux(energy, response, weights=weights), "Hz"),
            flux,
            rtol=rtol,
            atol=1e-6 * np.max(flux) + 20 * dtol / charge[0],
        )
        if option == "solidangle":
            near(o.geometry.solidangle, truth.geometry.solidangle, rtol=1e-5)
        elif option == "thickness":
            # not unique for indirect or multi-line detection
            pass
        elif option == "optics":
            near(o.caliboptic.transmission(en), t, rtol=1e-5)
        elif option == "simple":
            # each of the lines
            for e in en:
                near(charge_of(o, e, None), charge, rtol=1e-5)
        if not np.isnan(info["R$^2$"]) and np.ptp(flux) > 0.1 * np.max(flux) and newdark < 1e3 * np.max(sig):
            assert info["R$^2$"] > 0.999
        # energies calibrated before are kept
        if option in ("simple", "optics"):
            e2 = float(np.max(en)) + 1.5
            c2 = mag(o.fluxtocurrent(e2, flux), "A")
            f2 = draw(F(0.3, 1))
            o.calibrate(Q(c2, "A"), flux * f2, e2, fixdark=True)
            near(mag(o.currenttoflux(e2, c2), "Hz"), flux * f2, rtol=1e-5)
            near(charge_of(o, energy, weights), charge, rtol=1e-5, atol=dtol / np.max(flux), msg="first calibration")
            other = jsonpickle.loads(jsonpickle.dumps(o))
            near(charge_of(other, energy, weights), charge_of(o, energy, weights))


@check(quick=120, thorough=2500, shards={"quick": 1, "thorough": 2})
@given(st.data())
def dark(data):
    """dark current, frequency offset and gain"""
    draw = data.draw
    spec = draw(diodespecs([GENERIC, GENERIC, "idet", "fdet", "id16b_It", "id16b_I0"]))
    spec["filters"] = spec["filters"][:1]
    energy = draw(ENERGY)
    form = draw(st.sampled_from(["cps", "Hz", "counts", "current"]))
    n = draw(st.integers(1, 5))
    scalar = draw(B)
    time = draw(logf(1e-2, 10))
    mode = draw(st.sampled_from(["dark", "F0", "gain", "gain"]))
    rec.current = repr((spec, energy, form, n, scalar, time, mode))
    rec.case(rec.current, nontrivial=bool(spec["dark"] or spec["offset"] or mode == "gain"))
    rec.label(mode + ":" + form)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        truth = make_diode(spec)
        o = make_diode(spec)

        def response(flux):
            cps = mag(truth.fluxtocps(energy, flux), "Hz").ravel()
            if form == "current":
                r = Q(mag(truth.fluxtocurrent(energy, flux), "A").ravel(), "A")
            elif form == "counts":
                r = cps * time
            elif form == "Hz":
                r = Q(cps / 1e3, "kHz")
            else:
                r = cps
            return r[0] if scalar else r

        kwargs = {"time": time} if form == "counts" else {}
        zeros = np.zeros(n)
        top = mag(truth.oscillator.op_voltagetocps().m * truth.Rout, "Hz/A")
        if mode == "dark":
            o.darkcurrent = Q(draw(logf(1e-12, 1e-8)), "A")
            o.calibratedark(response(zeros), **kwargs)
            atol = 1e-12 * spec["offset"] / top
            near(mag(o.darkcurrent, "A"), spec["dark"] or 0.0, rtol=1e-8, atol=atol)
            near(mag(o.fluxtocps(energy, zeros), "Hz"), mag(truth.fluxtocps(energy, zeros), "Hz"), rtol=1e-8, atol=1e-9)
            # dark currents are not negative
            o.calibratedark(Q(-1e-9, "A"))
            assert mag(o.darkcurrent, "A") == 0
        elif mode == "F0":
            assume(form != "current")
            o.oscillator.F0 = draw(F(0, 5000))
            o.calibrateF0(response(zeros), **kwargs)
            cps0 = (spec["dark"] or 0) * top
            near(mag(o.oscillator.F0, "Hz"), spec["offset"], rtol=1e-8, atol=1e-10 * cps0)
            near(mag(o.fluxtocps(energy, zeros), "Hz"), mag(truth.fluxtocps(energy, zeros), "Hz"), rtol=1e-8, atol=1e-9 + 1e-10 * cps0)
        else:
            assume(form != "current")
            # the gain from a response after and before the ammeter
            flux = np.linspace(1e8, 1e10, n)
            after = response(flux)
            before = draw(st.sampled_from(["flux", "current", "voltage"]))
            if before == "flux":
                b = Q(flux, "Hz") if draw(B) else flux
            else:
                b = Q(mag(truth.fluxtocurrent(energy, flux), "A"), "A")
            if scalar:
                b = b[0]
            k = draw(st.integers(-3, 3))
            gain = truth.gain
            new = gain * 10.0**k
            o.gain = new
            near(o.gain.to(gain.units).magnitude, new.to(gain.units).magnitude)
            if before == "voltage":
                # voltage calculated with the assumed gain
                b = o.currenttovoltage(b)
            got = o.gainfromresponse(after, b, energy=energy, **kwargs)
            lost = spec["offset"] * 1e-12 / np.min(mag(truth.fluxtocps(energy, flux[:1]), "Hz") - spec["offset"])
            near(got.to(gain.units).magnitude, gain.magnitude, rtol=1e-8 + 10 * lost)


@check(quick=150, thorough=3000, shards={"quick": 1, "thorough": 2})
@given(st.data())
def gains(data):
    draw = data.draw
    base = draw(st.sampled_from([None, 10, 2]))
    m = draw(st.sampled_from([None, 2.1, 0.5]))
    u = draw(st.sampled_from(["V/A", "A"]))
    k = draw(st.integers(-8, 10))
    noise = draw(F(-0.3, 0.3))
    vmax = draw(F(0.5, 12))
    ownvmax = draw(st.sampled_from([None, 2.1, 7.0]))
    rec.current = repr((base, m, u, k, noise, vmax, ownvmax))
    rec.case(rec.current, nontrivial=base is not None or m is not None)
    r = diode.GainRounder(m=m, base=base)
    if base is None and m is None:
        value = exact = 10.0**k
    elif base is None:
        exact = (abs(k) + 1) * m
        value = exact + noise * m
    else:
        exact = float(base) ** k * (m or 1)
        value = exact * base**noise
    got = r(Q(value, u))
    near(got.to(u).magnitude, exact)
    near(r(got).to(u).magnitude, exact)
    assert r == diode.GainRounder(m=m, base=base) and r != diode.GainRounder(m=7.0, base=base)
    r2 = jsonpickle.loads(jsonpickle.dumps(r))
    assert r2 == r
    osc = diode.Oscillator(Fmax=Q(1e6, "Hz"), F0=Q(0, "Hz"), Vmax=Q(vmax, "volt"))
    o = diode.NonCalibratedPNdiode(
        gain=Q(value, u), gainrounder=r, darkcurrent=0, oscillator=osc, ehole=3.6, beforesample=False,
        Vmax=None if ownvmax is None else Q(ownvmax, "volt"),
        attenuators={"Detector": {"material": material("Si"), "thickness": 0.1}},
    )
    near(o.gain.to(u).magnitude, exact)
    # full scale of the ammeter
    scale = ownvmax or vmax
    rout = exact if u == "V/A" else scale / exact
    near(mag(o.Rout, "V/A"), rout)
    near(mag(o.Imax, "A"), scale / rout)
    # setting the resistance or the full-scale current of a reachable gain
    f = 1.0 if base is None else float(base) ** draw(st.integers(-2, 2))
    if base is None and m is None:
        f = draw(F(0.1, 10))
    if draw(B):
        o.Rout = rout * f
    else:
        o.Imax = scale / (rout * f)
    near(mag(o.Rout, "V/A"), rout * f, rtol=1e-7)
    near(mag(o.Imax, "A"), scale / (rout * f), rtol=1e-7)
    assert o.gainunits == Q(1, u).units
    o.gain = value
    near(o.gain.to(u).magnitude, exact)
    # oscillator
    v = draw(F(0, 12))
    osc2 = jsonpickle.loads(jsonpickle.dumps(osc))
    assert osc2 == osc
    near(mag(osc.op_cpstovoltage()(osc.op_voltagetocps()(Q(v, "V"))), "V"), v, atol=1e-12)
    osc2.F0 = Q(1, "kHz")
    assert osc2 != osc
    near(mag(osc2.op_voltagetocps()(Q(v, "V")), "Hz"), 1000 + v * 1e6 / vmax)


# QXRF geometries
def normalized(q, *args, **kwargs):
    op, fref, tref, t = q.xrfnormop(*args, **kwargs)
    return op, np.asarray(fref, float), tref, t


@check(quick=90, thorough=2500, shards={"quick": 3, "thorough": 4})
@given(st.data())
def normalize(data):
    """normalization with a calibrated monitor"""
    draw = data.draw
    name = draw(st.sampled_from(["sxm1", "sxm2", "SXM1_Unfocused", "SXM2_Unfocused", GENERIC]))
    simple = draw(st.sampled_from([True, True, True, False]))
    _, energy, weights = draw(spectra(multisource=False))
    gain = draw(st.integers(5, 9))
    dk = draw(st.sampled_from([0.0, 1e-11, 3e-10]))
    time = draw(logf(1e-2, 10))
    passtime = draw(B)
    n = draw(st.integers(1, 4))
    flux = np.array([draw(logf(1e7, 1e11)) for _ in range(n)])
    refmode = draw(st.sampled_from(["default", "flux", "fluxquantity", "counts", "countsquantity"]))
    reftimemode = draw(st.sampled_from(["none", "default", "given"]))
    fref = draw(logf(1e6, 1e12))
    tref = draw(logf(1e-2, 10))
    removefilters = draw(B)
    calibrated = draw(B)
    fl = draw(filters(1))
    rec.current = repr((name, simple, energy, weights, gain, dk, time, flux, refmode, reftimemode, fref, tref, fl))
    rec.case(rec.current, nontrivial=bool(dk) or np.size(energy) > 1 or refmode != "default")
    rec.label("ref:" + refmode)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if name == GENERIC:
            q = qxrf.QXRFGeometry(
                instrument="sxm", diodeI0="iodet1", diodeIt="idet", optics="kb", xrfgeometry="sxm120",
                xrfdetector="leia", simplecalibration=simple,
            )
        else:
            q = qxrf.factory(name, simplecalibration=simple)
        d = q.diodeI0
        d.gain = 10.0**gain
        d.darkcurrent = Q(dk, "A")
        for where, mat, thickness in fl:
            if where == "beam":
                q.addbeamfilters([(None, material(mat), thickness)])
        if calibrated:
            f0 = np.linspace(1e8, 1e9, 3)
            q.diodeI0.calibrate(d.fluxtocps(energy, f0, weights=weights), f0 * 1.7, energy, weights=weights, fixdark=True,
                                caliboption="optics" if (simple or q.optics) else "solidangle")
        cps = q.fluxtocps(energy, flux, weights=weights)
        near(q.responsetoflux(energy, cps, weights=weights), flux, rtol=1e-6)
        counts = cps * time
        near(q.responsetoflux(energy, counts, weights=weights, time=time), flux, rtol=1e-6)
        kw = {"weights": weights}
        if passtime:
            kw["expotime"] = Q(time * 1e3, "ms") if draw(B) else time
        else:
            q.defaultexpotime = time
        if refmode == "default":
            q.reference = Q(fref / 1e3, "kHz")
        elif refmode == "flux":
            q.reference = Q(fref, "Hz")
        elif refmode == "fluxquantity":
            kw["reference"] = Q(fref, "Hz")
        else:
            ref = float(np.ravel(q.fluxtocps(energy, fref, weights=weights))[0]) * time
            if refmode == "counts":
                kw["reference"] = ref
            else:
                q.reference = Q(ref, "dimensionless")
        if reftimemode == "default":
            q.defaultreferencetime = tref
        elif reftimemode == "given":
            kw["referencetime"] = Q(tref / 60.0, "minute") if draw(B) else tref
        op, f, tr, t = normalized(q, energy, **kw)
        near(t, time)
        near(tr, time if reftimemode == "none" else tref)
        if refmode.startswith("counts"):
            # two significant digits
            assert np.all(np.abs(f / fref - 1) <= 0.0501), (f, fref)
            digits = "%.6e" % np.ravel(f)[0]
            assert digits[4:8] in ("0000", "9999"), digits
        else:
            near(f, fref)
        # data/op(monitor) is the data at the reference flux and time
        rates = np.arange(1, n + 1) * 3.7
        raw = flux * time * rates
        near(np.ravel(raw / op(counts)), np.ravel(rates * f * tr), rtol=1e-6)
        near(np.ravel(op(counts) * f * tr), flux * time, rtol=1e-6)
        # quantification info
        op2, quants = q.quantinfo(energy, **kw)
        near(op2(counts), op(counts))
        assert len(quants) == len(q.xrfgeometries) >= 1
        for quant, geom in zip(quants, q.xrfgeometries):
            near(quant["flux"], f)
            near(quant["time"], tr)
            assert quant["activearea"] == geom.detector.activearea and quant["distance"] == geom.distance
            assert quant["anglein"] == geom.anglein and quant["angleout"] == geom.angleout
        # flux from counts
        i0, texp = q.I0op(energy, expotime=time if passtime else None, weights=weights)
        near(mag(texp, "s") if hasattr(texp, "to") else texp, time)
        near(np.ravel(mag(i0(Q(counts, "dimensionless")), "Hz")), flux, rtol=1e-6)
        itc = mag(q.diodeIt.fluxtocps(energy, flux, weights=weights), "Hz") * time
        it, _ = q.Itop(energy, expotime=time if passtime else None, weights=weights)
        near(np.ravel(mag(it(Q(itc, "dimensionless")), "Hz")), flux, rtol=1e-6)
        if removefilters and (np.size(energy) == 1):
            i0b, _ = q.I0op(energy, expotime=time if passtime else None, weights=weights, removebeamfilters=True)
            tb = 1.0
            for where, mat, thickness in fl:
                if where == "beam":
                    mm = material(mat)
                    tb = tb * np.exp(-mm.mass_att_coeff(np.ravel(energy)[0]) * mm.density * thickness)
            near(np.ravel(mag(i0b(Q(counts, "dimensionless")), "Hz")), flux / tb, rtol=1e-6)
        q2 = jsonpickle.loads(jsonpickle.dumps(q))
        near(normalized(q2, energy, **kw)[0](counts), op(counts))


@check(quick=48, thorough=1600, shards={"quick": 4, "thorough": 4})
@given(st.data())
def qcalibrate(data):
    """calibrating both diodes of a geometry"""
    draw = data.draw
    name = draw(st.sampled_from(["sxm1", "sxm2"]))
    simple = draw(B)
    g0, gt = draw(st.integers(5, 9)), draw(st.integers(4, 8))
    d0, dt = draw(st.sampled_from([0.0, 1e-11])), draw(st.sampled_from([0.0, 2e-10]))
    time = draw(logf(1e-2, 5))
    energies = draw(st.lists(ENERGY, min_size=1, max_size=3, unique=True))
    factors = [draw(F(0.2, 1)) for _ in energies]
    n = draw(st.integers(2, 5))
    flux = np.linspace(1, draw(F(2, 50)), n) * 1e8
    form = draw(st.sampled_from(["counts", "cps", "current"]))
    gainfrom = draw(st.sampled_from(["given", "given", "flux", "wrong"]))
    rec.current = repr((name, simple, g0, gt, d0, dt, time, energies, factors, form, gainfrom))
    rec.case(rec.current, nontrivial=True)
    rec.label("form:" + form)
    rec.label("gain:" + gainfrom)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        truth = qxrf.factory(name, simplecalibration=False)
        q = qxrf.factory(name, simplecalibration=simple)
        truth.diodeI0.gain, truth.diodeIt.gain = 10.0**g0, 10.0**gt
        truth.diodeI0.darkcurrent, truth.diodeIt.darkcurrent = d0, dt
        gains_ = {"gaindiodeI0": 10.0**g0, "gaindiodeIt": 10.0**gt}

        def values(en, fl):
            c0 = np.ravel(mag(truth.diodeI0.fluxtocps(en, fl), "Hz"))
            ct = np.ravel(mag(truth.diodeIt.fluxtocps(en, fl), "Hz"))
            if form == "counts":
                return {"I0_counts": c0 * time, "It_counts": ct * time, "time": time}
            elif form == "cps" or not np.any(fl):
                return {"I0_cps": c0, "It_cps": ct}
            i0 = np.ravel(mag(truth.diodeI0.fluxtocurrent(en, fl), "A"))
            it = np.ravel(mag(truth.diodeIt.fluxtocurrent(en, fl), "A"))
            return {"I0_current": i0, "It_current": it}

        q.calibrate_diodes(dark=True, **values(7.0, np.zeros(n)), **gains_)
        near(mag(q.diodeI0.darkcurrent, "A"), d0, rtol=1e-7, atol=1e-24)
        near(mag(q.diodeIt.darkcurrent, "A"), dt, rtol=1e-7, atol=1e-24)
        fixed = {"dark": False} if draw(B) else {}
        params = []
        cals = []
        for en, t in zip(energies, factors):
            truth.optics.set_transmission(en, t)
        for en in energies:
            p = values(en, flux)
            if gainfrom == "flux" and form != "current":
                p["I0_flux"] = Q(flux, "Hz")
                p["It_flux"] = flux
            p["energy"] = en
            if gainfrom == "flux" and form != "current":
                # the gain of I0 can only be derived from the flux when calibrated
                p["gaindiodeI0"] = None
            params.append(p)
        if gainfrom == "flux" and form != "current":
            # known transmissions: gain can be derived from the response
            q.simplecalibration = False
            for en, t in zip(energies, factors):
                q.optics.set_transmission(en, t)
            q.diodeI0.gain, q.diodeIt.gain = 1e5, 1e5
            q.batchcalibrate_diodes(fixed, params)
            near(q.diodeI0.gain.magnitude, 10.0**g0)
            near(q.diodeIt.gain.magnitude, 10.0**gt)
        else:
            q.batchcalibrate_diodes(dict(fixed, **gains_), params)
        for en in energies:
            near(np.ravel(q.responsetoflux(en, q.fluxtocps(en, flux))), flux, rtol=1e-6)
            near(charge_of(q.diodeI0, en, None), charge_of(truth.diodeI0, en, None), rtol=1e-5)
            near(np.ravel(q.fluxtocps(en, flux)), np.ravel(truth.fluxtocps(en, flux)), rtol=1e-5)
        if gainfrom == "wrong" and form != "current":
            p = values(energies[0], flux)
            p["It_flux"] = flux
            bad = dict(gains_, gaindiodeIt=10.0 ** (gt + 1))
            try:
                q.calibrate_diodes(energy=energies[0], dark=False, **p, **bad)
            except RuntimeError:
                pass
            else:
                raise AssertionError("data collected with another gain is accepted")
