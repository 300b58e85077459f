"""C04: quantities survive unit conversion; components survive storage and copying."""
import copy
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.utils import units, lut, instance
from spectrocrunch.patch.pint import ureg
from spectrocrunch.patch import jsonpickle
from pint import errors as pinterrors

rule(
    "Numbers, lists, arrays (0-2 dimensions) with one of 45 units in 12 dimensions against "
    "an independent factor table; nested data with quantities/arrays; every serializable "
    "component with non-default parameters, perturbed one at a time. Non-trivial: a "
    "conversion between two different units, a nested structure with a quantity or array, a "
    "component with at least one non-default parameter."
)

# independent definition of the units: factor to a base unit per dimension
H = 6.62607015e-34
C = 299792458.0
QE = 1.602176634e-19
NA = 6.02214076e23
TABLE = {
    "length": {"m": 1, "cm": 1e-2, "mm": 1e-3, "um": 1e-6, "micrometer": 1e-6, "nm": 1e-9, "angstrom": 1e-10, "km": 1e3},
    "energy": {"J": 1, "eV": QE, "keV": 1e3 * QE, "MeV": 1e6 * QE},
    "time": {"s": 1, "ms": 1e-3, "us": 1e-6, "min": 60, "hour": 3600},
    "frequency": {"Hz": 1, "kHz": 1e3, "1/s": 1, "hertz": 1, "MHz": 1e6},
    "angle": {"rad": 1, "degree": np.pi / 180, "mrad": 1e-3},
    "none": {"dimensionless": 1, "percent": 1e-2, "permille": 1e-3, "ppm": 1e-6, "ppb": 1e-9},
    "current": {"A": 1, "mA": 1e-3, "nA": 1e-9, "pA": 1e-12, "e/s": QE},
    "charge": {"C": 1, "e": QE},
    "area": {"m^2": 1, "cm^2": 1e-4, "mm**2": 1e-6},
    "density": {"kg/m^3": 1, "g/cm^3": 1e3, "mg/mm^3": 1e3},
    "amount": {"mol": 1, "mmol": 1e-3},
    "gain": {"V/A": 1, "kV/A": 1e3, "V/pA": 1e12},
    "invlength": {"1/m": 1, "1/cm": 1e2},
}
DIM = sorted(TABLE)


def expected(a, b, dim):
    return TABLE[dim][a] / TABLE[dim][b]


num = st.one_of(
    st.integers(-1000, 1000),
    st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: float("%.6g" % x) if abs(x) > 1e-20 else 0.0),
)


@st.composite
def value(draw, scalar_only=False):
    kind = draw(st.sampled_from(["scalar", "npscalar", "array", "array2", "array0", "list", "tuple"]))
    if scalar_only and kind not in ("scalar", "npscalar"):
        kind = "scalar"
    if kind == "scalar":
        return draw(num), kind
    if kind == "npscalar":
        return np.float64(draw(num)), kind
    if kind == "array0":
        return np.array(float(draw(num))), kind
    if kind == "array2":
        shape = (draw(st.integers(1, 3)), draw(st.integers(1, 3)))
        n = shape[0] * shape[1]
        return np.array(draw(st.lists(num, min_size=n, max_size=n)), dtype=float).reshape(shape), kind
    vals = draw(st.lists(num, min_size=1, max_size=5))
    if kind == "array":
        return np.array(vals, dtype=float), kind
    return (list(vals) if kind == "list" else tuple(vals)), kind


def close(a, b, what, rtol=1e-9, atol=0):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    assert a.shape == b.shape, "%s: shape %r instead of %r" % (what, a.shape, b.shape)
    assert np.allclose(a, b, rtol=rtol, atol=atol), "%s: %r instead of %r" % (what, a, b)


@st.composite
def unitpair(draw):
    dim = draw(st.sampled_from(DIM))
    us = sorted(TABLE[dim])
    return dim, draw(st.sampled_from(us)), draw(st.sampled_from(us))


@check(quick=1500, thorough=40000, shards={"quick": 1, "thorough": 2})
@given(value(), unitpair(), st.data())
def conversion(val, dub, data):
    x, kind = val
    dim, ua, ub = dub
    rec.case((x if not isinstance(x, np.ndarray) else x.tolist(), kind, ua, ub), ua != ub)
    f = expected(ua, ub, dim)
    ref = np.asarray(x, dtype=float)
    xcopy = copy.deepcopy(x)
    q = units.Quantity(x, ua)
    assert instance.isquantity(q)
    assert q.units == ureg.Unit(ua)
    close(q.magnitude, ref, "Quantity")
    # a quantity keeps its own units
    assert units.Quantity(q, ub) is q or (units.Quantity(q, ub).units == q.units)
    close(units.magnitude(q, ub), ref * f, "magnitude")
    close(units.umagnitude(q, ub), ref * f, "umagnitude")
    close(units.umagnitude(x, ub), ref, "umagnitude of a number")
    q2 = q.to(ub)
    close(q2.magnitude, ref * f, "to")
    close(q2.to(ua).magnitude, ref, "back")
    # the argument is not modified
    assert np.array_equal(np.asarray(x), np.asarray(xcopy))
    close(q.magnitude, ref, "source quantity")
    # unitsto: first compatible unit
    dim2 = data.draw(st.sampled_from([d for d in DIM if compatible(d, dim) is False]))
    other = data.draw(st.sampled_from(sorted(TABLE[dim2])))
    lst = data.draw(st.permutations([ub, other]))
    r = units.unitsto(q, [ureg.Unit(u) for u in lst])
    assert r.units == ureg.Unit(ub)
    close(r.magnitude, ref * f, "unitsto")
    # incompatible units are refused
    for fn in (
        lambda: units.magnitude(q, other),
        lambda: units.umagnitude(q, other),
        lambda: units.quantity_like(q, units.Quantity(1, other)),
    ):
        try:
            fn()
        except pinterrors.DimensionalityError:
            pass
        else:
            assert False, "%s to %s not refused" % (ua, other)
    try:
        units.unitsto(q, ureg.Unit(other))
    except RuntimeError:
        pass
    else:
        assert False, "unitsto: %s to %s not refused" % (ua, other)
    # a bare number has no units to convert
    if dim != "none":
        try:
            r = units.magnitude(x, ub)
        except pinterrors.DimensionalityError:
            pass
        else:
            assert False, "bare number converted to %s" % ub
    else:
        close(units.magnitude(x), ref, "magnitude of bare number")
        close(units.magnitude(q), ref * TABLE["none"][ua], "magnitude of dimensionless")
    # quantity_like
    like = units.Quantity(data.draw(value())[0], ub)
    r = units.quantity_like(q, like)
    assert r.units == like.units
    close(r.magnitude, ref * f, "quantity_like")
    r = units.quantity_like(x, like)
    assert r.units == like.units
    close(r.magnitude, ref, "quantity_like of a number")
    if not instance.isarray(like):
        r = units.quantity_like(x, 3.0, forcequantity=False)
        assert not instance.isquantity(r)
        close(r, ref, "quantity_like forcequantity=False")
    # astype
    q3 = units.astype(q, int)
    assert q3.units == q.units
    close(q3.magnitude, np.asarray(ref).astype(int), "astype")
    # binary operators
    y = data.draw(num)
    b = units.Quantity(y, ub)
    import operator

    for op in (operator.add, operator.sub, operator.lt, operator.ge, operator.eq):
        if instance.isarray(x) and not isinstance(x, np.ndarray):
            continue
        r = units.binary_operator(q, b, op)
        if op in (operator.add, operator.sub):
            assert r.units == q.units
            scale = np.abs(ref).max() + abs(y / f)
            close(r.magnitude, op(ref, y / f), "binary_operator", atol=1e-9 * scale)
        elif np.all(np.abs(ref - y / f) > 1e-9 * (abs(ref) + abs(y / f))):
            assert np.array_equal(np.asarray(r), np.asarray(op(ref, y / f))), "comparison"
        r = units.binary_operator(q, y, op)  # number has units of q
        if op in (operator.add, operator.sub):
            assert r.units == q.units
            close(r.magnitude, op(ref, y), "binary_operator with number", atol=1e-9 * (np.abs(ref).max() + abs(y)))
        else:
            assert np.array_equal(np.asarray(r), np.asarray(op(ref, y))), "comparison with number"


def compatible(d1, d2):
    if d1 == d2:
        return True
    if {d1, d2} <= {"frequency", "none"} or {d1, d2} <= {"angle", "none"} or {d1, d2} <= {"angle", "frequency"}:
        # count and radian are dimensionless: hertz=1/s is not
        return None if {d1, d2} == {"angle", "none"} else False
    return False


@check(quick=500, thorough=20000)
@given(st.data())
def mixed_sequences(data):
    """Sequences of quantities with different compatible units"""
    dim, ua, ub = data.draw(unitpair())
    n = data.draw(st.integers(1, 5))
    us = data.draw(st.lists(st.sampled_from(sorted(TABLE[dim])), min_size=n, max_size=n))
    vals = [data.draw(num) for _ in range(n)]
    rec.case((vals, us), len(set(us)) > 1)
    seq = [units.Quantity(v, u) for v, u in zip(vals, us)]
    assert list(units.units(seq)) == [ureg.Unit(u) for u in us]
    r = units.asqarray(seq)
    assert r.units == ureg.Unit(us[0])
    ref = np.array([v * expected(u, us[0], dim) for v, u in zip(vals, us)])
    close(r.magnitude, ref, "asqarray")
    close(units.magnitude(seq, ub), [v * expected(u, ub, dim) for v, u in zip(vals, us)], "magnitude")
    r, func = units.asqarrayf(seq)
    close(func(r).magnitude, ref, "asqarrayf sequence")
    r, func = units.asqarrayf(seq[0])
    assert r.magnitude.shape == (1,)
    assert np.ndim(func(r).magnitude) == 0
    close(func(r).magnitude, vals[0], "asqarrayf scalar")
    r, func = units.asqarrayf(vals[0])
    close(units.magnitude(func(r)), vals[0], "asqarrayf number")
    r = units.asqarray(vals)
    assert r.units == ureg.dimensionless
    close(r.magnitude, vals, "asqarray of numbers")
    r = units.asqarray(vals, forcequantity=False)
    assert not instance.isquantity(r)
    close(r, vals, "asqarray of numbers")
    # numbers mixed in: taken when dimensionless
    r = units.Quantity(seq)
    close(r.to(ub).magnitude, [v * expected(u, ub, dim) for v, u in zip(vals, us)], "Quantity of sequence")
    r = units.quantity_like(seq, units.Quantity(1, ub))
    close(r.magnitude, [v * expected(u, ub, dim) for v, u in zip(vals, us)], "quantity_like of sequence")
    if len(set(us)) > 1 and len(set(ureg.Unit(u) for u in us)) > 1:
        try:
            units.quantity_like(1, seq)
        except ValueError:
            pass
        else:
            assert False, "mixed units accepted as example"


@check(quick=300, thorough=5000)
@given(st.floats(0.1, 100).map(lambda x: float("%.5g" % x)), st.sampled_from(["eV", "keV", "J"]), st.sampled_from(["nm", "angstrom", "m"]), st.booleans())
def spectroscopy(v, eu, lu, arr):
    rec.case((v, eu, lu, arr))
    x = np.array([v, 2 * v]) if arr else v
    q = units.Quantity(x, eu)
    ref = H * C / (np.asarray(x) * TABLE["energy"][eu]) / TABLE["length"][lu]
    r = q.to(lu, "spectroscopy")
    close(r.magnitude, ref, "energy to wavelength", rtol=1e-8)
    close(r.to(eu, "spectroscopy").magnitude, x, "back", rtol=1e-12)
    try:
        q.to(lu)
    except pinterrors.DimensionalityError:
        pass
    else:
        assert False, "energy converted to length without context"
    # other definitions
    re = units.Quantity(1, "classical_electron_radius").to("m").magnitude
    assert abs(re / 2.8179403262e-15 - 1) < 1e-6
    p = units.Quantity(v, "particles_per_mol").to("1/mol**2").magnitude if False else None


# ---------------------------------------------------------------- nested data
@st.composite
def tree(draw, depth=3):
    kind = draw(st.sampled_from(["int", "float", "str", "none", "bool", "q", "qa", "unit", "arr", "list", "tuple", "dict", "arri"]))
    if depth == 0 and kind in ("list", "tuple", "dict"):
        kind = "q"
    if kind == "int":
        return draw(st.integers(-10 ** 9, 10 ** 9))
    if kind == "float":
        return draw(st.floats(allow_nan=False, allow_infinity=False))
    if kind == "str":
        return draw(st.text(max_size=6))
    if kind == "none":
        return None
    if kind == "bool":
        return draw(st.booleans())
    if kind == "unit":
        dim, a, _ = draw(unitpair())
        return ureg.Unit(a)
    if kind == "q":
        dim, a, _ = draw(unitpair())
        return ureg.Quantity(draw(num), a)
    if kind in ("arr", "qa", "arri"):
        shape = draw(st.sampled_from([(3,), (1,), (0,), (2, 3), (4, 5), (3, 7)]))
        rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
        if kind == "arri":
            a = rng.randint(-100, 100, shape).astype(draw(st.sampled_from(["i4", "u1", "i8", "bool"])))
        else:
            a = rng.uniform(-10, 10, shape).astype(draw(st.sampled_from(["f4", "f8"])))
        a = np.asarray(a)
        if draw(st.booleans()):
            a = a.T
        if kind == "qa":
            dim, u, _ = draw(unitpair())
            return ureg.Quantity(a, u)
        return a
    if kind in ("list", "tuple"):
        lst = draw(st.lists(tree(depth=depth - 1), max_size=3))
        return lst if kind == "list" else tuple(lst)
    keys = draw(st.lists(st.text(alphabet="abcdef_ é", min_size=1, max_size=4), max_size=3, unique=True))
    return {k: draw(tree(depth=depth - 1)) for k in keys}


def same(a, b, path="."):
    if instance.isquantity(a):
        assert instance.isquantity(b), path
        assert a.units == b.units, "%s: units %s became %s" % (path, a.units, b.units)
        same(a.magnitude, b.magnitude, path)
    elif isinstance(a, np.ndarray):
        assert isinstance(b, np.ndarray), "%s: array became %r" % (path, type(b))
        assert a.dtype == b.dtype and a.shape == b.shape, "%s: %r %r" % (path, b.dtype, b.shape)
        assert np.array_equal(a, b), path
    elif isinstance(a, (list, tuple)):
        assert type(a) is type(b) and len(a) == len(b), path
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, path + "[%d]" % i)
    elif isinstance(a, dict):
        assert set(a) == set(b), path
        for k in a:
            same(a[k], b[k], path + "/" + k)
    elif isinstance(a, ureg.Unit):
        assert a == b and type(b) is type(a), path
    else:
        assert type(a) is type(b) and a == b, "%s: %r became %r" % (path, a, b)


def hasphysics(x):
    if instance.isquantity(x) or isinstance(x, np.ndarray):
        return True
    if isinstance(x, (list, tuple)):
        return any(hasphysics(y) for y in x)
    if isinstance(x, dict):
        return any(hasphysics(y) for y in x.values())
    return False


@check(quick=800, thorough=30000)
@given(tree(), st.booleans())
def nested_roundtrip(x, indent):
    rec.case(x, hasphysics(x))
    text = jsonpickle.dumps(x, indent=2 if indent else None)
    assert isinstance(text, str)
    y = jsonpickle.loads(text)
    same(x, y)
    same(x, jsonpickle.loads(jsonpickle.dumps(y)))
    # state instead of text
    same(x, jsonpickle.restore(jsonpickle.flatten(x, keys=False), keys=False))


# ---------------------------------------------------------------- components
from spectrocrunch.materials import element, compound, compoundfromformula, compoundfromname, mixture, multilayer, types, xrayspectrum, scintillators, lenses  # noqa: E402
from spectrocrunch.detectors import base as dbase, diode, xrf as dxrf, area  # noqa: E402
from spectrocrunch.geometries import base as gbase, diode as gdiode, xrf as gxrf, flatarea, qxrf  # noqa: E402
from spectrocrunch.sources import xray as sxray, emspectrum, polarization  # noqa: E402
from spectrocrunch.optics import xray as ox  # noqa: E402
from spectrocrunch.materials import interaction  # noqa: E402
from spectrocrunch.math import noisepropagation  # noqa: E402
from spectrocrunch.instruments import configuration  # noqa: E402



def backref(f):
    f.backref = True
    return f


r2 = lambda a, b: st.floats(a, b).map(lambda x: float("%.4g" % x))
ELEMENTS = ["Fe", "Ca", "Si", "Ti", "Pb", "Ce", "S", "Mn", "Zn"]


def dr(draw, s):
    return draw(s)


def b_element(draw):
    e = element.Element(draw(st.sampled_from(ELEMENTS)))
    k = draw(st.sampled_from(["none", "all", "shells", "lines"]))
    if k == "all":
        e.markabsorber()
    elif k == "shells":
        e.markabsorber(shells=draw(st.sampled_from([["K"], ["K", "L1"], ["L3"]])))
    elif k == "lines":
        e.markabsorber(shells=["K"], fluolines=draw(st.sampled_from([["KL3"], ["KL3", "KL2"], ["KM3"]])))
    if draw(st.booleans()):
        e.unmarkscatterer()
    f = [
        lambda e: e.mass_att_coeff(9.5),
        lambda e: e.fluorescence_cross_section(25.0),
        lambda e: e.scattering_cross_section(9.5),
        lambda e: e.partial_mass_abs_coeff(25.0),
        lambda e: e.isabsorber,
        lambda e: e.isscatterer,
        lambda e: "\n".join(e.markinfo()),
        lambda e: e.edge_energies(),
    ]

    def p(e):
        e.Z = e.Z + 1

    return e, f, [p]


def material(draw, mark=True):
    """element, compound or mixture"""
    k = draw(st.sampled_from(["element", "compound", "formula", "name", "mixture"]))
    if k == "element":
        m = element.Element(draw(st.sampled_from(ELEMENTS)))
    elif k == "compound":
        els = draw(st.lists(st.sampled_from(ELEMENTS), min_size=1, max_size=3, unique=True))
        m = compound.Compound(els, [draw(r2(0.1, 5)) for _ in els], draw(st.sampled_from([types.fraction.mole, types.fraction.mass])), draw(r2(0.5, 8)), nrefrac=draw(r2(1, 2)), name="c%d" % draw(st.integers(0, 9)))
    elif k == "formula":
        m = compoundfromformula.CompoundFromFormula(draw(st.sampled_from(["PbCO3", "CaSO4(H2O)2", "SiO2", "Fe2O3"])), draw(r2(0.5, 8)))
    elif k == "name":
        m = compoundfromname.compoundfromname(draw(st.sampled_from(["calcite", "hematite", "cellulose", "ultralene", "air"])))
    else:
        c1 = compoundfromformula.CompoundFromFormula("PbCO3", draw(r2(0.5, 8)))
        c2 = compoundfromname.compoundfromname("calcite")
        f = draw(r2(0.1, 0.9))
        m = mixture.Mixture([c1, c2], [f, 1 - f], draw(st.sampled_from([types.fraction.mole, types.fraction.mass, types.fraction.volume])), name="mix")
    if mark and draw(st.booleans()):
        m.markabsorber("Ca" if draw(st.booleans()) else "Pb", shells=["K", "L3"])
    return m


MATF = [
    lambda m: m.density,
    lambda m: m.mass_att_coeff(9.5),
    lambda m: m.mass_abs_coeff(np.array([5.0, 30.0])),
    lambda m: m.fluorescence_cross_section(40.0),
    lambda m: m.scattering_cross_section(9.5),
    lambda m: m.rayleigh_cross_section(9.5),
    lambda m: sorted((str(e), x) for e, x in m.elemental_massfractions().items()),
    lambda m: sorted((str(e), x) for e, x in m.elemental_molefractions().items()),
    lambda m: m.refractive_index_delta(9.0),
    lambda m: m.transmission(10.0, 0.01),
    lambda m: str(m),
    lambda m: getattr(m, "nrefrac", None),
    lambda m: m.name,
    lambda m: "\n".join(m.markinfo()),
]


def b_material(draw):
    m = material(draw)
    f = list(MATF)
    p = []
    return m, f, p


def b_fluo(draw):
    if draw(st.booleans()):
        l = xrayspectrum.FluoLine(draw(st.sampled_from(["KL3", "KL2", "L3M5", "KM3", "L1M3"])))
        f = [lambda l: l.energy(26), lambda l: l.radrate(26), lambda l: l.code, lambda l: str(l.shell), lambda l: l.groupname]
    else:
        l = xrayspectrum.Shell(draw(st.sampled_from(["K", "L1", "L2", "L3", "M1"])), fluolines=draw(st.sampled_from([None, [], ["KL3", "L3M5", "L1M3"]])))
        f = [lambda s: s.fluoyield(26), lambda s: s.edgeenergy(26), lambda s: [str(x) for x in s.fluolines], lambda s: list(s.markinfo()), lambda s: s.radrate(26)]
    return l, f, []


def attenuators(draw):
    d = {}
    if draw(st.booleans()):
        d["BeamFilter0"] = {"material": material(draw, False), "thickness": draw(r2(1e-5, 1e-2))}
    if draw(st.booleans()):
        d["window"] = {"material": material(draw, False), "thickness": draw(r2(1e-5, 1e-2))}
    d["Detector"] = {"material": element.Element(draw(st.sampled_from(["Si", "Ge"]))), "thickness": draw(r2(1e-3, 0.1))}
    return d


DETF = [
    lambda d: d.efficiency([5.0, 10.0], [4.0, 6.0]),
    lambda d: d.transmission(7.0),
    lambda d: d.filter_transmission(7.0),
    lambda d: d.filter_transmission(7.0, source=True),
    lambda d: str(d),
    lambda d: d.attenuation(np.array([5.0, 6.0])),
]


def pset(name, fn):
    def p(o):
        setattr(o, name, fn(getattr(o, name)))

    p.__name__ = name
    return p


def p_thick(d):
    d.thickness = d.thickness * 2


def p_gainrounder(d):
    d.gainrounder = diode.GainRounder(m=7, base=3)
    d.gain = d.gain


def p_att(d):
    d.addattenuator("extra", element.Element("Al"), 0.01)


def b_detbase(draw):
    k = draw(st.sampled_from(["Material", "SolidState", "CentricCone"]))
    kw = {"attenuators": attenuators(draw)}
    f = list(DETF)
    p = [p_thick, p_att]
    if k != "Material":
        kw.update(ehole=draw(r2(1, 5)), escape=draw(st.booleans()), pulse_processing_time=draw(st.sampled_from([0, 1e-6, 2.5e-6])))
        f += [lambda d: d.ehole, lambda d: d.escape, lambda d: d.pileup, lambda d: d.pulse_processing_time]
        p += [pset("ehole", lambda x: x * 2), pset("escape", lambda x: not x), pset("pulse_processing_time", lambda x: x + 1e-6)]
    if k == "CentricCone":
        kw["activearea"] = draw(r2(0.1, 2))
        f += [lambda d: d.activearea, lambda d: d.solidangle_calc(d.activearea, units.Quantity(3, "cm"))]
        p += [pset("activearea", lambda x: x * 2)]
    return getattr(dbase, k)(**kw), f, p


def b_xrfdet(draw):
    name = draw(st.sampled_from(["XRFDetector"] + [n for n in sorted(dxrf.registry) if n != "XRFDetector"]))
    f = DETF + [
        lambda d: d.lineprofile(np.linspace(5.5, 6.5, 7), np.array([6.0])),
        lambda d: d.gaussianFWHM(6.0),
        lambda d: d.activearea,
        lambda d: d.escape,
    ]
    if name == "XRFDetector":
        kw = {"attenuators": attenuators(draw), "ehole": draw(r2(3, 4)), "activearea": draw(r2(0.1, 2)), "escape": draw(st.booleans()), "pulse_processing_time": draw(st.sampled_from([0, 1e-6]))}
        kw.update(mcazero=draw(r2(-0.1, 0.1)), mcagain=draw(r2(0.005, 0.02)), mcanoise=draw(r2(0.05, 0.15)), mcafano=draw(r2(0.08, 0.15)))
        if draw(st.booleans()):
            kw["shape_conversionenergy"] = draw(r2(4, 10))
        if draw(st.booleans()):
            kw["shape_fixedarearatios"] = {
                "bpeak": True, "bstail": draw(st.booleans()), "bltail": draw(st.booleans()), "bstep": draw(st.booleans()),
                "stailbroadening": draw(r2(0.5, 3)), "ltailbroadening": draw(r2(1, 5)),
                "stailfraction": draw(r2(0.01, 0.2)), "ltailfraction": draw(r2(0.01, 0.2)), "stepfraction": draw(r2(0.001, 0.1)),
            }
            p = [pset("stailbroadening", lambda x: x * 1.5), pset("fractions", lambda x: (x[0], x[1] / 2, x[2])), pset("ltailbroadening", lambda x: x * 1.5)]
        else:
            kw["shape_pymca"] = {
                "bpeak": True, "bstail": draw(st.booleans()), "bltail": draw(st.booleans()), "bstep": draw(st.booleans()),
                "stailslope_ratio": draw(r2(0.1, 2)), "ltailslope_ratio": draw(r2(2, 20)), "stailarea_ratio": draw(r2(0.01, 0.2)),
                "ltailarea_ratio": draw(r2(0.01, 0.2)), "stepheight_ratio": draw(r2(1e-4, 1e-2)),
            }
            p = [pset("stailslope_ratio", lambda x: x * 1.5), pset("ratios", lambda x: (x[0], x[1] / 2, x[2])), pset("ltailslope_ratio", lambda x: x * 1.5)]
        d = dxrf.XRFDetector(**kw)
    else:
        d = dxrf.registry[name]()
        d.activearea = d.activearea * draw(r2(0.5, 2))
        p = []
    p = p + [
        pset("mcazero", lambda x: x + 0.1), pset("mcagain", lambda x: x * 1.1), pset("mcanoise", lambda x: x * 1.1), pset("mcafano", lambda x: x * 1.1),
        pset("bpeak", lambda x: not x), pset("bstail", lambda x: not x), pset("bltail", lambda x: not x), pset("bstep", lambda x: not x),
        pset("shape_conversionenergy", lambda x: 7.5 if x is None else x + 0.5), pset("activearea", lambda x: x * 2), pset("ehole", lambda x: x * 2), p_att,
    ]
    return d, f, p


def b_area(draw):
    if draw(st.booleans()):
        name = draw(st.sampled_from([n for n in sorted(area.registry) if n != "AreaDetector"]))
        g = flatarea.factory("perpendicular") if draw(st.booleans()) else None
        o = area.registry[name](geometry=g)
        o.darkcurrent = draw(r2(0, 10))
    else:
        o = area.AreaDetector(etoDU=draw(r2(0.1, 3)), qe=lut.LUT(default=draw(r2(0.1, 1))), DUoffset=draw(r2(0, 100)), darkcurrent=draw(r2(0, 10)), readoutnoise=draw(r2(0, 20)))
    vis = emspectrum.Discrete(ureg.Quantity([595, 610, 715], "nm"), [1, 1, 1])

    def prop(o):
        r = o.propagate(noisepropagation.randomvariable([1e4, 1e5], [1e2, 3e2]), vis, tframe=2, nframe=3)
        return np.array([[x.nominal_value, x.std_dev] for x in np.ravel(r)])

    return o, [prop, lambda o: o.propagate(1e4, vis, tframe=2, nframe=3), lambda o: str(o)], [
        pset("etoDU", lambda x: x * 2), pset("DUoffset", lambda x: x + 1), pset("darkcurrent", lambda x: x + 1), pset("readoutnoise", lambda x: x + 1)]


def b_source(draw):
    if draw(st.booleans()):
        dop = draw(r2(0.1, 1))
        kw = {"intensity": draw(r2(0.1, 10)), "dop": dop, "dolp": draw(r2(0, 1)) * dop, "polangle": draw(r2(-80, 80)), "handedness": draw(st.sampled_from(["left", "right"]))}
        s = sxray.Synchrotron(**kw)
    else:
        s = sxray.Tube(intensity=draw(r2(0.1, 10)))
    f = [lambda s: s.thomson_K(0.3, 0.5), lambda s: s.compton_K(20.0)(0.3, 0.5), lambda s: str(s), lambda s: s.stokes.to_params(), lambda s: s.stokes.to_numpy()]

    def p(s):
        s.stokes = polarization.Stokes.from_params(intensity=33, dop=0.5, dolp=0.25, polangle=20, handedness="left")

    return s, f, [p]


def b_pol(draw):
    if draw(st.booleans()):
        o = polarization.Jones(complex(draw(r2(-2, 2)), draw(r2(-2, 2))), complex(draw(r2(-2, 2)), draw(r2(-2, 2))))
        f = [lambda o: np.abs(o.to_numpy()), lambda o: np.angle(o.to_numpy()), lambda o: o.intensity, lambda o: o.to_stokes().to_numpy()]
    else:
        dop = draw(r2(0.1, 1))
        o = polarization.Stokes.from_params(intensity=draw(r2(0.1, 10)), dop=dop, dolp=draw(r2(0, 1)) * dop, polangle=draw(r2(-80, 80)), handedness="left")
        f = [lambda o: o.to_numpy(), lambda o: o.to_params(), lambda o: o.dop]
    return o, f, []


def b_spectrum(draw):
    if draw(st.integers(0, 4)) == 0:
        o = emspectrum.Dark()
    else:
        n = draw(st.integers(1, 4))
        x = draw(st.lists(r2(300, 900), min_size=n, max_size=n, unique=True))
        o = emspectrum.Discrete(ureg.Quantity(x, draw(st.sampled_from(["nm", "angstrom"]))), [draw(r2(0.1, 5)) for _ in x])
    f = [lambda o: o.total if len(o) and not o.isempty() else 0, lambda o: o.energies if not o.isempty() else 0, lambda o: o.ratios if not o.isempty() else 0, lambda o: o.sample(lut.LUT(default=0.5)), lambda o: str(o)]
    return o, f, []


def b_lut(draw):
    n = draw(st.integers(0, 4))
    x = draw(st.lists(r2(1, 20), min_size=n, max_size=n, unique=True))
    kw = {}
    if n:
        kw = {"x": units.Quantity(x, "keV"), "y": units.Quantity([draw(r2(-3, 3)) for _ in x], draw(st.sampled_from(["dimensionless", "nm", "e"])))}
    o = lut.LUT(default=draw(st.sampled_from([np.nan, 0, 1, 0.5])), kind=draw(st.sampled_from(["linear", "linear", "nearest"])) if n else "linear", **kw)
    xx = units.Quantity([0.5, 3.0, 8.5, 25.0], "keV")

    def pd(o):
        o.default = units.Quantity(17.0, "dimensionless")

    def pa(o):
        o.replace(units.Quantity(7.7, "keV"), units.Quantity(2.2, o.yunits))

    f = [lambda o: o(xx).magnitude if not o.isempty() else 0, lambda o: str(o(xx).units) if not o.isempty() else 0, lambda o: o.default, lambda o: str(o), lambda o: len(o), lambda o: o.isempty()]
    return o, f, [pd, pa]


def b_optics(draw):
    k = draw(st.sampled_from(["KB", "ZonePlate", "Filter", "base"]))
    if k == "Filter":
        o = ox.Filter(material=material(draw, False), thickness=draw(r2(1e-4, 1e-2)))
        return o, [lambda o: o.transmission(np.array([5.0, 10.0])), lambda o: str(o), lambda o: o.uselut], []
    if k == "base":
        o = ox.base.Optics(uselut=draw(st.booleans()), default=draw(r2(0.1, 1)))
    else:
        o = getattr(ox, k)()
    if o.uselut:
        for _ in range(draw(st.integers(0, 3))):
            o.set_transmission(draw(r2(5, 15)), draw(r2(0.05, 1)))
    p = []
    if o.uselut:

        def ps(o):
            o.set_transmission(7.77, 0.0123)

        p = [ps]
    return o, [lambda o: o.transmission(np.array([4.0, 7.0, 12.0, 20.0])), lambda o: str(o), lambda o: o.uselut], p


def flatkw(draw):
    return {
        "anglein": draw(r2(10, 90)), "angleout": draw(r2(10, 80)) * draw(st.sampled_from([1, -1])), "sample_azimuth": draw(r2(0, 360)), "detector_azimuth": draw(r2(0, 360)),
    }


FLATF = [
    lambda g: g.anglenormin, lambda g: g.anglenormout, lambda g: g.cosnormin, lambda g: g.cosnormout, lambda g: g.scatteringangle,
    lambda g: g.xrayspectrumkwargs(), lambda g: g.reflection, lambda g: str(g), lambda g: str(g.atmosphere),
]
FLATP = [pset("anglein", lambda x: x * 0.9), pset("angleout", lambda x: x * 0.9), pset("sample_azimuth", lambda x: x + 10), pset("detector_azimuth", lambda x: x + 10)]


def b_geom(draw):
    k = draw(st.sampled_from(["Flat", "Solid", "Centric", "diode", "flatarea"]))
    kw = flatkw(draw)
    src = sxray.factory(draw(st.sampled_from(["synchrotron", "tube"])))
    f = list(FLATF)
    p = list(FLATP)
    if draw(st.booleans()):
        kw["source"] = src
    if k == "Flat":
        return gbase.FlatSample(**kw), f, p
    if k == "flatarea":
        return flatarea.factory("perpendicular"), f, p
    if k == "Solid":
        kw["solidangle"] = draw(r2(0.01, 3))
        return gbase.SolidAngle(**kw), f + [lambda g: g.solidangle], p + [pset("solidangle", lambda x: x * 2)]
    if k == "diode":
        kw["solidangle"] = draw(r2(0.01, 3))
        kw.pop("sample_azimuth")
        name = draw(st.sampled_from([n for n in sorted(gdiode.registry) if n != "DiodeGeometry"]))
        return gdiode.registry[name](**kw), f + [lambda g: g.solidangle], p + [pset("solidangle", lambda x: x * 2)]
    kw["distance"] = draw(r2(1, 10))
    kw["detector"] = dbase.CentricCone(activearea=draw(r2(0.1, 2)), ehole=3.6, attenuators=attenuators(draw))
    if draw(st.booleans()):
        kw["atmosphere"] = compoundfromname.compoundfromname("air")
    g = gbase.Centric(**kw)
    f += [lambda g: g.distance, lambda g: g.solidangle, lambda g: g.efficiency([5.0], [4.0]), backref(lambda g: g.detector.geometry is g)]
    p += [pset("distance", lambda x: x * 2), pset("solidangle", lambda x: x / 2)]
    return g, f, p


def b_xrfgeom(draw):
    name = draw(st.sampled_from([n for n in sorted(gxrf.registry)]))
    kw = flatkw(draw)
    det = dxrf.factory(draw(st.sampled_from(["leia", "bb8", "sn3102"])))
    kw["detector"] = det
    kw["source"] = sxray.factory("synchrotron")
    f = FLATF + [lambda g: g.distance, lambda g: g.solidangle, lambda g: g.efficiency([5.0], [4.0]), backref(lambda g: g.detector.geometry is g)]
    p = FLATP + [pset("distance", lambda x: x * 2)]
    cls = gxrf.registry[name]
    if draw(st.booleans()):
        kw["atmosphere"] = compoundfromname.compoundfromname("air")
    if name == "XRFGeometry":
        kw["distance"] = draw(r2(1, 10))
        return cls(**kw), f, p
    kw["detectorposition"] = draw(r2(0, 50))
    kw["zerodistance"] = draw(r2(10, 80))
    if name == "microdiff":
        kw["zerodistance"] *= -1
        kw["detectorposition"] = kw["detectorposition"] * 0.1
    if name == "LinearXRFGeometry":
        kw["positionunits"] = draw(st.sampled_from(["mm", "cm"]))
        kw["positionsign"] = 1
    g = cls(**kw)
    f += [lambda g: g.detectorposition, lambda g: g.zerodistance, lambda g: g.positionunits, backref(lambda g: g.distancefunc.geometry is g)]

    def pcal(g):
        g._calibrcfile = "somewhere.json"

    p += [pset("detectorposition", lambda x: x + units.Quantity(1, "mm")), pset("zerodistance", lambda x: x * 1.5), pcal]
    return g, f, p


def b_multilayer(draw):
    n = draw(st.integers(1, 3))
    mats = [material(draw, False) for _ in range(n)]
    g, _, _ = (gbase.FlatSample(**flatkw(draw)), 0, 0)
    o = multilayer.Multilayer(mats, [draw(r2(1e-5, 1e-2)) for _ in mats], fixed=[draw(st.booleans()) for _ in mats], geometry=g, name=draw(st.sampled_from([None, "foo"])))

    def p0(o):
        o.layers[0].thickness *= 2

    def p1(o):
        o.layers[-1].fixed = not o.layers[-1].fixed

    def p2(o):
        o.geometry.anglein = o.geometry.anglein * 0.9

    f = [
        lambda o: o.transmission(np.array([5.0, 12.0])), lambda o: o.absorbance(7.0), lambda o: str(o), lambda o: o.name,
        lambda o: sorted((str(k), v) for k, v in o.arealdensity().items()), lambda o: sorted((str(k), v) for k, v in o.elemental_massfractions().items()),
        backref(lambda o: [l.parent is o for l in o]), lambda o: [l.xraythicknessin for l in o], lambda o: len(o), lambda o: [l.fixed for l in o],
        lambda o: cached(o),
    ]
    return o, f, [p0, p1, p2]


def cached(o):
    with o.cachectx("layerinfo"):
        return np.asarray(o.getcache("layerinfo")["cumul_thickness"], dtype=float)


def b_layer(draw):
    o = multilayer.Layer(material(draw, False), draw(r2(1e-5, 1e-2)), fixed=draw(st.booleans()))
    return o, [lambda o: o.thickness, lambda o: str(o), lambda o: o.density, lambda o: o.fixed], [pset("thickness", lambda x: 2 * x), pset("fixed", lambda x: not x)]


def b_diodeparts(draw):
    if draw(st.booleans()):
        o = diode.GainRounder(m=draw(st.sampled_from([None, 2.1, 3])), base=draw(st.sampled_from([None, 10, 2])))
        return o, [lambda o: o(units.Quantity(1234.0, "V/A"))], [pset("m", lambda x: 1.7), pset("base", lambda x: 3)]
    o = diode.Oscillator(Fmax=ureg.Quantity(draw(r2(1e3, 1e6)), "Hz"), F0=ureg.Quantity(draw(r2(0, 100)), "Hz"), Vmax=ureg.Quantity(draw(r2(1, 10)), "V"))
    return o, [lambda o: o.op_voltagetocps()(units.Quantity(2.0, "V")), lambda o: str(o)], [pset("Fmax", lambda x: x * 2), pset("F0", lambda x: x + ureg.Quantity(1, "Hz")), pset("Vmax", lambda x: x * 2)]


def b_diode(draw):
    name = draw(st.sampled_from([n for n in sorted(diode.registry) if n not in ("PNdiode", "CalibratedPNdiode", "NonCalibratedPNdiode")]))
    kw = {}
    if draw(st.booleans()):
        kb = ox.KB()
        kb.set_transmission(draw(r2(4, 9)), draw(r2(0.1, 1)))
        kw["optics"] = [kb] + ([ox.Filter(material="air", thickness=10)] if draw(st.booleans()) else [])
    simple = draw(st.booleans())
    if name == "SXM_PTB":
        kw["model"] = draw(st.booleans())
    if name in ("SXM_IODET1", "SXM_IODET2", "ID16B_IC") and draw(st.booleans()):
        kw["source"] = draw(st.sampled_from(["synchrotron", "tube"]))
    o = diode.registry[name](simplecalibration=simple, **kw)
    if draw(st.booleans()) and name != "SXM_PTB":
        o.thickness = o.thickness * draw(r2(0.5, 2))
    o.darkcurrent = ureg.Quantity(draw(r2(0, 1e-9)), "A")
    o.gain = o.gain * 10 ** draw(st.integers(-2, 3))
    if draw(st.booleans()):
        for _ in range(draw(st.integers(1, 2))):
            o._lut_chargepersamplephoton.replace(units.Quantity(draw(r2(5, 10)), "keV"), units.Quantity(draw(r2(1, 1000)), "e"))
    f = [
        lambda o: o.spectral_responsivity(np.array([5.0, 8.0])), lambda o: o.fluxtocurrent(7.0, 1e9), lambda o: o.currenttoflux(7.0, units.Quantity(1e-8, "A")),
        lambda o: o.fluxtocps(7.0, 1e9) if o.oscillator is not None else 0, lambda o: o.gain, lambda o: o.darkcurrent, lambda o: str(o), lambda o: o.ehole, lambda o: o.thickness,
        lambda o: o.beforesample, lambda o: o.simplecalibration, lambda o: o.gainrounder(o.gain * 1.2), lambda o: str(o.Vmax), lambda o: o.escape,
        lambda o: [type(x).__name__ for x in o.optics],
        # a calibration that comes later is used in the same way
        latercal,
    ]
    p = [pset("gain", lambda x: x * 100), pset("darkcurrent", lambda x: x + ureg.Quantity(1, "nA")), pset("beforesample", lambda x: not x), pset("ehole", lambda x: x * 2), p_thick, p_att,
         p_gainrounder, pset("optics", lambda x: list(x) + [ox.Filter(material="air", thickness=1)]), pset("oscillator", lambda x: diode.Oscillator(17, 1, 2))]

    def plut(o):
        o._lut_chargepersamplephoton.replace(units.Quantity(3.3, "keV"), units.Quantity(10, "e"))

    p.append(plut)
    if o.secondarytarget is not None:

        def psa(o):
            o.geometry.solidangle = o.geometry.solidangle * 0.7

        def pt(o):
            o.secondarytarget.layers[0].thickness *= 2

        f += [backref(lambda o: o.secondarytarget.geometry.detector is o), lambda o: o.geometry.solidangle]
        p += [psa, pt]
    return o, f, p


def latercal(o):
    keep = o._lut_chargepersamplephoton
    o._lut_chargepersamplephoton = lut.LUT()
    try:
        o._lut_chargepersamplephoton.replace(units.Quantity(7.0, "keV"), units.Quantity(1234.0, "e"))
        return o.fluxtocurrent(7.0, 1e9)
    finally:
        o._lut_chargepersamplephoton = keep


def b_qxrf(draw):
    name = draw(st.sampled_from([n for n in sorted(qxrf.QXRFGeometry.clsregistry) if n != "QXRFGeometry"]))
    kw = {}
    if draw(st.booleans()):
        kw["xrfgeometries"] = [({"name": "sxm120", "parameters": {"detectorposition": draw(r2(0, 30))}}, draw(st.sampled_from(["leia", "bb8"]))) for _ in range(draw(st.integers(1, 2)))]
    kw["simplecalibration"] = draw(st.booleans())
    o = qxrf.QXRFGeometry.clsregistry[name](**kw)
    o.reference = draw(st.sampled_from([units.Quantity(1e9, "Hz"), units.Quantity(12345, "dimensionless")]))
    o.defaultexpotime = units.Quantity(draw(r2(0.01, 1)), "s")
    if draw(st.booleans()):
        o.defaultreferencetime = units.Quantity(draw(r2(0.01, 1)), "s")

    def norm(o):
        op, ref, tref, t = o.xrfnormop(7.2, expotime=0.3)
        return [op(1e5), str(ref), str(tref), str(t)]

    f = [
        lambda o: str(o), lambda o: o.simplecalibration, lambda o: o.fluxid, lambda o: o.transmissionid, lambda o: o.reference, lambda o: o.defaultexpotime,
        lambda o: o.responsetoflux(7.2, 1e5), lambda o: o.fluxtocps(7.2, 1e9), lambda o: [g.distance for g in o.xrfgeometries], lambda o: [g.solidangle for g in o.xrfgeometries], norm,
        lambda o: type(o.instrument).__name__,
    ]
    p = [pset("reference", lambda x: x * 2), pset("defaultexpotime", lambda x: x * 2), pset("fluxid", lambda x: x + "x"), pset("transmissionid", lambda x: x + "x"),
         pset("simplecalibration", lambda x: not x), pset("defaultreferencetime", lambda x: units.Quantity(17, "s"))]

    def pg(o):
        o.diodeI0.gain = o.diodeI0.gain * 100

    if o.diodeI0 is not None:
        p.append(pg)
    if o.xrfgeometries:

        def px(o):
            o.xrfgeometries[-1].detectorposition = o.xrfgeometries[-1].detectorposition + units.Quantity(1, "mm")

        p.append(px)
    return o, f, p


def b_scint(draw):
    name = draw(st.sampled_from([n for n in sorted(scintillators.registry) if n != "Scintillator"]))
    o = scintillators.registry[name](thickness=draw(r2(1, 30)))

    def prop(o):
        r = o.propagate(noisepropagation.randomvariable(1e4, 1e2), 9.0)
        r = np.ravel(r)[0]
        return [r.nominal_value, r.std_dev]

    return o, [prop, lambda o: o.transmission(8.0), lambda o: o.absorption(8.0), lambda o: o.visspectrum.energies, lambda o: o.get_nrefrac()], [
        pset("thickness", lambda x: x * 2), pset("nvisperkeV", lambda x: x + 1), pset("visspectrum", lambda x: emspectrum.Discrete(ureg.Quantity([500], "nm"), [1]))]


def b_lens(draw):
    o = lenses.Lens(magnification=draw(r2(2, 30)), NA=draw(r2(0.1, 0.9)), thickness=draw(r2(1, 9)), lightyieldcor=draw(r2(0.1, 1)), material=material(draw, False))
    return o, [lambda o: o.lightyield(1.5), lambda o: o.lightyield(1.5, source="lambertian"), lambda o: o.thickness, lambda o: str(o.material)], [
        pset("magnification", lambda x: x * 2), pset("NA", lambda x: x / 2), pset("thickness", lambda x: x * 2), pset("lightyieldcor", lambda x: x / 2)]


def b_motor(draw):
    o = gxrf.LinearMotor(zerodistance=draw(r2(1, 80)), positionsign=draw(st.sampled_from([1, -1])))
    return o, [lambda o: o(detectorposition=units.Quantity(3, "cm")), lambda o: o(distance=units.Quantity(9, "cm"))["detectorposition"]], [pset("zerodistance", lambda x: x * 2), pset("positionsign", lambda x: -x)]


def b_instrument(draw):
    name = draw(st.sampled_from(["InstrumentInfo"] + sorted(configuration.InstrumentInfo.clsregistry)))
    cls = configuration.InstrumentInfo.clsregistry.get(name, configuration.InstrumentInfo)
    kw = {}
    if draw(st.booleans()):
        kw["imagemotors"] = ["samx", "samy"]
        kw["units"] = {"samx": ureg.millimeter, "samy": ureg.micrometer}
        kw["counterdict"] = {"fluo": "xmap_%d" % draw(st.integers(0, 9))}
    o = cls(**kw)

    def p(o):
        o._data["imagemotors"] = ["other"]

    return o, [lambda o: str(o.units["samx"]), lambda o: str(o.units["unknownmotor"]), lambda o: o.counters(), lambda o: o.edfheaderkeys["energylabel"]], [p]


BUILDERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("b_")}
CHEAP = ["element", "material", "fluo", "detbase", "xrfdet", "area", "source", "pol", "spectrum", "lut", "optics", "geom", "xrfgeom", "layer", "multilayer", "diodeparts", "scint", "lens", "motor", "instrument"]
EXPENSIVE = ["diode", "qxrf"]
assert sorted(CHEAP + EXPENSIVE) == sorted(BUILDERS)


def evaluate(f, o):
    try:
        return f(o)
    except Exception as e:
        return "raised " + type(e).__name__


def equalresult(a, b):
    if instance.isquantity(a) or instance.isquantity(b):
        if not (instance.isquantity(a) and instance.isquantity(b)):
            return False
        if a.units != b.units:
            return False
        a, b = a.magnitude, b.magnitude
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        return type(a) is type(b) and a == b
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equalresult(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        # keys are written as text by name
        ka = {str(k): v for k, v in a.items()}
        kb = {str(k): v for k, v in b.items()}
        return set(ka) == set(kb) and all(equalresult(ka[k], kb[k]) for k in ka)
    try:
        return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-10, atol=0, equal_nan=True)
    except Exception:
        return a == b


def roundtrip(kind, data):
    builder = BUILDERS[kind]
    o, fs, ps = builder(data.draw)
    text = jsonpickle.dumps(o)
    which = data.draw(st.sampled_from(["decode", "deepcopy", "copy"]))
    rec.case((kind, which, text), True)
    rec.label(kind)
    before = [evaluate(f, o) for f in fs]
    assert not all(isinstance(r, str) and r.startswith("raised") for r in before)
    for i, r in enumerate(before):
        if isinstance(r, str) and r.startswith("raised"):
            rec.label("behaviour %s[%d] %s" % (kind, i, r))
    if which == "decode":
        o2 = jsonpickle.loads(text)
    elif which == "deepcopy":
        o2 = copy.deepcopy(o)
    else:
        o2 = copy.copy(o)
    assert type(o2) is type(o)
    assert o2 == o, "%s of %s is not equal" % (which, kind)
    assert o == o2, "%s of %s is not equal" % (which, kind)
    assert not (o != o2), "%s of %s is not equal" % (which, kind)
    for i, (f, a) in enumerate(zip(fs, before)):
        if which == "copy" and getattr(f, "backref", False):
            continue  # a shallow copy shares its parts
        b = evaluate(f, o2)
        assert equalresult(a, b), "%s of %s behaves differently (%d): %r instead of %r" % (which, kind, i, b, a)
    if which == "decode":
        text2 = jsonpickle.dumps(o2)
        o3 = jsonpickle.loads(text2)
        assert o3 == o
        for i, (f, a) in enumerate(zip(fs, before)):
            b = evaluate(f, o3)
            assert equalresult(a, b), "second decoding of %s behaves differently (%d): %r instead of %r" % (kind, i, b, a)
    if which == "copy":
        return
    # changing one parameter of the copy: different from the original, which keeps its own
    if ps:
        p = data.draw(st.sampled_from(ps))
        p(o2)
        assert o2 != o, "%s of %s with one changed parameter (%s) is still equal" % (which, kind, p.__name__)
        assert not (o2 == o)
        o4 = jsonpickle.loads(jsonpickle.dumps(o2))
        assert o4 == o2 and o4 != o, "changed parameter %s of %s not stored" % (p.__name__, kind)
        for i, (f, a) in enumerate(zip(fs, before)):
            b = evaluate(f, o)
            assert equalresult(a, b), "changing a %s of %s changed the original (%d, %s): %r instead of %r" % (which, kind, i, p.__name__, b, a)


@check(quick=500, thorough=12000, shards={"quick": 2, "thorough": 4})
@given(st.sampled_from(CHEAP), st.data())
def components(kind, data):
    roundtrip(kind, data)


@check(quick=100, thorough=2500, shards={"quick": 2, "thorough": 4})
@given(st.sampled_from(EXPENSIVE), st.data())
def instruments(kind, data):
    roundtrip(kind, data)


@check(quick=120, thorough=3000)
@given(st.lists(st.sampled_from(["lut", "element", "detbase", "optics", "source", "layer", "motor"]), min_size=1, max_size=4), st.data())
def containers(kinds, data):
    """Components inside lists and dictionaries"""
    objs = [BUILDERS[k](data.draw)[0] for k in kinds]
    d = {"objs": objs, "named": {k + str(i): o for i, (k, o) in enumerate(zip(kinds, objs))}, "q": units.Quantity(3.5, "keV")}
    rec.case(jsonpickle.dumps(d))
    d2 = jsonpickle.loads(jsonpickle.dumps(d))
    assert d2["q"] == d["q"]
    assert len(d2["objs"]) == len(objs)
    for a, b in zip(objs, d2["objs"]):
        assert a == b and type(a) is type(b)
    for k, v in d["named"].items():
        assert d2["named"][k] == v
