"""C28: detector geometry."""
import os
import json
import copy
import pickle
import tempfile
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.utils import units
from spectrocrunch.math import noisepropagation
from spectrocrunch.patch import jsonpickle
from spectrocrunch.geometries import base, xrf, diode, flatarea
from spectrocrunch.detectors import base as detbase
from spectrocrunch.detectors import xrf as xrfdetectors
from spectrocrunch.materials import element, compoundfromname

rule(
    "Generated distances, areas, solid angles, angles, motor settings (sign, units, zero distance with and without "
    "uncertainty), histories of moving and calibrating, noise-free calibration curves, detectors with filters. "
    "Non-trivial: at least two different operations or a finite distance with a finite area."
)
B = st.booleans()
LEN = st.sampled_from(["cm", "mm", "m", "um"])
POS = lambda lo, hi: st.floats(lo, hi, allow_nan=False)
Q = units.Quantity


def cm(x):
    return x.to("cm").magnitude


def cone(d, a):
    """solid angle of a disc on the axis, without cancellation"""
    r2 = a / np.pi
    h = np.hypot(d, np.sqrt(r2))
    # 1 - d/h
    return 2 * np.pi * r2 / (h * (h + d))


def near(a, b, rtol=1e-9, atol=0.0):
    np.testing.assert_allclose(np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=atol)


@check(quick=300, thorough=6000, shards={"quick": 2, "thorough": 4})
@given(st.data())
def solidangle(data):
    draw = data.draw
    array = draw(B)
    n = draw(st.integers(1, 4)) if array else None
    one = lambda s: np.array([draw(s) for _ in range(n)]) if array else draw(s)
    d = one(POS(0.01, 50))
    a = one(POS(0.001, 10))
    du, au = draw(LEN), draw(LEN)
    rec.current = repr((d, a, du, au))
    rec.case(rec.current, nontrivial=True)
    calc = detbase.CentricCone.solidangle_calc
    qd, qa = Q(d, "cm").to(du), Q(a, "cm^2").to(au + "^2")
    sa = calc(activearea=qa, distance=qd)
    near(sa, cone(d, a), atol=1e-14)
    assert np.all(sa >= 0) and np.all(sa < 2 * np.pi)
    assert np.all(np.asarray(sa) > 0) or np.any(np.asarray(d) ** 2 / a > 1e13)
    # relative error of 1 - cos
    tol = 1e-9 + 1e-15 / np.min(sa)
    # inverses
    back = calc(activearea=qa, solidangle=sa)
    near(cm(back), d, rtol=tol)
    back = calc(distance=qd, solidangle=sa)
    near(back.to("cm^2").magnitude, a, rtol=tol)
    # starting from the solid angle
    sa = one(POS(1e-4, 2 * np.pi - 1e-3))
    near(calc(activearea=qa, distance=calc(activearea=qa, solidangle=sa)), sa, rtol=1e-8)
    near(calc(distance=qd, activearea=calc(distance=qd, solidangle=sa)), sa, rtol=1e-8)
    # monotonic in distance and area, limits, similarity
    f = draw(POS(1.001, 10))
    assert np.all(calc(activearea=qa, distance=qd * f) < calc(activearea=qa, distance=qd))
    assert np.all(calc(activearea=qa * f, distance=qd) > calc(activearea=qa, distance=qd))
    near(calc(activearea=qa * f**2, distance=qd * f), cone(d, a), atol=1e-13)
    near(calc(activearea=qa, distance=qd * 0), 2 * np.pi + 0 * np.asarray(d))
    try:
        calc(activearea=qa, distance=qd, solidangle=sa)
    except RuntimeError:
        pass
    else:
        raise AssertionError("overdetermined")


@check(quick=200, thorough=4000, shards={"quick": 2, "thorough": 4})
@given(st.data())
def centric(data):
    """geometry with a detector: distance <-> solid angle, copies"""
    draw = data.draw
    a, d = draw(POS(0.01, 5)), draw(POS(0.1, 30))
    angles = dict(anglein=draw(POS(1, 90)), angleout=draw(POS(-90, 90)), detector_azimuth=draw(POS(-180, 180)), sample_azimuth=draw(POS(-180, 180)))
    det = detbase.CentricCone(ehole=3.6, activearea=draw(st.sampled_from([a, Q(a, "cm^2"), Q(a * 100, "mm^2")])))
    dist = draw(st.sampled_from([d, Q(d, "cm"), Q(d * 10, "mm"), None]))
    rec.current = repr((a, dist, angles))
    rec.case(rec.current, nontrivial=dist is not None)
    g = base.Centric(detector=det, distance=dist, **angles)
    assert det.geometry is g
    if dist is None:
        assert g.distance is None
        g.distance = d
    for k, v in angles.items():
        assert getattr(g, k) == v
    near(cm(g.distance), d)
    near(g.solidangle, cone(d, a))
    for _ in range(draw(st.integers(1, 4))):
        op = draw(st.sampled_from(["distance", "solidangle", "area", "manual", "copy"]))
        rec.label(op)
        if op in ("distance", "manual"):
            d = draw(POS(0.1, 30))
            u = draw(st.sampled_from([None, "cm", "mm", "m"]))
            v = d if u is None else Q(d, "cm").to(u)
            if op == "distance":
                g.distance = v
            else:
                g.calibrate_distance_manually(v)
        elif op == "solidangle":
            sa = draw(POS(1e-3, 6))
            g.solidangle = sa
            near(g.solidangle, sa)
            c = 1 - sa / (2 * np.pi)
            d = np.sqrt(a / np.pi) * c / np.sqrt(1 - c * c)
        elif op == "area":
            a = draw(POS(0.01, 5))
            det.activearea = draw(st.sampled_from([a, Q(a * 100, "mm^2")]))
        else:
            how = draw(st.sampled_from(["json", "deepcopy", "pickle state"]))
            if how == "json":
                g2 = jsonpickle.loads(jsonpickle.dumps(g))
            elif how == "deepcopy":
                g2 = copy.deepcopy(g)
            else:
                g2 = g.__class__.__new__(g.__class__)
                g2.__setstate__(g.__getstate__())
                g.detector = det
                g2 = copy.deepcopy(g2)
            assert g2 == g and not (g2 != g)
            near(g2.solidangle, g.solidangle)
            g2.distance = 2 * d
            assert g2 != g
        near(cm(g.distance), d, rtol=1e-8)
        near(g.solidangle, cone(d, a), rtol=1e-8)
        near(g.detector.activearea.to("cm^2").magnitude, a)
    # any angle matters for equality
    for k in angles:
        g2 = copy.deepcopy(g)
        setattr(g2, k, angles[k] + 1)
        assert g2 != g, k
    str(g)


CLASSES = ["LinearXRFGeometry", "LinearXRFGeometry", "sxm120", "sxm90", "microdiff", "ID16b_Virtual1"]
DEFAULTS = {"sxm120": (62, 58, 57.0, 0, 1), "sxm90": (62, 28, 85.571, 0, 1), "microdiff": (62, 28, -56.667, 10.0, -1), "ID16b_Virtual1": (90, 13, 0.0, 20.0, 1)}


@check(quick=300, thorough=6000, shards={"quick": 4, "thorough": 8})
@given(st.data())
def motor(data):
    """history of a detector on a linear motor; distance = sign x (position + zero)"""
    draw = data.draw
    cls = draw(st.sampled_from(CLASSES))
    pu = draw(st.sampled_from(["mm", "cm", "um"]))
    sign = draw(st.sampled_from([1, -1]))
    area = draw(POS(0.1, 3))
    a = area
    kw = {"detector": detbase.CentricCone(ehole=3.6, activearea=area), "source": None, "positionunits": pu}
    if cls in DEFAULTS:
        i, o, z, p, s = DEFAULTS[cls]
        kw["positionunits"] = pu = "mm"
        z, p = z / 10, p / 10
        if draw(B):
            kw["positionsign"] = s = sign
        sign = s
        if draw(B):
            z = sign * draw(POS(5, 10))
            kw["zerodistance"] = draw(st.sampled_from([z * 10, Q(z, "cm")]))
        if draw(B):
            p = draw(POS(-4, 4))
            kw["detectorposition"] = draw(st.sampled_from([p * 10, Q(p, "cm")]))
        if draw(B):
            i = kw["anglein"] = draw(POS(1, 90))
        if draw(B):
            o = kw["angleout"] = draw(POS(1, 90))
    else:
        kw["positionsign"] = sign
        z, p = sign * draw(POS(5, 10)), draw(POS(-4, 4))
        i, o = kw["anglein"], kw["angleout"] = draw(POS(1, 90)), draw(POS(1, 90))
        kw["zerodistance"] = draw(st.sampled_from([Q(z, "cm"), Q(z, "cm").to(pu), Q(z, "cm").to(pu).magnitude]))
        kw["detectorposition"] = draw(st.sampled_from([Q(p, "cm"), Q(p, "cm").to("m"), Q(p, "cm").to(pu).magnitude]))
    rec.current = repr((cls, kw))
    if cls == "LinearXRFGeometry" and draw(st.integers(0, 3)) == 0:
        # given by the distance
        kw.pop("detectorposition")
        d = draw(POS(0.5, 10))
        kw["distance"] = draw(st.sampled_from([d, Q(d * 10, "mm")]))
        p = sign * d - z
    g = xrf.factory(cls, **kw)
    hist = [cls, sign, pu, z, p]
    assert (g.anglein, g.angleout) == (i, o)
    assert isinstance(g, xrf.LinearXRFGeometry)

    def verify():
        d = sign * (p + z)
        near(cm(g.distance), d, rtol=1e-8, atol=1e-9)
        near(cm(g.detectorposition), p, rtol=1e-8, atol=1e-9)
        assert g.detectorposition.units == Q(1, pu).units
        near(cm(g.zerodistance), z, rtol=1e-8, atol=1e-9)
        if d > 0.01:
            near(g.solidangle, cone(d, a), rtol=1e-6)
        # the motor converts both ways
        m = g.distancefunc
        x = draw(POS(-10, 10))
        got = m(detectorposition=Q(x, "cm"))
        near(cm(got), sign * (x + z), rtol=1e-8, atol=1e-9)
        y = draw(POS(0.1, 20))
        pos = m(distance=draw(st.sampled_from([y, Q(y * 10, "mm")])))
        assert set(pos) == {"detectorposition"}
        near(cm(m(**pos)), y, rtol=1e-8)
        arr = Q(np.array([x, y]), "cm").to(pu)
        near(cm(m(detectorposition=arr)), sign * (np.array([x, y]) + z), rtol=1e-8, atol=1e-9)
        assert m() == {"detectorposition": None}

    verify()
    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(["position", "distance", "calibrate", "calibrate distance", "zero", "solidangle", "copy", "uncertain", "area"]))
        rec.label(op)
        hist.append(op)
        rec.current = repr(hist)
        if op == "position":
            p = draw(POS(-10, 10))
            g.detectorposition = draw(st.sampled_from([Q(p, "cm"), Q(p, "cm").to("m"), Q(p, "cm").to(pu).magnitude]))
        elif op == "distance":
            d = draw(POS(0.1, 30))
            g.distance = draw(st.sampled_from([d, Q(d, "cm").to("mm")]))
            p = sign * d - z
        elif op.startswith("calibrate"):
            d = draw(POS(0.1, 30))
            v = draw(st.sampled_from([d, Q(d, "cm").to("mm")]))
            g.calibrate_manually(v) if op == "calibrate" else g.calibrate_distance_manually(v)
            z = sign * d - p
        elif op == "zero":
            z = sign * draw(POS(5, 10))
            g.zerodistance = draw(st.sampled_from([z, Q(z * 10, "mm")]))
        elif op == "uncertain":
            # uncertainty of the zero distance is that of the distance
            z, s = sign * draw(POS(5, 10)), draw(POS(0.01, 0.2))
            g.zerodistance = Q(noisepropagation.randomvariable(z, s), "cm")
            if draw(B):
                d = draw(POS(1, 20))
                g.distance = d
                p = sign * d - z
            rv = g.distance_rv.to("cm").magnitude
            near(noisepropagation.E(rv), sign * (p + z), rtol=1e-8)
            near(noisepropagation.S(rv), s, rtol=1e-8)
            assert np.isscalar(cm(g.distance)) or np.asarray(cm(g.distance)).dtype.kind == "f"
            verify()
            g.zerodistance = z
        elif op == "area":
            a = draw(POS(0.1, 3))
            g.detector.activearea = a
        elif op == "solidangle":
            sa = draw(POS(1e-2, 6))
            g.solidangle = sa
            near(g.solidangle, sa, rtol=1e-6)
            c = 1 - sa / (2 * np.pi)
            d = np.sqrt(a / np.pi) * c / np.sqrt(1 - c * c)
            p = sign * d - z
        else:
            g2 = jsonpickle.loads(jsonpickle.dumps(g)) if draw(B) else copy.deepcopy(g)
            assert g2 == g
            near(cm(g2.distance), cm(g.distance))
            g2.detectorposition = Q(p + 1, "cm")
            assert g2 != g
            near(cm(g2.distance), sign * (p + 1 + z), rtol=1e-8, atol=1e-9)
        verify()
    rec.current = repr(hist)
    rec.case(repr(hist), nontrivial=len(set(hist[5:])) > 1)
    str(g)


@check(quick=60, thorough=1000, shards={"quick": 4, "thorough": 8})
@given(st.data())
def calibration(data):
    """noise-free intensities against the motor position"""
    draw = data.draw
    sign = draw(st.sampled_from([1, -1]))
    pu = draw(st.sampled_from(["mm", "cm"]))
    z, area, rate = sign * draw(POS(4, 8)), draw(POS(0.3, 1.5)), draw(POS(10, 1e5))
    p = sign * np.linspace(draw(POS(-3, -2)), draw(POS(3, 30)), draw(st.integers(12, 25)))
    p0 = float(p[draw(st.integers(0, len(p) - 1))])
    mode = draw(st.sampled_from(["area known", "all free", "solid angle", "solid angle fixed", "no fit"]))
    rec.current = repr((sign, pu, z, area, rate, p.tolist(), p0, mode))
    rec.case(rec.current, nontrivial=True)
    rec.label(mode)
    det = detbase.CentricCone(ehole=3.6, activearea=area)
    g = xrf.factory("LinearXRFGeometry", detector=det, source=None, positionunits=pu, positionsign=sign,
                    zerodistance=Q(z, "cm").to(pu), detectorposition=Q(p0, "cm"))
    sig = rate * cone(sign * (p + z), area)
    calib = {"signal": sig.tolist(), "var": (sig * 1e-3).tolist(), "detectorposition": Q(p, "cm").to(pu).magnitude.tolist(), "positionunits": pu}
    g.calibrcfile = os.path.join(tempfile.mkdtemp(), "calib.json")
    if draw(B):
        g.set_calibrc(dict(calib))
        assert g.get_calibrc() == calib
        with open(g.calibrcfile) as f:
            assert json.load(f) == calib
        kw = {}
    else:
        kw = {"calibrc": calib}
    off = 1 + draw(POS(-0.05, 0.05))
    sa0 = cone(sign * (p0 + z), area)
    if mode == "area known":
        g.zerodistance = z * off
        g.calibrate(fixedactivearea=True, **kw)
    elif mode == "all free":
        g.zerodistance = z * off
        det.activearea = area * off
        g.calibrate(fixedactivearea=False, **kw)
    elif mode == "solid angle":
        g.zerodistance = z * off
        g.calibrate(fixedactivearea=False, solidanglecalib=sa0, **kw)
    elif mode == "solid angle fixed":
        g.zerodistance = z * off
        g.calibrate(fixedactivearea=True, solidanglecalib=sa0, **kw)
    else:
        g.calibrate(fit=False, **kw)
    tol = 1e-3 if mode not in ("all free", "solid angle") else 2e-2
    near(cm(g.zerodistance), z, rtol=tol)
    near(det.activearea.to("cm^2").magnitude, area, rtol=3 * tol)
    near(cm(g.detectorposition), p0, atol=1e-9)
    near(cm(g.distance), sign * (p0 + z), rtol=3 * tol)
    near(g.solidangle, sa0, rtol=6 * tol)


@check(quick=400, thorough=3000, shards={"quick": 1, "thorough": 2})
@given(st.data())
def angles(data):
    draw = data.draw
    cls = draw(st.sampled_from(["flat", "perp", "solid", "centric", "diode", "diode", "diode", "none"]))
    i, o = draw(POS(0, 90)), draw(POS(-90, 90))
    az, saz = draw(POS(-180, 360)), draw(POS(-180, 360))
    rec.current = repr((cls, i, o, az, saz))
    rec.case(rec.current, nontrivial=i != o)
    if cls == "perp":
        i, o = 90, -90
        g = flatarea.factory("Perpendicular", detector_azimuth=az)
    elif cls == "diode":
        name, di, do = draw(st.sampled_from([("sxm_iodet1", 90, 70), ("iodet", 90, 70), ("fdet", 62, 58), ("idet", 90, -90), ("id16b_IC", 90, -90), ("SXM_FDET", 62, 58)]))
        kw = {}
        sa = 4 * np.pi * 0.4
        if draw(B):
            kw["anglein"] = i
        else:
            i = di
        if draw(B):
            kw["angleout"] = o
        else:
            o = do
        if draw(B):
            kw["detector_azimuth"] = az
        else:
            az = 0
        if draw(B):
            sa = kw["solidangle"] = draw(POS(0.01, 6))
        g = diode.factory(name, **kw)
        assert g.solidangle == sa
        g2 = jsonpickle.loads(jsonpickle.dumps(g))
        assert g == g2 and g2.solidangle == sa
        g2.solidangle = sa / 2
        assert g != g2
    else:
        C = {"flat": base.FlatSample, "solid": base.SolidAngle, "centric": base.Centric, "none": flatarea.Geometry}[cls]
        g = C(anglein=i, angleout=o, detector_azimuth=az, sample_azimuth=saz)
        assert g.sample_azimuth == saz
    assert (g.anglein, g.angleout, g.detector_azimuth) == (i, o, az)
    # directions in the plane: surface along x, normal pointing inwards is -y
    direc = np.array([np.cos(np.radians(i)), -np.sin(np.radians(i))])
    # positive = reflection: on the side of the source
    out = np.array([np.cos(np.radians(o)), np.sin(np.radians(o))])
    normal = np.array([0, -1.0])
    near(g.cosnormin, direc @ normal, atol=1e-12)
    near(g.cosnormout, out @ normal, atol=1e-12)
    near(np.cos(np.radians(g.scatteringangle)), direc @ out, atol=1e-12)
    near(np.cos(np.radians(g.anglenormin)), direc @ normal, atol=1e-12)
    near(np.cos(np.radians(g.anglenormout)), out @ normal, atol=1e-12)
    assert 0 <= g.anglenormin <= 90 and 0 <= g.anglenormout <= 180
    assert g.reflection == (o > 0) and g.polar == g.scatteringangle
    kw = g.xrayspectrumkwargs()
    near(kw["polar"], np.radians(i + o), atol=1e-12)
    near(kw["azimuth"], np.radians(az), atol=1e-12)
    # setting one angle through the other description
    n1, n2 = draw(POS(0, 90)), draw(POS(0, 180))
    g.anglenormin = n1
    near(g.anglenormin, n1, atol=1e-9)
    near(g.anglein, 90 - n1, atol=1e-9)
    assert g.angleout == o
    g.anglenormout = n2
    near(g.anglenormout, n2, atol=1e-9)
    near(g.angleout, n2 - 90, atol=1e-9)
    near(g.anglein, 90 - n1, atol=1e-9)
    near(g.scatteringangle, n2 - n1, atol=1e-9)


_mat = {}


def material(name):
    if name not in _mat:
        _mat[name] = element.Element(name) if len(name) < 3 else compoundfromname.compoundfromname(name)
    return _mat[name]


@check(quick=120, thorough=2000, shards={"quick": 2, "thorough": 4})
@given(st.data())
def efficiency(data):
    """filters in the beam and before the detector"""
    draw = data.draw
    names = st.sampled_from(["Be", "Al", "Si", "air", "ultralene", "water"])
    det = detbase.CentricCone(ehole=3.6, activearea=draw(POS(0.1, 2)))
    beam, filt, hist = {}, {}, []
    thickness = lambda: draw(POS(1e-5, 0.02))
    mat = None
    for _ in range(draw(st.integers(0, 6))):
        op = draw(st.sampled_from(["beam", "beam", "filter", "filter", "cover", "detector", "remove", "removebeam", "removefilters"]))
        name, t = draw(names), thickness()
        hist.append((op, name, t))
        q = draw(st.sampled_from([t, Q(t * 10, "mm")]))
        if op == "beam":
            label = det.nextbeamfilter()
            assert label not in beam
            det.addbeamfilter(draw(st.sampled_from([None, label])), material(name), q)
            beam[label] = name, t
        elif op == "filter":
            label = draw(st.sampled_from(["Window", "Foil", "BeamFilterX"]))
            det.adddetectorfilter(label, material(name), q)
            filt[label] = name, t
        elif op == "cover":
            beam[det.nextbeamfilter()] = name, t
            det.addsamplecover("Cover", material(name), q)
            filt["Cover"] = name, t
        elif op == "detector":
            det.addattenuator("Detector", material(name), q)
            mat = name, t
        elif op == "remove":
            label = draw(st.sampled_from(["Window", "Foil", "BeamFilter0", "Cover"]))
            det.removeattenuator(label)
            filt.pop(label, None), beam.pop(label, None)
        elif op == "removebeam":
            det.removebeamfilters()
            beam = {}
        else:
            det.removedetectorfilters()
            filt = {}
    rec.current = repr(hist)
    for bad in (lambda: det.addbeamfilter("Window", material("Be"), 1), lambda: det.adddetectorfilter("BeamFilter3", material("Be"), 1)):
        try:
            bad()
        except ValueError:
            pass
        else:
            raise AssertionError("refused name")
    es = np.array(sorted(draw(st.lists(POS(3, 30), min_size=1, max_size=3))))
    ed = np.array(sorted(draw(st.lists(POS(3, 30), min_size=1, max_size=3))))
    rec.case(repr((hist, es, ed)), nontrivial=bool(beam or filt))
    atmosphere = draw(st.sampled_from([None, None, "air"]))
    if atmosphere:
        d = draw(POS(0.5, 10))
        g = base.Centric(detector=det, distance=d, atmosphere=material("air"), anglein=45, angleout=45)
        filt["Atmosphere"] = "air", d

    def absorb(items, e):
        return sum((np.asarray(material(n).mass_att_coeff(e)) * material(n).density * t for n, t in items), np.zeros(len(e)))

    tb, tf = absorb(beam.values(), es), absorb(filt.values(), ed)
    near(det.filter_absorbance(es, source=True), tb, atol=1e-12)
    near(det.filter_absorbance(ed), tf, atol=1e-12)
    near(det.filter_transmission(ed), np.exp(-tf), atol=1e-12)
    near(det.filter_attenuation(ed) + det.filter_transmission(ed), 1 + 0 * ed)
    assert det.hasmaterial == (mat is not None)
    A = 1 - np.exp(-absorb([mat], ed)) if mat else 1 + 0 * ed
    near(det.attenuation(ed) + 0 * ed, A, atol=1e-12)
    near(det.transmission(ed) + det.attenuation(ed), 1)
    for w in (True, False):
        got = det.efficiency(es, ed, withdetectorattenuation=w)
        want = np.exp(-tb)[:, None] * (np.exp(-tf) * (A if w else 1))[None, :]
        assert got.shape == want.shape
        near(got, want, atol=1e-12)
        assert np.all(got >= 0) and np.all(got <= 1)
    e = float(ed[0])
    near(det.efficiency(float(es[0]), e), (np.exp(-tb[0]) * np.exp(-tf[0]) * A[0]).reshape(1, 1), atol=1e-12)
    labels = set(det.attenuators)
    assert labels == set(beam) | set(filt) | ({"Detector"} if mat else set()), labels
    str(det)


@check(quick=40, thorough=400, shards={"quick": 1, "thorough": 2})
@given(st.data())
def instruments(data):
    """parameters given to a detector are used"""
    draw = data.draw
    name = draw(st.sampled_from(["sn3102", "leia", "BB8", "DR40", "ID16b_Virtual1"]))
    kw = {}
    if draw(B):
        kw["activearea"] = draw(POS(0.1, 2))
    for k, lo, hi in (("mcazero", -0.1, 0.1), ("mcagain", 1e-3, 1e-2), ("mcanoise", 0.01, 0.2), ("mcafano", 0.05, 0.2), ("ehole", 2, 5)):
        if draw(B):
            kw[k] = draw(POS(lo, hi))
    rec.current = repr((name, kw))
    rec.case(rec.current, nontrivial=bool(kw))
    det = xrfdetectors.factory(name, **kw)
    default = xrfdetectors.factory(name)
    for k in ("activearea", "mcazero", "mcagain", "mcanoise", "mcafano", "ehole"):
        u = {"activearea": "cm^2", "ehole": "eV"}.get(k)
        value = lambda x: getattr(x, k).to(u).magnitude if u else getattr(x, k)
        got = value(det)
        if k in kw:
            near(got, kw[k])
        else:
            near(got, value(default))
    sa = draw(POS(0.01, 5))
    g = xrf.factory(draw(st.sampled_from(["sxm120", "sxm90", "microdiff", "ID16b_Virtual1"])), detector=det, source=None)
    g.solidangle = sa
    near(g.solidangle, sa, rtol=1e-6)
    near(cone(cm(g.distance), det.activearea.to("cm^2").magnitude), sa, rtol=1e-6)
