"""C03: lookup tables against a dictionary model."""
import copy
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.utils import lut, units, listtools
from spectrocrunch.patch import jsonpickle

rule(
    "Histories of up to 8 add/replace/+/+=/copy/serialize/clear operations with keys on "
    "a coarse grid (so duplicates are common) in mixed compatible units; evaluation on, "
    "between and outside the keys. Non-trivial: at least two operations and a key that "
    "is supplied more than once, or an evaluation between keys."
)

XU = ["keV", "eV"]
YU = ["mm", "cm", "um"]
KEY = st.integers(0, 12)


def qx(k, u):
    """Exactly the same key whatever the unit."""
    return units.Quantity(k * 1000.0 if u == "eV" else float(k), u)


def qy(v, u):
    f = {"mm": 1.0, "cm": 0.1, "um": 1000.0}[u]
    return units.Quantity(v * f, u)


@st.composite
def payload(draw, withunits, unique=False):
    if draw(st.integers(0, 3)) == 0:
        ks = draw(KEY)
        vs = draw(st.integers(-20, 20))
    else:
        ks = draw(st.lists(KEY, min_size=1, max_size=5, unique=unique))
        vs = draw(st.lists(st.integers(-20, 20), min_size=len(ks), max_size=len(ks)))
    if withunits:
        return ks, vs, draw(st.sampled_from(XU)), draw(st.sampled_from(YU))
    return ks, vs, None, None


def torepo(p):
    ks, vs, xu, yu = p
    if xu is None:
        return ks, vs
    k = np.asarray(ks, dtype=float) if isinstance(ks, list) else float(ks)
    v = np.asarray(vs, dtype=float) if isinstance(vs, list) else float(vs)
    k = k * (1000 if xu == "eV" else 1)
    v = v * {"mm": 1.0, "cm": 0.1, "um": 1000.0}[yu]
    return units.Quantity(k, xu), units.Quantity(v, yu)


class Model(object):
    def __init__(self, default):
        self.d = {}
        self.default = default

    def apply(self, p, add):
        ks, vs = p[0], p[1]
        if not isinstance(ks, list):
            ks, vs = [ks], [vs]
        if add:
            for k, v in zip(ks, vs):
                self.d[k] = self.d.get(k, 0) + v
        else:
            for k, v in zip(ks, vs):
                self.d[k] = v


def tokev(x, withunits):
    return x.to("keV").magnitude if withunits else x.magnitude


def compare(real, model, withunits):
    assert real.isempty() == (not model.d)
    if not model.d:
        assert list(real) == [] and list(real.items()) == []
        return
    keys = sorted(model.d)
    vals = [model.d[k] for k in keys]
    x = real.x.to("keV").magnitude if withunits else real.x.to("dimensionless").magnitude
    y = real.y.to("mm").magnitude if withunits else real.y.to("dimensionless").magnitude
    assert len(real) == len(keys)
    assert x.shape == (len(keys),) and y.shape == (len(keys),)
    assert np.allclose(x, keys, rtol=1e-12, atol=1e-12), (x, keys)
    assert np.allclose(y, vals, rtol=1e-9, atol=1e-9), (y, vals)
    assert np.all(np.diff(x) > 0)
    xu, yu = ("eV", "um") if withunits else (None, None)
    z = list(real.zip(xu, yu))
    assert len(z) == len(keys)
    for (a, b), k, v in zip(z, keys, vals):
        if withunits:
            a, b = a.magnitude / 1000, b.magnitude / 1000
        assert abs(a - k) < 1e-9 and abs(b - v) < 1e-9
    for (a, b), k, v in zip(real, keys, vals):
        if withunits:
            a, b = a.to("keV").magnitude, b.to("mm").magnitude
            assert abs(a - k) < 1e-9 and abs(b - v) < 1e-9


def evaluate(real, model, q, withunits, scalar, xu):
    q = np.asarray(q, dtype=float)
    arg = q[0] if scalar else q
    if withunits:
        arg = units.Quantity(arg * (1000 if xu == "eV" else 1), xu)
    r = real(arg)
    if withunits and model.d:
        r = r.to("mm").magnitude
    else:
        r = r.magnitude
    if scalar:
        assert np.ndim(r) == 0
        r = np.array([r])
        q = q[:1]
    assert np.shape(r) == q.shape
    if not model.d:
        if np.isnan(model.default):
            assert np.all(np.isnan(r))
        else:
            assert np.all(r == model.default)
        return
    keys = sorted(model.d)
    vals = [float(model.d[k]) for k in keys]
    assert np.allclose(np.asarray(r, dtype=float), np.interp(q, keys, vals), rtol=1e-9, atol=1e-9)


@st.composite
def histories(draw):
    withunits = draw(st.booleans())
    default = draw(st.sampled_from([float("nan"), 0.0, 3.5]))
    n = draw(st.integers(1, 8))
    ops = []
    for _ in range(n):
        kind = draw(
            st.sampled_from(
                ["add"] * 4 + ["replace"] * 3
                + ["plus", "iadd", "addlut", "copy", "deepcopy", "json", "clear", "tuple"]
            )
        )
        p = None
        if kind in ("add", "plus", "iadd", "addlut", "tuple"):
            p = draw(payload(withunits, unique=False))
        elif kind == "replace":
            p = draw(payload(withunits, unique=True))
        q = draw(st.lists(st.integers(-4, 30).map(lambda i: i / 2.0), min_size=1, max_size=5))
        ops.append((kind, p, q, draw(st.booleans()), draw(st.sampled_from(XU))))
    return withunits, default, ops


@check(quick=4000, thorough=80000, shards={"quick": 6, "thorough": 8})
@given(histories())
def history(h):
    withunits, default, ops = h
    real = lut.LUT(default=default)
    model = Model(default)
    nops = [o[0] for o in ops]
    supplied = [k for o in ops if o[1] for k in (o[1][0] if isinstance(o[1][0], list) else [o[1][0]])]
    rec.case(h, nontrivial=len(ops) > 1 and len(set(supplied)) < len(supplied))
    frozen = []
    for kind, p, q, scalar, xu in ops:
        rec.label(kind)
        if kind == "add":
            real.add(*torepo(p))
            model.apply(p, True)
        elif kind == "tuple":
            real.add(torepo(p))
            model.apply(p, True)
        elif kind == "replace":
            real.replace(*torepo(p))
            model.apply(p, False)
        elif kind == "plus":
            old = real
            frozen.append((old, copy.deepcopy(model)))
            real = real + torepo(p)
            model.apply(p, True)
        elif kind == "iadd":
            real += torepo(p)
            model.apply(p, True)
        elif kind == "addlut":
            x, y = torepo(p)
            x = x if isinstance(x, (list, units.ureg.Quantity)) else [x]
            y = y if isinstance(y, (list, units.ureg.Quantity)) else [y]
            other = lut.LUT(x=x, y=y)
            real.add(other)
            model.apply(p, True)
        elif kind in ("copy", "deepcopy", "json"):
            old = real
            if kind == "copy":
                real = copy.copy(old)
            elif kind == "deepcopy":
                real = copy.deepcopy(old)
            else:
                real = jsonpickle.loads(jsonpickle.dumps(old))
            frozen.append((old, copy.deepcopy(model)))
            assert real == old and not (real != old)
        elif kind == "clear":
            real.clear(default=default)
            model.d = {}
        compare(real, model, withunits)
        evaluate(real, model, q, withunits, scalar, xu)
        if model.d:
            evaluate(real, model, [k for k in model.d], withunits, False, "keV")
        # tables that were copied are not affected any more
        for old, oldmodel in frozen:
            compare(old, oldmodel, withunits)
            evaluate(old, oldmodel, q, withunits, scalar, xu)
    # equality is equality of content
    other = lut.LUT(default=default)
    for k in reversed(sorted(model.d)):
        args = (k, model.d[k])
        if withunits:
            args = units.Quantity(float(k), real.xunits if False else "keV"), units.Quantity(float(model.d[k]), "mm")
        other.add(*args)
    if not withunits:
        assert real == other and not (real != other)
        k = max(model.d, default=0)
        changed = copy.deepcopy(other)
        changed.add(k, 1)
        assert real != changed
        changed = copy.deepcopy(other)
        changed.add(k + 1, 1)
        assert real != changed


@check(quick=800, thorough=10000, shards={"quick": 2, "thorough": 4})
@given(
    st.lists(st.integers(-5, 5), min_size=1, max_size=10),
    st.booleans(),
    st.booleans(),
    st.data(),
)
def default_values(keys, scalar, withunits, data):
    """Keys without values get the default value."""
    keys = sorted(set(keys))
    d = data.draw(st.integers(-3, 3))
    if scalar:
        keys = keys[:1]
    rec.case((keys, scalar, withunits, d), nontrivial=len(keys) > 1)
    default = float(d)
    x = keys[0] if scalar else keys
    t = lut.LUT(default=default, x=units.Quantity(x, "keV") if withunits else x)
    q = units.Quantity(np.array(keys, dtype=float), "keV") if withunits else np.array(keys)
    assert np.array_equal(t(q).magnitude, np.full(len(keys), default))
    assert len(t) == len(keys)
