"""C21: attenuation and fluorescence of a stack of layers."""
import copy
import math
import pickle
import numpy as np
import xraylib
from vh import st, given, assume, check, rec, rule
from spectrocrunch.materials import compound, mixture, element, types, multilayer, xrayspectrum
from spectrocrunch.geometries import base as geombase
from spectrocrunch.geometries import xrf as xrfgeometries
from spectrocrunch.detectors import xrf as xrfdetectors
from spectrocrunch.sources import xray as xraysources
from spectrocrunch.patch import jsonpickle

rule(
    "Generated stacks of 1 to 4 layers of elements, compounds and mixtures with generated thickness, density, angles "
    "(reflection and transmission), energies and source weights. Attenuation is compared with xraylib sums of the "
    "generated composition, rates with an own closed-form integral over the layers and with quadrature. "
    "Non-trivial: at least two layers (refinements: at least one free layer next to another one)."
)
B = st.booleans()
SYMBOLS = ["C", "O", "Na", "Al", "Si", "S", "K", "Ca", "Ti", "Fe", "Cu", "Zn", "Sr", "Ag", "Ba", "Au", "Pb"]
AMOUNT = st.floats(0.1, 10).map(lambda x: round(x, 3))
DENSITY = st.floats(0.5, 15).map(lambda x: round(x, 3))
THICK = st.one_of(st.floats(0.2, 60), st.floats(0.05, 5), st.sampled_from([1.0, 10.0, 300.0])).map(lambda x: round(x, 4) * 1e-4)
ENERGY = st.one_of(st.floats(2, 30), st.floats(5, 15)).map(lambda x: round(x, 3))
ANGLE = st.one_of(st.floats(5, 85), st.sampled_from([90.0, 45.0, 62.0, 30.0])).map(lambda x: round(x, 2))


def num(s):
    return xraylib.SymbolToAtomicNumber(s)


def weight(s):
    return xraylib.AtomicWeight(num(s))


class Mat(object):
    """mass fractions and density next to the object"""

    def __init__(self, w, density, obj):
        self.w, self.density, self.obj = w, density, obj
        self.parts = []

    def mac(self, e):
        return sum(f * xraylib.CS_Total_Kissel(num(s), e) for s, f in self.w.items())


@st.composite
def compounds(draw, name):
    syms = draw(st.lists(st.sampled_from(SYMBOLS), min_size=1, max_size=3, unique=True))
    n = [draw(AMOUNT) for _ in syms]
    rho = draw(DENSITY)
    m = [x * weight(s) for s, x in zip(syms, n)]
    w = {s: x / sum(m) for s, x in zip(syms, m)}
    return Mat(w, rho, compound.Compound(syms, n, types.fraction.mole, rho, name=name))


@st.composite
def materials(draw, i):
    kind = draw(st.sampled_from(["cmp", "cmp", "mix", "el"]))
    if kind == "el":
        s = draw(st.sampled_from(SYMBOLS))
        return Mat({s: 1.0}, xraylib.ElementDensity(num(s)), element.Element(s))
    if kind == "cmp":
        return draw(compounds("c%d" % i))
    parts = [draw(compounds("c%d_%d" % (i, j))) for j in range(draw(st.integers(1, 3)))]
    f = [draw(AMOUNT) for _ in parts]
    f = [x / sum(f) for x in f]
    w = {}
    for p, x in zip(parts, f):
        for s, v in p.w.items():
            w[s] = w.get(s, 0) + x * v
    rho = 1 / sum(x / p.density for p, x in zip(parts, f))
    m = Mat(w, rho, mixture.Mixture([p.obj for p in parts], f, types.fraction.mass, name="mix%d" % i))
    m.parts = parts
    return m


class Lay(object):
    def __init__(self, mat, t):
        self.mat, self.t = mat, t


@st.composite
def stacks(draw, lo=1, hi=4):
    n = draw(st.integers(lo, hi))
    out = []
    for i in range(n):
        if out and draw(st.integers(0, 4)) == 0:
            out.append(Lay(out[draw(st.integers(0, len(out) - 1))].mat, draw(THICK)))
        else:
            out.append(Lay(draw(materials(i)), draw(THICK)))
    return out


@st.composite
def angles(draw, reflection=None):
    a = draw(ANGLE)
    b = draw(ANGLE)
    refl = draw(B) if reflection is None else reflection
    if not refl and draw(st.integers(0, 4)) == 0:
        b = a
    return a, (b if refl else -b)


def flat(a, b):
    return geombase.FlatSample(anglein=a, angleout=b)


def build(stack, geometry, fixed=False):
    mat = [l.mat.obj for l in stack]
    t = [l.t for l in stack]
    if len(stack) == 1 and isinstance(fixed, bool):
        mat, t = mat[0], t[0]
    return multilayer.Multilayer(mat, t, fixed=fixed, geometry=geometry)


def cosin(a):
    return math.sin(math.radians(a))


def close(a, b, rtol=1e-9, atol=0.0, msg=""):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape, (msg, a.shape, b.shape)
    np.testing.assert_allclose(a, b, rtol=rtol, atol=atol, err_msg=msg)


@st.composite
def energyargs(draw):
    k = draw(st.sampled_from(["num", "list", "arr", "one"]))
    if k == "num":
        e = draw(ENERGY)
        return e, [e], ()
    es = draw(st.lists(ENERGY, min_size=1, max_size=1 if k == "one" else 5))
    return (es if k == "list" else np.array(es)), es, (len(es),)


# ----------------------------------------------------------- attenuation
@check(quick=400, thorough=15000, shards={"quick": 3, "thorough": 8})
@given(st.data())
def attenuation(data):
    stack = data.draw(stacks(), "stack")
    a, b = data.draw(angles(), "angles")
    arg, es, shape = data.draw(energyargs(), "energy")
    m = build(stack, flat(a, b))
    rec.current = repr(([(l.mat.w, l.mat.density, l.t) for l in stack], a, b, arg))
    rec.case(rec.current, nontrivial=len(stack) > 1)
    assert len(m) == m.nlayers == len(stack)
    ci = cosin(a)
    mu = np.array([[l.mat.mac(e) * l.mat.density * l.t for e in es] for l in stack])
    out = b < 0 and data.draw(B, "out")
    c = cosin(-b) if out else ci
    layers = (mu / c).reshape((len(stack),) + shape)
    A = layers.sum(axis=0)
    close(m.absorbance(arg, out=out), A, 1e-8, 1e-14, "absorbance")
    T = m.transmission(arg, out=out)
    close(T, np.exp(-A), 1e-8, 1e-300, "transmission")
    dec = m.absorbance(arg, out=out, decomposed=True)
    assert len(dec) == len(stack)
    for x, y in zip(dec, layers):
        close(x, y, 1e-8, 1e-14, "decomposed")
    for i, l in enumerate(m):
        close(l.absorbance(arg, out=out), layers[i], 1e-8, 1e-14, "layer")
    close(np.asarray(m.mass_att_coeff(arg)).reshape(len(stack), len(es)), np.array([[l.mat.mac(e) for e in es] for l in stack]), 1e-8, 0, "mass att. coeff.")
    close(m.thickness, [l.t for l in stack], 1e-12)
    close(m.density, [l.mat.density for l in stack], 1e-8)
    close(m.xraythicknessin, [l.t / ci for l in stack], 1e-12)
    close(m.xraythicknessout, [l.t / cosin(-b) for l in stack], 1e-9)
    # weights of the source lines
    if shape and data.draw(B, "weighted"):
        wt = [data.draw(AMOUNT, "w") for _ in es]
        if sum(wt) > 0:
            v = m.absorbance(np.array(es), weights=wt, out=out)
            close(np.asarray(v).ravel(), [np.dot(A, wt) / np.sum(wt)], 1e-8, 1e-14, "weighted")
    op = data.draw(st.sampled_from(["split", "reorder", "thicker", "denser", "subset", "angle"]), "op")
    rec.label(op)
    k = data.draw(st.integers(0, len(stack) - 1), "k")
    if op == "split":
        f = data.draw(st.floats(0.05, 0.95), "f")
        s2 = stack[:k] + [Lay(stack[k].mat, stack[k].t * f), Lay(stack[k].mat, stack[k].t * (1 - f))] + stack[k + 1 :]
        close(build(s2, flat(a, b)).transmission(arg, out=out), T, 1e-7, 1e-300, "split")
    elif op == "reorder":
        s2 = data.draw(st.permutations(stack), "perm")
        close(build(s2, flat(a, b)).transmission(arg, out=out), T, 1e-7, 1e-300, "reorder")
    elif op == "thicker":
        m[k].thickness = stack[k].t * 1.5
        A2 = A + layers[k] * 0.5
        close(m.absorbance(arg, out=out), A2, 1e-8, 1e-14, "thicker")
        assert np.all((m.transmission(arg, out=out) < T) | (A > 30) | (layers[k] < 1e-10))
    elif op == "denser":
        mat = stack[k].mat
        if isinstance(mat.obj, compound.Compound) and data.draw(B, "onmaterial"):
            mat.obj.density = mat.density * 2
            A2 = A + sum(layers[i] for i in range(len(stack)) if stack[i].mat is mat)
        elif isinstance(mat.obj, compound.Compound):
            m2 = compound.Compound(list(mat.w), list(mat.w.values()), types.fraction.mass, mat.density * 2, name="x")
            s2 = list(stack)
            s2[k] = Lay(Mat(mat.w, mat.density * 2, m2), stack[k].t)
            m = build(s2, flat(a, b))
            A2 = A + layers[k]
        else:
            return
        close(m.absorbance(arg, out=out), A2, 1e-8, 1e-14, "denser")
    elif op == "subset":
        parts = [build([l], flat(a, b)).transmission(arg, out=out) for l in stack]
        close(np.prod(parts, axis=0), T, 1e-7, 1e-300, "product")
    else:
        a2 = data.draw(ANGLE, "a2")
        m.geometry.anglein = a2
        close(m.absorbance(arg), mu.sum(axis=0).reshape(shape) / cosin(a2), 1e-8, 1e-14, "other angle")


@check(quick=250, thorough=10000, shards={"quick": 3, "thorough": 8})
@given(st.data())
def paths(data):
    """attenuation along a path inside the stack"""
    stack = data.draw(stacks(), "stack")
    a, b = data.draw(angles(), "angles")
    m = build(stack, flat(a, b))
    es = data.draw(st.lists(ENERGY, min_size=1, max_size=4, unique=True), "energies")
    rec.current = repr(([(l.mat.w, l.mat.density, l.t) for l in stack], a, b, es))
    rec.case(rec.current, nontrivial=len(stack) > 1)
    bounds = np.cumsum([0] + [l.t for l in stack])
    lin = np.array([[l.mat.mac(e) * l.mat.density for e in es] for l in stack])

    def cum(z):
        d = np.clip(z - bounds[:-1], 0, np.array([l.t for l in stack]))
        return d.dot(lin)

    zs = []
    for _ in range(data.draw(st.integers(2, 5), "nz")):
        k = data.draw(st.integers(0, len(stack) - 1), "k")
        f = data.draw(st.sampled_from([0.01, 0.5, 0.99, 1.0]), "f")
        zs.append(float(bounds[k] + f * stack[k].t))
    if data.draw(st.integers(0, 3), "outside") == 0:
        zs.append(float(bounds[-1] * 1.5))
        zs.append(-1e-4)
    with m.cachectx("layerinfo"):
        with m.cachectx("attenuationinfo", es):
            for z in zs:
                lay = m._zlayer(z)
                want = 0 if z <= 0 else 1 + int(np.searchsorted(bounds[1:], z, side="left"))
                tol = np.abs(bounds - z).min() < 1e-12
                assert lay == want or tol, (z, lay, want)
                for i, e in enumerate(es):
                    close(m._cum_attenuation(z, e), cum(z)[i], 1e-7, 1e-12, "cumulative")
                close(m._cum_attenuation(z, es), cum(z), 1e-7, 1e-12, "cumulative, energies")
            arr = np.array(zs)
            ref = np.array([cum(z) for z in zs])
            close(m._cum_attenuation(arr, es), ref, 1e-7, 1e-12, "cumulative, depths")
            c = cosin(a)
            z1 = zs[0]
            for z, r in zip(zs, ref):
                if z >= z1:
                    close(m._transmission(z1, z, c, es), np.exp(-(r - ref[0]) / c), 1e-6, 1e-300, "path")
                else:
                    close(m._transmission(z1, z, -c, es), np.exp(-(ref[0] - r) / c), 1e-6, 1e-300, "path back")
            close(m._transmission(0.0, float(bounds[-1]), c, es), np.exp(-lin.T.dot([l.t for l in stack]) / c), 1e-6, 1e-300, "all")
    close(m.transmission(es), np.exp(-lin.T.dot([l.t for l in stack]) / c), 1e-6, 1e-300)


# ----------------------------------------------------------- composition
@check(quick=250, thorough=10000, shards={"quick": 2, "thorough": 8})
@given(st.data())
def composition(data):
    stack = data.draw(stacks(), "stack")
    a, b = data.draw(angles(), "angles")
    m = build(stack, flat(a, b))
    rec.current = repr(([(l.mat.w, l.mat.density, l.t) for l in stack], a, b))
    rec.case(rec.current, nontrivial=len(stack) > 1)
    area = {}
    for i, l in enumerate(stack):
        ai = {s: f * l.mat.density * l.t for s, f in l.mat.w.items()}
        got = {str(k): v for k, v in m[i].arealdensity().items()}
        assert set(got) == set(ai)
        for s in ai:
            close(got[s], ai[s], 1e-8)
            area[s] = area.get(s, 0) + ai[s]
    got = {str(k): v for k, v in m.arealdensity().items()}
    assert set(got) == set(area), (got, area)
    for s in area:
        close(got[s], area[s], 1e-8, 0, "areal density")
    tot = sum(area.values())
    got = {str(k): v for k, v in m.elemental_massfractions().items()}
    assert set(got) == set(area)
    for s in area:
        close(got[s], area[s] / tot, 1e-8, 0, "mass fraction")
    assert abs(sum(got.values()) - 1) < 1e-9
    # mixed layers (compounds with the same name are the same compound)
    mats = {id(l.mat) for l in stack}
    if len({l.mat.obj.name if hasattr(l.mat.obj, "name") else str(l.mat.obj) for l in stack}) == len(stack) == len(mats):
        mix = m.mixlayers()
        t = sum(l.t for l in stack)
        e = data.draw(ENERGY, "energy")
        mu = sum(l.mat.mac(e) * l.mat.density * l.t for l in stack)
        close(np.asarray(mix.mass_att_coeff(e)).ravel(), [mu / sum(l.mat.density * l.t for l in stack)], 1e-7, 0, "mixed")
        close(mix.density, sum(l.mat.density * l.t for l in stack) / t, 1e-7, 0, "density of mixed layers")
        got = {str(k): v for k, v in mix.elemental_massfractions().items()}
        for s in area:
            close(got[s], area[s] / tot, 1e-7, 0, "mass fractions of mixed layers")
        n = {s: x / weight(s) for s, x in area.items()}
        got = {str(k): v for k, v in m.elemental_molefractions().items()}
        assert set(got) == set(n)
        for s in n:
            close(got[s], n[s] / sum(n.values()), 1e-6, 0, "mole fractions")
    # thickness along the beam
    k = data.draw(st.integers(0, len(stack) - 1), "k")
    x = data.draw(THICK, "x")
    if data.draw(B, "in"):
        m[k].xraythicknessin = x
        close(m[k].thickness, x * cosin(a), 1e-10)
        close(m.xraythicknessin[k], x, 1e-10)
    else:
        m[k].xraythicknessout = math.copysign(x, -b)
        close(m[k].thickness, x * cosin(abs(b)), 1e-10)
    # fixed layers
    m.fixlayers()
    assert [l for l in m.freeiter()] == [] and len(list(m.fixediter())) == len(stack)
    m.freelayers([k])
    assert [l is m[k] for l in m.freeiter()] == [True]
    m.freelayers()
    m.fixlayers([k])
    assert [l is m[k] for l in m.fixediter()] == [True] and len(list(m.freeiter())) == len(stack) - 1
    # copies
    how = data.draw(st.sampled_from(["copy", "deepcopy", "pickle", "json"]), "how")
    rec.label(how)
    m2 = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x)), "json": lambda x: jsonpickle.loads(jsonpickle.dumps(x))}[how](m)
    assert m2 == m and not (m2 != m) and type(m2) is type(m)
    e = data.draw(ENERGY, "energy2")
    close(m2.absorbance(e), m.absorbance(e), 1e-9)
    assert [l.fixed for l in m2] == [l.fixed for l in m]
    if how != "copy":
        m2[k].thickness *= 2
        assert m2 != m
        close(m.thickness[k], m2.thickness[k] / 2, 1e-9)


# ----------------------------------------------------------- refinement
@check(quick=300, thorough=12000, shards={"quick": 3, "thorough": 8})
@given(st.data())
def refine(data):
    stack = data.draw(stacks(1, 4), "stack")
    a, b = data.draw(angles(), "angles")
    n = len(stack)
    fixed = [data.draw(st.integers(0, 2), "fixed") == 0 for _ in stack]
    assume(not all(fixed))
    what = data.draw(st.sampled_from(["thickness", "density", "composition", "compthickness"]), "what")
    free = [i for i in range(n) if not fixed[i]]
    constant = data.draw(st.integers(0, 3), "constant") == 0
    offset = data.draw(st.floats(-1, 1), "offset") if constant else 0.0
    constraint = data.draw(B, "constraint")
    single = len(free) == 1 and not constant and what in ("thickness", "density") and data.draw(B, "single")
    es = sorted(data.draw(st.lists(st.floats(4, 40).map(lambda x: round(x, 1)), min_size=1 if single else 8, max_size=1 if single else 14, unique=True), "energies"))
    ci = cosin(a)
    m = build(stack, flat(a, b), fixed=fixed)
    rec.current = repr((what, [(l.mat.w, l.mat.density, l.t, f) for l, f in zip(stack, fixed)], a, b, es, constant, constraint))
    rec.label(what)
    # absorbance of the true sample
    A = np.array([[l.mat.mac(e) for e in es] for l in stack])
    true = np.array([l.mat.density * l.t / ci for l in stack])
    y = A.T.dot(true) + offset
    if what in ("thickness", "density"):
        cols = A[free].T
    else:
        cols = []
        for i in free:
            obj = stack[i].mat.obj
            assume(not isinstance(obj, element.Element))
            if isinstance(obj, mixture.Mixture):
                for c in stack[i].mat.parts:
                    cols.append([c.mac(e) for e in es])
            else:
                for s in stack[i].mat.w:
                    cols.append([xraylib.CS_Total_Kissel(num(s), e) for e in es])
        cols = np.array(cols).T
    if constant:
        cols = np.column_stack([cols, np.ones(len(es))])
    scaled = cols / np.linalg.norm(cols, axis=0)
    assume(cols.shape[1] <= len(es) and np.linalg.cond(scaled) < 1e4)
    if constraint:
        # the non-negative solver of this scipy fails on ill-conditioned input
        assume(np.linalg.cond(cols) < 1e8)
    rec.case(rec.current, nontrivial=n > 1)
    # start from something else
    if what in ("thickness", "compthickness"):
        for i in free:
            m[i].thickness = stack[i].t * data.draw(st.sampled_from([0.3, 2.0]), "start")
    arr = np.array(es)
    if what in ("thickness", "density"):
        yarg = y if not single else float(y[0])
        earg = arr if not single else es[0]
        kw = {}
        if constant:
            kw["constant"] = True
        if not constraint:
            kw["constraint"] = False
        if what == "thickness":
            m.refinethickness(earg, yarg, **kw)
            got = m.thickness
        else:
            m.refinedensity(earg, yarg, **kw)
            got = m.density
        for i in range(n):
            want = stack[i].t if what == "thickness" else stack[i].mat.density
            close(got[i], want, 1e-5 if not fixed[i] else 1e-12, 1e-9 * true.max() / max(stack[i].mat.density if what == "thickness" else stack[i].t, 1e-12), what)
        close(m.absorbance(earg), np.asarray(yarg) - offset, 1e-5, 1e-9 + (1e-5 if constant else 0), "absorbance after refinement")
        if what == "density":
            # from another absorbance
            f = data.draw(st.floats(0.4, 2.5), "f")
            y2 = A.T.dot([t * (f if i in free else 1) for i, t in enumerate(true)])
            m.refinedensity(earg, y2 if not single else float(y2[0]))
            for i in free:
                close(m.density[i], stack[i].mat.density * f, 1e-5, 1e-8 * true.max() / stack[i].t, "refined density")
            close(m.absorbance(earg), y2 if not single else y2[0], 1e-5, 1e-9, "absorbance with the refined density")
            for i in free:
                ad = {str(k): v for k, v in m[i].arealdensity().items()}
                for s, w in stack[i].mat.w.items():
                    close(ad[s], w * m.density[i] * stack[i].t, 1e-7)
    else:
        fixt = what == "composition"
        m.refinecomposition(arr, y, fixthickness=fixt, constant=constant, constraint=constraint)
        for i in free:
            got = {str(k): v for k, v in m[i].elemental_massfractions().items()}
            for s, w in stack[i].mat.w.items():
                close(got[s], w, 1e-3, 1e-4, "refined composition")
            if fixt:
                close(m.density[i] * m.thickness[i] / ci, true[i], 1e-3, 1e-6 * true.max(), "refined density")
        close(m.absorbance(arr), y - offset, 1e-4, 1e-6, "absorbance after refining the composition")


# ----------------------------------------------------------- rates
def rategeometry(a, b, solidangle):
    det = xrfdetectors.factory("leia")
    g = xrfgeometries.factory("sxm120", detectorposition=-15.0, detector=det, source=xraysources.factory("synchrotron"))
    g.detector.removebeamfilters()
    g.detector.removedetectorfilters()
    g.anglein = a
    g.angleout = b
    g.solidangle = solidangle
    return g


def reference(stack, a, b, solidangle, energy0, emin, emax):
    """rate per line and source line from an own integral over each layer"""
    c0, c1 = cosin(a), cosin(abs(b))
    kw = {"polar": math.radians(a + b), "azimuth": 0.0}
    n = len(stack)
    out = {}
    for i, l in enumerate(stack):
        probs = dict(l.mat.obj.xrayspectrum(energy0, emin=emin, emax=emax).probabilities)
        for line, p in probs.items():
            e1 = np.broadcast_to(np.asarray(line.energy(**kw), dtype=float), (len(energy0),))
            r = np.zeros(len(energy0))
            for j, e in enumerate(energy0):
                mu0 = [x.mat.mac(e) * x.mat.density for x in stack]
                mu1 = [x.mat.mac(float(e1[j])) * x.mat.density for x in stack]
                att = sum(mu0[k] * stack[k].t for k in range(i)) / c0
                if b > 0:
                    att += sum(mu1[k] * stack[k].t for k in range(i)) / c1
                    s = mu0[i] / c0 + mu1[i] / c1
                    integral = -math.expm1(-s * l.t) / s
                else:
                    att += sum(mu1[k] * stack[k].t for k in range(i + 1, n)) / c1
                    p0, p1 = mu0[i] / c0 * l.t, mu1[i] / c1 * l.t
                    # exp(-p0 x) exp(-p1 (1-x))
                    lo, d = min(p0, p1), abs(p0 - p1)
                    integral = l.t * math.exp(-lo) * (1.0 if d < 1e-12 else -math.expm1(-d) / d)
                r[j] = p[j] * math.exp(-att) * integral * solidangle / c0
            out[line] = out.get(line, 0) + r
    return out


def rates(m, e, **kw):
    s = m.xrayspectrum(e, withdetectorresponse=False, **kw)
    return s


def asrates(s):
    return {str(k): np.asarray(v, dtype=float) for k, v in s.items()}


def samerates(x, y, rtol, scale=None, msg=""):
    assert set(x) == set(y), (msg, sorted(set(x) ^ set(y)))
    big = max([np.max(np.abs(v)) for v in y.values()] or [0])
    for k in y:
        a, b = np.broadcast_arrays(x[k], y[k])
        np.testing.assert_allclose(a, b, rtol=rtol, atol=big * 1e-13 + 1e-300, err_msg="%s %s" % (msg, k))


@check(quick=100, thorough=3000, shards={"quick": 8, "thorough": 8})
@given(st.data())
def fluorescence(data):
    stack = data.draw(stacks(1, 3), "stack")
    a, b = data.draw(angles(), "angles")
    sa = data.draw(st.floats(0.01, 3).map(lambda x: round(x, 4)), "solidangle")
    energy0 = data.draw(st.lists(st.floats(6, 25).map(lambda x: round(x, 2)), min_size=1, max_size=3, unique=True), "energy0")
    emin = data.draw(st.sampled_from([1.0, 2.0, 3.5]), "emin")
    emax = max(energy0) + 1
    g = rategeometry(a, b, sa)
    m = build(stack, g)
    rec.current = repr(([(l.mat.w, l.mat.density, l.t) for l in stack], a, b, sa, energy0, emin))
    rec.case(rec.current, nontrivial=len(stack) > 1)
    rec.label("reflection" if b > 0 else "transmission")
    sa = g.solidangle
    ref = reference(stack, a, b, sa, energy0, emin, emax)
    wt = [data.draw(AMOUNT, "w") for _ in energy0]
    unweighted = data.draw(B, "unweighted")
    if unweighted:
        w = np.ones(len(wt)) / len(wt)
    else:
        w = np.array(wt) / sum(wt)
    kw = {"emin": emin, "emax": emax}
    if not unweighted:
        kw["weights"] = wt
    scalar = len(energy0) == 1 and data.draw(B, "scalar")
    if scalar:
        kw.pop("weights", None)
    got = asrates(rates(m, energy0[0] if scalar else energy0, **kw))
    want = {str(k): v * (np.ones(1) if scalar else w) for k, v in ref.items()}
    samerates(got, want, 1e-6, msg="analytical")
    op = data.draw(st.sampled_from(["solidangle", "split", "noscatter", "sources", "sum", "numerical", "numerical", "thin", "response"]), "op")
    rec.label(op)
    earg = energy0[0] if scalar else energy0
    if op == "solidangle":
        g.solidangle = sa / 2
        f = g.solidangle / sa
        samerates(asrates(rates(m, earg, **kw)), {k: v * f for k, v in got.items()}, 1e-9, msg="solid angle")
    elif op == "split":
        k = data.draw(st.integers(0, len(stack) - 1), "k")
        f = data.draw(st.sampled_from([0.1, 0.5, 0.8]), "f")
        s2 = stack[:k] + [Lay(stack[k].mat, stack[k].t * f), Lay(stack[k].mat, stack[k].t * (1 - f))] + stack[k + 1 :]
        samerates(asrates(rates(build(s2, g), earg, **kw)), got, 1e-6, msg="split layer")
    elif op == "noscatter":
        got2 = asrates(rates(m, earg, scattering=False, **kw))
        samerates(got2, {k: v for k, v in got.items() if k not in ("Rayleigh", "Compton")}, 1e-9, msg="without scattering")
    elif op == "sources":
        # two sources at once
        e2 = [x + 0.5 for x in energy0]
        kw2 = dict(kw, emax=emax + 1)
        kw2.pop("weights", None)
        res = m.xrayspectrum([energy0, e2], weights=[wt, wt], withdetectorresponse=False, **kw2)
        assert isinstance(res, list) and len(res) == 2
        for x, s in zip((energy0, e2), res):
            samerates(asrates(s), asrates(rates(m, x, **dict(kw2, weights=wt))), 1e-9, msg="source list")
    elif op == "sum":
        # the rates of several source lines are the weighted rates of each of them
        for j, e in enumerate(energy0):
            one = asrates(rates(m, e, emin=emin, emax=emax))
            for k, v in got.items():
                x = one.get(k, np.zeros(1))[0]
                y = v[j] / (1 if scalar else w[j])
                assert abs(x - y) <= 1e-7 * max(abs(x), abs(y)) + 1e-300, (k, x, y)
    elif op == "thin":
        # rates of a thin sample are proportional to the thickness
        for l in m:
            l.thickness = 1e-9
        r1 = asrates(rates(m, earg, **kw))
        for l in m:
            l.thickness = 2e-9
        samerates(asrates(rates(m, earg, **kw)), {k: v * 2 for k, v in r1.items()}, 1e-3, msg="thin")
    elif op == "response":
        # the detector and its filters only reduce the rates
        thick = data.draw(st.sampled_from([None, 0.0, 1e-3, 0.05]), "dthick")
        det = g.detector
        if thick is not None:
            det.thickness = thick
        s = m.xrayspectrum(earg, **kw)
        for line, v in s.items():
            en = np.atleast_1d(np.asarray(line.energy(polar=math.radians(a + b), azimuth=0.0), dtype=float))
            mu = np.asarray(det.material.mass_att_coeff(en)) * det.material.density * det.thickness
            np.testing.assert_allclose(np.asarray(v, dtype=float), got[str(line)] * -np.expm1(-mu), rtol=1e-6, atol=1e-300, err_msg=str(line))
    else:
        # attenuation lengths have to be resolved by the quadrature
        e1 = [float(x) for line in ref for x in np.ravel(line.energy(polar=math.radians(a + b), azimuth=0.0))]
        c1 = cosin(abs(b))
        opt = max(sum(l.mat.mac(e) * l.mat.density * l.t for l in stack) / c for es, c in ((energy0, cosin(a)), (e1, c1)) for e in es)
        if opt < 20:
            rec.label("integrated")
            num_ = asrates(rates(m, earg, method="numerical", **kw))
            mult = sa / cosin(a)
            for k, v in got.items():
                np.testing.assert_allclose(num_[k], v, rtol=2e-3, atol=3e-8 * mult, err_msg="numerical " + k)


@check(quick=15, thorough=300, shards={"quick": 4, "thorough": 8})
@given(st.data())
def fisx(data):
    """fluorescence lines against the fisx library"""
    stack = data.draw(stacks(1, 3), "stack")
    a, b = data.draw(angles(reflection=True), "angles")
    sa = data.draw(st.floats(0.01, 1).map(lambda x: round(x, 4)), "solidangle")
    e = data.draw(st.floats(8, 18).map(lambda x: round(x, 2)), "energy")
    assume(len({id(l.mat) for l in stack}) == len(stack))
    emin = 2.0
    g = rategeometry(a, b, sa)
    m = build(stack, g)
    rec.current = repr(([(l.mat.w, l.mat.density, l.t) for l in stack], a, b, sa, e))
    rec.case(rec.current, nontrivial=len(stack) > 1)
    x = m.xrayspectrum(e, emin=emin, emax=e + 1, scattering=False)
    y = m.xrayspectrum(e, emin=emin, emax=e + 1, scattering=False, method="fisx")
    tx = {}
    ty = {}
    for s, t in ((x, tx), (y, ty)):
        for line, v in s.items():
            # only K lines: other shells differ in the tabulated transition rates
            if str(line).split("-")[1].startswith("K"):
                t[str(line.element)] = t.get(str(line.element), 0) + float(np.sum(v))
    for k in ty:
        if ty[k] > 1e-9 * max(ty.values()) and k in tx:
            assert abs(tx[k] - ty[k]) <= 0.06 * ty[k], (k, tx[k], ty[k])
