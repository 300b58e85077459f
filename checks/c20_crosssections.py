"""C20: the mixture rule for interaction cross sections."""
import copy
import numpy as np
import xraylib
from vh import st, given, assume, check, rec, rule
from spectrocrunch.materials import compound, mixture, element, types, csutils, utils
from spectrocrunch.materials import compoundfromname, compoundfromdb, compoundfromformula
from spectrocrunch.materials.xrayspectrum import FluoLine, Shell
from spectrocrunch.sources import xray as xraysources
from spectrocrunch.patch.pint import ureg
from spectrocrunch.patch import jsonpickle

rule(
    "Generated elements, compounds and (nested) mixtures with marked absorbers, shells, lines and scatterers, and "
    "energies (numbers, lists, arrays of 0 to 2 dimensions, quantities; around absorption edges and outside of the "
    "tables). Every cross section is compared with the sum over the elements of the generated atomic composition of "
    "xraylib values. Non-trivial: at least two elements."
)
B = st.booleans()
SYMBOLS = ["H", "C", "N", "O", "Na", "Al", "Si", "S", "K", "Ca", "Fe", "Cu", "Zn", "As", "Sr", "Ba", "La", "Au", "Pb", "U"]
EDGES = [7.112, 2.472, 4.0381, 13.0352, 11.9187, 0.5320]
ENERGY = st.one_of(
    st.floats(0.2, 100).map(lambda x: round(x, 4)),
    st.floats(1.5, 20).map(lambda x: round(x, 4)),
    st.sampled_from(EDGES).flatmap(lambda e: st.sampled_from([e - 0.001, e, e + 0.001, e + 0.1])),
    st.integers(1, 40),
    st.sampled_from([0.01, 900.0, 2000.0]),
)
AMOUNT = st.floats(0.05, 20).map(lambda x: round(x, 3))
RTOL = 1e-9


def num(s):
    return xraylib.SymbolToAtomicNumber(s)


def weight(s):
    return xraylib.AtomicWeight(num(s))


def xrl(f, *args):
    try:
        return getattr(xraylib, f)(*args)
    except ValueError:
        return 0.0


@st.composite
def energies(draw, dims=(0, 1, 2)):
    """(argument, flat list of energies, expected shape)"""
    kind = draw(st.sampled_from([k for k in ["num", "int", "np", "arr0", "list", "arr", "arr2", "quant", "qarr", "one"] if dims == (0, 1, 2) or k not in ("arr2",)]))
    if kind == "num":
        e = float(draw(ENERGY))
        return e, [e], ()
    if kind == "int":
        e = draw(st.integers(1, 40))
        return e, [float(e)], ()
    if kind == "np":
        e = float(draw(ENERGY))
        return np.float64(e), [e], ()
    if kind == "arr0":
        e = float(draw(ENERGY))
        return np.array(e), [e], ()
    if kind == "quant":
        e = float(draw(ENERGY))
        return ureg.Quantity(e, "keV"), [e], ()
    if kind == "arr2":
        n, m = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        e = [float(draw(ENERGY)) for _ in range(n * m)]
        return np.array(e).reshape(n, m), e, (n, m)
    n = 1 if kind == "one" else draw(st.integers(1, 5))
    e = [float(draw(ENERGY)) for _ in range(n)]
    if kind == "qarr":
        return ureg.Quantity(np.array(e) * 1000, "eV"), e, (n,)
    if kind == "list":
        return list(e), e, (n,)
    return np.array(e), e, (n,)


# ----------------------------------------------------------- materials
@st.composite
def materials(draw, depth):
    if depth == 0:
        if draw(st.integers(0, 4)) == 0:
            return ("el", draw(st.sampled_from(SYMBOLS)))
        syms = draw(st.lists(st.sampled_from(SYMBOLS), min_size=1, max_size=4, unique=True))
        return ("cmp", [(s, draw(AMOUNT)) for s in syms], draw(st.floats(0.5, 20).map(lambda x: round(x, 3))))
    n = draw(st.integers(1, 3))
    return ("mix", [draw(materials(draw(st.integers(0, depth - 1)))) for _ in range(n)], [draw(AMOUNT) for _ in range(n)])


class Node(object):
    """generated composition with the marks"""

    def __init__(self, t, counter):
        counter[0] += 1
        self.kind = t[0]
        self.scatters = True
        self.name = "m%d" % counter[0]
        if t[0] == "el":
            self.name = t[1]
            self.obj = element.Element(t[1])
            self.w = {t[1]: 1.0}
            self.kids = []
            self.els = {t[1]: [self.obj]}
        elif t[0] == "cmp":
            m = {s: n * weight(s) for s, n in t[1]}
            tot = sum(m.values())
            self.w = {s: x / tot for s, x in m.items()}
            self.obj = compound.Compound([s for s, _ in t[1]], [n for _, n in t[1]], types.fraction.mole, t[2], name=self.name)
            self.kids = []
            self.density = t[2]
            self.els = {e.name: [e] for e in self.obj.elements}
        else:
            self.kids = [Node(k, counter) for k in t[1]]
            names = [k.name for k in self.kids]
            assume(len(set(names)) == len(names))
            tot = sum(t[2])
            self.wk = [x / tot for x in t[2]]
            self.obj = mixture.Mixture([k.obj for k in self.kids], t[2], types.fraction.mass, name=self.name)
            self.w = {}
            for k, f in zip(self.kids, self.wk):
                for s, x in k.w.items():
                    self.w[s] = self.w.get(s, 0) + f * x
            self.density = self.obj.density

    def leaves(self):
        if self.kind != "mix":
            return [self]
        return [x for k in self.kids for x in k.leaves()]

    def scatterweights(self):
        """weights of the elements in the parts that scatter"""
        if self.kind != "mix":
            return self.w if self.scatters else {}
        ret = {}
        for k, f in zip(self.kids, self.wk):
            for s, x in k.scatterweights().items():
                ret[s] = ret.get(s, 0) + f * x
        return ret


def expected_shells(Z, shells, fluolines, bounds):
    """[(shell name, None or set of line names)]"""
    if shells is None and bounds is None:
        names = ["K"] + ["%s%d" % (c, i) for c, n in [("L", 3), ("M", 5), ("N", 7), ("O", 7), ("P", 5), ("Q", 3)] for i in range(1, n + 1)]
        ret = [(n, None) for n in names]
    elif shells is None:
        ret = []
        for n, _ in expected_shells(Z, None, None, None):
            edge = xrl("EdgeEnergy", Z, getattr(xraylib, n + "_SHELL"))
            if bounds[0] <= edge <= bounds[1]:
                lines = set()
                for line in FluoLine.all_lines():
                    if line.name.startswith(n):
                        e = line.energy(Z)
                        if e and bounds[0] <= e <= bounds[1]:
                            lines.add(line.name)
                if lines:
                    ret.append((n, lines))
        return ret
    else:
        sel = set()
        for s in shells:
            if s == "K" or s[1:]:
                sel.add(s)
            else:
                sel.update(n for n, _ in expected_shells(Z, None, None, None) if n[0] == s)
        ret = [(n, None) for n in sorted(sel)]
    if fluolines is not None:
        ret = [(n, {line for line in fluolines if line.startswith(n)} if fluolines else set(l.name for l in FluoLine.all_lines() if l.name.startswith(n))) for n, _ in ret]
    return ret


def shell_cs(Z, marks, e):
    """{shell: ionization cross section}, {shell: fluorescence}, {line: fluorescence}"""
    photo, fluo, lines = {}, {}, {}
    for n, sel in marks:
        code = getattr(xraylib, n + "_SHELL")
        tau = xrl("CS_Photo_Partial", Z, code, e)
        y = xrl("FluorYield", Z, code)
        photo[n] = tau
        names = [l.name for l in FluoLine.all_lines() if l.name.startswith(n)] if sel is None else sorted(sel)
        tot = 0.0
        for name in names:
            r = FluoLine(name).radrate(Z)
            x = xrl("RadRate", Z, getattr(xraylib, name + "_LINE"))
            assert r == x if x else r >= 0, (Z, name)
            lines[name] = tau * y * r
            tot += tau * y * r
        fluo[n] = tau * y if sel is None else tot
    return photo, fluo, lines


def val(x, shape, what):
    a = np.asarray(x, dtype=float)
    assert a.shape == shape, (what, a.shape, shape)
    assert (a >= 0).all(), (what, a)
    return a


def near(a, b, what, rtol=RTOL):
    np.testing.assert_allclose(a, b, rtol=rtol, atol=1e-300, err_msg=str(what))


_ALL = {}


def all_lines(cls=FluoLine, org=FluoLine.all_lines):
    # the table of lines does not change
    if "x" not in _ALL:
        _ALL["x"] = org()
    return _ALL["x"]


DIRECT = {
    "mass_att_coeff": lambda z, e: xrl("CS_Total_Kissel", z, e),
    "mass_abs_coeff": lambda z, e: xrl("CS_Photo_Total", z, e),
}
SCATTER = {
    "rayleigh_cross_section": lambda z, e: xrl("CS_Rayl", z, e),
    "compton_cross_section": lambda z, e: xrl("CS_Compt", z, e),
    "scattering_cross_section": lambda z, e: xrl("CS_Rayl", z, e) + xrl("CS_Compt", z, e),
}


@st.composite
def marks(draw):
    kind = draw(st.sampled_from(["none", "all", "shells", "shells", "lines", "bounds"]))
    symb = draw(st.one_of(st.none(), st.sampled_from(SYMBOLS)))
    d = {}
    if kind == "none":
        return None
    if symb is not None:
        d["symb"] = symb
    if kind in ("shells", "lines"):
        d["shells"] = draw(st.lists(st.sampled_from(["K", "L1", "L2", "L3", "L", "M", "M5", "N1"]), min_size=1, max_size=3, unique=True))
        # a group and its members are written once
    if kind == "lines":
        d["fluolines"] = draw(st.lists(st.sampled_from(["KL3", "KL2", "KM3", "L3M5", "L3M4", "L2M4", "L1M3", "M5N7"]), max_size=4, unique=True))
    if kind == "bounds":
        a = draw(st.floats(0, 10).map(lambda x: round(x, 2)))
        d["energybounds"] = (a, a + draw(st.floats(0.1, 30).map(lambda x: round(x, 2))))
    return d


def apply_marks(node, m, scat):
    found = {}
    if m is not None:
        kw = dict(m)
        symb = kw.pop("symb", None)
        node.obj.markabsorber(symb, **kw)
        for s in node.w:
            if symb is None or s == symb:
                found[s] = expected_shells(num(s), kw.get("shells"), kw.get("fluolines"), kw.get("energybounds"))
    assert bool(node.obj.isabsorber if node.kind == "el" else node.obj.hasabsorbers()) == any(found.values())
    leaves = node.leaves()
    if any(x.kind == "el" for k in node.kids if k.kind == "mix" for x in k.leaves()):
        # pure elements are selected by the mixture they are in
        scat = "all"
    if scat == "all":
        node.obj.markscatterer()
    elif scat == "none":
        if node.kind != "el":
            node.obj.unmarkscatterer()
            for x in leaves:
                x.scatters = False
    else:
        name = leaves[scat % len(leaves)].name
        if node.kind != "el":
            node.obj.markscatterer(name)
            for x in leaves:
                x.scatters = x.name == name
    return found


@check(quick=700, thorough=20000, shards={"quick": 3, "thorough": 8})
@given(materials(2), energies(), marks(), st.one_of(st.just("all"), st.just("all"), st.just("none"), st.integers(0, 5)))
def mixture_rule(tree, energy, mark, scat):
    E, flat, shape = energy
    node = Node(tree, [0])
    rec.case((tree, E, mark, scat), nontrivial=len(node.w) > 1)
    obj = node.obj
    found = apply_marks(node, mark, scat)
    if scat != "all":
        rec.label("selected scatterers")
    if found:
        rec.label("absorber")

    def total(f, w):
        return np.array([sum(x * f(num(s), e) for s, x in w.items()) for e in flat], dtype=float).reshape(shape)

    quantity = isinstance(E, ureg.Quantity)
    got = {}
    for m, f in DIRECT.items():
        got[m] = val(getattr(obj, m)(E), shape, m)
        near(got[m], total(f, node.w), m)
    sw = node.scatterweights()
    for m, f in SCATTER.items():
        got[m] = val(getattr(obj, m)(E), shape, m)
        near(got[m], total(f, sw), m)
    near(got["scattering_cross_section"], got["rayleigh_cross_section"] + got["compton_cross_section"], "scattering", 1e-9)
    if scat == "all":
        inside = np.array([all(xrl("CS_Photo_Total", num(s), e) and xrl("CS_Total_Kissel", num(s), e) for s in node.w) for e in flat]).reshape(shape)
        a, b = got["mass_att_coeff"], got["mass_abs_coeff"] + got["scattering_cross_section"]
        near(a[inside], b[inside], "total = absorption + scattering", 1e-6)
    # one by one
    k = len(flat) // 2
    for m in list(DIRECT) + list(SCATTER):
        one = np.asarray(getattr(obj, m)(flat[k]), dtype=float)
        assert one.shape == (), (m, one)
        near(one, np.ravel(got[m])[k], m + " one by one")
    if quantity:
        return
    # partial cross sections of the marked elements
    ref = {}
    for s, sh in found.items():
        ref[s] = [shell_cs(num(s), sh, e) for e in flat]
    tau = np.array([sum(node.w[s] * sum(r[i][0].values()) for s, r in ref.items()) for i in range(len(flat))], dtype=float).reshape(shape)
    flu = np.array([sum(node.w[s] * sum(r[i][1].values()) for s, r in ref.items()) for i in range(len(flat))], dtype=float).reshape(shape)
    rounds = ["x", "y"]
    for _ in rounds:
        # results do not depend on what was calculated before
        near(val(obj.partial_mass_abs_coeff(E), shape, "partial"), tau, "partial absorption")
        near(val(obj.fluorescence_cross_section(E), shape, "fluorescence"), flu, "fluorescence")
        lines = obj.fluorescence_cross_section_lines(E)
        exp = {}
        for s, r in ref.items():
            for i, x in enumerate(r):
                for name, v in x[2].items():
                    exp.setdefault("%s-%s" % (s, name), []).append(node.w[s] * v)
        assert {str(k) for k in lines} == set(exp), (sorted(map(str, lines)), sorted(exp))
        for k2, v in lines.items():
            v = np.ravel(np.asarray(v, dtype=float))
            near(v, exp[str(k2)], k2)
            assert (v >= 0).all()
    diff = obj.diff_fluorescence_cross_section(E)
    assert set(diff) == set(lines)
    for k2, v in diff.items():
        near(np.asarray(v) * 4 * np.pi, lines[k2], k2)
    # per element
    if node.kind == "el" or any(k3.kind == "mix" for k3 in node.kids):
        return
    for m in list(DIRECT) + list(SCATTER) + ["partial_mass_abs_coeff", "fluorescence_cross_section"]:
        whole = np.asarray(getattr(obj, m)(E), dtype=float)
        dec = getattr(obj, m)(E, decomposed=True)
        w = sw if m in SCATTER else node.w
        if not w:
            assert not dec
            continue
        near(np.asarray(obj.cs_collapse(dec), dtype=float), whole, m + " collapsed")
        per = utils.elemental_crosssections(dec)
        assert {k4.name for k4 in per} == set(w), (m, per, w)
        per2 = obj.csdict_parse_elements(dec)
        fr, css = obj.csdict_parse(dec)
        near(sum(a * np.asarray(b, dtype=float) for a, b in zip(fr, css)), whole, m + " parts")
        for el, v in per.items():
            s = el.name
            one = element.Element(s)
            if found.get(s) is not None and mark is not None:
                one.markabsorber(**{k5: v5 for k5, v5 in mark.items() if k5 != "symb"})
            near(np.asarray(v, dtype=float), w[s] * np.asarray(getattr(one, m)(E), dtype=float), (m, s))
            near(np.asarray(per2[el], dtype=float), v, (m, s, "parsed"))


FluoLine.all_lines = classmethod(all_lines)


# --------------------------------------------------- absorption of a layer
@check(quick=300, thorough=6000)
@given(materials(1), st.lists(ENERGY.map(float), min_size=1, max_size=5), st.floats(1e-6, 0.1), st.data())
def absorption(tree, es, t, data):
    node = Node(tree, [0])
    rec.case((tree, es, t), nontrivial=len(node.w) > 1)
    obj = node.obj
    rho = obj.density
    E = np.array(es)
    mu = np.array([sum(x * xrl("CS_Total_Kissel", num(s), e) for s, x in node.w.items()) for e in es])
    A = obj.absorbance(E, t)
    near(A, mu * rho * t, "absorbance")
    near(obj.transmission(E, t), np.exp(-mu * rho * t), "transmission")
    near(obj.absorbance(es[0], t), mu[0] * rho * t, "absorbance of one energy")
    w = np.array([data.draw(st.floats(0.1, 5)) for _ in es])
    near(obj.absorbance(E, t, weights=w), (w * A).sum() / w.sum(), "weighted absorbance")


# --------------------------------------------------------- refractive index
@check(quick=500, thorough=8000)
@given(materials(2), energies(dims=1), st.lists(st.floats(0, 3.1), min_size=1, max_size=4))
def refraction(tree, energy, theta):
    E, flat, shape = energy
    node = Node(tree, [0])
    rec.case((tree, E, theta), nontrivial=len(node.w) > 1)
    obj = node.obj
    hc = 12.398419843320026  # keV angstrom
    re, NA = 2.8179403262e-13, 6.02214076e23
    if not isinstance(E, (list,)):
        d, b = obj.refractive_index_delta(E), obj.refractive_index_beta(E)
        rho = obj.density

        def tot(f):
            return np.array([sum(x / weight(s) * f(num(s), e) for s, x in node.w.items()) * re * NA * rho / 2 / np.pi * (hc / e * 1e-8) ** 2 for e in flat]).reshape(shape)

        delta, beta = tot(lambda z, e: z + xrl("Fi", z, e)), tot(lambda z, e: -xrl("Fii", z, e))
        np.testing.assert_allclose(np.asarray(d, dtype=float), delta, rtol=1e-6, atol=1e-20)
        np.testing.assert_allclose(np.asarray(b, dtype=float), beta, rtol=1e-6, atol=1e-20)
        assert np.shape(d) == shape and np.shape(b) == shape
        np.testing.assert_allclose(obj.refractive_index_real(E), 1 - np.asarray(d), rtol=1e-14)
        np.testing.assert_allclose(obj.refractive_index_imag(E), -np.asarray(b), rtol=1e-14)
        if node.kind == "cmp" and shape == ():
            text = "".join("%s%r" % (s, n) for s, n in tree[1])
            try:
                ref = xraylib.Refractive_Index_Re(text, flat[0], tree[2])
            except ValueError:
                ref = None
            if ref is not None and all(xrl("Fi", num(s), flat[0]) for s in node.w):
                rec.label("xraylib refraction")
                np.testing.assert_allclose(1 - d, ref, rtol=1e-9, atol=1e-4 * abs(1 - ref) + 1e-12)
    el = element.Element(sorted(node.w)[0])
    for z, e in [(el.Z, flat[0])]:
        assert el.scatfact_classic_real(e) == z
        near(el.scatfact_real(e), z + xrl("Fi", z, e), "real scattering factor")
        near(el.scatfact_imag(e), xrl("Fii", z, e), "imaginary scattering factor")
        th = np.array(theta)
        q = np.sin(th / 2) * e / hc
        ff = np.array([xrl("FF_Rayl", z, x) for x in q])
        np.testing.assert_allclose(el.scatfact_classic_real(e, theta=th), ff, rtol=1e-5)
        np.testing.assert_allclose(el.scatfact_real(e, theta=th), ff + xrl("Fi", z, e), rtol=1e-5)
        np.testing.assert_allclose(el.scatfact_classic_real(e, theta=theta[0]), ff[0], rtol=1e-5)


# --------------------------------------------- differential cross sections
@check(quick=250, thorough=5000)
@given(
    materials(1),
    st.one_of(st.floats(0.5, 60), st.sampled_from([5, 20.0])),
    st.lists(st.tuples(st.floats(0, 6.28), st.floats(0.01, 3.13)), min_size=1, max_size=3),
    st.tuples(st.floats(0, 1), st.floats(0, 1), st.floats(-90, 90)),
    st.one_of(st.just("all"), st.integers(0, 3)),
)
def differential(tree, e, directions, pol, scat):
    node = Node(tree, [0])
    rec.case((tree, e, directions, pol, scat), nontrivial=len(node.w) > 1)
    apply_marks(node, None, scat)
    dop, f, ang = pol
    if dop < 0.05:
        source = xraysources.factory("tube")
    else:
        source = xraysources.factory("synchrotron", dop=dop, dolp=f * dop, polangle=ang)
    sw = node.scatterweights()
    n = 24
    phi = np.arange(n) * 2 * np.pi / n
    for m, xm in [("diff_rayleigh_cross_section", "DCS_Rayl"), ("diff_compton_cross_section", "DCS_Compt")]:
        cs = getattr(node.obj, m)(e, source=source)
        for az, polar in directions:
            ref = sum(x * xrl(xm, num(s), float(e), polar) for s, x in sw.items())
            if not callable(cs):
                assert not sw and cs == 0, m
                continue
            # averaged over the azimuth the polarization does not matter
            mean = np.mean([cs(p, polar) for p in phi])
            np.testing.assert_allclose(mean, ref, rtol=2e-4, err_msg=m)
            vec = cs(phi, np.full(n, polar))
            np.testing.assert_allclose(vec, [cs(p, polar) for p in phi], rtol=1e-9)
            assert (np.asarray(vec) >= -1e-12 * ref).all()
            if dop >= 0.05 and m == "diff_rayleigh_cross_section":
                # polarized differential cross section
                S = source.stokes
                p1, p2 = f * dop * np.cos(2 * np.radians(ang)), f * dop * np.sin(2 * np.radians(ang))
                c2 = np.cos(polar) ** 2
                pm = (1 + c2) / 2 - (1 - c2) / 2 * (p1 * np.cos(2 * az) + p2 * np.sin(2 * az))
                np.testing.assert_allclose(cs(az, polar), ref * pm / ((1 + c2) / 2), rtol=2e-4, atol=1e-6 * ref)


# ------------------------------------------------------- tables of elements
@check(quick=300, thorough=5000)
@given(
    st.one_of(st.integers(1, 92), st.lists(st.integers(1, 92), min_size=1, max_size=4)),
    energies(),
    st.sampled_from(["CS_Total_Kissel", "CS_Photo_Total", "CS_Rayl", "CS_Compt", "Fi", "FF_Rayl"]),
    st.sampled_from(["array", "list"]),
)
def tables(Z, energy, method, conv):
    E, flat, shape = energy
    rec.case((Z, E, method, conv), nontrivial=isinstance(Z, list) or len(flat) > 1)
    zs = Z if isinstance(Z, list) else [Z]
    zshape = (len(zs),) if isinstance(Z, list) else ()
    arg = np.array(Z) if conv == "array" and isinstance(Z, list) else Z
    ref = np.array([[xrl(method, z, e) for e in flat] for z in zs]).reshape(zshape + shape)
    got = csutils.eval(method, arg, E)
    assert np.shape(got) == zshape + shape, (np.shape(got), zshape, shape)
    np.testing.assert_allclose(got, ref, rtol=1e-12)
    raw, post = csutils.eval(method, arg, E, applypost=False)
    np.testing.assert_allclose(post(raw), ref, rtol=1e-12)
    if isinstance(Z, list) and shape and len(shape) == 1 and isinstance(E, (list, np.ndarray)):
        df = csutils.eval(method, arg, E, dataframe=True)
        assert list(df.index) == zs and list(df.columns) == flat
        np.testing.assert_allclose(df.values, ref, rtol=1e-12)


# --------------------------------------------------- independent materials
@check(quick=150, thorough=1500)
@given(
    st.sampled_from([n for n in compoundfromname.getnames() if n not in ("vacuum",)]),
    st.sampled_from(["name", "db"]),
    st.sampled_from(["deepcopy", "json", "again"]),
    st.floats(5, 30),
)
def independent(name, db, how, e):
    """cross sections of a compound do not depend on the marks of another one"""
    get = compoundfromdb.compoundfromdb if db == "db" else compoundfromname.factory
    a = get(name)
    rec.case((name, db, how, e))
    before = a.rayleigh_cross_section(e)
    assert not a.hasabsorbers() and a.isscatterer, "marked before"
    if how == "again":
        b = get(name)
    elif how == "deepcopy":
        b = copy.deepcopy(a)
    else:
        b = jsonpickle.loads(jsonpickle.dumps(a))
    b.markabsorber(shells=["K", "L", "M"])
    b.unmarkscatterer()
    assert b.hasabsorbers()
    assert b.fluorescence_cross_section(e) >= 0 and b.rayleigh_cross_section(e) == 0
    assert not a.hasabsorbers(), "the marks are shared"
    assert a.fluorescence_cross_section(e) == 0 and a.rayleigh_cross_section(e) == before
    assert b.mass_att_coeff(e) == a.mass_att_coeff(e)
    c = get(name)
    assert not c.hasabsorbers() and c.isscatterer, "the marks are kept"
