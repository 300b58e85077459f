"""C19: conservation of matter in compounds and mixtures."""
import copy
import re
import numpy as np
import xraylib
from vh import st, given, assume, check, rec, rule
from spectrocrunch.materials import stoichiometry as sto
from spectrocrunch.materials import (
    compound,
    compoundfromformula,
    compoundfromlist,
    compoundfromelement,
    compoundfromname,
    compoundfromnist,
    compoundfromdb,
    mixture,
    element,
    types,
)

rule(
    "Generated element and compound amounts given as mole, mass or volume fractions, nested mixtures, chains of "
    "additions and fraction changes, and generated chemical formulae, compared with an atomic count model (moles of "
    "each element, masses from the atomic weights, volumes from the given densities). Non-trivial: at least two "
    "different components."
)
B = st.booleans()
SYMBOLS = ["H", "C", "N", "O", "Na", "Mg", "Al", "Si", "S", "Cl", "K", "Ca", "Ti", "Fe", "Co", "Cu", "Zn", "Sr", "La", "Pb"]
AMOUNT = st.one_of(
    st.integers(1, 12),
    st.floats(0.01, 50, allow_nan=False).map(lambda x: round(x, 4)),
    st.sampled_from([0.001, 1e-4, 1000]),
)
DENSITY = st.floats(0.05, 22, allow_nan=False).map(lambda x: round(x, 4))
FTYPES = {"mole": types.fraction.mole, "mass": types.fraction.mass, "volume": types.fraction.volume}


def weight(s):
    return xraylib.AtomicWeight(xraylib.SymbolToAtomicNumber(s))


def norm(d):
    t = float(sum(d.values()))
    return {k: v / t for k, v in d.items()}


def acc(d, k, v):
    d[k] = d.get(k, 0.0) + v


def names(d):
    return {(k if isinstance(k, str) else k.name): v for k, v in d.items()}


def same(got, expected, what, rtol=1e-9):
    got = names(got)
    assert set(got) == set(expected), (what, sorted(got), sorted(expected))
    for k in expected:
        assert np.isclose(got[k], expected[k], rtol=rtol, atol=1e-12), (what, k, got[k], expected[k])


def close(a, b, what, rtol=1e-9):
    assert np.isclose(a, b, rtol=rtol, atol=0), (what, a, b)


# ------------------------------------------------------------------ model
class El(object):
    def __init__(self, s):
        self.name = s
        self.eq = {s: 1.0}

    def build(self):
        return element.Element(self.name)

    @property
    def density(self):
        return xraylib.ElementDensity(xraylib.SymbolToAtomicNumber(self.name))

    def atoms(self):
        return dict(self.eq)

    def mm(self):
        return sum(n * weight(s) for s, n in self.atoms().items())

    def __repr__(self):
        return self.name


class Cmp(El):
    """amounts: moles of each element; ``scale``: total moles are defined"""

    def __init__(self, name, eq, density):
        self.name, self.eq, self._density = name, eq, density

    @property
    def density(self):
        if self._density:
            return self._density
        if len(self.eq) == 1:
            return El(next(iter(self.eq))).density
        return 1.0 if self.eq else 0.0

    def massfractions(self):
        return norm({s: n * weight(s) for s, n in self.eq.items()})

    def molefractions(self):
        return norm(self.eq)

    def setmass(self, w):
        self.eq = norm({s: x / weight(s) for s, x in w.items()})

    def __repr__(self):
        return "%s%r@%r" % (self.name, self.eq, self._density)


class Mix(El):
    def __init__(self, name, parts, fracs, ftype):
        self.name = name
        self.kids = {}
        for p in parts:
            self.kids[p.name] = p
        d = {}
        for p, f in zip(parts, fracs):
            acc(d, p.name, f)
        self.set(d, ftype)

    def set(self, d, ftype):
        if ftype == "mole":
            self.n = dict(d)
        else:
            if ftype == "mass":
                n = {k: f / self.kids[k].mm() for k, f in d.items()}
            else:
                n = {k: f * self.kids[k].density / self.kids[k].mm() for k, f in d.items()}
            self.n = norm(n)

    def fractions(self, ftype):
        if ftype == "mole":
            return norm(self.n)
        m = {k: n * self.kids[k].mm() for k, n in self.n.items()}
        if ftype == "mass":
            return norm(m)
        return norm({k: x / self.kids[k].density for k, x in m.items()})

    def equivalents(self):
        return dict(self.n)

    def atoms(self):
        ret = {}
        for k, n in self.n.items():
            for s, x in self.kids[k].atoms().items():
                acc(ret, s, n * x)
        return ret

    @property
    def density(self):
        m = {k: n * self.kids[k].mm() for k, n in self.n.items()}
        return sum(m.values()) / sum(x / self.kids[k].density for k, x in m.items())

    def build(self):
        raise NotImplementedError

    def __repr__(self):
        return "%s%r" % (self.name, {k: (round(n, 5), self.kids[k]) for k, n in self.n.items()})


def check_elemental(obj, model, what):
    atoms = model.atoms()
    same(obj.elemental_equivalents(), atoms, what + " elemental equivalents")
    same(obj.elemental_molefractions(), norm(atoms), what + " elemental mole fractions")
    w = norm({s: n * weight(s) for s, n in atoms.items()})
    same(obj.elemental_massfractions(), w, what + " elemental mass fractions")
    assert sorted(e.name for e in obj.elements) == sorted(atoms), (what, obj.elements)
    close(obj.molarmass(), sum(n * weight(s) for s, n in atoms.items()), what + " molar mass")
    x = norm(atoms)
    close(obj.molarmasseff(), sum(n * weight(s) for s, n in x.items()), what + " effective molar mass")
    if not isinstance(obj, element.Element):
        close(obj.Zeff, sum(n * xraylib.SymbolToAtomicNumber(s) for s, n in x.items()), what + " effective Z")
    close(obj.density, model.density, what + " density")
    # as known to pymca
    cfg = {"materials": {}}
    name = obj.topymca(cfg)
    mats = cfg["materials"]

    def flatten(name, w, out):
        if name in mats:
            m = mats[name]
            assert np.isclose(sum(m["CompoundFraction"]), 1), m
            for n, f in zip(m["CompoundList"], m["CompoundFraction"]):
                flatten(n, w * f, out)
        else:
            m = re.match(r"^([A-Z][a-z]?)1$", name)
            assert m, name
            acc(out, m.group(1), w)
        return out

    same(flatten(name, 1.0, {}), w, what + " pymca")
    close(mats[name]["Density"], model.density, what + " pymca density")


def check_compound(obj, model, what):
    same(obj.equivalents(), model.eq, what + " equivalents")
    same(obj.molefractions(), model.molefractions(), what + " mole fractions")
    same(obj.massfractions(), model.massfractions(), what + " mass fractions")
    same(obj.fractions(types.fraction.mole), model.molefractions(), what + " fractions(mole)")
    same(obj.fractions(types.fraction.mass), model.massfractions(), what + " fractions(mass)")
    for d in (obj.molefractions(), obj.massfractions()):
        assert all(v >= 0 for v in d.values()), d
        assert np.isclose(sum(d.values()), 1), d
    assert obj.nelements == len(model.eq) and obj.nparts == len(model.eq)
    same(obj.parts, model.eq, what + " parts")
    for s in model.eq:
        assert np.isclose(obj[s], model.eq[s], rtol=1e-9) and np.isclose(obj[element.Element(s)], model.eq[s], rtol=1e-9)
    check_elemental(obj, model, what)


def check_mixture(obj, model, what):
    for ft in FTYPES:
        d = model.fractions(ft)
        same(obj.fractions(FTYPES[ft]), d, what + " fractions(%s)" % ft)
        same(getattr(obj, ft + "fractions")(), d, what + " " + ft)
        assert all(v >= 0 for v in d.values())
        assert np.isclose(sum(obj.fractions(FTYPES[ft]).values()), 1)
    same(obj.equivalents(), model.equivalents(), what + " equivalents")
    same(obj.parts, model.equivalents(), what + " parts")
    assert obj.nparts == len(model.n)
    for k, n in model.n.items():
        assert np.isclose(obj[k], n, rtol=1e-9), (k, obj[k], n)
    check_elemental(obj, model, what)
    flat = obj.tocompound("flat" + obj.name)
    assert flat.name == "flat" + obj.name and obj.tocompound().name == obj.name
    assert isinstance(flat, compound.Compound)
    check_compound(flat, Cmp(flat.name, model.atoms(), model.density), what + " flattened")


# ---------------------------------------------------------------- vectors
@check(quick=3000, thorough=60000)
@given(
    st.integers(1, 6).flatmap(
        lambda n: st.tuples(
            st.lists(AMOUNT, min_size=n, max_size=n),
            st.lists(DENSITY, min_size=n, max_size=n),
            st.lists(st.floats(1, 300), min_size=n, max_size=n),
        )
    ),
    st.lists(st.integers(0, 6), min_size=1, max_size=3),
)
def conversions(arg, new):
    x, rho, MM = (np.asarray(a, dtype=float) for a in arg)
    rec.case((arg, new), nontrivial=len(x) > 1)
    f = x / x.sum()
    for g in (x, f):
        keep = g.copy()
        n, m, v = f, f * MM / np.sum(f * MM), f * MM / rho / np.sum(f * MM / rho)
        np.testing.assert_allclose(sto.frac_mole_to_weight(g, MM), m, rtol=1e-9)
        np.testing.assert_allclose(sto.frac_mole_to_volume(g, rho, MM), v, rtol=1e-9)
        np.testing.assert_allclose(sto.frac_weight_to_mole(m * g.sum(), MM), n, rtol=1e-9)
        np.testing.assert_allclose(sto.frac_weight_to_volume(m * g.sum(), rho), v, rtol=1e-9)
        np.testing.assert_allclose(sto.frac_volume_to_weight(v * g.sum(), rho), m, rtol=1e-9)
        np.testing.assert_allclose(sto.frac_volume_to_mole(v * g.sum(), rho, MM), n, rtol=1e-9)
        np.testing.assert_array_equal(g, keep)
    d = (n * MM).sum() / (n * MM / rho).sum()
    close(sto.density_from_molefrac(x, rho, MM), d, "density from mole fractions")
    close(sto.density_from_massfrac(m, rho), d, "density from mass fractions")
    close(sto.density_from_volumefrac(v, rho), d, "density from volume fractions")
    close(sto.molarmass_from_wfrac(m, MM), (n * MM).sum(), "molar mass")
    add = np.asarray(new, dtype=float) / 20.0
    got = sto.add_frac(x, add)
    assert got.shape == (len(x) + len(add),)
    close(got.sum(), x.sum(), "sum after adding")
    np.testing.assert_allclose(got[len(x) :], add * x.sum(), rtol=1e-9)
    np.testing.assert_allclose(got[: len(x)], x * (1 - add.sum()), rtol=1e-9, atol=1e-12)
    try:
        sto.add_frac(x, np.append(add, 1.2 - add.sum()))
    except ValueError:
        pass
    else:
        raise AssertionError("fractions above one are added")


# --------------------------------------------------------------- compounds
def parts_of(d):
    return st.sampled_from(sorted(d))


def as_arg(names, kind, mode):
    """the accepted ways to refer to (a list of) elements"""
    seq = [element.Element(s) if mode % 2 else s for s in names]
    if kind == "tuple":
        return tuple(seq)
    return seq


@check(quick=1200, thorough=30000)
@given(
    st.lists(st.tuples(st.sampled_from(SYMBOLS), AMOUNT), min_size=1, max_size=6),
    st.sampled_from(["mole", "mass"]),
    st.sampled_from([None, 0, 1]),
    DENSITY,
    st.integers(0, 1),
    st.data(),
)
def compounds(elems, ftype, dens, rho, mode, data):
    density = rho if dens else dens
    syms = [s for s, _ in elems]
    amounts = [a for _, a in elems]
    conv = data.draw(st.sampled_from(["list", "tuple", "array"]))
    frac = {"list": list, "tuple": tuple, "array": np.asarray}[conv](amounts)
    ops = data.draw(st.lists(st.sampled_from(["add", "addlist", "set", "setlist", "change", "copy", "add"]), max_size=4))
    rec.case((elems, ftype, density, mode, ops), nontrivial=len(set(syms)) > 1)
    d = {}
    if ftype == "mole":
        for s, a in elems:
            acc(d, s, float(a))
        model = Cmp("c", d, density)
    else:
        for s, a in elems:
            acc(d, s, a)
        model = Cmp("c", {}, density)
        model.setmass(d)
    cls = data.draw(st.sampled_from([compound.Compound, compoundfromlist.CompoundFromList]))
    obj = cls(as_arg(syms, conv, mode), frac, FTYPES[ftype], density=density, name="c")
    if density in (None, 0):
        # a default is chosen once
        model._density = model.density
    check_compound(obj, model, "new")
    other = copy.copy(obj)
    for i, op in enumerate(ops):
        ft = data.draw(st.sampled_from(["mole", "mass"]))
        what = "%d:%s(%s)" % (i, op, ft)
        old = model.molefractions() if ft == "mole" else model.massfractions()
        if op == "copy":
            obj = copy.copy(obj)
        elif op in ("add", "addlist"):
            n = 1 if op == "add" else data.draw(st.integers(1, 3))
            new = data.draw(st.lists(st.sampled_from(SYMBOLS), min_size=n, max_size=n))
            fr = [data.draw(st.integers(0, 10)) / 31.0 for _ in new]
            rho = data.draw(st.one_of(st.none(), DENSITY))
            a, b = as_arg(new, conv, mode), fr
            if op == "add":
                a, b = a[0], b[0]
                rec.label("add single")
            elif conv == "array":
                b = np.asarray(b)
            kw = {} if rho is None else {"density": rho}
            obj.addelements(a, b, FTYPES[ft], **kw)
            res = {k: v * (1 - sum(fr)) for k, v in old.items()}
            for s, f in zip(new, fr):
                acc(res, s, f)
            if ft == "mole":
                tot = sum(model.eq.values())
                model.eq = {k: v * tot for k, v in res.items()}
            else:
                model.setmass(res)
            if rho is not None:
                model._density = rho
            if len(new) == 1 and new[0] not in old:
                rec.label("new element")
                got = names(obj.fractions(FTYPES[ft]))
                assert np.isclose(got[new[0]], fr[0]), (got, fr)
        elif op in ("set", "setlist"):
            n = 1 if op == "set" else data.draw(st.integers(1, len(old)))
            sel = data.draw(st.permutations(sorted(old)))[:n]
            if len(sel) == len(old):
                fr = [1.0 / n] * n
            else:
                fr = [data.draw(st.integers(0, 20)) / 61.0 for _ in sel]
            rest = {k: v for k, v in old.items() if k not in sel}
            if rest:
                assume(sum(rest.values()) > 1e-6)
            a, b = as_arg(sel, conv, mode), fr
            if op == "set":
                a, b = a[0], b[0]
            getattr(obj, "set%sfraction" % ft)(a, b)
            res = {k: v / sum(rest.values()) * (1 - sum(fr)) for k, v in rest.items()}
            res.update(zip(sel, fr))
            model.eq = res
            if ft == "mass":
                model.setmass(res)
        elif op == "change":
            res = {s: data.draw(AMOUNT) for s in data.draw(st.lists(st.sampled_from(SYMBOLS), min_size=1, max_size=4, unique=True))}
            keys = as_arg(list(res), "list", mode)
            obj.change_fractions(dict(zip(keys, res.values())), FTYPES[ft])
            model.eq = {k: float(v) for k, v in res.items()}
            if ft == "mass":
                model.setmass(res)
        # all amounts zero is not a compound
        assume(sum(model.eq.values()) > 0)
        check_compound(obj, model, what)
    assert obj.name == "c"
    # copies are independent of what happened to the original
    del other


# ---------------------------------------------------------------- mixtures
@st.composite
def trees(draw, depth, names):
    if depth == 0:
        kind = draw(st.sampled_from(["el", "cmp", "cmp", "cmp"]))
        if kind == "el":
            return ("el", draw(st.sampled_from(SYMBOLS)))
        syms = draw(st.lists(st.sampled_from(SYMBOLS), min_size=1, max_size=4, unique=True))
        return ("cmp", [(s, draw(AMOUNT)) for s in syms], draw(st.sampled_from(["mole", "mass"])), draw(DENSITY))
    n = draw(st.integers(1, 4))
    kids = [draw(trees(draw(st.integers(0, depth - 1)), names)) for _ in range(n)]
    fr = [draw(AMOUNT) for _ in range(n)]
    return ("mix", kids, fr, draw(st.sampled_from(sorted(FTYPES))))


def realize(t, counter):
    """(object, model) of a described tree"""
    counter[0] += 1
    name = "m%d" % counter[0]
    if t[0] == "el":
        return element.Element(t[1]), El(t[1])
    if t[0] == "cmp":
        syms = [s for s, _ in t[1]]
        am = [a for _, a in t[1]]
        model = Cmp(name, dict((s, float(a)) for s, a in t[1]), t[3])
        if t[2] == "mass":
            model.setmass(dict(t[1]))
        return compound.Compound(syms, am, FTYPES[t[2]], density=t[3], name=name), model
    kids = [realize(k, counter) for k in t[1]]
    model = Mix(name, [m for _, m in kids], t[2], t[3])
    return mixture.Mixture([o for o, _ in kids], t[2], FTYPES[t[3]], name=name), model


@check(quick=900, thorough=20000, shards={"quick": 2, "thorough": 8})
@given(trees(2, None).filter(lambda t: t[0] == "mix"), st.data())
def mixtures(tree, data):
    ops = data.draw(st.lists(st.sampled_from(["add", "addlist", "set", "setlist", "change", "copy"]), max_size=3))
    rec.case((tree, ops), nontrivial=len(tree[1]) > 1)
    if any(k[0] == "mix" for k in tree[1]):
        rec.label("nested")
    counter = [0]
    obj, model = realize(tree, counter)
    check_mixture(obj, model, "new")
    for i, op in enumerate(ops):
        ft = data.draw(st.sampled_from(sorted(FTYPES)))
        what = "%d:%s(%s)" % (i, op, ft)
        old = model.fractions(ft)
        if op == "copy":
            obj = copy.copy(obj)
        elif op in ("add", "addlist"):
            n = 1 if op == "add" else data.draw(st.integers(1, 3))
            new = []
            for _ in range(n):
                if data.draw(st.integers(0, 3)) == 0:
                    k = data.draw(st.sampled_from(sorted(model.n)))
                    o = [c for c in obj.parts if c.name == k][0]
                    new.append((o, model.kids[k]))
                else:
                    new.append(realize(data.draw(trees(data.draw(st.integers(0, 1)), None)), counter))
            fr = [data.draw(st.integers(0, 10)) / 31.0 for _ in new]
            a, b = [o for o, _ in new], fr
            conv = data.draw(st.sampled_from(["list", "tuple"]))
            if op == "add":
                a, b = a[0], b[0]
            elif conv == "tuple":
                a, b = tuple(a), np.asarray(b)
            obj.addcompounds(a, b, FTYPES[ft])
            res = {k: v * (1 - sum(fr)) for k, v in old.items()}
            tot = sum(model.n.values()) if ft == "mole" else 1
            for (_, m), f in zip(new, fr):
                model.kids[m.name] = m
                acc(res, m.name, f)
            model.set({k: v * tot for k, v in res.items()}, ft)
            assume(sum(model.n.values()) > 0)
        elif op in ("set", "setlist"):
            n = 1 if op == "set" else data.draw(st.integers(1, len(old)))
            sel = data.draw(st.permutations(sorted(old)))[:n]
            fr = [1.0 / n] * n if n == len(old) else [data.draw(st.integers(0, 20)) / 61.0 for _ in sel]
            rest = {k: v for k, v in old.items() if k not in sel}
            if rest:
                assume(sum(rest.values()) > 1e-6)
            byname = data.draw(B)
            a = list(sel) if byname else [[c for c in obj.parts if c.name == k][0] for k in sel]
            b = fr
            if op == "set":
                a, b = a[0], b[0]
            getattr(obj, "set%sfraction" % ft)(a, b)
            res = {k: v / sum(rest.values()) * (1 - sum(fr)) for k, v in rest.items()}
            res.update(zip(sel, fr))
            model.set(res, ft)
        elif op == "change":
            sel = data.draw(st.lists(st.sampled_from(sorted(old)), min_size=1, unique=True))
            res = {k: data.draw(AMOUNT) for k in sel}
            objs = {c.name: c for c in obj.parts}
            obj.change_fractions({objs[k]: v for k, v in res.items()}, FTYPES[ft])
            model.set(res, ft)
        check_mixture(obj, model, what)


# ---------------------------------------------------------------- formulae
@st.composite
def formulas(draw, depth):
    """list of (atom or group, multiplier text)"""
    ret = []
    for _ in range(draw(st.integers(1, 4))):
        if depth and draw(st.integers(0, 3)) == 0:
            a = draw(formulas(depth - 1))
        else:
            a = draw(st.sampled_from(SYMBOLS))
        m = draw(st.sampled_from(["", "", "", "2", "3", "12", "0.5", "1.25", "2.", ".5", "10", "100"]))
        ret.append((a, m))
    return ret


def write(f):
    return "".join((a if isinstance(a, str) else "(" + write(a) + ")") + m for a, m in f)


def count(f, mult, out):
    for a, m in f:
        x = mult * (float(m) if m else 1.0)
        if isinstance(a, str):
            acc(out, a, x)
        else:
            count(a, x, out)
    return out


@check(quick=2500, thorough=60000)
@given(formulas(2), st.one_of(st.none(), DENSITY), st.sampled_from([None, "name"]), st.sampled_from(["", "", "", ")", "x", "(", "2O)", "--", "?", "(H2", "o3"]))
def formula(f, density, name, junk):
    s = write(f)
    eq = count(f, 1.0, {})
    rec.case((s, density, name, junk), nontrivial=len(eq) > 1 or "(" in s)
    if junk:
        rec.label("invalid")
        bad = s + junk
        if re.search("[A-Z]$", s) and junk[0] in "xo":
            bad = s + "xx" + junk[1:]
        try:
            c = compoundfromformula.CompoundFromFormula(bad, density)
        except Exception:
            return
        raise AssertionError(("accepted", bad, c.equivalents()))
    c = compoundfromformula.CompoundFromFormula(s, density, name=name)
    assert c.name == (name or s)
    model = Cmp(c.name, eq, density)
    check_compound(c, model, s)
    # the same parser is reused for other formulae
    p = compoundfromformula.FormulaParser()
    p.eval("Fe2O3")
    k, v = p.eval(s)
    same(dict(zip(k, v)), eq, "reused parser")
    for x in (compoundfromformula.factory(s), compoundfromformula.factory([s, "H2O"])[0]):
        same(x.equivalents(), eq, "factory")


# --------------------------------------------------------------- databases
PAIRS = [
    (typ, el, ox)
    for typ in sorted(compoundfromelement.db)
    for el in sorted(compoundfromelement.db[typ])
    for ox in [None] + sorted(compoundfromelement.db[typ][el])
]


@check(quick=600, thorough=6000)
@given(st.sampled_from(PAIRS), st.sampled_from(["max", "min"]), st.floats(0, 1), B)
def element_compounds(pair, default, w, sub):
    typ, el, ox = pair
    rec.case((pair, default, w, sub))
    kw = {} if default == "max" else {"defaultoxidationstate": default}
    if ox is not None:
        kw["oxidationstate"] = ox
    if sub:
        cls = {"oxide": compoundfromelement.Oxide, "sulfide": compoundfromelement.Sulfide}[typ]
        c = cls(el, **kw)
    else:
        c = compoundfromelement.CompoundFromElement(el, typ=typ, **kw)
    known = compoundfromelement.db[typ][el]
    if ox is None:
        ox = {"max": max, "min": min}[default](known)
    assert c.oxidationstate == ox, (c.oxidationstate, ox)
    text, rho = known[ox]
    assert c.name == text and c.density == rho
    eq = names(c.equivalents())
    anion = {"oxide": "O", "sulfide": "S"}[typ]
    assert set(eq) == {el, anion}, (el, eq)
    if (typ, el) not in [("sulfide", "As"), ("sulfide", "Fe")]:
        assert np.isclose(eq[el] * ox, 2 * eq[anion]), (text, ox)
    wc = c.massfraction_element_to_compound(w)
    # all element atoms are bound in the compound
    close(wc, w * c.molarmass() / (eq[el] * weight(el)) if w else 0, "mass fraction of the compound") if w else None
    assert np.isclose(c.massfraction_compound_to_element(wc), w)
    close(c.massfraction_compound_to_element(1.0), names(c.massfractions())[el], "pure compound")
    try:
        compoundfromelement.CompoundFromElement(el, typ=typ, oxidationstate=7.5)
    except RuntimeError:
        pass
    else:
        raise AssertionError("unknown oxidation state accepted")


NIST = compoundfromnist.getnames()
NAMED = compoundfromname.getnames()


@check(quick=400, thorough=4000)
@given(
    st.one_of(
        st.tuples(st.just("nist"), st.sampled_from(NIST)),
        st.tuples(st.just("name"), st.sampled_from(NAMED)),
        st.tuples(st.just("formula"), formulas(1).map(write)),
        st.tuples(st.just("unknown"), st.sampled_from(["Unknownium", "qqq", "Fe2O3)", "Zzz"])),
    ),
    st.sampled_from(["same", "upper", "lower"]),
)
def databases(arg, case):
    kind, name = arg
    rec.case((arg, case))
    if kind == "nist":
        data = xraylib.GetCompoundDataNISTByName(name)
        w = norm(
            {xraylib.AtomicNumberToSymbol(z): f for z, f in zip(data["Elements"], data["massFractions"])}
        )
        c = compoundfromnist.compoundfromnist(name)
        assert c.name == data["name"] == name
        same(c.massfractions(), w, name, rtol=1e-6)
        close(c.density, data["density"], name)
        asked = {"same": name, "upper": name.upper(), "lower": name.lower()}[case]
        found = compoundfromnist.search(asked)
        assert name in found, (asked, found)
        if len([n for n in NIST if n.lower() == name.lower()]) == 1:
            assert found == [name], (asked, found)
        c = compoundfromdb.compoundfromdb(name)
        assert c is not None
        if not [n for n in NAMED if name.lower() in n.lower()]:
            same(c.massfractions(), w, "database " + name, rtol=1e-6)
    elif kind == "name":
        c = compoundfromname.compoundfromname(name)
        d = compoundfromdb.compoundfromdb(name)
        for x in (c, d):
            if c.elements:
                assert np.isclose(sum(x.massfractions().values()), 1)
                assert np.isclose(sum(x.molefractions().values()), 1)
            else:
                assert x.molefractions() == {} and x.massfractions() == {}
            assert x.name == c.name and x.density == c.density
            assert x.equivalents() == c.equivalents()
        asked = {"same": name, "upper": name.upper(), "lower": name.lower()}[case]
        assert compoundfromname.search(asked) == [name] or len(
            [n for n in NAMED if n.lower() == name.lower()]
        ) > 1, (asked, compoundfromname.search(asked))
    elif kind == "formula":
        # no compound of which the name contains the formula
        assume(not [n for n in NIST + NAMED if name.lower() in n.lower()])
        c = compoundfromdb.compoundfromdb(name)
        ref = compoundfromformula.CompoundFromFormula(name)
        same(c.equivalents(), names(ref.equivalents()), "database formula " + name)
    else:
        assert compoundfromdb.compoundfromdb(name) is None, name
