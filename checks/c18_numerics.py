"""C18: processing tasks against direct array computations."""
import os
import re
import logging
import tempfile
import numpy as np
from vh import st, given, assume, check, rec, rule
import lib_nx
from spectrocrunch.process import utils, axis
from spectrocrunch.process.nxexpression import MathParser
from spectrocrunch.utils import units

logging.getLogger("spectrocrunch").setLevel(logging.CRITICAL)
rule(
    "Generated data files (1 to 4 dimensions, one to three groups of signals, integers and floats, regular, "
    "irregular and decreasing axes with units) processed by generated tasks and compared, for all signals, with "
    "numpy applied to the generated arrays; the axes of the result are compared with the axes of the values. "
    "Non-trivial: at least one value is changed or removed; for expressions, at least two operations."
)
B = st.booleans()
NAMES = ["Fe-K", "S-K", "Ca", "arr_iodet", "arr_idet"]
GROUPS = ["detector00", "detector01", "counters", "detectorS0"]


# ------------------------------------------------------------- expressions
CONST = st.sampled_from(["1", "2", "0.5", "1.25", "1e1", "2.E0", "3.", "PI", "E"])
FUNCS = ["sin", "cos", "abs", "trunc", "round", "sgn", "nanone", "nanzero", "ln", "tan"]
REDUCE = ["max", "min", "mean", "median"]


def expressions(names, depth, reduce=True):
    var = st.sampled_from(names).map(lambda n: ("var", n))
    leaf = st.one_of(var, var, var, CONST.map(lambda c: ("const", c)))
    if depth == 0:
        return leaf
    sub = st.deferred(lambda: expressions(names, depth - 1, reduce))
    flat = st.tuples(
        st.just("sum"), sub, st.lists(st.tuples(st.sampled_from("+-"), sub), min_size=1, max_size=3)
    )
    prod = st.tuples(
        st.just("prod"), sub, st.lists(st.tuples(st.sampled_from("*/"), sub), min_size=1, max_size=3)
    )
    power = st.tuples(st.just("pow"), sub, st.lists(st.sampled_from(["2", "1", "0", "0.5", "3"]), min_size=1, max_size=2))
    func = st.tuples(st.just("func"), st.sampled_from(FUNCS + (REDUCE if reduce else [])), sub)
    neg = st.tuples(st.just("neg"), sub)
    return st.one_of(leaf, flat, flat, prod, prod, power, func, func, neg)


PREC = {"sum": 0, "prod": 1, "pow": 2, "neg": 3, "var": 4, "const": 4, "func": 4}


def render(e, var, sp=""):
    kind = e[0]

    def sub(x, level):
        s = render(x, var, sp)
        return s if PREC[x[0]] >= level else "(" + s + ")"

    if kind == "var":
        return var(e[1])
    if kind == "const":
        return e[1]
    if kind == "func":
        return e[1] + "(" + render(e[2], var, sp) + ")"
    if kind == "neg":
        # the sign belongs to the atom
        return "-" + sub(e[1], 4)
    if kind == "pow":
        return sub(e[1], 4) + "".join("^" + x for x in e[2])
    level = PREC[kind] + 1
    if kind == "sum":
        # "a--b" is not written
        return sub(e[1], level) + "".join(sp + op + sp + sub(x, 4 if x[0] == "neg" else level) for op, x in e[2])
    return sub(e[1], level) + "".join(sp + op + sp + sub(x, level) for op, x in e[2])


def constant(c):
    return {"PI": np.pi, "E": np.e}[c] if c in ("PI", "E") else np.float32(c)


def evaluate(e, values):
    kind = e[0]
    if kind == "var":
        return values[e[1]]
    if kind == "const":
        return constant(e[1])
    if kind == "neg":
        return -evaluate(e[1], values)
    if kind == "func":
        x = evaluate(e[2], values)
        name = e[1]
        if name in ("nanone", "nanzero"):
            return np.where(np.isnan(x), 1 if name == "nanone" else 0, x)
        if name == "sgn":
            return np.where(np.abs(x) > 1e-12, np.sign(x), 0)
        return {
            "sin": np.sin, "cos": np.cos, "tan": np.tan, "abs": np.abs, "trunc": np.trunc, "round": np.round, "ln": np.log,
            "max": np.nanmax, "min": np.nanmin, "mean": np.nanmean, "median": np.nanmedian,
        }[name](x)
    if kind == "pow":
        p = constant(e[2][-1])
        for x in reversed(e[2][:-1]):
            p = np.power(constant(x), p)
        return np.power(evaluate(e[1], values), p)
    out = evaluate(e[1], values)
    for op, x in e[2]:
        y = evaluate(x, values)
        out = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide}[op](out, y)
    return out


def nops(e):
    return sum(nops(x) if isinstance(x, (tuple, list)) else 0 for x in e) + int(
        isinstance(e[0], str) and (e[0] == "func" or PREC.get(e[0], 4) < 4)
    )


def close(a, b, rtol=1e-5):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape, (a.shape, b.shape)
    big = np.isfinite(b)
    scale = np.abs(b[big]).max() if big.any() else 1
    ok = np.isclose(a, b, rtol=rtol, atol=1e-7 * min(scale, 1), equal_nan=True)
    # overflow in single precision
    ok |= (np.abs(a) > 1e37) & (np.abs(b) > 1e37) | (np.abs(b) > 1e37) & np.isnan(a)
    assert ok.all(), (a[~ok][:3], b[~ok][:3])


VALS = st.one_of(st.integers(-4, 9), st.sampled_from([0.5, -1.5, 2.25, np.nan]))


@check(quick=4000, thorough=200000, shards={"quick": 2, "thorough": 8})
@given(
    st.lists(st.sampled_from(["a", "b", "c", "d", "e", "f", "g", "z"]), min_size=1, max_size=4, unique=True).flatmap(
        lambda names: st.tuples(
            st.fixed_dictionaries({n: st.lists(VALS, min_size=4, max_size=4) for n in names}),
            expressions(names, 3),
        )
    ),
    st.sampled_from(["f4", "f8"]), B, st.sampled_from(["", " "]),
)
def parser(case, dtype, scalar, sp):
    values, expr = case
    values = {k: np.array(v, dtype=dtype) for k, v in values.items()}
    if scalar:
        values = {k: v[0] for k, v in values.items()}
    else:
        values = {k: v.reshape(2, 2) for k, v in values.items()}
    text = render(expr, lambda n: "var_" + n, sp)
    rec.current = repr((text, values))
    rec.case(text, nontrivial=nops(expr) > 1)
    before = {k: v.copy() for k, v in values.items()}
    with np.errstate(all="ignore"):
        expected = evaluate(expr, values)
        mp = MathParser()
        for _ in range(2):
            got = mp.eval(text, variables=values)
            close(got, expected)
    for k in before:
        assert np.array_equal(before[k], values[k], equal_nan=True), "variable %s is modified" % k


# ------------------------------------------------------------------- files
@st.composite
def axes_(draw, shape):
    out = []
    for i, n in enumerate(shape):
        kind = draw(st.sampled_from(["up", "down", "irregular", "range"]))
        if kind == "range":
            v = np.arange(n) + draw(st.integers(-2, 2))
        elif kind == "irregular":
            v = np.cumsum([draw(st.integers(1, 3)) for _ in range(n)]) * 0.5
        else:
            v = draw(st.integers(-3, 3)) + np.arange(n) * draw(st.sampled_from([0.5, 1, 2])) * (1 if kind == "up" else -1)
        out.append((["x", "y", "z", "t"][i], v, draw(st.sampled_from([None, "um", "mm"])), draw(st.sampled_from([None, "title"]))))
    return out


@st.composite
def datasets(draw, ndim=None, floats=False, nan=True):
    if ndim is None:
        ndim = draw(st.sampled_from([3, 3, 3, 2, 1, 4]))
    shape = tuple(draw(st.integers(1, 4)) for _ in range(ndim))
    groups = draw(st.lists(st.sampled_from(GROUPS), min_size=1, max_size=3, unique=True))
    data = []
    for g in groups:
        for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)):
            dtype = draw(st.sampled_from(["f4", "f8"] if floats else ["f4", "f8", "i4", "i2"]))
            rng = np.random.RandomState(draw(st.integers(0, 10**6)))
            v = rng.randint(-4, 10, shape).astype(dtype)
            if dtype[0] == "f" and nan:
                v[rng.uniform(size=shape) < draw(st.sampled_from([0, 0.2]))] = np.nan
            data.append((g, n, v))
    return shape, draw(axes_(shape)), data


def build(shape, axs, data):
    return lib_nx.build(axs, data)


def source_names(p):
    """In the order of the grid"""
    out = []
    for nd in p.results.iter_is_nxclass("NXdata"):
        out += [(nd.name, s.name) for s in nd.signals]
    return out


def compare(out, expected, axs, order=None, rtol=1e-5):
    """expected: {(group, name): array}"""
    have = {}
    names = {}
    for nd in out.results.iter_is_nxclass("NXdata"):
        names[nd.name] = [s.name for s in nd.signals]
        for s in nd.signals:
            have[nd.name, s.name] = s.read()
        got = list(nd.axes)
        assert [n for n, _, _ in got] == [a[0] for a in axs], got
        for (n, v, attrs), (n2, v2, u, t) in zip(got, axs):
            v = units.asqarray(v) if not hasattr(v, "magnitude") else v
            mag = np.atleast_1d(v.to(u or "dimensionless").magnitude)
            assert str(v.units) == str(units.Quantity(1, u or "dimensionless").units), (n, v, u)
            assert mag.shape == np.shape(v2), (n, mag, v2)
            assert np.allclose(mag, v2), (n, mag, v2)
            if t:
                assert t in attrs["title"], attrs
    assert set(have) == set(expected), (sorted(have), sorted(expected))
    for k in expected:
        close(have[k], expected[k], rtol)
        assert have[k].shape == tuple(len(a[1]) for a in axs)
    if order:
        # same order, except that the default signal is the first one in its group
        default = None
        for g in names:
            lst = [n for g2, n in order if g2 == g and (g2, n) in expected]
            full = len(lst) == len([n for g2, n in order if g2 == g])
            default = default or (lst[0] if full else names[g][0])
            lst.sort(key=lambda n: n != default)
            if full:
                assert names[g] == lst, (names, order)


def run(p, **params):
    task = utils.create_task(dependencies=p, **params)
    task.run()
    return task


def patterns(draw, names):
    """Regular expressions of signals or groups"""
    out = []
    for _ in range(draw(st.integers(0, 2))):
        if draw(B):
            out.append({"method": "regex", "pattern": draw(st.sampled_from(["Fe-K", "arr_.*", "S", ".*-K$", "none"]))})
        else:
            out.append({"method": "regexparent", "pattern": draw(st.sampled_from(["detector", "counters", "detector0[01]", "detectorS"]))})
    return out


def matches(pats, key):
    return any(re.match(p["pattern"], key[1] if p["method"] == "regex" else key[0]) for p in pats)


@st.composite
def pointwise_cases(draw):
    case = draw(datasets())
    shape, axs, data = case
    names = [d[1] for d in data]
    params = {
        "method": draw(st.sampled_from(["replace", "minlog", "expression", "expression"])),
        "sliced": draw(B),
        "stackdim": draw(st.integers(0, len(shape) - 1)),
        "skip": patterns(draw, names),
    }
    expr = None
    if params["method"] == "replace":
        params["old"] = draw(st.one_of(st.integers(-4, 9), st.just(np.nan).map(lambda x: float("nan")), st.just(np.nan)))
        params["new"] = draw(st.integers(-2, 12))
    elif params["method"] == "expression":
        # available for all signals
        unique = [n for n in set(names) if names.count(n) == 1]
        groups = set(d[0] for d in data)
        common = [n for n in set(names) if names.count(n) == len(groups)]
        expr = draw(expressions([""] + sorted(set(unique + common)), draw(st.sampled_from([1, 2, 2])), reduce=True))
        expr = ("sum", expr, [("+", ("var", ""))]) if draw(B) else ("prod", ("var", ""), [("*", expr)])
        params["expression"] = render(expr, lambda n: "{" + n + "}", draw(st.sampled_from(["", " "])))
        params["copy"] = patterns(draw, names)
    return case, params, expr


@check(quick=96, thorough=4000, shards={"quick": 8, "thorough": 16})
@given(pointwise_cases())
def pointwise(case):
    (shape, axs, data), params, expr = case
    rec.current = repr(case)
    arrays = {(g, n): v for g, n, v in data}
    expected = {}
    changed = 0
    for key, v in arrays.items():
        if matches(params["skip"], key):
            continue
        method = params["method"]
        changed += 1

        def compute(index):
            x = v[index]
            if method == "replace":
                old = params["old"]
                return np.where(np.isnan(x) if old != old else x == old, np.array(params["new"], x.dtype), x)
            if method == "minlog":
                return -np.log(x)
            values = {"": x}
            for k, w in arrays.items():
                if [n for _, n in arrays].count(k[1]) == 1 or k[0] == key[0]:
                    values[k[1]] = w[index]
            return np.broadcast_to(evaluate(expr, values), x.shape)

        with np.errstate(all="ignore"):
            if method == "expression" and matches(params["copy"], key):
                expected[key] = v
            elif params["sliced"]:
                sd = params["stackdim"]
                expected[key] = np.stack(
                    [compute((slice(None),) * sd + (i,)) for i in range(shape[sd])], axis=sd
                ).astype("f8")
            else:
                expected[key] = compute(())
    rec.case(repr((params, shape)), nontrivial=changed > 0)
    rec.label(params["method"] + ("_sliced" if params["sliced"] else ""))
    assume(expected)
    p = build(shape, axs, data)
    with np.errstate(all="ignore"):
        task = run(p, **params)
    assert task.done, "task failed"
    compare(task.output, expected, axs, order=source_names(p), rtol=1e-4)
    # input not modified
    for (g, n), v in arrays.items():
        assert np.array_equal(p.results[g][n].read(), v, equal_nan=v.dtype.kind == "f")


@st.composite
def crop_cases(draw):
    ndim = draw(st.sampled_from([3, 3, 3, 2, 4]))
    shape, axs, data = draw(datasets(ndim=ndim, nan=False))
    sd = draw(st.integers(0, ndim - 1))
    params = {"method": "crop", "sliced": draw(B), "stackdim": sd, "reference": draw(st.sampled_from([d[1] for d in data])), "skip": patterns(draw, [])}
    if draw(B):
        params["roi"] = []
        for i, n in enumerate(shape):
            if i != sd:
                a = draw(st.integers(0, n - 1))
                params["roi"].append([a, draw(st.integers(a + 1, n))])
    else:
        params["nanval"] = draw(st.sampled_from([float("nan"), np.nan, 0, -4]))
        if draw(B):
            params["nanfull"] = draw(B)
        # invalid edges and points
        new = []
        for g, n, v in data:
            if v.dtype.kind != "f" and params["nanval"] != params["nanval"]:
                v = v.astype("f4")
            for i in range(ndim):
                if draw(B) and i != sd:
                    edge = draw(st.sampled_from([0, -1]))
                    index = [slice(None)] * ndim
                    index[i] = edge
                    if draw(B):
                        index[sd] = draw(st.integers(0, shape[sd] - 1))
                    if draw(B):
                        j = draw(st.integers(0, ndim - 1))
                        if j != i:
                            index[j] = draw(st.integers(0, shape[j] - 1))
                    v[tuple(index)] = params["nanval"]
            new.append((g, n, v))
        data = new
    return (shape, axs, data), params


@check(quick=72, thorough=3000, shards={"quick": 8, "thorough": 16})
@given(crop_cases())
def crop(case):
    (shape, axs, data), params = case
    rec.current = repr(case)
    p = build(shape, axs, data)
    order = source_names(p)
    arrays = {(g, n): v for g, n, v in data}
    sd = params["stackdim"]
    if "roi" in params:
        roi = list(params["roi"])
        roi.insert(sd, [0, shape[sd]])
    else:
        # the last signal with this name
        ref = arrays[[k for k in order if k[1] == params["reference"]][-1]]
        nv = params["nanval"]
        valid = ~np.isnan(ref) if nv != nv else ref != nv
        # valid for all positions of the stack dimension
        valid = np.all(valid, axis=sd, keepdims=True)
        roi = []
        for i in range(len(shape)):
            count = np.moveaxis(valid, i, 0).reshape(valid.shape[i], -1).sum(axis=1)
            if i == sd:
                roi.append([0, shape[sd]])
                continue
            if params.get("nanfull", True):
                keep = count == count.max() if count.max() else count > 0
            else:
                keep = count > 0
            ind = [j for j in range(len(keep)) if keep[j]]
            roi.append([ind[0], ind[-1] + 1] if ind else None)
        if any(r is None for r in roi):
            # nothing left: not cropped
            roi = [[0, n] for n in shape]
    index = tuple(slice(a, b) for a, b in roi)
    expected = {k: v[index] for k, v in arrays.items() if not matches(params["skip"], k)}
    rec.case(repr((params, shape, index)), nontrivial=any(b - a < n for (a, b), n in zip(roi, shape)))
    rec.label("roi" if "roi" in params else "nanval")
    if not expected:
        return
    task = run(p, **params)
    assert task.done, "task failed"
    compare(task.output, expected, [(n, v[s], u, t) for (n, v, u, t), s in zip(axs, index)], order=order)


@st.composite
def resample_cases(draw):
    ndim = draw(st.sampled_from([3, 3, 2]))
    sd = 0
    shape = tuple([draw(st.integers(1, 2))] + [draw(st.integers(4, 7)) for _ in range(ndim - 1)])
    axs = []
    for i, n in enumerate(shape):
        step = draw(st.sampled_from([0.5, 1, 2])) * draw(st.sampled_from([1, -1])) if i else 1
        axs.append((["x", "y", "z"][i], draw(st.integers(-3, 3)) + np.arange(n) * step, draw(st.sampled_from([None, "um", "mm"])), None))
    enc = {}
    for i in draw(st.lists(st.integers(1, ndim - 1), min_size=0 if draw(st.integers(0, 9)) == 0 else 1, max_size=2, unique=True)):
        enc[i] = {
            "resolution": draw(st.sampled_from([2, 0.5, 10])),
            "offset": draw(st.one_of(st.none(), st.integers(-5, 5))),
            "shift": [draw(st.integers(-4, 4)) / 4.0 for _ in range(3)],
            "true": draw(st.sampled_from([0, 7, -3])),
        }
    return shape, axs, enc, draw(B), draw(st.sampled_from([1, 1, 1, 0])), draw(st.sampled_from([np.nan, 0, -1]))


@check(quick=40, thorough=1500, shards={"quick": 8, "thorough": 16})
@given(resample_cases())
def resample(case):
    """The data are linear functions of the measured positions, hence also after (linear) resampling"""
    shape, axs, enc, crop, degree, cval = case
    rec.current = repr(case)
    ndim = len(shape)
    grid = np.meshgrid(*[a[1] for a in axs], indexing="ij")
    pos = list(grid)
    data = []
    params = {"method": "resample", "encoders": {}, "crop": crop, "degree": degree, "cval": cval, "stackdim": 0}
    for i, e in enumerate(range(ndim)):
        if i not in enc:
            continue
        e = enc[i]
        step = axs[i][1][1] - axs[i][1][0]
        # the measured positions depend on the other dimensions
        j = 3 - i if ndim == 3 else 0
        sh = np.array((e["shift"] * 3)[: shape[j]]) * step
        rs = [1] * ndim
        rs[j] = len(sh)
        pos[i] = grid[i] + sh.reshape(rs)
        offset = e["true"] if e["offset"] is None else e["offset"]
        data.append(("counters", "enc%d" % i, pos[i] * e["resolution"] + offset))
        d = {"counter": "enc%d" % i, "resolution": e["resolution"]}
        if e["offset"] is not None:
            d["offset"] = e["offset"]
        params["encoders"][axs[i][0]] = d
    coef = [1.0, 2.0, -3.0]

    def linear(coords):
        return 5 + sum(c * x for c, x in zip(coef, coords))

    data.append(("counters", "const", np.full(shape, 2.0)))
    data.append(("detector00", "lin", linear(pos)))
    data.append(("detector00", "stack", linear(pos) * (1 + grid[0])))
    p = build(shape, axs, data)
    task = run(p, **params)
    assert task.done, "task failed"
    out = task.output
    offsets = np.atleast_1d(out.results["encoder_offset"].read())
    newaxes = []
    nd = out.results["detector00"]
    rec.label("%d encoders, crop=%s" % (len(enc), crop))
    rec.case(repr(case), nontrivial=bool(enc))
    positions = {}
    for i, ((name, v, attrs), (n, vold, u, t)) in enumerate(zip(nd.axes, axs)):
        v = units.asqarray(v) if not hasattr(v, "magnitude") else v
        assert name == n
        assert str(v.units) == str(units.Quantity(1, u or "dimensionless").units), (name, v, u)
        mag = np.atleast_1d(v.magnitude)
        if i not in enc:
            assert np.allclose(mag, vold)
            assert offsets[i] == 0
            positions[i] = pos[i]
        else:
            e = enc[i]
            step = vold[1] - vold[0]
            if e["offset"] is not None:
                assert offsets[i] == e["offset"]
            # measured position in the coordinates of the new axis
            positions[i] = (data[[d[1] for d in data].index("enc%d" % i)][2] - offsets[i]) / e["resolution"]
            first, last = np.take(positions[i], 0, axis=i), np.take(positions[i], -1, axis=i)
            if e["offset"] is None:
                # aligned with the motor positions
                lims = [f(x) for f, x in zip((min_, max_) if (step > 0) != crop else (max_, min_), (first, last))]
                assert np.isclose(sum(lims), vold[0] + vold[-1]), (lims, vold)
            if len(mag) > 1:
                assert np.allclose(np.diff(mag), step), (mag, vold)
            # same raster
            r = (mag[0] - vold[0]) / step
            assert np.isclose(r, round(r), atol=1e-6), (mag, vold)
            # crop: only complete positions, otherwise all measured positions
            s = np.sign(step)
            f0, l0 = (s * first), (s * last)
            if crop:
                lo, hi = f0.max(), l0.min()
                # limits within one step
                if len(mag) != len(vold) or lo < hi:
                    assert abs(s * mag[0] - lo) < abs(step) + 1e-6, (mag, lo)
                    assert abs(s * mag[-1] - hi) < abs(step) + 1e-6, (mag, hi)
            else:
                lo, hi = f0.min(), l0.max()
                assert s * mag[0] <= lo + 1e-6 and s * mag[0] + abs(step) > lo - 1e-6, (mag, lo)
                assert s * mag[-1] >= hi - 1e-6 and s * mag[-1] - abs(step) < hi + 1e-6, (mag, hi)
        newaxes.append(mag)
    new = np.meshgrid(*newaxes, indexing="ij")
    shape2 = new[0].shape
    expected = {
        ("counters", "const"): np.full(shape2, 2.0),
    }
    shift = [positions[i] - pos[i] for i in range(ndim)]
    for i in enc:
        assert np.allclose(shift[i], shift[i].flat[0])
    real = [x - (shift[i].flat[0] if i in enc else 0) for i, x in enumerate(new)]
    expected["detector00", "lin"] = linear(real)
    expected["detector00", "stack"] = linear(real) * (1 + new[0] if True else 0)
    for i in enc:
        expected["counters", "enc%d" % i] = real[i] * enc[i]["resolution"] + (
            enc[i]["true"] if enc[i]["offset"] is None else enc[i]["offset"]
        )
    for (g, n), v in expected.items():
        got = out.results[g][n].read()
        assert got.shape == v.shape
        # outside the measured positions
        if len(enc) == 1:
            (i,) = enc
            lo = np.min(positions[i], axis=i, keepdims=True)
            hi = np.max(positions[i], axis=i, keepdims=True)
            inside = (new[i] >= lo - 1e-9) & (new[i] <= hi + 1e-9)
            border = np.isclose(new[i], lo) | np.isclose(new[i], hi)
        elif enc:
            inside = ~np.isnan(got) if cval != cval else got != cval
            border = np.zeros(shape2, bool)
            lo = [positions[i].min() for i in sorted(enc)]
            hi = [positions[i].max() for i in sorted(enc)]
            outside = np.zeros(shape2, bool)
            for i, a, b in zip(sorted(enc), lo, hi):
                outside |= (new[i] < a - 1e-6) | (new[i] > b + 1e-6)
            if degree == 1:
                assert not (inside & outside & ~np.isclose(got, v)).any() if cval != cval else True
                # surrounded by measured positions
                core = np.ones(shape2, bool)
                for i in enc:
                    a, b = np.take(positions[i], 0, axis=i), np.take(positions[i], -1, axis=i)
                    if a.flat[0] > b.flat[0]:
                        a, b = b, a
                    core &= (new[i] > a.max() + 1e-6) & (new[i] < b.min() - 1e-6)
                assert np.isclose(got[core], v[core], rtol=1e-4, atol=1e-4).all()
        else:
            inside, border = np.ones(shape2, bool), np.zeros(shape2, bool)
        ok = np.isclose(got, v, rtol=1e-4, atol=1e-4)
        fill = np.isnan(got) if cval != cval else np.isclose(got, cval)
        if degree == 1:
            assert ok[inside & ~border].all(), (g, n, got, v)
        else:
            near = inside & ~border & ~fill
            if (g, n) == ("counters", "const"):
                assert ok[near].all()
        assert (ok | fill)[border].all() if degree == 1 else True
        assert fill[~inside & ~border].all(), (g, n, got, v)


def min_(x):
    return np.min(x)


def max_(x):
    return np.max(x)
