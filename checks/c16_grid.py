"""C16: regular grids against the stacked array of their signals."""
import os
import logging
import tempfile
import fabio
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.process import regulargrid, h5regulargrid, edfregulargrid, axis
from spectrocrunch.io import nxfs
from spectrocrunch.patch.pint import ureg

logging.getLogger("spectrocrunch").setLevel(logging.ERROR)
rule(
    "Grids of 1-3 dimensional signals (sizes 1-5, 1-4 signals, 1-2 groups) in memory, in an NXdata or "
    "NXprocess group, a single NeXus signal or EDF files, stacked on any dimension, with increasing and "
    "decreasing axes; reads, assignments, in-place operations and interpolation. Non-trivial: more than "
    "one element and the operation does not select everything."
)
B = st.booleans()
NAMES = ["Fe-K", "Ca-K", "S-K", "arr_idet", "xmap"]


@st.composite
def index_of(draw, shape, h5=False):
    ndim = len(shape)
    n = draw(st.sampled_from([ndim] * 3 + list(range(ndim))))
    ell = n < ndim and draw(B)
    before = draw(st.integers(0, n)) if ell else n
    dims = list(range(before)) + list(range(ndim - (n - before), ndim))
    index = []
    advanced = False
    for k, d in enumerate(dims):
        if ell and k == before:
            index.append(Ellipsis)
        s = shape[d]
        kind = draw(st.sampled_from(["int", "slice", "full", "slice", "list"]))
        if kind == "list" and advanced:
            kind = "slice"
        if kind == "int" and h5 and advanced:
            kind = "full"
        if kind == "int":
            index.append(draw(st.integers(-s, s - 1)))
        elif kind == "slice":
            a = draw(st.one_of(st.none(), st.integers(-s - 1, s + 1)))
            b = draw(st.one_of(st.none(), st.integers(-s - 1, s + 1)))
            index.append(slice(a, b, draw(st.sampled_from([None, 1, 2] if h5 else [None, 1, 2, -1, -2]))))
        elif kind == "full":
            index.append(slice(None))
        else:
            advanced = True
            lst = draw(st.lists(st.integers(0, s - 1), min_size=1, max_size=s, unique=True))
            index.append(sorted(lst) if h5 else lst)
            if h5:
                # h5py does not mix integers and lists like numpy
                index = [slice(None) if isinstance(i, int) else i for i in index]
    if ell and before == len(dims):
        index.append(Ellipsis)
    if len(index) == 1 and draw(B):
        return index[0]
    return tuple(index)


def allint(index):
    return isinstance(index, tuple) and any(isinstance(i, int) for i in index) and any(isinstance(i, list) for i in index)


@st.composite
def axisvals(draw, n):
    a = draw(st.integers(-40, 40)) / 4
    steps = draw(st.one_of(
        st.integers(1, 8).map(lambda v: [v / 4] * (n - 1)),
        st.lists(st.integers(1, 8).map(lambda v: v / 4), min_size=n - 1, max_size=n - 1),
    ))
    s = draw(st.sampled_from([1, 1, -1]))
    return [float(a + s * sum(steps[:i])) for i in range(n)]


@st.composite
def specs(draw, kinds=("memory",) * 6 + ("edf", "edf", "nxdata", "nxprocess", "nxsignal")):
    kind = draw(st.sampled_from(kinds))
    ndim = 2 if kind == "edf" else draw(st.integers(1, 3) if kind != "memory" else st.integers(0, 3))
    shape = tuple(draw(st.lists(st.integers(1, 5), min_size=ndim, max_size=ndim)))
    vals = [draw(axisvals(n)) for n in shape]
    units = draw(st.lists(st.sampled_from(["um", "mm", "dimensionless"]), min_size=ndim, max_size=ndim))
    ngroups = draw(st.integers(1, 2)) if kind == "nxprocess" else 1
    groups = []
    for g in range(ngroups):
        names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
        groups.append(names)
    dtypes = [draw(st.sampled_from(["float32", "float64", "int32", "uint16"])) for g in groups for _ in g]
    if draw(B):
        dtypes = dtypes[:1] * len(dtypes)
    stackdim = draw(st.integers(0, ndim)) if kind != "edf" else 0
    given_ = draw(B)
    if kind == "nxprocess" and given_:
        # stack dimension of the signals
        stackdim = min(stackdim, ndim - 1)
    perm = draw(st.permutations(range(len(dtypes))))
    return kind, shape, vals, units, groups, dtypes, stackdim, given_, perm


def make(spec):
    kind, shape, vals, units, groups, dtypes, stackdim, given_, perm = spec
    n = len(dtypes)
    size = int(np.prod(shape))
    rng = np.random.RandomState(size * 31 + n)
    arrays = []
    for i in range(n):
        x = rng.permutation(size * 4)[:size].reshape(shape) + 100 * perm[i]
        arrays.append(x.astype(dtypes[i]))
    sigs = [(g, name) for g, names in enumerate(groups) for name in names]
    axs = [axis.factory(ureg.Quantity(np.array(v), u), name="ax%d" % i) for i, (v, u) in enumerate(zip(vals, units))]
    if kind == "memory":
        data = np.stack(arrays, axis=stackdim)
        axs.insert(stackdim, axis.factory([name for _, name in sigs], type="nominal"))
        kw = {} if stackdim == 0 and given_ else {"stackdim": stackdim}
        return regulargrid.RegularGrid(axs, data.copy(), **kw), data, stackdim, None
    if kind == "edf":
        tmp = tempfile.mkdtemp()
        files = []
        dt = dtypes[0]
        for i, (_, name) in enumerate(sigs):
            f = os.path.join(tmp, name.replace("-", "_") + ".%d.edf" % i)
            hdr = {}
            s0, s1 = shape
            x, y = vals
            if given_:
                # slow: intervals between the limits, fast: pixels
                hdr["Title"] = "zapimage sampy {} {} {} 100 sampz {} {} {}".format(
                    1.5, 1.5 + 0.5 * s1, s1, -2.5, -2.5 + 2 * (s0 - 1), s0 - 1
                )
            fabio.edfimage.EdfImage(data=arrays[i].astype(dt), header=hdr).write(f)
            files.append(f)
        grid = edfregulargrid.EDFRegularGrid(files, instrument="sxm")
        data = np.stack([a.astype(dt) for a in arrays], axis=0)
        if given_:
            slow = -2.5 + 2.0 * np.arange(s0)
            fast = 1.5 + 0.5 * (np.arange(s1) + 0.5)
        else:
            slow = np.arange(s0)
            fast = np.arange(s1) + 0.5
        assert np.allclose(grid.axes[1].magnitude, slow), (grid.axes[1].values, slow)
        assert np.allclose(grid.axes[2].magnitude, fast), (grid.axes[2].values, fast)
        labels = [".".join(os.path.basename(f).split(".")[:-1]) for f in files]
        assert list(grid.axes[0].values) == labels
        return grid, data, 0, None
    f = os.path.join(tempfile.mkdtemp(), "t.h5")
    entry = nxfs.Path("/", h5file=f).nxroot().new_nxentry()
    if kind == "nxprocess":
        params = {"name": "proc"}
        if given_:
            params["stackdim"] = stackdim
        parent = entry.nxprocess("proc", parameters=params, dependencies=None)
        res = parent.results
    else:
        res = entry.nxsubentry("sub")
    content = {}
    k = 0
    for g, names in enumerate(groups):
        nxdata = res.nxdata("detector%02d" % g).mkdir()
        for name in names:
            nxdata.add_signal(name, data=arrays[k])
            content["detector%02d" % g, name] = arrays[k]
            k += 1
        nxdata.set_axes(*[("ax%d" % i, np.array(v), {"units": u if u != "dimensionless" else "", "title": "t%d" % i}) for i, (v, u) in enumerate(zip(vals, units))])
    if kind == "nxsignal":
        sd = min(stackdim, len(shape) - 1)
        name = nxdata.signal.name
        grid = h5regulargrid.NXSignalRegularGrid(nxdata.signal, **({"stackdim": sd} if given_ else {}))
        again = lambda: h5regulargrid.NXSignalRegularGrid(nxdata.signal)
        return grid, content["detector%02d" % (len(groups) - 1), name].copy(), None, again
    if kind == "nxprocess":
        grid = h5regulargrid.NXRegularGrid(parent, **({} if given_ else {"stackdim": stackdim}))
        again = lambda: h5regulargrid.NXRegularGrid(parent, stackdim=stackdim)
        assert grid.stackdim == stackdim
    else:
        if given_:
            stackdim = len(shape) - 1 if len(shape) == 1 else 0
        grid = h5regulargrid.NXRegularGrid(nxdata, **({} if given_ else {"stackdim": stackdim}))
        again = lambda: h5regulargrid.NXRegularGrid(nxdata, stackdim=stackdim)
    got = [(s.parent.name, s.name) for s in grid.signals]
    assert sorted(got) == sorted(content), (got, content.keys())
    assert grid.signal_names == [s for _, s in got]
    data = np.stack([content[k] for k in got], axis=stackdim)
    return grid, data, stackdim, again


def coords(grid, data, stackdim, i):
    """Axis coordinates (labels for the stack dimension)"""
    return list(grid.axes[i].values) if i == stackdim else np.asarray(grid.axes[i].magnitude)


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)


def consistent(grid, data, stackdim):
    assert grid.shape == data.shape and grid.ndim == data.ndim and grid.size == data.size
    assert len(grid) == data.shape[0]
    assert np.dtype(grid.dtype) == data.dtype, (grid.dtype, data.dtype)
    v = grid.values
    assert eq(v, data), (v, data)
    assert np.asarray(v).dtype == data.dtype
    assert eq(grid[...], data) and eq(grid[:], data)


@check(quick=800, thorough=15000, shards={"quick": 4, "thorough": 8})
@given(specs(), st.data())
def reads(spec, data_):
    kind, stackname = spec[0], spec[6]
    pre = data_.draw(st.integers(0, 10 ** 6))
    grid, data, stackdim, again = make(spec)
    h5 = kind.startswith("nx")
    rec.label(kind)
    consistent(grid, data, stackdim)
    for a, b in zip(grid, data):
        assert eq(a, b)
    nontriv = False
    for _ in range(8 if h5 else 4):
        index = data_.draw(index_of(data.shape, h5=h5))
        expected = data[index]
        nontriv |= expected.shape != data.shape
        rec.current = repr((spec, index))
        got = grid[index]
        assert eq(got, expected), (index, got, expected)
    for d in range(-data.ndim, data.ndim):
        shape, gen = grid.sliceinfo(d)
        i = data_.draw(st.integers(0, data.shape[d] - 1))
        assert tuple(shape) == np.take(data, i, axis=d).shape
        assert eq(data[gen(i)], np.take(data, i, axis=d))
        assert eq(grid[gen(i)], np.take(data, i, axis=d))
    for d in (-data.ndim - 1, data.ndim):
        try:
            grid.sliceinfo(d)
        except ValueError:
            pass
        else:
            raise AssertionError("dimension outside the grid")
    # by coordinate
    pos = [data_.draw(st.integers(0, n - 1)) for n in data.shape]
    cs = []
    for i, p in enumerate(pos):
        c = grid.axes[i][p]
        if i != stackdim:
            how = data_.draw(st.sampled_from(["quantity", "number", "near"]))
            c = c if how == "quantity" else c.magnitude + (0.01 if how == "near" else 0)
        cs.append(c)
    if kind in ("memory", "edf", "nxsignal"):
        loc = grid.locate(*cs)
        assert tuple(loc) == tuple(pos), (loc, pos)
        assert eq(grid[loc], data[tuple(pos)])
    if kind != "nxsignal":
        assert sorted(grid.stack_dims + grid.other_dims) == list(range(data.ndim))
    if kind in ("memory", "edf"):
        assert grid.stack_dims == [stackdim]
    elif kind == "nxprocess" or (kind == "nxdata"):
        assert grid.stack_dims[0] == stackdim and len(set(grid.stack_dims)) == 2
    rec.case(key=(spec, pre), nontrivial=nontriv)


@check(quick=500, thorough=8000, shards={"quick": 4, "thorough": 8})
@given(specs(("memory",) * 5 + ("nxdata", "nxprocess", "nxsignal")), st.data())
def writes(spec, data_):
    """Assignments are visible in later reads"""
    kind = spec[0]
    # one type: assignments are converted to the type of each signal
    spec = spec[:5] + (["float64"] * len(spec[5]),) + spec[6:]
    grid, data, stackdim, again = make(spec)
    h5 = kind.startswith("nx")
    rec.label(kind)
    key = [spec]
    for _ in range(data_.draw(st.integers(1, 4))):
        op = data_.draw(st.sampled_from(["set", "setarr", "setarr", "add", "sub", "mul", "div"]))
        if op.startswith("set"):
            index = data_.draw(index_of(data.shape, h5=h5))
            if allint(index) or h5:
                index = tuple(slice(None) if isinstance(i, list) else i for i in (index if isinstance(index, tuple) else (index,)))
            sel = data[index]
            if not np.size(sel):
                continue
            if op == "set":
                value = data_.draw(st.integers(-9, 9)) / 2
            else:
                value = np.arange(np.size(sel)).reshape(np.shape(sel)) + data_.draw(st.integers(0, 50)) / 2
                if np.ndim(value) and data_.draw(st.sampled_from([False, False, True])):
                    value = value[:1]  # broadcast
            key.append((op, index))
            rec.current = repr(key)
            grid[index] = value
            data[index] = value
        else:
            v = data_.draw(st.sampled_from([2, 0.5, -3, 4.0]))
            if data_.draw(B):
                v = (np.arange(data.size).reshape(data.shape) % 7 + 1) * v
            key.append(op)
            rec.current = repr(key)
            old = grid
            if op == "add":
                grid += v
                data = data + v
            elif op == "sub":
                grid -= v
                data = data - v
            elif op == "mul":
                grid *= v
                data = data * v
            else:
                grid /= v
                data = data / v
            assert grid is old
        rec.label(op)
        assert eq(grid.values, data), (key, grid.values, data)
        index = data_.draw(index_of(data.shape, h5=h5))
        assert eq(grid[index], data[index])
    if again is not None:
        assert eq(again().values, data)
    rec.case(key=key, nontrivial=len(key) > 2 and data.size > 1)


def nearest_sets(old, new):
    """For every new coordinate: all nearest positions"""
    out = []
    for v in new:
        d = np.abs(np.asarray(old) - v)
        out.append(np.where(d <= d.min() + 1e-9)[0])
    return out


def weights(old, new):
    """Linear interpolation matrix"""
    old = np.asarray(old, float)
    w = np.zeros((len(new), len(old)))
    order = np.argsort(old)
    so = old[order]
    for k, v in enumerate(new):
        j = int(np.clip(np.searchsorted(so, v, side="right") - 1, 0, max(len(so) - 2, 0)))
        if len(so) == 1:
            w[k, 0] = 1
            continue
        t = (v - so[j]) / (so[j + 1] - so[j])
        w[k, order[j]] += 1 - t
        w[k, order[j + 1]] += t
    return w


@check(quick=1200, thorough=25000, shards={"quick": 4, "thorough": 8})
@given(specs(("memory",) * 12 + ("edf", "edf", "nxdata", "nxprocess", "nxsignal")), st.data())
def interpolation(spec, data_):
    """Interpolation by axis coordinates: stored values on the grid points, linear or nearest in between"""
    grid, data, stackdim, again = make(spec)
    ndim = data.ndim
    degree = data_.draw(st.sampled_from([0, 1, 1, 2, 3]))
    asgrid = data_.draw(B)
    ongrid = data_.draw(B) or degree > 1
    cval = data_.draw(st.sampled_from([None, -7.0]))
    npts = data_.draw(st.integers(1, 4))
    outside = False
    args, cs, oldc = [], [], []
    for i in range(ndim):
        n = data.shape[i]
        if i == stackdim:
            old = list(range(n))
            pos = data_.draw(st.lists(st.integers(0, n - 1), min_size=npts, max_size=npts))
            labels = list(grid.axes[i].values)
            arg = [labels[p] for p in pos]
            new = pos
        else:
            old = np.asarray(grid.axes[i].magnitude, float)
            pos = data_.draw(st.lists(st.integers(0, n - 1), min_size=npts, max_size=npts))
            new = [old[p] for p in pos]
            if not ongrid and n > 1:
                lo, hi = min(old), max(old)
                new = [lo + (hi - lo) * data_.draw(st.integers(0, 16)) / 16 for _ in new]
                if ndim != 2 and data_.draw(st.sampled_from([False, False, False, True])):
                    new[0] = hi + data_.draw(st.sampled_from([0.5, 3]))
                    outside = True
            how = data_.draw(st.sampled_from(["array", "list", "quantity"]))
            arg = np.array(new)
            if how == "list" and old[0] < old[-1]:
                arg = list(new)
            if how == "quantity":
                u = grid.axes[i].units
                arg = ureg.Quantity(np.array(new), u)
                if str(u) in ("millimeter", "micrometer"):
                    arg = arg.to("um")
                    arg = arg.to("mm") if not ongrid else arg
                    if any(abs(v - w) > 0 for v, w in zip(arg.to(u).magnitude, new)) and not ongrid:
                        arg = ureg.Quantity(np.array(new), u)
        if asgrid and data_.draw(st.sampled_from([False, False, True])):
            arg, new, = None, old
        args.append(arg)
        cs.append([float(v) for v in new])
        oldc.append(np.asarray(old, float))
    kw = {} if cval is None else {"cval": cval}
    if spec[0] != "memory" and data.size > 60:
        return
    rec.case(key=(spec, cs, degree, asgrid), nontrivial=data.size > 1)
    rec.label("degree%d" % degree)
    rec.label("ongrid" if ongrid else "between")
    got = np.asarray(grid.interpolate(*args, degree=degree, asgrid=asgrid, **kw))
    if ndim == 1:
        asgrid = True
    shape = tuple(len(c) for c in cs) if asgrid else (npts,)
    assert got.shape == shape, (got.shape, shape)
    cval = np.nan if cval is None else cval
    scale = np.abs(data).max() + 1.0
    out = [[v > max(o) + 1e-9 or v < min(o) - 1e-9 for v in c] for o, c in zip(oldc, cs)]
    if outside:
        rec.label("outside")
    if degree == 0:
        sets = [nearest_sets(o, c) for o, c in zip(oldc, cs)]
        for idx in np.ndindex(shape):
            k = idx if asgrid else idx * ndim
            if any(out[i][k[i]] for i in range(ndim)):
                assert np.array_equal(got[idx], cval, equal_nan=True)
                continue
            cand = data[np.ix_(*[sets[i][k[i]] for i in range(ndim)])]
            assert np.min(np.abs(cand.astype(float) - got[idx])) <= 1e-6 * scale, (idx, cand, got)
        return
    expected = data.astype(float)
    ws = [weights(o, c) for o, c in zip(oldc, cs)]
    if asgrid:
        for i, w in enumerate(ws):
            expected = np.moveaxis(np.tensordot(w, expected, axes=(1, i)), 0, i)
        mask = np.zeros(shape, bool)
        for i in range(ndim):
            mask |= np.reshape(out[i], [-1 if j == i else 1 for j in range(ndim)])
    else:
        exp = []
        for k in range(npts):
            e = expected
            for w in ws:
                e = np.tensordot(w[k], e, axes=(0, 0))
            exp.append(e)
        expected = np.array(exp)
        mask = np.any(np.array(out), axis=0)
    expected[mask] = cval
    assert np.allclose(got, expected, rtol=0, atol=1e-5 * scale, equal_nan=True), (got, expected)
