"""C15: axes against explicit arrays of values."""
import copy
import difflib
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.process import axis
from spectrocrunch.patch.pint import ureg

rule(
    "Axes of every kind (values, regular by limits or by increment, single number, segments, zap/step "
    "scans, factory) with length units or dimensionless, increasing and decreasing, edited up to 8 "
    "times and compared with an explicit array of values after every edit. Non-trivial: at least "
    "three values (construction, simplification, locate), at least two accepted edits (histories)."
)
B = st.booleans()
UNITS = ["um", "mm", "nm", "m"]
FACT = {"um": 1e-6, "mm": 1e-3, "nm": 1e-9, "m": 1.0, None: 1.0, "dimensionless": 1.0}
num = st.integers(-400, 400).map(lambda v: v / 8)
pos = st.integers(1, 80).map(lambda v: v / 8)
RTOL = 1e-9


def Q(v, u):
    return ureg.Quantity(v, u) if u else v


def close(a, b, tol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    a, b = a[~na], b[~nb]
    if not a.size:
        return True
    scale = max(np.abs(a).max(), np.abs(b).max())
    return bool((np.abs(a - b) <= tol + RTOL * scale + 1e-300).all())


def mag(q, u):
    return q.to(u or "dimensionless").magnitude


def same(ax, vals, u, tol=0.0):
    """The axis represents these values in these units"""
    u = u or "dimensionless"
    vals = np.asarray(vals, float)
    n = len(vals)
    assert str(ax.units) == str(ureg.Quantity(1, u).units), (ax.units, u)
    assert ax.size == n and len(ax) == n and len(ax.values) == n, (ax.size, n)
    assert np.asarray(ax.magnitude).shape == (n,)
    assert close(ax.magnitude, vals, tol), (ax.magnitude, vals)
    assert close(mag(ax.values, u), vals, tol)
    assert ax.values.units == ax.units
    rnd = RTOL * np.nanmax(np.abs(vals))
    tol, tol0 = tol + rnd, tol
    assert close(mag(ax.start, u), vals[0], tol), ("start", ax.start, vals)
    assert close(mag(ax.end, u), vals[-1], tol), ("end", ax.end, vals)
    assert ax.start.units == ax.units and ax.end.units == ax.units
    if isinstance(ax, axis.AxisSegments):
        assert int(np.sum(ax.nsteps)) == n - 1 and ax.nsegments == len(ax.nsteps)
        off = np.concatenate([[0], np.cumsum(ax.nsteps)])
        assert close(mag(ax.limits, u), vals[off], tol)
        assert close(mag(ax.stepsizes, u), np.diff(vals[off]) / np.asarray(ax.nsteps), 2 * tol + RTOL * np.nanmax(np.abs(vals)))
    else:
        assert ax.nsteps == n - 1
    for i in {0, n - 1, n // 2, -1}:
        assert close(mag(ax[i], u), vals[i], tol)
    assert close(mag(ax[1:], u), vals[1:], tol)
    assert close(mag(ax[::-1], u), vals[::-1], tol)
    if n > 1:
        assert close(mag(ax.start_stepsize, u), vals[1] - vals[0], 2 * tol + RTOL * np.nanmax(np.abs(vals)))
        assert close(mag(ax.end_stepsize, u), vals[-1] - vals[-2], 2 * tol + RTOL * np.nanmax(np.abs(vals)))
    if isinstance(ax, axis._AxisRegular) and n > 1:
        assert close(mag(ax.stepsize, u), (vals[-1] - vals[0]) / (n - 1), 2 * tol + RTOL * np.nanmax(np.abs(vals)))
    for i in {0, n - 1, n // 2}:
        if np.isfinite(vals[i]) and tol0 == 0 and np.min(np.diff(np.sort(vals)), initial=1) > 1e-6 * np.abs(vals).max():
            assert ax.locate(ax[i]) == i
    s = "{!r} {}".format(ax, ax)
    assert s


def segvals(limits, nsteps):
    out = []
    for a, b, n in zip(limits, limits[1:], nsteps):
        out += [a + (b - a) / n * i for i in range(n)]
    return out + [limits[-1]]


meta = st.fixed_dictionaries(
    {
        "name": st.sampled_from([None, "samy", "X position"]),
        "title": st.sampled_from([None, "Sample y", "t"]),
        "precision": st.sampled_from([None, 0.25, 0.5]),
    }
)


@st.composite
def build(draw, kinds=None):
    kind = draw(st.sampled_from(kinds or ["values", "ints", "regular", "inc", "number", "segments", "zap", "ascan"]))
    u = draw(st.sampled_from(UNITS + [None]))
    u2 = draw(st.sampled_from(UNITS)) if u else None
    kw = draw(meta)
    f = FACT[u2] / FACT[u]
    if kind == "values":
        vals = draw(st.lists(num, min_size=1, max_size=12))
        a = draw(B)
        ax = axis.Axis(Q(np.array(vals), u) if a or u is None else [Q(v, u) for v in vals], **kw)
    elif kind == "ints":
        vals = draw(st.lists(st.integers(0, 200), min_size=1, max_size=12))
        dt = draw(st.sampled_from(["int64", "uint8", "uint16", "int32"]))
        ax = axis.Axis(Q(np.array(vals, dtype=dt), u), **kw)
    elif kind == "regular":
        a, b, n = draw(num), draw(num), draw(st.integers(0, 12))
        if n == 0:
            b = a
        vals = [a + (b - a) / max(n, 1) * i for i in range(n + 1)]
        ax = axis.AxisRegular(Q(a, u), Q(b / f, u2), n, **kw)
    elif kind == "inc":
        a, d, n = draw(num), draw(num), draw(st.integers(0, 12))
        vals = [a + d * i for i in range(n + 1)]
        ax = axis.AxisRegularInc(Q(a, u), Q(d / f, u2), n, **kw)
    elif kind == "number":
        vals = [draw(num)]
        ax = axis.AxisNumber(Q(vals[0], u), **kw)
    elif kind == "segments":
        nseg = draw(st.integers(1, 4))
        limits = draw(st.lists(num, min_size=nseg + 1, max_size=nseg + 1))
        nsteps = draw(st.lists(st.integers(1, 5), min_size=nseg, max_size=nseg))
        vals = segvals(limits, nsteps)
        args = [Q(limits[0], u)] + [Q(v / f, u2) for v in limits[1:]]
        ax = axis.AxisSegments(args, nsteps, **kw)
    elif kind == "zap":
        a, b, n = draw(num), draw(num), draw(st.integers(1, 12))
        vals = [a + (b - a) / n * (i + 0.5) for i in range(n)]
        ax = axis.zapscan(a, b, n, unit=u, **kw)
    else:
        a, b, n = draw(num), draw(num), draw(st.integers(1, 12))
        vals = [a + (b - a) / n * i for i in range(n + 1)]
        ax = axis.ascan(a, b, n, unit=u, **kw)
    return kind, ax, np.array(vals, float), u, kw


def sufx(u):
    return "({:~})".format(ureg.Quantity(1, u).units) if u else ""


def metadata(ax, u, kw, pu):
    name = kw["name"] or type(ax).__name__
    assert ax.name == name
    assert ax.title_nounits == (kw["title"] or name)
    if u:
        assert ax.title == "{} {}".format(kw["title"] or name, sufx(u)), ax.title
    else:
        assert ax.title.startswith(kw["title"] or name)
    assert str(ax) == ax.title
    p = (kw["precision"] or 0) * FACT[pu] / FACT[u]
    assert close(mag(ax.precision, u), p), (ax.precision, p)


@check(quick=2500, thorough=40000, shards={"quick": 2, "thorough": 6})
@given(build(), st.sampled_from(UNITS))
def construct(b, u2):
    kind, ax, vals, u, kw = b
    rec.case(key=(kind, vals, u, kw), nontrivial=len(vals) > 2)
    rec.label(kind)
    same(ax, vals, u)
    metadata(ax, u, kw, u)
    assert ax.type == "quantitative"
    if u:
        f = FACT[u] / FACT[u2]
        assert close(ax.umagnitude(u2), vals * f)
        same(ax, vals, u)
        ax2 = ax.to(u2)
        assert type(ax2) is type(ax)
        same(ax2, vals * f, u2)
        if kw["name"]:
            metadata(ax2, u2, kw, u)
        same(ax, vals, u)
        metadata(ax, u, kw, u)
        back = ax2.to(u)
        same(back, vals, u)
        same(ax2, vals * f, u2)
    s = ax.simplify()
    same(s, vals, u, (kw["precision"] or 0))
    if kw["name"]:
        metadata(s, u, kw, u)
    same(ax, vals, u)
    for clone in (copy.copy(ax), copy.deepcopy(ax)):
        same(clone, vals, u)
    if kind == "values" and len(vals) > 1:
        # values can be edited
        ax = copy.deepcopy(ax)
        ax[1] = Q(7.25, u)
        v = vals.copy()
        v[1] = 7.25
        same(ax, v, u)
        ax[0] = -3.5
        v[0] = -3.5
        same(ax, v, u)
    elif kind not in ("values", "ints"):
        try:
            ax[0] = 5
        except RuntimeError:
            pass
        else:
            raise AssertionError("regular axis edited")
        same(ax, vals, u)


@st.composite
def arrays(draw):
    """Array of values which can or cannot be simplified"""
    kind = draw(st.sampled_from(["regular", "noise", "segments", "segnoise", "quadratic", "random", "nan", "near"]))
    p = draw(st.sampled_from([0, 2.0 ** -6, 0.25, 1.0]))
    n = draw(st.integers(1, 30))
    a, d = draw(num), draw(num.filter(bool))
    x = a + d * np.arange(n)
    if kind in ("noise", "near", "nan"):
        amp = p * draw(st.sampled_from([0.2, 0.5, 1.1, 3]))
        x = x + amp * np.array(draw(st.lists(st.integers(-8, 8), min_size=n, max_size=n))) / 8
    if kind == "nan":
        x[draw(st.integers(0, n - 1))] = np.nan
    elif kind.startswith("seg"):
        nseg = draw(st.integers(1, 4))
        limits = draw(st.lists(num, min_size=nseg + 1, max_size=nseg + 1))
        nsteps = draw(st.lists(st.integers(1, 12), min_size=nseg, max_size=nseg))
        x = np.array(segvals(limits, nsteps))
        if kind == "segnoise":
            x = x + p * draw(st.sampled_from([0.2, 0.5, 2])) * np.array(
                draw(st.lists(st.integers(-8, 8), min_size=len(x), max_size=len(x)))
            ) / 8
    elif kind == "quadratic":
        x = x + p * draw(st.sampled_from([0.1, 0.4, 0.6, 2])) * np.arange(n) ** 2
    elif kind == "random":
        x = np.array(draw(st.lists(num, min_size=1, max_size=20)))
    return kind, x, p


@check(quick=3000, thorough=60000, shards={"quick": 2, "thorough": 6})
@given(arrays(), st.sampled_from(UNITS + [None]), B)
def simplify(arr, u, useunits):
    kind, x, p = arr
    rec.case(key=(kind, x, p, u), nontrivial=len(x) > 2)
    rec.label(kind)
    pu = {"um": "nm", "nm": "um", "mm": "um", "m": "mm"}.get(u)
    prec = Q(p * FACT[u] / FACT[pu], pu) if (u and useunits) else p
    x0 = x.copy()
    q = Q(x, u)
    ax = axis.factory(q, precision=prec, name="nm", title="tt")
    assert np.array_equal(x, x0, equal_nan=True)
    rec.label(type(ax).__name__)
    n = len(x)
    ok = close(ax.magnitude, x, p)
    assert ok, (ax.magnitude, x, p)
    if not np.isnan(x).any():
        same(ax, x, u, p)
    assert ax.name == "nm" and ax.title_nounits == "tt"
    assert close(mag(ax.precision, u), p)
    # an exactly regular array gives a regular axis
    if kind == "regular" and p and n > 1:
        assert isinstance(ax, axis.AxisRegular)
    if n == 1:
        assert isinstance(ax, axis.AxisNumber) and isinstance(ax, axis._AxisRegular)
    # already an axis
    ax2 = axis.factory(ax)
    assert close(ax2.magnitude, x, 2 * p)
    if p:
        # tolerance to rounding
        full = axis.Axis(q, precision=prec * (1 + 1e-9))
        assert full == ax
        assert not full != ax


@check(quick=2500, thorough=40000)
@given(build(["values", "regular", "inc", "segments", "number"]), st.data())
def equality(b, data):
    """Equal when all values are equal within the precision"""
    kind, ax, vals, u, kw = b
    p = kw["precision"] or 0
    u2 = data.draw(st.sampled_from(UNITS)) if u else None
    how = data.draw(st.sampled_from(["one", "all", "drop", "add", "nan", "nan2"]))
    d = data.draw(st.sampled_from([0, 0.125, 0.2, 0.3, 0.6, -0.2, -0.3, -0.6, 5]))
    v = vals.copy()
    i = data.draw(st.integers(0, len(v) - 1))
    me = vals.copy()
    if how == "one":
        v[i] += d
    elif how == "all":
        v += d
    elif how == "drop":
        assume(len(v) > 1)
        v = v[:-1]
    elif how == "add":
        v = np.append(v, v[-1])
    else:
        assume(kind == "values")
        v[i] = np.nan
        if how == "nan2":
            ax[i] = Q(np.nan, u)
            me[i] = np.nan
    f = FACT[u] / FACT[u2]
    u3 = data.draw(st.sampled_from([u] + UNITS)) if u else None
    if u3 != u:
        # the precision is converted as well
        ax = ax.to(u3) if data.draw(B) else ax
        ax.units = u3
    other = axis.Axis(Q(v * f, u2), precision=data.draw(st.sampled_from([None, 100])))
    if len(v) != len(me) or (np.isnan(v) != np.isnan(me)).any():
        expected = False
    else:
        m = ~np.isnan(v)
        diff = np.abs(v[m] - me[m]).max() if m.any() else 0
        # unit conversion and exactly on the border: rounding
        scale = max(np.abs(me[m]).max(), np.abs(v[m]).max(), 1) if m.any() else 1
        assume(abs(diff - p) > 1e-9 * scale or (u == u2 == u3 and diff == p and kind == "values"))
        expected = bool(diff <= p)
    rec.case(key=(kind, vals, u, u2, how, d, p), nontrivial=len(vals) > 2)
    rec.label("equal" if expected else "different")
    assert (ax == other) == expected, (ax.values, other.values, p)
    assert (ax != other) == (not expected)
    same(ax, me * FACT[u] / FACT[u3], u3) if not np.isnan(me).any() else None


@check(quick=2500, thorough=40000, shards={"quick": 1, "thorough": 4})
@given(build(), st.data())
def locate(b, data):
    """Nearest position"""
    kind, ax, vals, u, kw = b
    n = len(vals)
    u2 = data.draw(st.sampled_from(UNITS)) if u else None
    f = FACT[u] / FACT[u2]
    target = data.draw(st.lists(st.one_of(num, st.sampled_from(vals.tolist()), st.floats(-500, 500, allow_nan=False)), min_size=1, max_size=6))
    how = data.draw(st.sampled_from(["number", "list", "array", "quantity", "qarray", "axis", "none"]))
    rec.case(key=(kind, vals, target, how), nontrivial=n > 2)
    rec.label(how)
    if how == "none":
        assert ax.locate(None) == slice(None)
        return
    if how == "number":
        target = target[:1]
        got = [ax.locate(target[0])]
    elif how == "list":
        got = ax.locate(target)
    elif how == "array":
        got = ax.locate(np.array(target))
    elif how == "quantity":
        target = target[:1]
        got = [ax.locate(Q(target[0] * f, u2))]
    elif how == "qarray":
        got = ax.locate(Q(np.array(target) * f, u2))
    else:
        got = ax.locate(axis.Axis(Q(np.array(target) * f, u2)))
    assert len(got) == len(target)
    for t, g in zip(target, got):
        dist = np.abs(vals - t)
        assert dist[g] <= dist.min() + 1e-9 * max(1, abs(t), np.abs(vals).max()), (vals, t, g)
    # integers are indices or coordinates
    k = data.draw(st.integers(0, 300))
    g = ax.locate(k)
    dist = np.abs(vals - k)
    assert dist[g] <= dist.min() + 1e-9 * max(1, np.abs(vals).max(), k)
    g = ax.locate(k, detectindex=True)
    if kind == "ints":
        assert g == k
    else:
        assert dist[g] <= dist.min() + 1e-9 * max(1, np.abs(vals).max(), k)
    same(ax, vals, u)


@check(quick=2000, thorough=30000)
@given(st.lists(st.sampled_from(["Fe-K", "Fe-L", "Ca-K", "S-K", "counter", "xmap", "Fe"]), min_size=1, max_size=6, unique=True), st.data())
def nominal(names, data):
    typ = data.draw(st.sampled_from(["nominal", "ordinal"]))
    ax = axis.factory(list(names), type=typ, name="n")
    n = len(names)
    assert ax.type == typ and ax.units is None and ax.size == n and len(ax) == n and ax.nsteps == n - 1
    assert list(ax.values) == names and list(ax.magnitude) == names and ax.start == names[0] and ax.end == names[-1]
    assert ax.title == "n" and list(ax.umagnitude("um")) == names
    pick = data.draw(st.lists(st.sampled_from(names), min_size=1, max_size=4))
    rec.case(key=(names, pick), nontrivial=n > 2)
    assert [ax.locate(p) for p in pick] == [names.index(p) for p in pick]
    assert list(ax.locate(pick)) == [names.index(p) for p in pick]
    old, new = ax.interpolate(pick)
    assert list(old) == list(range(n)) and list(new) == [names.index(p) for p in pick]
    old, new = ax.interpolate(pick[0])
    assert list(new) == [names.index(pick[0])]
    old, new = ax.interpolate(None)
    assert list(old) == list(range(n)) == list(new)
    # closest name
    word = data.draw(st.sampled_from(["Fe", "Ca", "K", "count", "zz"]))
    got = ax.locate(word)

    def ratio(a):
        s = difflib.SequenceMatcher()
        s.set_seq2(word)
        s.set_seq1(a)
        return s.ratio()

    assert ratio(names[got]) == max(map(ratio, names))
    other = data.draw(st.permutations(names))
    assert (ax == axis.factory(list(other), type=typ)) == (other == names)
    assert (ax != axis.factory(list(other), type=typ)) == (other != names)
    for f in (lambda: ax.to("um"), lambda: setattr(ax, "units", "um")):
        try:
            f()
        except RuntimeError:
            pass
        else:
            raise AssertionError("labels have no units")
    assert list(ax.values) == names
    # labels which are numbers
    nums = data.draw(st.lists(st.integers(0, 50), min_size=1, max_size=5, unique=True))
    ax = axis.factory(list(nums), type=typ)
    v = data.draw(st.sampled_from(nums))
    assert ax.locate(v) == nums.index(v)
    assert list(ax.locate([v])) == [nums.index(v)]
    try:
        ax.locate(99)
    except ValueError:
        pass
    else:
        raise AssertionError("unknown label located")


@st.composite
def histories(draw):
    b = draw(build(["values", "regular", "inc", "segments", "number", "zap", "ascan"]))
    n = draw(st.integers(1, 8))
    ops = []
    for _ in range(n):
        ops.append(
            (
                draw(st.sampled_from(["units", "to", "start", "end", "size", "nsteps", "stepsize", "limits", "stepsizes", "setitem", "simplify", "reinit"])),
                draw(st.sampled_from(UNITS)),
                draw(num),
                draw(st.integers(1, 9)),
                draw(st.lists(num, min_size=6, max_size=6)),
                draw(B),
            )
        )
    return b, ops


@check(quick=1500, thorough=30000, shards={"quick": 2, "thorough": 6})
@given(histories())
def edits(h):
    (kind, ax, vals, u, kw), ops = h
    if not u:
        u = None
    snapshots, trace = [], []
    done = 0
    clean = True
    ax.precision = None
    kw = dict(kw, precision=None, name=kw["name"] or "nm")
    ax.name = kw["name"]
    for op, u2, x, k, xs, flag in ops:
        u2 = u2 if u else None
        f = FACT[u] / FACT[u2]
        reg = isinstance(ax, axis.AxisRegular)
        inc = isinstance(ax, axis.AxisRegularInc)
        seg = isinstance(ax, axis.AxisSegments)
        n = len(vals)
        # quantities in other units or numbers (in the axis units)
        arg = Q(x * f, u2) if flag else Q(x, u)
        if op in ("units", "to"):
            if not u:
                continue
            snapshots.append((ax, vals.copy(), u)) if op == "to" else None
            if op == "to":
                ax = ax.to(u2)
            else:
                ax.units = u2
            vals = vals * f
            u = u2
        elif op == "start":
            if reg:
                ax.start = arg
                u = u2 if flag else u
                vals = np.linspace(x, vals[-1], n) * (f if flag else 1)
            elif inc:
                ax.start = arg
                vals = (x + vals - vals[0]) * (f if flag else 1)
                u = u2 if flag else u
            elif isinstance(ax, axis.AxisNumber):
                ax.start = arg
                vals = np.array([x]) * (f if flag else 1)
                u = u2 if flag else u
            else:
                continue
            if reg and n == 1:
                # start and end cannot differ
                ax.end = ax.start
                vals = np.array([mag(ax.start, u)])
        elif op == "end" and reg and n > 1:
            ax.end = arg
            vals = np.linspace(vals[0], x, n)
        elif op in ("size", "nsteps") and (reg or inc):
            if reg and n == 1:
                continue
            step = vals[1] - vals[0] if n > 1 else mag(ax.stepsize, u)
            m = k + 1
            setattr(ax, op, m if op == "size" else m - 1)
            vals = np.linspace(vals[0], vals[-1], m) if reg else vals[0] + step * np.arange(m)
        elif op == "stepsize" and inc:
            ax.stepsize = arg
            vals = vals[0] + x * np.arange(n)
        elif op == "nsteps" and seg:
            nseg = ax.nsegments
            ns = [1 + (k + i * 3) % 5 for i in range(nseg)]
            off = np.concatenate([[0], np.cumsum(ax.nsteps)])
            lim = vals[off]
            ax.nsteps = ns
            vals = np.array(segvals(lim.tolist(), ns))
        elif op == "limits" and seg:
            lim = xs[: ax.nsegments + 1]
            assume(len(lim) == ax.nsegments + 1)
            ns = list(ax.nsteps)
            ax.limits = [Q(v, u) for v in lim]
            vals = np.array(segvals(lim, [int(v) for v in ns]))
        elif op == "stepsizes" and seg:
            off = np.concatenate([[0], np.cumsum(ax.nsteps)])
            lim = vals[off]
            ns = [1 + (k + i * 5) % 6 for i in range(ax.nsegments)]
            if (np.abs(np.diff(lim)) <= max(1e-12, 1e-6 * np.abs(lim).max())).any():
                continue
            st_ = np.diff(lim) / ns
            ax.stepsizes = Q(st_ * f, u2) if flag else (Q(st_, u) if k % 2 else list(st_))
            vals = np.array(segvals(lim.tolist(), ns))
        elif op == "setitem" and type(ax) is axis.Axis:
            i = k % n
            ax[i] = arg
            vals = vals.copy()
            vals[i] = x
        elif op == "simplify":
            if type(ax) is axis.Axis:
                snapshots.append((copy.deepcopy(ax), vals.copy(), u))
            new = ax.simplify()
            ax = new
        elif op == "reinit":
            # the initialization parameters describe the axis (units may differ)
            if snapshots or done:
                continue
            new = type(ax)(*ax.initargs, **ax.initkwargs)
            snapshots.append((ax, vals.copy(), u))
            ax = new
        else:
            continue
        done += 1
        rec.label("edit_" + op)
        trace.append((op, arg, k, xs))
        rec.current = repr((kind, trace))
        same(ax, vals, u)
        assert ax.name == kw["name"]
        if op == "start" and flag:
            clean = False  # changes the units
        if u and clean:
            assert ax.title == "{} {}".format(kw["title"] or kw["name"], sufx(u)), ax.title
        for a, v, uu in snapshots:
            same(a, v, uu)
    rec.case(key=(kind, trace), nontrivial=done >= 2)


@check(quick=2500, thorough=50000, shards={"quick": 2, "thorough": 6})
@given(
    st.sampled_from(["regular", "inc", "segments", "values"]),
    num,
    st.lists(pos, min_size=2, max_size=12),
    B,
    st.sampled_from(UNITS + [None]),
    st.data(),
)
def limits(kind, start, steps, decreasing, u, data):
    """Extend and reduce the limits"""
    if kind in ("regular", "inc"):
        steps = [steps[0]] * len(steps)
    elif kind == "segments":
        c = max(1, len(steps) // 2)
        steps = [steps[0]] * c + [steps[-1]] * (len(steps) - c) + [steps[-1]]
    sign = -1 if decreasing else 1
    vals = start + sign * np.concatenate([[0], np.cumsum(steps)])
    kw = {"name": "nm", "title": "tt", "precision": data.draw(st.sampled_from([None, 2.0 ** -10]))}
    if kind == "regular":
        ax = axis.AxisRegular(Q(vals[0], u), Q(vals[-1], u), len(vals) - 1, **kw)
    elif kind == "inc":
        ax = axis.AxisRegularInc(Q(vals[0], u), Q(vals[1] - vals[0], u), len(vals) - 1, **kw)
    elif kind == "segments":
        lim = [vals[0], vals[c], vals[-1]]
        ax = axis.AxisSegments([Q(v, u) for v in lim], [c, len(steps) - c], **kw)
    else:
        ax = axis.Axis(Q(vals, u), **kw)
    span = abs(vals[-1] - vals[0])

    def pick():
        r = data.draw(st.sampled_from(["in", "out", "on", "far"]))
        if r == "on":
            return float(data.draw(st.sampled_from(vals.tolist())))
        off = data.draw(st.integers(-16, 16)) / 16
        if r == "in":
            return vals[0] + (vals[-1] - vals[0]) * (off + 1) / 2
        if r == "out":
            return (vals[0] + vals[-1]) / 2 + off * span
        return (vals[0] + vals[-1]) / 2 + off * span * 4

    a, b = pick(), pick()
    what = data.draw(st.sampled_from(["start", "end", "both"]))
    # stay away from rounding at the grid points
    u2 = data.draw(st.sampled_from([u] + UNITS)) if u else None
    f = FACT[u] / FACT[u2]

    def arg(x):
        return Q(x * f, u2) if u2 != u else (Q(x, u) if data.draw(B) else x)

    def snap(x):
        """Exactly a grid point (before, inside or after the axis)?"""
        s0, s1 = vals[1] - vals[0], vals[-1] - vals[-2]
        d = min(abs((x - vals[0]) / s0 - np.round((x - vals[0]) / s0)) if sign * (x - vals[0]) <= 0 else 1,
                abs((x - vals[-1]) / s1 - np.round((x - vals[-1]) / s1)) if sign * (x - vals[-1]) >= 0 else 1,
                np.abs(vals - x).min() / min(abs(s0), abs(s1)))
        return d < 1e-6

    exact = snap(a) or snap(b)

    def model_start(v, x):
        s = v[1] - v[0]
        if sign * (v[0] - x) > 0:
            k = int(np.ceil((v[0] - x) / s - 1e-9))
            return np.concatenate([v[0] - s * np.arange(1, k + 1)[::-1], v])
        if sign * (x - v[-1]) / abs(v[-1] - v[-2]) >= 1 - 1e-9:
            return None
        keep = np.where(sign * v <= sign * x + 1e-9 * (span + abs(x)))[0]
        return v[keep[-1]:]

    def model_end(v, x):
        r = model_start_rev(v[::-1], x)
        return None if r is None else r[::-1]

    def model_start_rev(v, x):
        nonlocal sign
        sign = -sign
        try:
            return model_start(v, x)
        finally:
            sign = -sign

    rec.case(key=(kind, vals, a, b, what, u), nontrivial=not exact)
    rec.label(what)
    if what == "start":
        new, expected = ax.newstart(arg(a)), model_start(vals, a)
    elif what == "end":
        new, expected = ax.newend(arg(b)), model_end(vals, b)
    else:
        expected = model_start(vals, a)
        if expected is not None and len(expected) < 2:
            # a single position has no spacing
            return
        new = ax.newlimits(arg(a), arg(b))
        expected = None if expected is None else model_end(expected, b)
    same(ax, vals, u)
    if exact and (u2 != u or kind == "inc" or True):
        # rounding may add or drop one position at an exact grid point
        if new is None or expected is None:
            rec.label("border")
            if u2 == u and not (new is None and expected is None):
                raise AssertionError((new, expected))
            return
    if expected is None:
        assert new is None, (new.values, a, b)
        return
    assert new is not None, (expected, a, b)
    p = mag(ax.precision, u)
    rec.label("limits_" + ("exact" if exact else "inexact"))
    if exact and len(new) != len(expected):
        assert abs(len(new) - len(expected)) <= 2
        # limits are included anyway
        m = new.magnitude
        tol = p + 1e-6 * span
        if what in ("start", "both"):
            assert min(m[0], m[-1]) - tol <= a <= max(m[0], m[-1]) + tol
        if what in ("end", "both"):
            assert min(m[0], m[-1]) - tol <= b <= max(m[0], m[-1]) + tol
        return
    same(new, expected, u, p)
    assert new.name == "nm" and new.title_nounits == "tt" and close(mag(new.precision, u), p)


@check(quick=1500, thorough=20000)
@given(build(["values", "regular", "inc", "segments", "number", "zap", "ascan"]), st.data())
def interpolate(b, data):
    """Coordinates for interpolation: increasing and the same distances"""
    kind, ax, vals, u, kw = b
    vals = np.unique(np.round(vals, 6))
    if data.draw(B):
        vals = vals[::-1]
    ax = axis.factory(Q(vals, u), **kw)
    v = np.asarray(ax.magnitude)
    u2 = data.draw(st.sampled_from(UNITS)) if u else None
    f = FACT[u] / FACT[u2]
    target = np.array(data.draw(st.lists(num, min_size=1, max_size=5)))
    how = data.draw(st.sampled_from(["none", "array", "quantity", "axis", "number"]))
    rec.case(key=(vals, target, how, u), nontrivial=len(vals) > 2)
    if how == "none":
        old, new = ax.interpolate(None)
        target = v
    elif how == "array":
        old, new = ax.interpolate(target)
    elif how == "quantity":
        old, new = ax.interpolate(Q(target * f, u2))
    elif how == "axis":
        old, new = ax.interpolate(axis.Axis(Q(target * f, u2)))
    else:
        target = target[0]
        old, new = ax.interpolate(target)
    if len(v) > 1 and (np.diff(v) > 0).all() or len(v) > 1 and (np.diff(v) < 0).all():
        assert (np.diff(old) > 0).all()
    d = np.abs(np.subtract.outer(v, target))
    dd = np.abs(np.subtract.outer(np.asarray(old), np.asarray(new)))
    assert close(d.ravel(), dd.ravel(), 1e-9 * max(1, np.abs(v).max(), np.abs(target).max()))
    same(ax, v, u, 0 if len(v) > 1 else 0)


@check(quick=800, thorough=10000)
@given(st.integers(-50, 50), st.integers(-50, 50), st.integers(1, 7), B)
def ranges(a, b, s, neg):
    s = -s if neg else s
    x = np.arange(a, b, s)
    assume(len(x))
    rec.case(key=(a, b, s), nontrivial=len(x) > 2)
    same(axis.arange(a, b, s), x, None)
    if b > 0:
        same(axis.arange(b), np.arange(b), None)
