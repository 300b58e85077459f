"""C10: numerical helpers against the equations that define them."""
import math
from fractions import Fraction
import numpy as np
import scipy.stats
from vh import st, given, assume, check, rec, rule
from spectrocrunch.math import interpolate, lsqlin, fit1d, fit2d, quadrics
from spectrocrunch.math import distributions, statistics, center, linalg
from spectrocrunch.math import utils as mutils

rule(
    "Well-conditioned random problems: grids of 1-3 dimensions with uneven axes, "
    "over-determined linear systems of 1-4 unknowns, gaussian peaks, quadrics in 2-3 "
    "dimensions, truncated distributions, numbers over 12 decades. Non-trivial: more "
    "than one unknown/dimension or an active constraint, a point between nodes, ..."
)

SEED = st.integers(0, 10 ** 7)


def rng_of(seed):
    return np.random.RandomState(seed)


def axis_of(rng, n):
    return np.round(rng.uniform(-5, 5) + np.cumsum(rng.uniform(0.3, 2, n)), 3)


def assert_close(a, b, what, rtol=1e-7, atol=1e-7):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    assert a.shape == b.shape, "%s: shape %r instead of %r" % (what, a.shape, b.shape)
    assert np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True), "%s: %r instead of %r" % (
        what, a, b)


@check(quick=500, thorough=15000)
@given(
    seed=SEED, ndim=st.integers(1, 3), degree=st.integers(0, 3), asgrid=st.booleans(),
    regular=st.booleans(), cval=st.sampled_from([np.nan, 0.0, -7.0]), data=st.data(),
)
def interpolation(seed, ndim, degree, asgrid, regular, cval, data):
    rng = rng_of(seed)
    if not regular:
        # the triangulation of a regular grid is only unique up to its diagonals
        degree = min(degree, 1)
    lo = max(2, degree + 1)
    shape = tuple(data.draw(st.integers(lo, lo + 3)) for _ in range(ndim))
    axes = [axis_of(rng, n) for n in shape]
    f = np.round(rng.uniform(-10, 10, shape), 3)
    kw = {"degree": degree, "cval": cval, "asgrid": asgrid}
    if regular:
        func, old = interpolate.interpolate_regular, axes
    else:
        func = interpolate.interpolate_irregular
        old = axes if ndim == 1 else np.meshgrid(*axes, indexing="ij")
    if ndim == 1:
        asgrid = True
    f0 = f.copy()
    # nodes
    npts = data.draw(st.integers(1, 4))
    if asgrid:
        idx = [sorted(rng.choice(n, min(npts, n), replace=False)) for n in shape]
        new = [ax[i] for ax, i in zip(axes, idx)]
        expected = f[np.ix_(*idx)]
    else:
        idx = [rng.randint(0, n, npts) for n in shape]
        new = [ax[i] for ax, i in zip(axes, idx)]
        expected = f[tuple(idx)]
    assert_close(func(f, old, new, **kw), expected, "values at the nodes", atol=1e-6)
    # linear function between the nodes
    c = np.round(rng.uniform(-3, 3, ndim + 1), 2)
    lin = c[0] + sum(
        ci * g for ci, g in zip(c[1:], np.meshgrid(*axes, indexing="ij"))
    )
    if asgrid:
        new = [np.sort(rng.uniform(ax[0], ax[-1], npts)) for ax in axes]
        grid = np.meshgrid(*new, indexing="ij")
    else:
        new = [rng.uniform(ax[0], ax[-1], npts) for ax in axes]
        grid = new
    if degree >= 1:
        expected = c[0] + sum(ci * g for ci, g in zip(c[1:], grid))
        assert_close(func(lin, old, new, **kw), expected, "linear function", atol=1e-6)
    else:
        # nearest neighbour in each direction
        near = []
        safe = np.ones(np.shape(grid[0]), dtype=bool)
        for ax, g in zip(axes, grid):
            d = np.abs(np.asarray(g)[..., None] - ax)
            ds = np.sort(d, axis=-1)
            safe &= ds[..., 1] - ds[..., 0] > 1e-6
            near.append(np.argmin(d, axis=-1))
        r = np.asarray(func(f, old, new, **kw), dtype=float)
        if regular or ndim == 1:
            expected = f[tuple(near)]
            assert r.shape == expected.shape, "shape"
            assert np.array_equal(r[safe], expected[safe]), "nearest neighbour"
    # outside
    if not (regular and ndim == 2 and degree > 0) and not (not regular and degree == 0):
        k = data.draw(st.integers(0, ndim - 1))
        out = [np.array([ax[0]]) for ax in axes]
        out[k] = np.array([axes[k][-1] + 1.0 if data.draw(st.booleans()) else axes[k][0] - 1.0])
        r = np.ravel(func(f, old, out, **kw))
        assert_close(r, [cval], "value outside")
    assert np.array_equal(f, f0), "data modified"
    rec.case(("interp", seed, shape, degree, asgrid, regular, repr(cval)), nontrivial=npts > 1)


@check(quick=400, thorough=10000)
@given(seed=SEED, n=st.integers(2, 8), m=st.integers(1, 6))
def piecewise(seed, n, m):
    rng = rng_of(seed)
    xs = axis_of(rng, n)
    ys = np.round(rng.uniform(-5, 5, n), 3)
    x = np.concatenate([rng.uniform(xs[0] - 3, xs[-1] + 3, m), rng.choice(xs, 2)])
    import scipy.interpolate

    r = interpolate.extrap1d(scipy.interpolate.interp1d(xs, ys))(x)
    exp = np.interp(x, xs, ys)
    lo = x < xs[0]
    hi = x > xs[-1]
    exp[lo] = ys[0] + (x[lo] - xs[0]) * (ys[1] - ys[0]) / (xs[1] - xs[0])
    exp[hi] = ys[-1] + (x[hi] - xs[-1]) * (ys[-1] - ys[-2]) / (xs[-1] - xs[-2])
    assert_close(r, exp, "extrapolation")
    fl = [max([(a, b) for a, b in zip(xs, ys) if a <= xi], default=(0, np.nan))[1] for xi in x]
    ce = [min([(a, b) for a, b in zip(xs, ys) if a >= xi], default=(0, np.nan))[1] for xi in x]
    assert_close(interpolate.interp1d_floor(xs, ys)(x), fl, "floor")
    assert_close(interpolate.interp1d_ceil(xs, ys)(x), ce, "ceil")
    assert_close(interpolate.interp1d_floor(xs, ys)(x[0]), fl[0], "scalar floor")
    assert_close(interpolate.interp1d_ceil(xs, ys)(x[0]), ce[0], "scalar ceil")
    rec.case(("piecewise", seed, n, m), nontrivial=bool(lo.any() or hi.any()))


@st.composite
def lsqproblem(draw):
    n = draw(st.integers(1, 4))
    m = n + draw(st.integers(0, 5))
    rng = rng_of(draw(SEED))
    C = np.round(rng.uniform(-3, 3, (m, n)), 2)
    assume(np.linalg.cond(C) < 50)
    d = np.round(rng.uniform(-5, 5, m), 2)
    return C, d, rng


@check(quick=300, thorough=6000)
@given(prob=lsqproblem(), data=st.data())
def constrained(prob, data):
    """Feasible and optimal: no feasible point is better"""
    C, d, rng = prob
    m, n = C.shape
    kind = data.draw(st.sampled_from(["none", "box", "ineq", "eq", "nonneg", "norm", "mixed"]))
    reg = data.draw(st.sampled_from([0, 0, 0.5, 3]))
    opts = {"show_progress": False}
    A = b = Aeq = beq = lb = ub = None
    if kind == "nonneg":
        sol = lsqlin.lsqnonneg(C, d)
        lb, reg = np.zeros(n), 0
    elif kind == "norm":
        sol = lsqlin.lsqnorm(C, d)
        lb, ub, reg = np.zeros(n), np.ones(n), 0
        Aeq, beq = np.ones((1, n)), np.ones(1)
    else:
        center_ = np.round(rng.uniform(-1, 1, n), 2)  # a feasible point
        if kind in ("box", "mixed"):
            lb = center_ - rng.uniform(0.1, 1, n)
            ub = center_ + rng.uniform(0.1, 1, n)
            which = data.draw(st.integers(0, 2))
            if which == 1:
                lb = None
            elif which == 2:
                ub = None
        if kind in ("ineq", "mixed"):
            A = np.round(rng.uniform(-2, 2, (2, n)), 2)
            b = A.dot(center_) + rng.uniform(0.1, 0.5, 2)
        if kind == "eq" and n > 1:
            Aeq = np.round(rng.uniform(0.5, 2, (1, n)), 2)
            beq = Aeq.dot(center_)
        slb, sub = lb, ub
        if lb is not None and data.draw(st.booleans()):
            slb = float(lb.min())
            lb = np.full(n, slb)
        if ub is not None and data.draw(st.booleans()):
            sub = float(ub.max())
            ub = np.full(n, sub)
        sA, sC = A, C
        if A is not None and data.draw(st.booleans()):
            sA = lsqlin.sparse.coo_matrix(A)
        sol = lsqlin.lsqlin(sC, d, reg=reg, A=sA, b=b, Aeq=Aeq, beq=beq, lb=slb, ub=sub, opts=opts)
    x = np.atleast_1d(lsqlin.cvxopt_to_numpy_matrix(sol["x"]))
    assert x.shape == (n,), "solution shape"
    tol = 1e-4
    if lb is not None:
        assert (x >= lb - tol).all(), "below the lower bound"
    if ub is not None:
        assert (x <= ub + tol).all(), "above the upper bound"
    if A is not None:
        assert (A.dot(x) <= b + tol).all(), "inequality"
    if Aeq is not None:
        assert np.abs(Aeq.dot(x) - beq).max() <= tol, "equality"

    # KKT: the gradient is a non-negative combination of the active normals
    g = 2 * C.T.dot(C.dot(x) - d) + 2 * reg * x / 2.0 * 1.0
    if reg:
        # documented objective: ||Cx-d||^2 + reg ||x||^2, solved as a QP with
        # Q = C'C + reg I (same optimum)
        g = 2 * (C.T.dot(C.dot(x) - d) + reg * x)
    normals, free = [], []
    if lb is not None:
        normals += [-np.eye(n)[i] for i in range(n) if x[i] < lb[i] + 1e-3]
    if ub is not None:
        normals += [np.eye(n)[i] for i in range(n) if x[i] > ub[i] - 1e-3]
    if A is not None:
        normals += [a for a, bi in zip(A, b) if a.dot(x) > bi - 1e-3]
    if Aeq is not None:
        for a in Aeq:
            normals += [a, -a]
    # min || -g - N.lam ||, lam >= 0
    if normals:
        import scipy.optimize

        N = np.array(normals).T
        _, res = scipy.optimize.nnls(N, -g)
    else:
        res = np.linalg.norm(g)
    assert res <= 1e-2 * (1 + np.linalg.norm(C) ** 2), "not optimal (KKT residual %g)" % res
    rec.case(("lsq", kind, reg, C.tobytes(), d.tobytes()), nontrivial=bool(normals))


@check(quick=400, thorough=10000)
@given(prob=lsqproblem(), data=st.data())
def linear_systems(prob, data):
    C, d, rng = prob
    m, n = C.shape
    x = fit1d.lstsq(C, d)
    assert_close(C.T.dot(C.dot(x) - d), np.zeros(n), "normal equations")
    xn = fit1d.lstsq_nonnegative(C, d)
    def optimal(x):
        g = C.T.dot(C.dot(x) - d)
        return (x >= -1e-12).all() and (g >= -1e-6).all() and abs(g.dot(x)) < 1e-5

    # scipy 1.15 itself is wrong for about one problem in a thousand
    import scipy.optimize

    if optimal(scipy.optimize.nnls(C, d)[0]):
        assert optimal(xn), "nnls optimality: %r" % xn
    else:
        rec.label("scipy-nnls-not-optimal")
    lb, ub = -0.5, 0.75
    xb = fit1d.lstsq_bound(C, d, lb, ub)
    assert (xb >= lb - 1e-9).all() and (xb <= ub + 1e-9).all(), "bounds"
    best = np.linalg.norm(C.dot(xb) - d)
    for _ in range(5):
        y = rng.uniform(lb, ub, n)
        y = xb + (y - xb) * rng.uniform(0, 1)
        assert np.linalg.norm(C.dot(y) - d) >= best - 1e-4, "bounded solution not optimal"
    # exact data: exact solution
    x0 = np.round(rng.uniform(-3, 3, n), 2)
    assert_close(fit1d.lstsq(C, C.dot(x0)), x0, "consistent system")
    # covariance of the estimator
    vare = rng.uniform(0.1, 2, m)
    M = np.linalg.pinv(C)
    cov = M.dot(np.diag(vare)).dot(M.T)
    assert_close(fit1d.lstsq_cov(C, vare=vare), cov, "covariance (variances)", rtol=1e-6)
    L = rng.uniform(-1, 1, (m, m))
    cove = L.dot(L.T) + np.eye(m)
    assert_close(fit1d.lstsq_cov(C, cove=cove), M.dot(cove).dot(M.T), "covariance (full)", rtol=1e-6)
    xe, se = fit1d.lstsq(C, d, errors=True, vare=vare)
    assert_close(xe, x, "solution with errors")
    assert_close(se, np.sqrt(np.diag(cov)), "errors", rtol=1e-6)
    cor = fit1d.cor_from_cov(cov)
    s = np.sqrt(np.diag(cov))
    assert_close(cor, cov / np.outer(s, s), "correlation")
    if m > n + 1:
        s2 = np.var(C.dot(x) - d, ddof=n)
        _, se = fit1d.lstsq(C, d, errors=True)
        assert_close(se, np.sqrt(s2 * np.diag(np.linalg.inv(C.T.dot(C)))), "errors from residuals",
                     rtol=1e-6)
    # independent variables: var(e) = A^2 var(x)
    C2 = C * C
    if np.linalg.cond(C2) < 50:
        vx = rng.uniform(0.1, 2, n)
        assert_close(fit1d.lstsq_std_indep(C, vare=C2.dot(vx)), np.sqrt(vx), "independent errors")
        if m > n + 1:
            v = np.linalg.lstsq(C2, np.full(m, s2), rcond=None)[0]
            if (v > 1e-3).all():
                assert_close(fit1d.lstsq_std_indep(C, b=d, x=x), np.sqrt(v), "independent errors")
    if m == n:
        assert_close(linalg.cramer(C, d), np.linalg.solve(C, d), "Cramer", atol=1e-6)
    # Cramer of a well-conditioned square system
    S = C.T.dot(C)
    r = C.T.dot(d)
    assert_close(linalg.cramer(S, r), np.linalg.solve(S, r), "Cramer", rtol=1e-5, atol=1e-5)
    rec.case(("lin", C.tobytes(), d.tobytes()), nontrivial=n > 1 and m > n)


@check(quick=400, thorough=10000)
@given(seed=SEED, n=st.integers(4, 20), noisy=st.booleans(), nnan=st.integers(0, 3))
def lines(seed, n, noisy, nnan):
    rng = rng_of(seed)
    x = axis_of(rng, n)
    rng.shuffle(x)
    a, b = np.round(rng.uniform(-5, 5, 2), 2)
    y = a * x + b
    if noisy:
        y = y + rng.normal(0, 1, n)
    pa, pb = np.polyfit(x, y, 1) if noisy else (a, b)
    for f in (fit1d.linfit, fit1d.linfit2):
        assert_close(f(x, y), [pa, pb], f.__name__, rtol=1e-6, atol=1e-6)
    (sol1, e1), (sol2, e2) = fit1d.linfit(x, y, errors=True), fit1d.linfit2(x, y, errors=True)
    if noisy:
        res = y - pa * x - pb
        s2 = (res ** 2).sum() / (n - 2)
        cov = s2 * np.linalg.inv(np.array([[(x * x).sum(), x.sum()], [x.sum(), n]]))
        assert_close(e1, np.sqrt(np.diag(cov)), "linfit errors", rtol=1e-5)
        assert_close(e2, np.sqrt(np.diag(cov)), "linfit2 errors", rtol=1e-4, atol=1e-5)
    assert_close(sol1, [pa, pb], "linfit with errors", rtol=1e-6, atol=1e-6)
    assert_close(sol2, [pa, pb], "linfit2 with errors", rtol=1e-6, atol=1e-6)
    # missing values
    xn = np.concatenate([x, rng.uniform(-5, 5, nnan)])
    yn = np.concatenate([y, np.full(nnan, np.nan)])
    p = rng.permutation(n + nnan)
    for f in (fit1d.nanlinfit, fit1d.nanlinfit2):
        assert_close(f(xn[p], yn[p]), [pa, pb], f.__name__, rtol=1e-6, atol=1e-6)
    # through the origin
    y0 = y - b
    m0 = (x * y0).sum() / (x * x).sum()
    assert_close(fit1d.linfit_zerointercept(x, y0), m0, "zero intercept")
    assert_close(fit1d.linfit_zerointercept2(x, y0), m0, "zero intercept (2)")
    (m1, s1), (m2, s2) = (
        fit1d.linfit_zerointercept(x, y0, errors=True),
        fit1d.linfit_zerointercept2(x, y0, errors=True),
    )
    assert_close([m1, m2], [m0, m0], "zero intercept with errors")
    rec.case(("line", seed, n, noisy, nnan), nontrivial=noisy or nnan > 0)


@check(quick=200, thorough=4000)
@given(seed=SEED, twod=st.booleans(), scale=st.sampled_from([1, 0.1, 10, 0.37]),
       off=st.sampled_from([0, -3.35, 100]))
def peaks(seed, twod, scale, off):
    """Noise-free gaussian in any coordinates"""
    rng = rng_of(seed)
    if twod:
        ny, nx = rng.randint(18, 26, 2)
        x = off + scale * np.arange(nx)[None, :] * np.ones((ny, 1))
        y = -off / 2 + 2 * scale * np.arange(ny)[:, None] * np.ones((1, nx))
        p = [
            off + scale * rng.uniform(0.35, 0.65) * nx,
            -off / 2 + 2 * scale * rng.uniform(0.35, 0.65) * ny,
            scale * rng.uniform(2, 3.5),
            2 * scale * rng.uniform(2, 3.5),
            rng.uniform(-0.4, 0.4),
            rng.uniform(1, 100) * scale * scale,
        ]
        # the model itself: integral and moments
        data = fit2d.gaussian(x, y, *p)
        mvn = scipy.stats.multivariate_normal(
            p[:2], [[p[2] ** 2, p[4] * p[2] * p[3]], [p[4] * p[2] * p[3], p[3] ** 2]]
        )
        assert_close(data, p[5] * mvn.pdf(np.dstack([x, y])), "2D gaussian", atol=1e-12)
        fitted, ok = fit2d.fitgaussian(x, y, data)
        fitted[2:4] = np.abs(fitted[2:4])
    else:
        n = rng.randint(20, 60)
        x = off + scale * np.arange(n)
        p = [
            off + scale * rng.uniform(0.35, 0.65) * n,
            scale * rng.uniform(2, 5),
            rng.uniform(1, 100) * scale,
        ]
        data = fit1d.gaussian(x, *p)
        assert_close(data, p[2] * scipy.stats.norm(p[0], p[1]).pdf(x), "1D gaussian", atol=1e-12)
        fitted, ok = fit1d.fitgaussian(x, data)
        sgn = np.sign(fitted[1])
        fitted[1:] *= sgn
    assert ok, "fit did not converge"
    assert_close(fitted, p, "peak parameters", rtol=1e-3, atol=1e-3 * scale)
    rec.case(("peak", seed, twod, scale, off), nontrivial=twod or scale != 1 or off != 0)


@check(quick=300, thorough=8000)
@given(seed=SEED, twod=st.booleans(), method=st.sampled_from(["max", "min", "centroid", "gaussmax"]))
def centers(seed, twod, method):
    """Position of a symmetric peak, following transposition, mirroring and translation"""
    rng = rng_of(seed)
    f = {"max": center.fmax, "min": center.fmin, "centroid": center.fcentroid,
         "gaussmax": center.fgaussmax}[method]
    if twod:
        shape = tuple(rng.randint(25, 41, 2))
        pos = np.array([rng.uniform(10, s - 11) for s in shape])
        g = np.indices(shape)
        r2 = ((g[0] - pos[0]) ** 2 + (g[1] - pos[1]) ** 2) / (2 * rng.uniform(3, 5) ** 2)
    else:
        shape = (rng.randint(25, 60),)
        pos = np.array([rng.uniform(10, shape[0] - 11)])
        r2 = (np.arange(shape[0]) - pos[0]) ** 2 / (2 * rng.uniform(3, 5) ** 2)
    data = rng.uniform(1, 50) * np.exp(-r2)
    if method == "min":
        data = -data
    data0 = data.copy()
    got = np.atleast_1d(f(data))
    assert got.shape == pos.shape, "shape of the position"
    tol = 0.5 + 1e-9 if method in ("max", "min") else (0.5 if method == "centroid" else 1e-2)
    assert np.abs(got - pos).max() <= tol, "%s at %r instead of %r" % (method, got, pos)
    if method in ("max", "min"):
        nan = data.copy()
        nan.flat[0] = np.nan
        assert np.array_equal(np.atleast_1d(f(nan)), got), "missing value changes the position"
    if twod:
        gt = np.atleast_1d(f(data.T.copy()))
        assert np.abs(gt - got[::-1]).max() < 1e-2, "transposed image"
    gm = np.atleast_1d(f(data[::-1].copy()))
    assert abs(gm[0] - (shape[0] - 1 - got[0])) < 1e-2, "mirrored image"
    assert np.array_equal(data, data0), "data modified"
    rec.case(("center", seed, twod, method), nontrivial=twod)


@check(quick=300, thorough=8000)
@given(seed=SEED, kind=st.sampled_from(["plane", "ellipsoid", "cylinder"]), ndim=st.integers(2, 3))
def surfaces(seed, kind, ndim):
    """Zero on the surface, opposite signs on both sides, in any frame"""
    rng = rng_of(seed)
    x0 = np.round(rng.uniform(-5, 5, ndim), 2)
    if kind == "plane":
        u = rng.normal(size=ndim) * rng.uniform(0.1, 5)
        A = quadrics.plane(x0, u)
        t = rng.normal(size=ndim)
        t -= t.dot(u) / u.dot(u) * u
        on, inside, outside = x0 + t, x0 + t - u, x0 + t + u
        value = lambda x: (x - x0).dot(u)
    elif kind == "ellipsoid" or ndim == 2:
        kind = "ellipsoid"
        a = rng.uniform(0.3, 4, ndim)
        A = quadrics.ellipsoid(x0, a)
        d = rng.normal(size=ndim)
        d /= np.linalg.norm(d)
        on, inside, outside = x0 + a * d, x0 + a * d * 0.7, x0 + a * d * 1.4
        value = lambda x: (((x - x0) / a) ** 2).sum() - 1
    else:
        axis = rng.randint(0, 3)
        ind = [i for i in range(3) if i != axis]
        a = rng.uniform(0.3, 4, 2)
        A = quadrics.cylinder(x0[ind], a, axis)
        phi = rng.uniform(0, 2 * np.pi)
        d = a * np.array([np.cos(phi), np.sin(phi)])
        h = rng.uniform(-20, 20)

        def at(s):
            p = np.zeros(3)
            p[ind] = x0[ind] + s * d
            p[axis] = h
            return p

        on, inside, outside = at(1), at(0.7), at(1.4)
        value = lambda x: (((x[ind] - x0[ind]) / a) ** 2).sum() - 1
    assert np.allclose(A, A.T), "symmetric"

    def ev(Q, x):
        xh = np.append(x, 1)
        return xh.dot(Q).dot(xh)

    for x in (on, inside, outside, rng.uniform(-5, 5, ndim)):
        assert_close(ev(A, x), value(x), "%s: value" % kind)
    assert ev(A, inside) < 0 < ev(A, outside), "sides"
    # change of frame x = C.x'
    C = np.eye(ndim + 1)
    C[:ndim, :ndim] = np.linalg.qr(rng.normal(size=(ndim, ndim)))[0]
    C[:ndim, ndim] = rng.uniform(-5, 5, ndim)
    B = quadrics.change_of_frame(A, C)
    Ci = np.linalg.inv(C)
    for x in (on, inside, outside):
        xp = Ci.dot(np.append(x, 1))[:ndim]
        assert abs(ev(B, xp) - ev(A, x)) < 1e-6 * (1 + abs(A).max() * 100), "change of frame"
    D = np.eye(ndim + 1)
    D[:ndim, ndim] = rng.uniform(-5, 5, ndim)
    assert np.allclose(
        quadrics.change_of_frame(B, D), quadrics.change_of_frame(A, C.dot(D)), atol=1e-6
    ), "two changes of frame"
    rec.case(("quadric", seed, kind, ndim), nontrivial=ndim == 3)


@check(quick=150, thorough=3000)
@given(k=st.floats(0.1, 6), q=st.lists(st.floats(0.001, 0.999), min_size=1, max_size=6),
       loc=st.sampled_from([0, -2, 10]), scale=st.sampled_from([1, 0.5, 3]),
       sign=st.sampled_from([1, -1]))
def truncated(k, q, loc, scale, sign):
    rv = distributions.limitednorm(sign * k)
    rv = rv if (loc, scale) == (0, 1) else None
    q = np.array(sorted(q))
    ref = scipy.stats.truncnorm(-k, k, loc=loc, scale=scale)
    g = distributions.truncnorm_gen(name="limitednorm")(a=-k, b=k, loc=loc, scale=scale)
    for d in [g] + ([rv] if rv else []):
        x = d.ppf(q)
        assert_close(x, ref.ppf(q), "quantiles", rtol=1e-6, atol=1e-6)
        assert_close(d.cdf(x), q, "cdf(ppf)", rtol=1e-6, atol=1e-6)
        assert_close(d.pdf(x), ref.pdf(x), "density", rtol=1e-6)
        edge = np.array([loc - k * scale, loc + k * scale])
        assert_close(d.cdf(edge), [0, 1], "limits", atol=1e-9)
        assert_close(d.pdf(edge + np.array([-1, 1])), [0, 0], "density outside")
        assert_close(d.mean(), ref.mean(), "mean", atol=1e-6)
        assert_close(d.var(), ref.var(), "variance", rtol=1e-5, atol=1e-6)
    rec.case(("dist", k, tuple(q), loc, scale), nontrivial=len(q) > 1)


@check(quick=500, thorough=15000)
@given(
    x=st.one_of(
        st.floats(1e-6, 1e6), st.floats(-1e6, -1e-6), st.integers(1, 10 ** 6),
        st.tuples(st.integers(1, 99), st.integers(-5, 5)).map(lambda t: t[0] * 10.0 ** t[1]),
    ),
    sig=st.integers(1, 6), seed=SEED, data=st.data(),
)
def rounding(x, sig, seed, data):
    n = mutils.sig_to_ndigits(x, sig)
    e = int(math.floor(math.log10(abs(x))))
    assert n == sig - 1 - e, "digits"
    step = 10.0 ** (-n)
    eps = step * 1e-5
    lo, hi, r = mutils.floor_sig(x, sig), mutils.ceil_sig(x, sig), mutils.round_sig(float(x), sig)
    assert x - step - eps <= lo <= x + eps, "floor to %d digits of %r: %r" % (sig, x, lo)
    assert x - eps <= hi <= x + step + eps, "ceil to %d digits of %r: %r" % (sig, x, hi)
    assert abs(r - x) <= step / 2 + eps, "round to %d digits of %r: %r" % (sig, x, r)
    for v in (lo, hi, r):
        q = v / step
        assert abs(q - round(q)) < 1e-4, "%r is not rounded to %d digits" % (v, sig)
    s = ("{" + mutils.floatformat(x, sig) + "}").format(x)
    assert abs(float(s) - x) <= step / 2 + eps, "format of %r with %d digits: %s" % (x, sig, s)
    rng = rng_of(seed)
    # integers in proportion
    fr = [
        Fraction(data.draw(st.integers(1, 30)), data.draw(st.integers(1, 12)))
        for _ in range(data.draw(st.integers(1, 4)))
    ]
    ints = mutils.roundlist([float(f) for f in fr], max_denominator=100)
    assert all(Fraction(int(i), int(ints[0])) == f / fr[0] for i, f in zip(ints, fr)), "roundlist"
    # least common multiple
    nums = data.draw(st.lists(st.integers(1, 40), min_size=1, max_size=5))
    l = mutils.lcm(nums)
    assert all(l % i == 0 for i in nums), "lcm is no multiple"
    for p in range(2, 41):
        if l % p == 0:
            assert any((l // p) % i for i in nums), "lcm not the least"
    # weighted mean
    k = data.draw(st.integers(1, 6))
    v, w = np.round(rng.uniform(-5, 5, k), 2), np.round(rng.uniform(0.1, 5, k), 2)
    assert_close(mutils.weightedsum(v, w), np.average(v, weights=w), "weighted mean")
    assert_close(mutils.weightedsum(v), v.mean(), "mean")
    assert mutils.weightedsum(3.5, w) == 3.5, "scalar"
    # logarithmic scale: 0 for the smallest, 1 for the largest, increasing
    img = rng.uniform(0.1, 100, (3, 4))
    ls = mutils.logscale(img)
    assert abs(ls.max() - 1) < 1e-12 and abs(ls.min()) < 1e-12, "log scale limits"
    o = np.argsort(img.ravel())
    assert (np.diff(ls.ravel()[o]) >= 0).all(), "log scale order"
    expected = np.log(img / img.min()) / np.log(img.max() / img.min())
    assert_close(ls, expected, "log scale")
    rec.case(("round", x, sig, tuple(fr), tuple(nums), seed), nontrivial=len(nums) > 1 and len(fr) > 1)


@check(quick=300, thorough=8000)
@given(seed=SEED, n=st.integers(0, 30), nout=st.integers(0, 4), nsigma=st.sampled_from([1, 3, 5]),
       pdf=st.sampled_from(["normal", "other"]), const=st.booleans())
def outliers(seed, n, nout, nsigma, pdf, const):
    rng = rng_of(seed)
    x = np.full(n, 2.0) if const else np.round(rng.normal(0, 1, n), 3)
    if n:
        x[rng.randint(0, n, min(n, 2))] += 30
    x0 = x.copy()
    r = statistics.outlierdetection(x, nsigma, pdf=pdf)
    assert r.dtype == bool and r.shape == x.shape, "mask"
    if n:
        med = np.median(x)
        mad = np.median(np.abs(x - med)) * (1.4826 if pdf == "normal" else 1)
        exp = np.abs(x - med) > nsigma * mad if mad else np.zeros(n, dtype=bool)
        safe = np.abs(np.abs(x - med) - nsigma * mad) > 1e-9
        assert np.array_equal(r[safe], exp[safe]), "outliers"
        # invariant for shift, scale, order
        p = rng.permutation(n)
        assert np.array_equal(statistics.outlierdetection(x[p], nsigma, pdf=pdf)[safe[p]], r[p][safe[p]])
        r2 = statistics.outlierdetection(4 * x + 8, nsigma, pdf=pdf)
        assert np.array_equal(r2[safe], r[safe]), "scaled"
    f = statistics.outlierdetection(x, nsigma, pdf=pdf, noutliers=nout)
    if nout:
        assert f.sum() == min(nout, n), "number of outliers"
        if 0 < nout < n:
            d = np.abs(x - np.median(x))
            assert d[f].min() >= d[~f].max() - 1e-12, "not the furthest"
    else:
        assert np.array_equal(f, r)
    assert np.array_equal(x, x0), "input modified"
    rec.case(("outlier", seed, n, nout, nsigma, pdf, const), nontrivial=n > 3)
