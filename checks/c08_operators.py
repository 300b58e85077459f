"""C08: operator algebra against step by step application."""
import operator
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.math import linop, lazy
from spectrocrunch.utils import units

rule(
    "Programs of up to 6 elementary operators (linear with dyadic coefficients so arithmetic "
    "is exact, clip, NaN-clip with one- or two-sided, possibly disjoint limits, identity, "
    "None, lambda pairs) composed in a random association with powers and inverses. "
    "Non-trivial: at least 2 different kinds. Lazy expressions: trees of depth up to 4."
)

DYADIC = st.sampled_from([0.25, 0.5, 1.0, 2.0, 4.0, -0.25, -0.5, -1.0, -2.0, -4.0])
VAL = st.integers(-64, 64).map(lambda i: i / 4.0)
LIM = st.one_of(st.none(), VAL)


def elementary(zero=False):
    m = st.one_of(DYADIC, st.just(0.0)) if zero else DYADIC
    lin = st.tuples(st.just("lin"), m, VAL)
    return st.one_of(
        lin,
        lin,
        st.tuples(st.just("clip"), LIM, LIM),
        st.tuples(st.just("nclip"), LIM, LIM),
        st.just(("id",)),
        st.just(("none",)),
        st.just(("lambda",)),
    )


def make(e):
    if e[0] == "lin":
        return linop.LinearOperator(e[1], e[2])
    if e[0] == "clip":
        return linop.Clip(e[1], e[2])
    if e[0] == "nclip":
        return linop.NaNClip(e[1], e[2])
    if e[0] == "id":
        return linop.Identity()
    if e[0] == "none":
        return None
    return linop.Lambda("neg3", "ineg3", lambda x: 3 - x, lambda x: 3 - x)


def forward(e, x):
    """Definition of the elementary operators."""
    x = np.array(x, dtype=float)
    if e[0] == "lin":
        return e[1] * x + e[2]
    if e[0] == "clip":
        lo, hi = e[1], e[2]
        if lo is not None and hi is not None and lo > hi:
            return np.full(x.shape, np.nan)
        with np.errstate(invalid="ignore"):
            if lo is not None:
                x[x < lo] = lo
            if hi is not None:
                x[x > hi] = hi
        return x
    if e[0] == "nclip":
        with np.errstate(invalid="ignore"):
            if e[1] is not None:
                x[x < e[1]] = np.nan
            if e[2] is not None:
                x[x > e[2]] = np.nan
        return x
    if e[0] == "lambda":
        return 3 - x
    return x


def inverse(e, y):
    y = np.array(y, dtype=float)
    if e[0] == "lin":
        return (y - e[2]) / e[1]
    if e[0] in ("clip", "nclip"):
        return forward(("nclip", e[1], e[2]), y)
    return forward(e, y)


def combine(ops, splits):
    """op_n * ... * op_1 with random association."""
    items = list(ops)
    if not items:
        return linop.Identity()
    k = 0
    while len(items) > 1:
        i = splits[k % len(splits)] % (len(items) - 1)
        k += 1
        left, right = items[i + 1], items[i]
        if left is None and right is None:
            items[i : i + 2] = [None]
        else:
            items[i : i + 2] = [left * right]
    return items[0] if items[0] is not None else linop.Identity()


PROGRAM = st.lists(elementary(), min_size=1, max_size=6)
SPLITS = st.lists(st.integers(0, 10), min_size=1, max_size=6)
POINTS = st.lists(st.integers(-120, 120).map(lambda i: i / 4.0 + 0.125), min_size=1, max_size=5)


def same(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True)


def clippoints(program):
    return [v for e in program if e[0] in ("clip", "nclip") for v in e[1:] if v is not None]


@check(quick=5000, thorough=100000, shards={"quick": 3, "thorough": 8})
@given(PROGRAM, SPLITS, POINTS)
def composition(program, splits, points):
    kinds = {e[0] for e in program}
    rec.case((program, splits, points), nontrivial=len(kinds) > 1)
    for k in kinds:
        rec.label(k)
    op = combine([make(e) for e in program], splits)
    x = np.array(points + clippoints(program))
    y = x
    for e in program:
        y = forward(e, y)
    assert same(op(x), y), (op, x, op(x), y)
    # scalar evaluation equals array evaluation
    ys = op(float(x[0]))
    assert np.ndim(ys) == 0 and same(ys, y[0])
    # inverse: undo the last operation first
    z = x
    for e in reversed(program):
        z = inverse(e, z)
    assert same(op.inverse(x), z), (op.inverse, x, op.inverse(x), z)
    # roundtrip where it is invertible
    linear = not kinds & {"clip", "nclip"}
    if linear:
        assert same(op.inverse(op(x)), x)
        assert same(op.inverse.inverse(x), op(x))
        rec.label("invertible")
    else:
        r = op.inverse(op(x))
        ok = ~np.isnan(r)
        inside = np.ones(x.shape, bool)
        t = x
        for e in program:
            u = forward(e, t)
            if e[0] in ("clip", "nclip"):
                inside &= u == t
            t = u
        assert np.allclose(r[inside], x[inside])
    str(op), repr(op)


@check(quick=1500, thorough=20000, shards={"quick": 1, "thorough": 4})
@given(st.lists(elementary(zero=True), min_size=1, max_size=5), SPLITS, POINTS)
def composition_constant(program, splits, points):
    """Including operators that map everything to a constant (no inverse)."""
    rec.case((program, splits, points), nontrivial=any(e[0] == "lin" and e[1] == 0 for e in program))
    op = combine([make(e) for e in program], splits)
    x = np.array(points + clippoints(program))
    y = x
    for e in program:
        y = forward(e, y)
    assert same(op(x), y), (op, x, op(x), y)


@check(quick=1500, thorough=20000, shards={"quick": 1, "thorough": 4})
@given(DYADIC, VAL, st.integers(0, 5), POINTS, st.one_of(st.none(), elementary()))
def power(m, b, p, points, right):
    rec.case((m, b, p, points, right), nontrivial=p > 1)
    op = linop.LinearOperator(m, b)
    program = [("lin", m, b)]
    if right is not None:
        op = op * make(right)
        program = [right] + program
    x = np.array(points)
    y = x
    for _ in range(p):
        for e in program:
            y = forward(e, y)
    if right is not None and not isinstance(op, linop.LinearOperator):
        return
    assert same((op**p)(x), y), (op, p, (op**p)(x), y)


@check(quick=1500, thorough=20000, shards={"quick": 1, "thorough": 4})
@given(elementary(), elementary(), elementary(), POINTS)
def equality(e1, e2, e3, points):
    """Operators that compare equal act equally, identical ones compare equal."""
    a, b = make(e1), make(e2)
    c, d = make(e3), make(e3)
    assume(None not in (a, b, c) and "lambda" not in (e1[0], e2[0], e3[0]))
    rec.case((e1, e2, e3), nontrivial=e1 != e2)
    assert make(e1) == a and not (make(e1) != a)
    x = np.array(points + clippoints([e1, e2, e3]) + [0.5])
    for p, q in [(a, b), (c * a, d * b), (a * c, b * d)]:
        if p == q:
            assert not (p != q)
            assert same(p(x), q(x)), (p, q)
        else:
            assert p != q


@check(quick=800, thorough=10000, shards={"quick": 1, "thorough": 4})
@given(PROGRAM, SPLITS, POINTS)
def with_units(program, splits, points):
    """Same algebra on quantities."""
    assume("lambda" not in {e[0] for e in program})

    def q(v):
        return v if v is None else units.Quantity(v, "keV")

    ops = []
    for e in program:
        if e[0] == "lin":
            ops.append(linop.LinearOperator(e[1], q(e[2])))
        elif e[0] in ("clip", "nclip"):
            ops.append(make((e[0], q(e[1]), q(e[2]))))
        else:
            ops.append(make(e))
    kinds = {e[0] for e in program}
    assume(not kinds & {"clip", "nclip"})
    rec.case((program, points), nontrivial=len(kinds) > 1)
    op = combine(ops, splits)
    x = np.array(points)
    y = x
    for e in program:
        y = forward(e, y)
    assert same(op(units.Quantity(x * 1000, "eV")).to("keV").magnitude, y)


# ---------------------------------------------------------------- lazy functions
BIN = {
    "mul": operator.mul, "truediv": operator.truediv, "floordiv": operator.floordiv,
    "mod": operator.mod, "add": operator.add, "sub": operator.sub, "pow": operator.pow,
    "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge,
    "eq": operator.eq, "ne": operator.ne, "divmod": divmod,
    "and": operator.and_, "or": operator.or_,
}
UN = {"neg": operator.neg, "pos": operator.pos, "abs": operator.abs}
ARITH = ["mul", "truediv", "floordiv", "mod", "add", "sub", "pow"]

lleaf = st.one_of(
    st.sampled_from([("f", "x"), ("f", "y"), ("f", "xy")]),
    st.integers(-3, 5).map(lambda v: ("c", v)),
)
ltree = st.recursive(
    lleaf,
    lambda c: st.one_of(
        st.tuples(st.sampled_from(ARITH), c, c),
        st.tuples(st.sampled_from(ARITH), c, c),
        st.tuples(st.sampled_from(["neg", "abs", "pos"]), c),
    ),
    max_leaves=8,
)
FUNCS = {
    "x": lambda x, y=1: x,
    "y": lambda x, y=1: y,
    "xy": lambda x, y=1: x * y + 1,
}


def lbuild(t):
    if t[0] == "f":
        return lazy.Function(FUNCS[t[1]], name=t[1])
    if t[0] == "c":
        return t[1]
    if t[0] in UN:
        return UN[t[0]](lbuild(t[1]))
    return BIN[t[0]](lbuild(t[1]), lbuild(t[2]))


def leval(t, x, y):
    if t[0] == "f":
        return FUNCS[t[1]](x, y)
    if t[0] == "c":
        return t[1]
    if t[0] in UN:
        return UN[t[0]](leval(t[1], x, y))
    return BIN[t[0]](leval(t[1], x, y), leval(t[2], x, y))


def attempt(func):
    try:
        return "value", func()
    except (ZeroDivisionError, OverflowError, TypeError, ValueError) as e:
        return "error", type(e).__name__


@check(quick=4000, thorough=60000, shards={"quick": 2, "thorough": 8})
@given(
    ltree,
    st.sampled_from([None] * 3 + ["lt", "le", "gt", "ge", "eq", "ne", "divmod", "and", "or"]),
    ltree,
    st.integers(-4, 4),
    st.integers(-4, 4),
)
def lazy_expression(t, top, t2, x, y):
    if top in ("and", "or"):
        t = ("lt", t, ("f", "x"))
        t2 = ("ge", ("f", "y"), t2)
    tree = (top, t, t2) if top else t

    def depth(t):
        return 0 if t[0] in "fc" and len(t) == 2 and t[0] in ("f", "c") else 1 + max(map(depth, t[1:]))

    expected = attempt(lambda: leval(tree, x, y))
    big = expected[0] == "value" and isinstance(expected[1], (int, float)) and abs(expected[1]) > 1e200
    assume(not big)
    f = attempt(lambda: lbuild(tree))
    if f[0] == "error":
        # constant sub-expression, evaluated at once
        assert expected[0] == "error"
        rec.case((tree, x, y), nontrivial=False)
        return
    f = f[1]
    islazy = isinstance(f, lazy.Function)
    rec.case((tree, x, y), nontrivial=islazy and depth(tree) > 1)
    if not islazy:
        assert "f" not in str(tree).replace("floordiv", "").replace("'f'", "f") or f == expected[1]
        return
    rec.label(tree[0])
    for call in (lambda: f(x, y), lambda: f(x, y=y)):
        r = attempt(call)
        if expected[0] == "error":
            assert r[0] == "error"
        else:
            assert r[0] == "value" and type(r[1]) == type(expected[1])
            assert r[1] == expected[1] or r[1] != r[1], (r, expected)
    assert isinstance(str(f), str)
