"""C01: indexing of lazily stacked data == numpy indexing of the stacked array."""
import os
import numpy as np
import h5py
from vh import st, given, assume, check, rec, rule, scratchdir, known
from spectrocrunch.utils import indexing

rule(
    "Random stack shapes (1-5 dims, sizes 1-5), stack axis (negative too) and index "
    "expressions (ints, slices with any start/stop/step, int and bool lists, Ellipsis, "
    "newaxis, non-tuple and short tuples). Non-trivial: the index changes the data "
    "(not a full selection) and the stack has more than one element."
)


@st.composite
def shapes(draw, mindim=2, maxdim=5, maxsize=5):
    ndim = draw(st.integers(mindim, maxdim))
    return tuple(draw(st.lists(st.integers(1, maxsize), min_size=ndim, max_size=ndim)))


@st.composite
def slices(draw, n, negstep=True):
    lo = -n - 2
    start = draw(st.one_of(st.none(), st.integers(lo, n + 2)))
    stop = draw(st.one_of(st.none(), st.integers(lo, n + 2)))
    steps = [None, 1, 2, 3] + ([-1, -2] if negstep else [])
    step = draw(st.sampled_from(steps))
    return slice(start, stop, step)


@st.composite
def indices(
    draw, shape, newaxis=True, advanced=True, negstep=True, unique=False, intneg=True
):
    """Valid numpy index (per numpy's own rules) of the kinds the code supports."""
    ndim = len(shape)
    ntaken = draw(st.sampled_from([ndim] * 4 + list(range(ndim))))
    ell = draw(st.booleans()) if ntaken < ndim else draw(st.sampled_from([False] * 4 + [True]))
    before = draw(st.integers(0, ntaken)) if ell else ntaken
    if ell and ntaken == ndim and advanced:
        # known finding C01 F1: an ellipsis that stands for no dimension between
        # advanced indices (numpy moves the list dimension to the front)
        if before not in (0, ntaken):
            rec.exclude()
            before = 0
    dims = list(range(before)) + list(range(ndim - (ntaken - before), ndim))
    nadv = None
    index = []
    kinds = ["int", "slice", "full", "slice"]
    if advanced:
        kinds += ["ilist", "blist", "ilist"]
    for k, d in enumerate(dims):
        if ell and k == before:
            index.append(Ellipsis)
        n = shape[d]
        kind = draw(st.sampled_from(kinds))
        if kind == "int":
            index.append(draw(st.integers(-n if intneg else 0, n - 1)))
        elif kind == "slice":
            index.append(draw(slices(n, negstep=negstep)))
        elif kind == "full":
            index.append(slice(None))
        elif kind == "ilist":
            if nadv is None:
                nadv = draw(st.integers(0, 4))
            if unique and nadv > n:
                index.append(slice(None))
                continue
            index.append(
                draw(
                    st.lists(
                        st.integers(0, n - 1) if unique else st.integers(-n, n - 1),
                        min_size=nadv,
                        max_size=nadv,
                        unique=unique,
                    )
                )
            )
        else:
            mask = draw(st.lists(st.booleans(), min_size=n, max_size=n))
            if nadv is None:
                nadv = sum(mask)
            if sum(mask) != nadv:
                index.append(slice(None))
                continue
            index.append(mask)
    if ell and before == len(dims):
        index.append(Ellipsis)
    if newaxis and draw(st.booleans()):
        for _ in range(draw(st.integers(1, 2))):
            index.insert(draw(st.integers(0, len(index))), np.newaxis)
    if len(index) == 1 and draw(st.booleans()):
        return index[0]
    return tuple(index)


def npindex(index):
    return index


def aslist(index):
    return index if isinstance(index, tuple) else (index,)


def hasadv(index):
    return any(isinstance(i, list) for i in aslist(index))


def trivial(data, index):
    r = data[index]
    return data.size <= 1 or (r.shape == data.shape and np.array_equal(r, data))


def classify(index):
    idx = aslist(index)
    nl = sum(isinstance(i, list) for i in idx)
    rec.label("lists=%d" % min(nl, 3))
    if any(isinstance(i, list) and i and isinstance(i[0], bool) for i in idx):
        rec.label("mask")
    if any(i is np.newaxis for i in idx):
        rec.label("newaxis")
    if any(isinstance(i, int) for i in idx):
        rec.label("int")


@st.composite
def stacks(draw, maxdim=4, **kw):
    shape = draw(shapes(2, maxdim))
    axis = draw(st.integers(-len(shape), len(shape) - 1))
    index = draw(indices(shape, **kw))
    return shape, axis, index


def pieces(shape, axis):
    data = np.arange(int(np.prod(shape)), dtype=int).reshape(shape) + 1
    n = shape[axis]
    lst = [np.take(data, i, axis=axis) for i in range(n)]
    return data, lst


@check(quick=6000, thorough=120000, shards={"quick": 3, "thorough": 16})
@given(stacks())
def getitem(args):
    shape, axis, index = args
    data, lst = pieces(shape, axis)
    expected = data[index]
    rec.case(args, nontrivial=not trivial(data, index))
    classify(index)
    result = indexing.getitem(
        lambda i: lst[i], list(range(len(lst))), index, data.ndim, shapefull=data.shape, axis=axis
    )
    result = np.asarray(result)
    assert result.shape == expected.shape, (result.shape, expected.shape)
    assert np.array_equal(result, expected)


@check(quick=4000, thorough=60000, shards={"quick": 2, "thorough": 8})
@given(shapes(2, 5).flatmap(lambda s: st.tuples(st.just(s), indices(s))))
def predicted_shape(args):
    shape, index = args
    data = np.arange(int(np.prod(shape))).reshape(shape)
    expected = data[index]
    rec.case(args, nontrivial=not trivial(data, index))
    assert tuple(indexing.shape_afterindexing(shape, index)) == expected.shape
    # axis order: axes with distinct strides identify the origin of each dimension
    full = indexing.expand(index, data.ndim)
    assert np.array_equal(data[full], expected)
    axes, indexnonew = indexing.axesorder_afterindexing(index, data.ndim)
    assert len(axes) == expected.ndim
    # removing new axes and adding them afterwards
    index2, ops = indexing.extract_newaxis(full if isinstance(full, tuple) else (full,))
    assert not any(i is np.newaxis for i in index2)
    assert np.array_equal(ops(data[index2]), expected)
    assert ops(data[index2]).shape == expected.shape
    # nonchanging is exact on full knowledge
    index3 = full if isinstance(full, tuple) else (full,)
    if not any(i is np.newaxis for i in index3):
        if indexing.nonchanging(index3, shape):
            assert np.array_equal(expected, data)


@check(quick=4000, thorough=60000, shards={"quick": 2, "thorough": 8})
@given(shapes(2, 4, maxsize=4).flatmap(lambda s: st.tuples(st.just(s), indices(s))))
def axes_order(args):
    """Origin of each axis after indexing, decided by moving one coordinate."""
    shape, index = args
    ndim = len(shape)
    axes, indexnonew = indexing.axesorder_afterindexing(index, ndim)
    coords = np.meshgrid(*[np.arange(n) for n in shape], indexing="ij")
    res = [c[index] for c in coords]
    out = res[0].shape
    rec.case(args, nontrivial=any(n > 1 for n in out))
    assert len(axes) == len(out)
    seen = []
    for j, origin in enumerate(axes):
        if isinstance(origin, (list, tuple)):
            seen += list(origin)
            continue
        if origin < 0:
            assert out[j] == 1  # new axis
            continue
        seen.append(origin)
        # only coordinate "origin" varies along axis j
        for d in range(ndim):
            if out[j] > 1 and 0 not in out:
                varies = np.any(np.diff(res[d], axis=j) != 0)
                assert varies == (d == origin), (axes, d, j)
    assert len(set(seen)) == len(seen)
    kept = {
        d
        for d, i in enumerate([i for i in indexing.expand(index, ndim) if i is not np.newaxis]
                              if isinstance(indexing.expand(index, ndim), tuple)
                              else [indexing.expand(index, ndim)])
        if not isinstance(i, int)
    }
    assert set(seen) == kept


@check(quick=4000, thorough=60000, shards={"quick": 3, "thorough": 8})
@given(
    stacks(unique=True),
    st.sampled_from(["set", "add", "sub", "mul", "div", "and", "or"]),
    st.booleans(),
    st.integers(1, 5),
)
def setitem(args, method, scalar, v):
    shape, axis, index = args
    data, _ = pieces(shape, axis)
    if method == "div":
        data = data.astype(float)
    real = data.copy()
    model = data.copy()
    expected = model[index]
    rec.case((args, method, scalar, v), nontrivial=expected.size > 0)
    classify(index)
    if scalar:
        value = v
    else:
        value = (np.arange(expected.size).reshape(expected.shape) % 7) + v
    if method == "set":
        model[index] = value
    elif method == "add":
        model[index] += value
    elif method == "sub":
        model[index] -= value
    elif method == "mul":
        model[index] *= value
    elif method == "div":
        model[index] /= value
    elif method == "and":
        model[index] &= value
    elif method == "or":
        model[index] |= value
    ax = axis % data.ndim

    def selector(i):
        return np.moveaxis(real, ax, 0)[i, ...]

    indexing.setitem(
        selector, list(range(shape[ax])), index, data.ndim, value,
        shapefull=data.shape, axis=axis, method=method,
    )
    assert np.array_equal(real, model), (real, model)


@check(quick=3000, thorough=50000, shards={"quick": 2, "thorough": 8})
@given(
    shapes(2, 4).flatmap(
        lambda s: st.tuples(
            st.just(s),
            indices(s, newaxis=False),
            st.lists(st.integers(-len(s), len(s) - 1), min_size=1, max_size=len(s) - 1,
                     unique_by=lambda a: a % len(s)),
        )
    )
)
def replacefull(args):
    """Full dimensions can be selected afterwards (dead time correction uses it)."""
    shape, index, fullaxes = args
    ndim = len(shape)
    data = np.arange(int(np.prod(shape))).reshape(shape)
    expected = data[index]
    rec.case(args, nontrivial=not trivial(data, index))
    pos = [a % ndim for a in fullaxes]
    indexfull = indexing.replacefull(index, ndim, fullaxes)
    ex = indexing.expand(index, ndim)
    ex = ex if isinstance(ex, tuple) else (ex,)
    for d in range(ndim):
        if d in pos:
            assert indexfull[d] == slice(None)
        else:
            assert indexfull[d] == ex[d]
    new = list(range(len(pos)))
    assert indexing.replace(index, ndim, fullaxes, new) == tuple(
        new[pos.index(d)] if d in pos else ex[d] for d in range(ndim)
    )
    indexfull2, post, single = indexing.replacefull_transform(
        index, fullaxes, ndim, restoreadvanced=False
    )
    assert indexfull2 == indexfull
    full = post(data[indexfull])
    # All elements of the indexed array, one (tuple of) full index at a time
    adv = [a for a in pos if isinstance(ex[a], list)]
    if adv or any(isinstance(i, list) for i in ex):
        rec.label("advanced")
    if adv:
        ilists = {a: list(np.arange(shape[a])[ex[a]]) for a in adv}
        # with list indices along the full dimensions: element i uses ilist[i]
        n = len(ilists[adv[0]])
        assume(all(isinstance(ex[a], list) or isinstance(ex[a], int) for a in pos))
        other = [d for d in range(ndim) if d not in pos and isinstance(ex[d], list)]
        sel = [[ilists[a][i] if a in adv else ex[a] for a in fullaxes_pos(pos)] for i in range(n)]
        parts = single(full, sel)
        for i in range(n):
            sub = tuple(
                (ilists[d][i] if d in adv else ex[d]) if d in pos else ex[d]
                for d in range(ndim)
            )
            ref = data[sub]
            if not other:
                assert parts[i].shape == ref.shape and np.array_equal(parts[i], ref)
        return
    ranges = []
    for a in pos:
        r = np.arange(shape[a])[ex[a]]
        ranges.append([int(x) for x in np.atleast_1d(r)])
    import itertools

    sel = list(itertools.product(*ranges))
    if not sel:
        return
    parts = single(full, [list(s) for s in sel])
    for s, part in zip(sel, parts):
        sub = list(ex)
        for a, i in zip(pos, s):
            if isinstance(ex[a], int):
                sub[a] = i
            else:
                sub[a] = slice(i, i + 1)
        ref = data[tuple(sub)]
        assert part.shape == ref.shape, (part.shape, ref.shape)
        assert np.array_equal(part, ref)


def fullaxes_pos(pos):
    return pos


@check(quick=3000, thorough=50000, shards={"quick": 1, "thorough": 8})
@given(shapes(2, 4).flatmap(lambda s: st.tuples(st.just(s), indices(s))))
def split_index(args):
    """Applying the dimension changing part first and the rest afterwards."""
    shape, index = args
    data = np.arange(int(np.prod(shape))).reshape(shape)
    ex = indexing.expand(index, data.ndim)
    ex = ex if isinstance(ex, tuple) else (ex,)
    expected = data[ex]
    rec.case(args, nontrivial=not trivial(data, ex))
    index1 = indexing.extract_dimchanging(ex)
    index2, _ = indexing.extract_dimnonchanging(ex)
    r = data[index1][index2]
    assert r.shape == expected.shape and np.array_equal(r, expected)


@known("F1")
def zero_length_ellipsis():
    data = np.arange(4).reshape(2, 2)
    index = (np.newaxis, 0, Ellipsis, [0, 1, 1])
    return indexing.shape_afterindexing(data.shape, index) != data[index].shape
