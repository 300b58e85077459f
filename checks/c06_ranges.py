"""C06: index ranges, partitions, list helpers against elementary models."""
import itertools
import collections
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.utils import roi, listtools, integerbase, instance
from spectrocrunch.math import slicing

rule(
    "Random shapes, ranges (inside, outside, negative, open), intervals, chunk thresholds, "
    "lists and integers in any base. Non-trivial: the range cuts something, intervals "
    "touch/overlap, more than one chunk, lists with repeats."
)


@st.composite
def rois(draw):
    ndim = draw(st.integers(1, 4))
    shape = draw(st.lists(st.integers(1, 8), min_size=ndim, max_size=ndim))
    r = []
    for n in shape:
        a = draw(st.one_of(st.none(), st.integers(-n - 3, n + 3)))
        b = draw(st.one_of(st.none(), st.integers(-n - 3, n + 3)))
        r.append((a, b))
    return tuple(shape), tuple(r)


@check(quick=3000, thorough=50000, shards={"quick": 1, "thorough": 4})
@given(rois())
def clip(args):
    shape, r = args
    clipped = roi.cliproi(shape, r)
    assert len(clipped) == len(shape)
    nontrivial = False
    for n, (a, b), (ca, cb) in zip(shape, r, clipped):
        assert 0 <= ca <= n and 0 <= cb <= n
        # the elements selected by slicing the dimension
        model = list(range(n))[slice(a, b)]
        real = list(range(n))[ca:cb]
        start = a if a is not None else 0
        if start < n:
            assert real == model, ((a, b), (ca, cb))
            nontrivial |= 0 < len(model) < n
        else:
            # nothing to select: at most the last element remains
            assert set(real) <= {n - 1}
        # clipping again changes nothing when something is selected
    rec.case(args, nontrivial=nontrivial)
    again = roi.cliproi(shape, clipped)
    for (n, c1, c2) in zip(shape, clipped, again):
        if c1[0] < c1[1]:
            assert list(c1) == list(c2)


@check(quick=200, thorough=2000)
@given(rois())
def clip_refuses(args):
    shape, r = args
    rec.case(args)
    try:
        roi.cliproi(shape + (3,), r)
    except ValueError:
        return
    assert False, "dimension mismatch accepted"


@check(quick=3000, thorough=50000, shards={"quick": 1, "thorough": 4})
@given(
    st.lists(
        st.tuples(st.integers(-20, 20), st.integers(0, 8)).map(lambda t: (t[0], t[0] + t[1])),
        max_size=8,
    ),
    st.booleans(),
)
def merge(intervals, half):
    if half:
        intervals = [(a / 2.0, b / 2.0) for a, b in intervals]
    given_ = list(intervals)
    out = list(roi.mergeroi1d(intervals))
    assert intervals == given_, "input modified"
    rec.case(intervals, nontrivial=1 < len(out) < len(intervals))
    for a, b in out:
        assert a <= b
    for (a, b), (c, d) in zip(out, out[1:]):
        assert b < c, "not disjoint or not sorted"
    grid = np.arange(-84, 140) / 4.0
    model = np.zeros(grid.size, bool)
    for a, b in intervals:
        model |= (grid >= a) & (grid <= b)
    real = np.zeros(grid.size, bool)
    for a, b in out:
        real |= (grid >= a) & (grid <= b)
    assert np.array_equal(model, real)
    assert {v for iv in out for v in iv} <= {v for iv in intervals for v in iv}
    # the result does not depend on the order
    assert list(roi.mergeroi1d(intervals[::-1])) == out
    assert list(roi.mergeroi1d(out)) == out


@check(quick=1500, thorough=20000, shards={"quick": 1, "thorough": 4})
@given(
    st.lists(st.integers(1, 6), min_size=1, max_size=4),
    st.sampled_from(["u1", "i2", "f4", "f8", "c16"]),
    st.integers(0, 3000),
)
def chunks(shape, dtype, nbytes):
    """Chunks visit every element once and in order, within the memory limit."""
    shape = tuple(shape)
    mb = nbytes / 1024.0**2
    data = np.arange(int(np.prod(shape))).reshape(shape)
    count = np.zeros(shape, int)
    visited = []
    for idx in slicing.slice_generator(shape, dtype, mb_threshold=mb):
        part = data[idx]
        count[idx] += 1
        visited.append(np.ravel(part))
    rec.case((shape, dtype, nbytes), nontrivial=len(visited) > 1)
    assert np.all(count == 1)
    sizes = {v.size for v in visited}
    assert len(sizes) == 1
    size = sizes.pop() * np.dtype(dtype).itemsize
    # a chunk that is larger than the limit is the smallest possible one
    assert size <= nbytes or size == shape[0] * np.dtype(dtype).itemsize
    # the largest admissible leading block is used
    if nbytes > 0:
        best = 0
        for k in range(1, len(shape) + 1):
            s = int(np.prod(shape[:k])) * np.dtype(dtype).itemsize
            if s <= nbytes:
                best = s
        if best:
            assert size == best


PAIRS = st.lists(st.tuples(st.integers(-4, 4), st.integers(-50, 50)), max_size=10)


@check(quick=2500, thorough=40000, shards={"quick": 1, "thorough": 4})
@given(PAIRS, st.sampled_from([list, tuple]))
def paired_lists(pairs, tp):
    k = tp(p[0] for p in pairs)
    v = tp(p[1] for p in pairs)
    rec.case(pairs, nontrivial=len(set(k)) < len(k))
    a, b = listtools.sort2lists(k, v)
    assert list(zip(a, b)) == sorted(zip(k, v), key=lambda t: t[0])
    a, b = listtools.unique2lists(k, v, add=True)
    model = collections.OrderedDict()
    for x, y in zip(k, v):
        model[x] = model.get(x, 0) + y
    assert list(zip(a, b)) == list(model.items())
    a, b = listtools.unique2lists(k, v)
    model = collections.OrderedDict()
    for x, y in zip(k, v):
        model.setdefault(x, y)
    assert list(zip(a, b)) == list(model.items())
    model = collections.Counter()
    for x, y in zip(k, v):
        model[x] += y
    a, b = listtools.sumrepeats(k, v)
    assert dict(zip(a, b)) == dict(model)
    assert list(listtools.unique_everseen(k)) == list(dict.fromkeys(k))
    assert list(listtools.unique_everseen(k, key=abs)) == list({abs(x): x for x in reversed(k)}.values())[::-1] or [
        abs(x) for x in listtools.unique_everseen(k, key=abs)
    ] == list(dict.fromkeys(abs(x) for x in k))


NEST = st.recursive(st.one_of(st.integers(0, 9), st.text(max_size=3)), lambda c: st.one_of(st.lists(c, max_size=4), st.lists(c, max_size=3).map(tuple)), max_leaves=15)


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


@check(quick=1500, thorough=20000, shards={"quick": 1, "thorough": 4})
@given(NEST)
def flatten(x):
    rec.case(x, nontrivial=isinstance(x, (list, tuple)) and any(isinstance(y, (list, tuple)) for y in x))
    assert list(listtools.flatten(x)) == flat(x)


@check(quick=2500, thorough=40000, shards={"quick": 1, "thorough": 4})
@given(st.lists(st.integers(0, 99), min_size=1, max_size=8), st.data())
def list_indexing(lst, data):
    n = len(lst)
    ind = data.draw(st.lists(st.integers(-n, n - 1), max_size=6))
    mask = data.draw(st.lists(st.booleans(), min_size=n, max_size=n))
    rec.case((lst, ind, mask), nontrivial=len(ind) > 1 and any(mask) and not all(mask))
    arr = np.array(lst)
    assert listtools.listadvanced(lst, mask) == arr[np.array(mask)].tolist()
    assert listtools.listadvanced_bool(lst, mask) == arr[np.array(mask)].tolist()
    assert listtools.listadvanced_bool(lst, mask, bnot=True) == arr[~np.array(mask)].tolist()
    assert listtools.listadvanced_int(lst, ind) == [lst[i] for i in ind]
    if ind:
        assert listtools.listadvanced(lst, ind) == arr[ind].tolist()
    assert listtools.where(lst, lambda v: v % 2 == 0) == [i for i, v in enumerate(lst) if v % 2 == 0]
    i = data.draw(st.integers(0, n - 1))
    j = data.draw(st.integers(0, n - 1))
    model = list(lst)
    model[i], model[j] = model[j], model[i]
    assert listtools.swap(list(lst), i, j) == model
    model = list(lst)
    model.insert(j, model.pop(i))
    assert listtools.move(list(lst), i, j) == model
    assert listtools.length(lst) == n and listtools.length(5) == 1
    assert listtools.aslist(tuple(lst)) == lst and listtools.aslist(7) == [7]
    assert list(listtools.filterfalse(lambda v: v % 3, lst)) == [v for v in lst if not v % 3]


@check(quick=1500, thorough=20000, shards={"quick": 1, "thorough": 4})
@given(st.integers(-(10**9), 10**9), st.integers(2, 16), st.booleans())
def base(x, b, letters):
    digs = list("ABCDEFGHIJKLMNOP" if letters else "0123456789ABCDEF")[:b]
    o = integerbase.integerbase(digs=digs)
    s = o.int2base(x)
    rec.case((x, b, letters), nontrivial=abs(x) >= b)
    assert o.base2int(s) == x
    mag = s.lstrip("-")
    assert s == ("-" if x < 0 else "") + mag
    assert len(mag) == 1 or mag[0] != digs[0], "leading zero"
    if not letters:
        assert int(mag, b) == abs(x)


@check(quick=1500, thorough=20000, shards={"quick": 1, "thorough": 2})
@given(
    st.one_of(
        st.integers(), st.floats(allow_nan=False), st.text(max_size=4), st.binary(max_size=4),
        st.none(), st.booleans(),
        st.lists(st.integers(0, 5), max_size=3), st.lists(st.integers(0, 5), max_size=3).map(tuple),
        st.sets(st.integers(0, 5), max_size=3), st.dictionaries(st.text(max_size=2), st.integers(), max_size=2),
    )
)
def kinds(x):
    """Type classification partitions the values."""
    rec.case(x, nontrivial=bool(x))
    isnum = isinstance(x, (int, float))
    isstr = isinstance(x, (str, bytes))
    assert instance.isnumber(x) == isnum
    assert instance.isstring(x) == isstr
    assert instance.issequence(x) == isinstance(x, (list, tuple))
    assert instance.isset(x) == isinstance(x, set)
    assert instance.ismapping(x) == isinstance(x, dict)
    assert instance.isarray(x) == isinstance(x, (list, tuple, set))
    assert instance.isscalar(x) == isnum
    assert instance.isiterable(x) == isinstance(x, (list, tuple, set, dict))
    if isinstance(x, str):
        assert instance.asunicode(instance.asbytes(x)) == x
        assert instance.asbytes(x) == x.encode("utf8")
    if isinstance(x, (list, tuple)) and x or isnum:
        arr, restore = instance.asarrayf(x)
        assert isinstance(arr, np.ndarray)
        back = restore(arr * 2)
        if isnum:
            assert np.ndim(back) == 0 and back == np.asarray([x])[0] * 2
        else:
            assert np.array_equal(back, np.asarray(x) * 2)
    if isnum and not isinstance(x, bool):
        assert instance.asnumber(repr(x)) == x
