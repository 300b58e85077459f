"""C26: merging HDF5 groups."""
import os
import tempfile
import hashlib
import numpy as np
import h5py
from vh import st, given, assume, check, rec, rule
from spectrocrunch.process import h5merge
from spectrocrunch.process.nxmerge import Task as MergeTask
from spectrocrunch.process import nxprocess
from spectrocrunch.process import utils as processutils

rule(
    "Generated scans (1 to 6, in one or several files, with nested groups, attributes, links, scalars, texts, 1-d "
    "counters and detectors with 1 or 2 dimensions; complete, interrupted or too long; with or without a fill value) "
    "which are stacked or tiled with a generated map shape and tile shape and compared with numpy arrays filled "
    "element by element. Non-trivial: more than one scan or a scan that is reshaped."
)
B = st.booleans()
DTYPES = [np.float32, np.float64, np.int32, np.uint16]


def nlines(n, fast, slow):
    """complete lines of an interrupted scan"""
    return min(n // fast, slow)


def filled(source, fast, slow, detshape, fill):
    """map of one scan: slow axis first; only complete lines when the scan was interrupted"""
    out = np.full((slow, fast) + detshape, fill, dtype=source.dtype)
    n = source.shape[0]
    k = nlines(n, fast, slow)
    out[(slice(0, k), slice(None)) + tuple(slice(0, d) for d in source.shape[1:])] = source[: k * fast].reshape((k, fast) + source.shape[1:])
    return out


@st.composite
def scans(draw, mapped=None):
    fast, slow = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    nscan = draw(st.integers(1, 6))
    n = fast * slow
    mapped = draw(B) if mapped is None else mapped
    lengths = []
    for _ in range(nscan):
        kind = draw(st.sampled_from(["full", "full", "full", "short", "long"]))
        if kind == "full":
            lengths.append(n)
        elif kind == "short":
            lengths.append(draw(st.integers(fast if mapped else 1, n)))
        else:
            lengths.append(draw(st.integers(n, n + 4)))
    counters = []
    for i in range(draw(st.integers(1, 3))):
        det = draw(st.sampled_from([(), (), (3,), (2, 4), (1,)]))
        counters.append({
            "name": "c%d" % i, "group": draw(st.sampled_from(["measurement", "instrument/det"])), "det": det,
            "dtype": draw(st.sampled_from(DTYPES)), "fill": draw(st.sampled_from([None, None, 7])),
            "chunks": draw(B),
        })
    return dict(fast=fast, slow=slow, lengths=lengths, counters=counters, mapped=mapped,
                separate=draw(B), seed=draw(st.integers(0, 10**6)))


def write(case, root, title=None):
    """scan files; returns uris and data[scan][group/name]"""
    rng = np.random.RandomState(case["seed"])
    uris, data = [], []
    for i, n in enumerate(case["lengths"]):
        fn = os.path.join(root, "scan%d.h5" % (i if case["separate"] else 0))
        with h5py.File(fn, "a") as f:
            g = f.create_group("%d.1" % (i + 1))
            uris.append(fn + "::" + g.name)
            g.attrs["NX_class"] = "NXentry"
            g["title"] = title or "scan of a sample"
            g["start_time"] = "start %d" % i
            g["end_time"] = "end %d" % i
            g["value"] = 3.5 + i
            g["nested/deep/x"] = i
            g["nested"].attrs["number"] = 5
            d = {}
            for c in case["counters"]:
                v = rng.randint(1, 200, (n,) + c["det"]).astype(c["dtype"])
                h = g.require_group(c["group"])
                h.attrs["NX_class"] = "NXcollection"
                h.create_dataset(c["name"], data=v, fillvalue=c["fill"], chunks=c["chunks"] or None)
                d[c["group"] + "/" + c["name"]] = v
            g["measurement" if "measurement" in g else "instrument/det"]["same"] = h5py.SoftLink("/" + g.name.strip("/") + "/nested/deep/x")
            g["rel"] = h5py.SoftLink("nested/deep/x")
            data.append(d)
    return uris, data


def digest(root):
    return {fn: hashlib.md5(open(os.path.join(root, fn), "rb").read()).hexdigest() for fn in os.listdir(root)}


def expect_meta(dest, nscan, case, tile):
    assert dest.attrs["NX_class"] == "NXentry"
    assert dest["nested"].attrs["number"] == 5
    for c in case["counters"]:
        assert dest[c["group"]].attrs["NX_class"] == "NXcollection"
    h = dest["measurement" if "measurement" in dest else "instrument/det"]
    assert h.get("same", getlink=True).path == dest.name + "/nested/deep/x"
    assert dest.get("rel", getlink=True).path == "nested/deep/x"
    if tile:
        return
    text = lambda x: x.decode() if isinstance(x, bytes) else x
    assert text(dest["start_time"][()]) == "start 0", dest["start_time"][()]
    assert text(dest["end_time"][()]) == "end %d" % (nscan - 1), dest["end_time"][()]
    assert np.array_equal(dest["value"][()], 3.5 + np.arange(nscan))
    assert np.array_equal(dest["nested/deep/x"][()], np.arange(nscan))
    assert np.array_equal(dest["rel"][()], np.arange(nscan))
    assert np.array_equal(h["same"][()], np.arange(nscan))


def names(obj):
    """all items below a group"""
    out = set()
    obj.visit(out.add)
    return out


@check(quick=250, thorough=5000, shards={"quick": 4, "thorough": 8})
@given(st.data())
def stack(data):
    """scans next to each other"""
    draw = data.draw
    case = draw(scans())
    nodim = draw(st.integers(0, 2)) == 0
    nscandim = 1
    if all(not c["det"] for c in case["counters"]) and draw(B):
        nscandim = 2
    order = draw(st.permutations(range(len(case["lengths"]))))
    desc = (case, nodim, nscandim, order)
    rec.current = repr(desc)
    fast, slow = case["fast"], case["slow"]
    n = fast * slow
    rec.case(repr(desc), nontrivial=len(order) > 1 or case["mapped"])
    root = tempfile.mkdtemp()
    uris, values = write(case, root)
    uris = [uris[i] for i in order]
    values = [values[i] for i in order]
    before = digest(root)
    shape_map = {(k,): (fast, slow) for k in set(case["lengths"])} if case["mapped"] else {}
    out = os.path.join(tempfile.mkdtemp(), "out.h5")
    with h5py.File(out, "w") as f:
        with h5merge.open_uris(uris) as sources:
            assert [s.name for s in sources] == [u.split("::")[1] for u in uris]
            ref = names(sources[0])
            h5merge.merge_h5groups(f, "merged", sources, shape_map, nscandim=nscandim, no_stack_dimension=nodim)
            # merging again leaves what exists
            h5merge.merge_h5groups(f, "merged", sources, shape_map, nscandim=nscandim, no_stack_dimension=nodim)
        assert not any(sources), "files are closed"
    assert digest(root) == before, "source changed"
    with h5py.File(out, "r") as f:
        dest = f["merged"]
        assert names(dest) == ref, (names(dest), ref)
        if list(order) == sorted(order):
            expect_meta(dest, len(order), case, False)
        longest = max(len(list(v.values())[0]) for v in values)
        for c in case["counters"]:
            key = c["group"] + "/" + c["name"]
            fill = c["fill"] or 0
            if case["mapped"]:
                want = [filled(v[key], fast, slow, c["det"], fill) for v in values]
            else:
                want = []
                for v in values:
                    w = np.full((longest,) + c["det"], fill, dtype=c["dtype"])
                    w[: len(v[key])] = v[key]
                    want.append(w)
            want = np.stack(want)
            if nodim and len(order) == 1:
                want = want[0]
                rec.label("no stack dimension")
            got = dest[key]
            assert got.is_virtual
            assert got.dtype == c["dtype"] and got.shape == want.shape, (key, got.shape, want.shape)
            assert np.array_equal(got[()], want), (key, got[()], want)
    rec.label("mapped" if case["mapped"] else "flat")


@check(quick=200, thorough=4000, shards={"quick": 4, "thorough": 8})
@given(st.data())
def tile(data):
    """maps next to each other in two dimensions"""
    draw = data.draw
    case = draw(scans(mapped=True))
    nscan = len(case["lengths"])
    tx = draw(st.integers(1, 3))
    ty = draw(st.integers(-(-nscan // tx), -(-nscan // tx) + 1))
    # scalars cannot be tiled
    fast, slow = case["fast"], case["slow"]
    desc = (case, tx, ty)
    rec.current = repr(desc)
    rec.case(repr(desc), nontrivial=nscan > 1)
    root = tempfile.mkdtemp()
    uris, values = write(case, root)
    before = digest(root)
    shape_map = {(k,): (fast, slow) for k in set(case["lengths"])}
    nscandim = 2 if all(not c["det"] for c in case["counters"]) and draw(B) else 1
    out = os.path.join(tempfile.mkdtemp(), "out.h5")
    groups = sorted({c["group"] for c in case["counters"]})
    with h5py.File(out, "w") as f:
        with h5merge.open_uris(uris) as sources:
            for g in groups:
                h5merge.merge_h5groups(f, g.replace("/", "_"), [s[g] for s in sources], shape_map, nscandim=nscandim, tile_shape=(tx, ty))
    assert digest(root) == before, "source changed"
    with h5py.File(out, "r") as f:
        for c in case["counters"]:
            key = c["group"] + "/" + c["name"]
            fill = c["fill"] or 0
            want = np.full((slow * ty, fast * tx) + c["det"], fill, dtype=c["dtype"])
            for i, v in enumerate(values):
                y, x = divmod(i, tx)
                want[y * slow : (y + 1) * slow, x * fast : (x + 1) * fast] = filled(v[key], fast, slow, c["det"], fill)
            got = f[c["group"].replace("/", "_")][c["name"]]
            assert got.is_virtual
            assert got.dtype == c["dtype"] and got.shape == want.shape, (key, got.shape, want.shape)
            assert np.array_equal(got[()], want), (key, got[()], want)
    if any(k < fast * slow for k in case["lengths"]):
        rec.label("interrupted")


@check(quick=100, thorough=1500, shards={"quick": 2, "thorough": 8})
@given(st.data())
def mesh(data):
    """maps whose shape follows from the scan command"""
    draw = data.draw
    case = draw(scans(mapped=True))
    fast, slow = case["fast"], case["slow"]
    assume(slow > 1)
    title = "l2scan mot1 0 10 {} mot2 -1 1 {} 0.1".format(fast, slow - 1)
    n = fast * slow
    case["lengths"] = [n if draw(st.integers(0, 3)) else draw(st.integers(fast, n)) for _ in case["lengths"]]
    case["lengths"][0] = n
    root = tempfile.mkdtemp()
    uris, values = write(case, root, title=title)
    before = digest(root)
    tofile, name = draw(B), draw(st.sampled_from([None, "result"]))
    rec.current = repr((case, tofile, name))
    rec.case(repr((case, tofile, name)), nontrivial=True)
    out = os.path.join(tempfile.mkdtemp(), "out.h5") if tofile else None
    with h5merge.MergedBlissMesh(uris, filename=out, name=name) as m:
        dest = m.merged_scan
        assert dest.name == "/" + (name or "merged")
        expect_meta(dest, len(uris), case, False)
        for c in case["counters"]:
            key = c["group"] + "/" + c["name"]
            want = np.stack([filled(v[key], fast, slow, c["det"], c["fill"] or 0) for v in values])
            got = dest[key]
            assert got.shape == want.shape and np.array_equal(got[()], want), (key, got[()], want)
    assert digest(root) == before, "source changed"
    with h5merge.MergedBlissScan(uris, name=name) as m:
        for c in case["counters"]:
            key = c["group"] + "/" + c["name"]
            got = m.merged_scan[key]
            assert got.shape == (len(uris), n) + c["det"], got.shape
            for a, v in zip(got[()], values):
                assert np.array_equal(a[: len(v[key])], v[key]) and np.all(a[len(v[key]):] == (c["fill"] or 0))


@check(quick=300, thorough=5000, shards={"quick": 1, "thorough": 4})
@given(st.data())
def shapes(data):
    """shapes and positions without files"""
    draw = data.draw
    # scan shape from the command
    a, b = draw(st.integers(1, 50)), draw(st.integers(1, 50))
    cmd, want = draw(st.sampled_from([
        ("fscan2d sy 0 0.1 %d sx 0 0.1 %d 0.1" % (b, a), (a, b)),
        ("l2scan sx 0 1 %d sy 0 1 %d 0.1" % (a, b), (a, b + 1)),
        ("amesh sx 0 1 %d sy 0 1 %d 0.1" % (a, b), (a + 1, b + 1)),
        ("dmesh sx 0 1 %d sy 0 1 %d 0.1" % (a, b), (a + 1, b + 1)),
        ("loopscan %d 0.1" % a, None),
        ("ascan sx 0 1 %d 0.1" % a, None),
    ]))
    assert MergeTask._shape_parser(cmd) == want, (cmd, want)
    # maximal shape
    nd = draw(st.integers(1, 3))
    lst = [tuple(draw(st.integers(1, 6)) for _ in range(nd)) for _ in range(draw(st.integers(1, 6)))]
    rec.case((lst, cmd), nontrivial=len(lst) > 1)
    rec.current = repr((lst, cmd))
    mx = tuple(max(s[k] for s in lst) for k in range(nd))
    assert h5merge.max_shape(lst) == mx
    # tiles: inside the layout, of the right shape, no overlap, in order
    tiles = [draw(st.integers(1, 3)) for _ in range(nd)]
    while int(np.prod(tiles)) < len(lst):
        tiles[draw(st.integers(0, nd - 1))] += 1
    order = draw(st.sampled_from("CF"))
    shape, idx = h5merge.tile_indices(tuple(tiles), lst, order=order)
    assert shape == tuple(m * t for m, t in zip(mx, tiles)) and len(idx) == len(lst)
    used = np.zeros(shape, int)
    for i, (s, ind) in enumerate(zip(lst, idx)):
        pos = np.unravel_index(i, tiles, order=order)
        assert tuple(x.start for x in ind) == tuple(int(p) * m for p, m in zip(pos, mx))
        assert used[ind].shape == s
        used[ind] += 1
    assert used.max() == 1 and used.sum() == sum(int(np.prod(s)) for s in lst)
    # equal sizes
    fast, slow = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    n = draw(st.integers(fast, fast * slow + 5))
    keep = draw(B)
    s1, s2 = h5merge.match_shapes([(n,), (fast, slow)], keep_shapes_when_equal=keep)
    k = nlines(n, fast, slow)
    s1, s2 = (s1 or (n,)), (s2 or (fast, slow))
    assert s1 == (k * fast,) and s2 == (fast, k), (n, fast, slow, s1, s2)


class CounterTask(nxprocess.Task):
    """counters of a scan"""

    def _parameters_defaults(self):
        super(CounterTask, self)._parameters_defaults()
        self.optional_parameters |= {"counters"}

    def _execute(self):
        for group, signals in self.parameters["counters"].items():
            nxdata = self.temp_nxresults.nxdata(group)
            for name, values in signals.items():
                nxdata.add_signal(name, data=np.array(values))


@check(quick=40, thorough=800, shards={"quick": 4, "thorough": 8})
@given(st.data())
def tasks(data):
    """stacking and tiling as processing steps"""
    draw = data.draw
    fast, slow = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    nscan = draw(st.integers(1, 4))
    positions = draw(st.lists(st.integers(1, 9), min_size=nscan, max_size=nscan, unique=True))
    missing = draw(st.integers(-6, nscan - 1))
    lengths = [fast * slow if draw(st.integers(0, 2)) else draw(st.integers(fast, fast * slow)) for _ in range(nscan)]
    signals = draw(st.lists(st.sampled_from(["a", "b", "c"]), min_size=1, max_size=2, unique=True))
    groups = ["counters"] + (["fit"] if draw(B) else [])
    title = draw(st.sampled_from(["amesh a 0 1 {f1} b 0 1 {s1} 0.1", "l2scan a 0 1 {f} b 0 1 {s1} 0.1", "fscan2d b 0 1 {s} a 0 1 {f} 0.1"]))
    title = title.format(f=fast, f1=fast - 1, s=slow, s1=slow - 1)
    method = draw(st.sampled_from(["stack", "tile"]))
    tx = draw(st.integers(1, 2))
    ty = -(-nscan // tx)
    positioner = draw(B) or nscan > 1
    desc = (fast, slow, positions, missing, lengths, signals, groups, title, method, tx, positioner)
    rec.current = repr(desc)
    rec.case(desc, nontrivial=nscan > 1)
    root = tempfile.mkdtemp()
    raw, out = os.path.join(root, "raw.h5"), os.path.join(root, "out.h5")
    with h5py.File(raw, "w") as f:
        for i in range(nscan):
            e = f.create_group("%d.1" % (i + 1))
            e.attrs["NX_class"] = "NXentry"
            e["title"] = title
            e["start_time"] = "2020-01-01T00:00:00"
            if i != missing:
                e["instrument/positioners/energy"] = float(positions[i])
    values, previous = [], []
    for i, n in enumerate(lengths):
        v = {g: {s: (np.arange(n) + 1 + 100 * i + 1000 * j + 10000 * k).tolist() for j, s in enumerate(signals)} for k, g in enumerate(groups)}
        t = processutils.create_task(method="counters", _task=CounterTask, name="counters", dependencies=raw + "::/%d.1" % (i + 1), outputparent=out + "::/%d.1" % (i + 1), counters=v)
        t.run()
        assert t.done
        values.append(v)
        previous.append(t)
    kw = {"tile_shape": (tx, ty)} if method == "tile" else {"stack_positioner": "energy"} if positioner else {}
    t = processutils.create_task(method=method, name="merged", dependencies=previous, outputparent=out + "::/result", **kw)
    t.run()
    assert t.done, "task failed"
    order = list(range(nscan))
    if method == "stack" and positioner and missing < 0:
        order.sort(key=lambda i: positions[i])
    with h5py.File(out, "r") as f:
        for g in groups:
            nd = f[t.output.path]["results"][g]
            sig = [nd.attrs["signal"]] + list(nd.attrs.get("auxiliary_signals", []))
            assert sorted(sig) == sorted(signals), sig
            for s in signals:
                maps = [filled(np.array(values[i][g][s]), fast, slow, (), 0) for i in order]
                if method == "tile":
                    want = np.zeros((slow * ty, fast * tx), dtype=int)
                    for i, m in enumerate(maps):
                        y, x = divmod(i, tx)
                        want[y * slow : (y + 1) * slow, x * fast : (x + 1) * fast] = m
                elif positioner:
                    want = np.stack(maps)
                else:
                    want = maps[0]
                got = nd[s][()]
                assert got.shape == want.shape and np.array_equal(got, want), (g, s, got, want)
            axes = list(nd.attrs["axes"])
            assert [len(nd[a]) for a in axes] == list(want.shape), (axes, want.shape)
            if method == "stack" and positioner:
                p = [np.nan if i == missing else positions[i] for i in order]
                assert axes[0] == "energy" and np.array_equal(nd["energy"][()], p, equal_nan=True)
    rec.label(method)
