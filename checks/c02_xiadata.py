"""C02: fluorescence data sets on disk (XIA EDF files)."""
import contextlib
import logging
import os
import string
import tempfile
import warnings
import fabio
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.io import xiaedf
from spectrocrunch.io.xiaedf import xiadata as X

rule(
    "Generated data sets (lines, images, stacks; one or several radices and directories; 1-4 detectors with any "
    "numbers plus sums; with or without statistics and counters; integer and float spectra), processing settings "
    "(detector selection, sum, dead-time correction, normalization by counter, number or function, all or two "
    "statistics), index expressions of every kind, copies and file names. Non-trivial: more than one value in the "
    "data, or more than one file."
)
logging.disable(logging.WARNING)
B = st.booleans()
LETTERS = string.ascii_letters


def F(lo, hi):
    return st.floats(lo, hi, allow_nan=False)


def same(a, b, msg=""):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, (a.shape, b.shape, msg)
    np.testing.assert_allclose(a, b, rtol=1e-12, atol=1e-12, err_msg=str(msg))


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


# ---------------------------------------------------------------- file names
KEYS = ("PUZ_arr", "PUZ_xmap", "xmap", "arr", "zap", "mosca", "xia", "mca")


@st.composite
def radixname(draw):
    words = draw(st.lists(st.text(LETTERS + string.digits + "-", min_size=1, max_size=5), min_size=1, max_size=3))
    if draw(st.integers(0, 3)) == 0:
        words.append("%04d" % draw(st.integers(0, 99)))
        words.append("0000")
    name = "_".join(words)
    if draw(st.integers(0, 5)) == 0:
        name += draw(st.sampled_from(["[1]", "[a-c]", "?", "*"]))
    assume(not any(w.startswith(KEYS) or w.startswith("PUZ") for w in name.split("_")))
    return name


@st.composite
def filelabel(draw):
    """label, base label, detector, with line number"""
    kind = draw(st.sampled_from(["xia", "xia", "xiasum", "xiast", "xmap", "xmapsum", "arr", "zap", "mosca"]))
    word = st.text(string.ascii_lowercase, min_size=1, max_size=4).filter(lambda w: not w.endswith(KEYS) and w != "sum")
    if kind == "xia":
        s = "%02d" % draw(st.integers(0, 99))
        return "xia" + s, "xia", s, True
    if kind == "xiasum":
        s = "S%d" % draw(st.integers(0, 9))
        return "xia" + s, "xia", s, True
    if kind == "xiast":
        return "xiast", "xia", "st", True
    if kind in ("xmap", "xmapsum"):
        pre = draw(st.sampled_from(["xmap", "PUZ_xmap"]))
        base = pre + "_" + draw(word) + draw(st.sampled_from(["", "1c"]))
        s = "%02d" % draw(st.integers(0, 15)) if kind == "xmap" else draw(st.sampled_from(["sum", "S0"]))
        return base + "_" + s, base, s, False
    pre = "PUZ_arr" if kind == "arr" and draw(B) else kind
    label = pre + "_" + draw(word) + draw(st.sampled_from(["", "2", "_01"]))
    return label, label, "", False


@check(quick=500, thorough=15000)
@given(st.data())
def names(data):
    draw = data.draw
    radix = draw(radixname())
    label, base, det, line = draw(filelabel())
    num = st.one_of(st.integers(0, 20), st.integers(0, 123456))
    mapnum, linenum = draw(num), draw(num) if line else -1
    d = draw(st.sampled_from(["", "/a/b", "x_xia00_0001_0000_0003.edf"]))
    rec.current = repr((radix, label, mapnum, linenum))
    rec.case((radix, label, mapnum, linenum), nontrivial=True)
    filename = xiaedf.xiafilename(radix, mapnum, linenum, label)
    full = os.path.join(d, filename)
    exp = xiaedf.XiaName(radix, mapnum, linenum, label, base, det)
    for parser in xiaedf.xianameparser, xiaedf.XiaNameParser():
        got = parser.parse(full)
        assert got == exp, (got, exp)
    assert xiaedf.xiasortkey(full) == (radix, mapnum, linenum, label)
    if line:
        num4 = "{:04d}".format(linenum)
        assert xiaedf.xiaformat_line(radix, mapnum, linenum).format(label) == filename
        assert xiaedf.xiaformat_map(radix, mapnum).format(label, num4) == filename
        assert xiaedf.xiaformat_radix(radix).format(label, "{:04d}".format(mapnum), num4) == filename
        assert xiaedf.xiaformat().format(radix, label, "{:04d}".format(mapnum), num4) == filename
    else:
        assert xiaedf.xiaformat_ctr(radix, mapnum).format(label) == filename
        assert xiaedf.xiaformat_radixctr(radix).format(label, "{:04d}".format(mapnum)) == filename
        assert xiaedf.ctrformat().format(radix, label, "{:04d}".format(mapnum)) == filename
    other = draw(st.sampled_from(["a.edf", radix + ".edf", filename + ".h5", filename[:-4], "{}_foo_x_0001_0000.edf".format(radix)]))
    assert xiaedf.xianameparser.parse(other, throw=False).radix is None
    try:
        xiaedf.xianameparser.parse(other)
    except RuntimeError:
        pass
    else:
        raise AssertionError("parsed {}".format(other))
    if other.endswith("_foo_x_0001_0000.edf"):
        custom = xiaedf.XiaNameParser(counters=["foo"]).parse(other)
        assert (custom.radix, custom.label, custom.mapnum, custom.linenum) == (radix, "foo_x", 1, -1), custom
        assert xiaedf.XiaNameParser(counters=["foo"]).parse(full) == exp
    # ways to name a detector
    n = draw(st.integers(0, 99))
    ways = [n, "%02d" % n, "xia%02d" % n, np.int64(n)]
    assert set(xiaedf.xiadetectorselect_tostring(ways)) == {"xia%02d" % n}
    assert set(xiaedf.xiadetectorselect_tocountersufix(ways)) == {"%02d" % n}
    assert {xiaedf.xiadetector_tonumber(w) for w in ways} == {n}
    for s in "S0", "xiaS0":
        assert xiaedf.xiadetectorselect_tostring([s]) == ["xiaS0"]
        assert xiaedf.xiadetectorselect_tocountersufix([s]) == ["sum"]
        assert xiaedf.xiadetector_tonumber(s) is None


# ---------------------------------------------------------------- searching and grouping
@st.composite
def directory(draw):
    """fields of files that exist"""
    radices = draw(st.lists(radixname(), min_size=1, max_size=2, unique=True))
    r0 = radices[0]
    radices += draw(st.lists(st.sampled_from([r0 + "_a", r0 + "_0001_0000", r0 + "2", "b_" + r0]), max_size=2, unique=True))
    out = set()
    for r in dict.fromkeys(radices):
        maps = draw(st.lists(st.sampled_from([0, 1, 2, 7, 10, 9999, 12345]), min_size=1, max_size=3, unique=True))
        for m in maps:
            lines = draw(st.lists(st.sampled_from([0, 1, 2, 3, 11, 10002]), max_size=3, unique=True))
            labels = draw(st.lists(st.sampled_from(["xia00", "xia01", "xia11", "xiaS0", "xiast"]), min_size=1, max_size=3, unique=True))
            out |= {(r, m, i, k) for i in lines for k in labels}
            ctrs = draw(st.lists(st.sampled_from(["arr_a", "arr_b", "zap_p", "xmap_x1_00", "xmap_x1_01", "xmap_x2_00"]), max_size=3, unique=True))
            out |= {(r, m, -1, k) for k in ctrs}
    return sorted(out)


@check(quick=200, thorough=4000, shards={"quick": 1, "thorough": 3})
@given(st.data())
def searching(data):
    draw = data.draw
    files = draw(directory())
    path = os.path.join(tempfile.mkdtemp(), draw(st.sampled_from(["data", "d[1]", "a_xia00_0001_0000_0002.edf"])))
    os.mkdir(path)
    where = {}
    for f in files:
        where[f] = os.path.join(path, xiaedf.xiafilename(*f))
        open(where[f], "w").close()
    for foreign in "readme.txt", "foo.edf", "a_b_0001_0000_0001.edf", "zap_0001_0000.h5":
        open(os.path.join(path, foreign), "w").close()
    radix = draw(st.sampled_from([None, "nothere"] + sorted({f[0] for f in files}) * 2)) if files else None
    mapnum = draw(st.sampled_from([None, None, 0, 1, 12345] + sorted({f[1] for f in files})))
    linenum = draw(st.sampled_from([None, None, 0, 2, 10002]))
    ctrs, onlyctrs = draw(B), draw(st.sampled_from([False, False, True]))
    label = draw(st.sampled_from([None, None, "xia00", "xiast"]))
    rec.current = repr((files, radix, mapnum, linenum, label, ctrs, onlyctrs))
    rec.case((len(files), radix is None, mapnum, linenum, label, ctrs, onlyctrs), nontrivial=len(files) > 1)
    got = xiaedf.xiasearch(path, radix=radix, mapnum=mapnum, linenum=linenum, label=label, ctrs=ctrs, onlyctrs=onlyctrs)
    exp = []
    for f in files:
        r, m, i, k = f
        if radix is not None and r != radix or mapnum is not None and m != mapnum:
            continue
        if i == -1:
            if ctrs or onlyctrs:
                exp.append(f)
        elif not onlyctrs and (linenum is None or i == linenum) and (label is None or k == label):
            exp.append(f)
    exp.sort()
    assert got == [where[f] for f in exp], (got, exp)
    if exp:
        rec.label("found")
    # grouping
    names_ = draw(st.permutations([where[f] for f in files]))
    n = len(names_)
    g = xiaedf.xiagroup(list(names_))
    e = {}
    for f in files:
        e.setdefault(f[0], {}).setdefault(f[1], {}).setdefault(f[2], []).append(where[f])
    assert g == e
    assert list(g) == sorted(g) and all(list(v) == sorted(v) for v in g.values())
    assert all(list(v2) == sorted(v2) for v in g.values() for v2 in v.values())
    g2 = xiaedf.xiagroupmaps2(list(names_))
    assert g2 == {"{}_{}".format(r, m): v for r, d in e.items() for m, v in d.items()}
    assert xiaedf.xiagroupnxiafiles(g) == sum(f[2] != -1 for f in files)
    for r in e:
        sel = [x for x in names_ if xiaedf.xianameparser.parse(x).radix == r]
        assert xiaedf.xiagroupmaps(list(sel)) == e[r]
        for m in e[r]:
            s2 = [x for x in sel if xiaedf.xianameparser.parse(x).mapnum == m]
            g3 = xiaedf.xiagrouplines(list(s2))
            assert g3 == e[r][m] and list(g3) == sorted(g3)
    r, m = files[0][:2] if files else (None, None)
    ctr = [where[f] for f in files if f[0] == r and f[1] == m and f[2] == -1]
    gd = xiaedf.xiagroupdetectors(draw(st.permutations(ctr)))
    ed = {}
    for x in sorted(ctr):
        p = xiaedf.xianameparser.parse(x)
        ed.setdefault(p.detector, {}).setdefault(p.baselabel, []).append(x)
    assert gd == ed, (gd, ed)
    # detector selection
    inc, exc = draw(selection([0, 1, 11])), draw(selection([0, 1, 11]))
    xia = [where[f] for f in files if f[2] != -1]
    sel = xiaedf.xiadetectorselect_files(list(xia), exc, inc)
    ok = [f for f in files if f[2] != -1 and selected(f[3], exc, inc)]
    assert sel == [where[f] for f in ok]
    cf = [where[f] for f in files if f[2] == -1]
    sel = xiaedf.xiadetectorselect_counterfiles(list(cf), exc, inc)
    ok = [f for f in files if f[2] == -1 and (not f[3].startswith("xmap") or selected("xia" + f[3][-2:], exc, inc))]
    assert sel == [where[f] for f in ok]


@st.composite
def selection(draw, numbers, sums=False):
    def way(n):
        return st.sampled_from([n, "%02d" % n, "xia%02d" % n])

    chosen = draw(st.lists(st.sampled_from(numbers), max_size=2, unique=True)) if draw(B) else []
    out = [draw(way(n)) for n in chosen]
    if sums and draw(st.integers(0, 4)) == 0:
        out.append(draw(st.sampled_from(["S0", "xiaS0"])))
    return out


def canonical(lst):
    out = set()
    for x in lst:
        s = str(x)
        s = s[3:] if s.startswith("xia") else s
        out.add("xia%02d" % int(s) if s.isdigit() else "xia" + s)
    return out


def selected(label, exclude, include):
    exclude, include = canonical(exclude), canonical(include)
    return label not in exclude and (not include or label in include)


# ---------------------------------------------------------------- data sets
CTRS = ["arr_iodet", "arr_fdet", "zap_p201", "arr_mask"]


class Dataset:
    """What is on disk"""


@st.composite
def dataset(draw, level=None):
    ds = Dataset()
    ds.level = draw(st.sampled_from([0, 1, 1, 2, 2])) if level is None else level
    ds.nmaps = draw(st.integers(1, 3)) if ds.level == 2 else 1
    ds.nrow = draw(st.integers(1, 3)) if ds.level else 1
    ds.nspec, ds.nchan = draw(st.integers(1, 4)), draw(st.integers(1, 5))
    ndet = draw(st.integers(1, 4))
    if draw(B):
        dets = list(range(ndet))
    else:
        dets = sorted(draw(st.lists(st.integers(0, 15), min_size=ndet, max_size=ndet, unique=True)))
    ds.dets = dets
    ds.hassum = draw(st.integers(0, 4)) == 0
    ds.labels = ["xia%02d" % i for i in dets] + (["xiaS0"] if ds.hassum else [])
    ds.deflabels = dets == list(range(ndet)) and not ds.hassum and draw(B)
    rng = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    shape = (ds.nmaps, ds.nrow, ds.nspec, ds.nchan, len(ds.labels))
    ds.dtype = draw(st.sampled_from(["int32", "int32", "float64", "uint16"]))
    if ds.dtype == "float64":
        ds.data = rng.uniform(0, 100, size=shape)
    else:
        ds.data = rng.randint(0, 1000, size=shape).astype(ds.dtype)
    ds.stats = None
    if draw(st.integers(0, 5)):
        s = rng.randint(0, 5000, size=(ds.nmaps, ds.nrow, ds.nspec, X.NSTATS, len(dets)))
        s[..., X.STDET, :] = dets
        mode = draw(st.sampled_from(["random", "physical"]))
        if mode == "physical":
            s[..., X.STICR, :] = rng.randint(900, 200000, size=s[..., X.STICR, :].shape)
            s[..., X.STOCR, :] = s[..., X.STICR, :] * rng.uniform(0.5, 1, size=s[..., X.STICR, :].shape)
        for _ in range(draw(st.integers(0, 2))):
            s[tuple(draw(st.integers(0, n - 1)) for n in s.shape[:3]) + (X.STOCR,)] = 0
        # summed detectors have no statistics
        ds.stats = np.zeros(s.shape[:-1] + (len(ds.labels),), dtype=np.int32)
        ds.stats[..., : len(dets)] = s
    ds.ctrs, ds.ctrnames = None, []
    if ds.level and draw(st.integers(0, 3)):
        ds.ctrnames = draw(st.permutations(CTRS))[: draw(st.integers(1, 3))]
        if draw(B):
            ds.ctrnames = ds.ctrnames + ["xmap_x1_%02d" % i for i in dets]
        c = rng.uniform(0.5, 2, size=(ds.nmaps, ds.nrow, ds.nspec, len(ds.ctrnames)))
        for _ in range(draw(st.integers(0, 2))):
            c[tuple(draw(st.integers(0, n - 1)) for n in c.shape)] = 0
        ds.ctrs = c
    ds.radix = draw(st.sampled_from(["a", "sample_1", "zapimage_A1", "s[0]", "a_0001_0000"]))
    ds.mapnum, ds.linenum = draw(st.sampled_from([0, 0, 3, 10007])), draw(st.sampled_from([0, 5, 10007]))
    ds.how = draw(st.integers(0, 3))
    return ds


def pick(ds, arr):
    """Remove the dimensions a level does not have"""
    return arr if ds.level == 2 else (arr[0] if ds.level == 1 else arr[0, 0])


def store(ds, path):
    cls = {0: xiaedf.xialine_number, 1: xiaedf.xiaimage_number, 2: xiaedf.xiastack_radix}[ds.level]
    args = {0: (ds.radix, ds.mapnum, ds.linenum), 1: (ds.radix, ds.mapnum), 2: (ds.radix,)}[ds.level]
    obj = cls(path, *args)
    kw = {}
    if not ds.deflabels:
        kw["xialabels"] = list(ds.labels)
    if ds.stats is not None and not ds.hassum:
        kw["stats"] = pick(ds, ds.stats).copy()
    if ds.ctrs is not None:
        kw["ctrs"] = pick(ds, ds.ctrs).copy()
        kw["ctrnames"] = list(ds.ctrnames)
    with quiet():
        obj.save(pick(ds, ds.data).copy(), **kw)
    if ds.stats is not None and ds.hassum:
        # as written at the beamline
        n = len(ds.dets)
        header = {"xdata": 3, "xcorr": 0, "xnb": n, "xdet": " ".join(str(i) for i in ds.dets)}
        for i, m in enumerate(range(ds.nmaps) if ds.level == 2 else [ds.mapnum]):
            for j, line in enumerate(range(ds.nrow) if ds.level else [ds.linenum]):
                a = ds.stats[i, j, ..., :n]
                a = np.swapaxes(a, 1, 2).reshape(len(a), -1)
                name = "{}_xiast_{:04d}_0000_{:04d}.edf".format(ds.radix, m, line)
                fabio.edfimage.EdfImage(data=np.ascontiguousarray(a), header=header).write(os.path.join(path, name))
        obj = reopen(ds, path)
    return obj


def reopen(ds, path, how=None):
    """The same data through the different classes"""
    how = ds.how if how is None else how
    if ds.level == 0:
        if how % 2:
            return xiaedf.xialine_files(xiaedf.xiasearch(path, radix=ds.radix, mapnum=ds.mapnum, linenum=ds.linenum))
        return xiaedf.xialine_number(path, ds.radix, ds.mapnum, ds.linenum)
    if ds.level == 1:
        if how == 1:
            return xiaedf.xiaimage_files(xiaedf.xiasearch(path, radix=ds.radix))
        if how == 2:
            return xiaedf.xiaimage_linenumbers(path, ds.radix, ds.mapnum, list(range(ds.nrow)))
        return xiaedf.xiaimage_number(path, ds.radix, ds.mapnum)
    if how == 1:
        return xiaedf.xiastack_files(xiaedf.xiasearch(path))
    if how == 2:
        return xiaedf.xiastack_mapnumbers(path, ds.radix, list(range(ds.nmaps)))
    return xiaedf.xiastack_radix(path, ds.radix)


def expected_files(ds):
    out = []
    maps = range(ds.nmaps) if ds.level == 2 else [ds.mapnum]
    lines = range(ds.nrow) if ds.level else [ds.linenum]
    for m in maps:
        for i in lines:
            labels = ds.labels + (["xiast"] if ds.stats is not None else [])
            out += ["{}_{}_{:04d}_0000_{:04d}.edf".format(ds.radix, k, m, i) for k in labels]
        if ds.ctrs is not None:
            out += ["{}_{}_{:04d}_0000.edf".format(ds.radix, k, m) for k in ds.ctrnames]
    return sorted(out)


class Settings:
    exclude, include = [], []
    sum = dtcor = False
    norm = normfunc = None
    icrocr = True
    local = False
    mode = "data"


NORMFUNC = {None: None, "double": lambda x: 2 * x, "shift": lambda x: x + 1}


@st.composite
def settings(draw, ds):
    s = Settings()
    s.exclude, s.include = draw(selection(ds.dets, ds.hassum)), draw(selection(ds.dets, ds.hassum))
    if not any(selected(k, s.exclude, s.include) for k in ds.labels):
        s.exclude, s.include = [], []
    s.sum = draw(B)
    s.dtcor = draw(B) and ds.stats is not None
    if ds.level:
        s.local = ds.level == 1 and draw(st.integers(0, 2)) == 0
        s.norm = draw(st.sampled_from([None, None, 2.5, 4, "arr_notthere"] + [k for k in ds.ctrnames if k in CTRS] * 2))
        s.normfunc = draw(st.sampled_from([None, None, "double", "shift"]))
    s.icrocr = draw(B)
    modes = ["data", "data", "data"] + (["stats", "dataandstats"] if ds.stats is not None else [])
    if ds.ctrs is not None:
        modes += ["counters"] + (["dataall"] if ds.stats is not None else [])
    s.mode = draw(st.sampled_from(modes))
    return s


def apply(obj, s):
    obj.exclude_detectors, obj.include_detectors = list(s.exclude), list(s.include)
    obj.detectorsum(s.sum)
    obj.dtcor(s.dtcor)
    if s.local:
        obj.localnorm(s.norm, func=NORMFUNC[s.normfunc])
    else:
        obj.globalnorm(s.norm, func=NORMFUNC[s.normfunc])
    obj.onlyicrocr(s.icrocr)
    {"data": obj.onlydata, "stats": obj.onlystats, "counters": obj.onlycounters,
     "dataandstats": obj.dataandstats, "dataall": obj.dataall}[s.mode]()


def model(ds, s):
    """(data, stats, counters): complete arrays"""
    use = [i for i, k in enumerate(ds.labels) if selected(k, s.exclude, s.include)]
    data = ds.data[..., use]
    stats = ctrs = None
    if ds.stats is not None:
        stats = ds.stats[..., use]
        if s.dtcor:
            icr, ocr = stats[..., X.STICR, :].astype(float), stats[..., X.STOCR, :].astype(float)
            cor = np.ones(icr.shape)
            ok = (icr >= 1000) & (ocr > 0) & (icr >= ocr)
            cor[ok] = icr[ok] / ocr[ok]
            data = data * cor[..., None, :]
        if s.icrocr:
            stats = stats[..., [X.STICR, X.STOCR], :]
    if s.sum:
        data = data.sum(axis=-1, keepdims=True)
    order = sorted(range(len(ds.ctrnames)), key=lambda i: ds.ctrnames[i])
    if s.norm is not None:
        if isinstance(s.norm, str):
            if s.norm in ds.ctrnames:
                norm = ds.ctrs[..., ds.ctrnames.index(s.norm)]
            else:
                norm = np.ones(ds.data.shape[:3])
        else:
            norm = np.full(ds.data.shape[:3], float(s.norm))
        func = NORMFUNC[s.normfunc]
        norm = norm if func is None else func(norm)
        norm = np.where(norm == 0, 1, norm)
        data = data / norm[..., None, None]
    if ds.ctrs is not None:
        order = [i for i in order if not ds.ctrnames[i].startswith("xmap") or selected("xia" + ds.ctrnames[i][-2:], s.exclude, s.include)]
        ctrs = ds.ctrs[..., order][..., None]
    return pick(ds, data), None if stats is None else pick(ds, stats), None if ctrs is None else pick(ds, ctrs)


@st.composite
def indexing(draw, shape, fixlast=False):
    """List of one index per dimension and the (equivalent) index expression"""
    ndim = len(shape)
    last = ndim - 1 if fixlast else ndim
    ntaken = draw(st.sampled_from([last] * 3 + list(range(last))))
    ell = draw(B) and ntaken < ndim
    before = draw(st.integers(0, ntaken)) if ell else ntaken
    dims = list(range(before)) + list(range(last - (ntaken - before), last))
    full = [slice(None)] * ndim
    nadv = draw(st.sampled_from([1, 2, 2, 3, 0]))
    kinds = ["int", "slice", "full", "slice"] + ["list", "mask"] * draw(st.integers(0, 1))
    expr = []
    for k, d in enumerate(dims):
        n = shape[d]
        kind = draw(st.sampled_from(kinds))
        if kind == "int":
            i = draw(st.integers(-n, n - 1))
        elif kind == "slice":
            lim = st.one_of(st.none(), st.integers(-n - 1, n + 1))
            i = slice(draw(lim), draw(lim), draw(st.sampled_from([None, 1, 2, -1])))
        elif kind == "full":
            i = slice(None)
        elif kind == "list":
            i = draw(st.lists(st.integers(-n, n - 1), min_size=nadv, max_size=nadv))
        else:
            i = draw(st.lists(B, min_size=n, max_size=n))
            if sum(i) != nadv:
                i = slice(None)
        full[d] = i
    for d in dims[:before]:
        expr.append(full[d])
    if ell:
        expr.append(Ellipsis)
    elif draw(B) and fixlast and ntaken == last:
        expr.append(slice(None))
    for d in dims[before:]:
        expr.append(full[d])
    if ell and fixlast:
        expr.append(slice(None))
    if len(expr) == 1 and draw(B):
        return full, expr[0]
    return full, tuple(expr)


def valid(shape, full):
    """numpy accepts it"""
    try:
        return np.empty(shape)[tuple(full)].shape
    except IndexError:
        return None


def query(draw, ds, s, obj):
    """One indexing operation compared to numpy"""
    data, stats, ctrs = model(ds, s)
    full, expr = draw(indexing(data.shape, fixlast=s.sum))
    rec.current = repr((ds.level, data.shape, ds.labels, vars(s), expr))
    if any(isinstance(i, list) for i in full):
        rec.label("list index")
    with quiet():
        got = obj[expr]
    exp = {}
    exp["data"] = data[tuple(full)]
    if stats is not None:
        f = list(full)
        f[-2] = slice(None)
        exp["stats"] = stats[tuple(f)]
    if ctrs is not None:
        f = list(full)
        f[-2] = f[-1] = slice(None)
        exp["counters"] = ctrs[tuple(f)]
    if s.mode in ("data", "stats", "counters"):
        same(got, exp[s.mode], (s.mode, expr))
    else:
        n = ["data", "stats"] + (["counters"] if s.mode == "dataall" else [])
        assert isinstance(got, tuple) and len(got) == len(n), (type(got), n)
        for a, k in zip(got, n):
            same(a, exp[k], (k, expr))
    rec.label(s.mode)


@check(quick=160, thorough=3000, shards={"quick": 4, "thorough": 6})
@given(st.data())
def datasets(data):
    draw = data.draw
    ds = draw(dataset())
    path = os.path.join(tempfile.mkdtemp(), draw(st.sampled_from(["x", "x", "new/x", "x[2]"])))
    rec.current = repr((ds.level, ds.data.shape, ds.labels, ds.ctrnames, ds.dtype))
    rec.case((ds.level, ds.data.shape, len(ds.ctrnames), ds.dtype), nontrivial=ds.data.size > 1)
    rec.label("level%d" % ds.level)
    first = store(ds, path)
    assert sorted(os.listdir(path)) == expected_files(ds)
    obj = draw(st.sampled_from([first, None])) or reopen(ds, path)
    # complete arrays
    s = Settings()
    apply(obj, s)
    full, stats, ctrs = model(ds, s)
    assert obj.dshape == full.shape and obj.dtype == full.dtype and obj.ndim == full.ndim
    same(obj.data, full)
    assert obj.data.dtype == full.dtype
    assert list(obj.xialabels) == ds.labels and list(obj.detectors) == [k[3:] for k in ds.labels]
    assert obj.has_stats is (ds.stats is not None)
    if stats is not None:
        assert obj.sshape == stats.shape and obj.stype == stats.dtype
        assert list(obj.stats_detectors) == ds.dets
        same(obj.stats, stats)
        same(obj.allstats, pick(ds, ds.stats))
    if ds.level:
        assert list(obj.counternames()) == sorted(ds.ctrnames)
        if ctrs is not None:
            assert obj.cshape == ctrs.shape and obj.ctype == ctrs.dtype
            same(obj.counters, ctrs)
            k = draw(st.sampled_from(sorted(ds.ctrnames)))
            base = k[:-3] if k.startswith("xmap") else k
            got = [os.path.basename(f) for f in obj.ctrfilenames(ctrs=base)]
            exp = [f for f in expected_files(ds) if "_{}_".format(base) in f]
            assert sorted(got) == exp, (got, exp)
    files = [os.path.basename(f) for f in obj.datafilenames()]
    assert sorted(files) == [f for f in expected_files(ds) if "_xia" in f and "_xiast" not in f]
    st_ = [os.path.basename(f) for f in obj.statfilenames() if f]
    assert sorted(st_) == [f for f in expected_files(ds) if "_xiast" in f]
    # a history of settings and queries
    for _ in range(draw(st.integers(1, 5))):
        if draw(st.integers(0, 2)) or s.exclude is Settings.exclude:
            s = draw(settings(ds))
        apply(obj, s)
        full, stats, ctrs = model(ds, s)
        use = [k for k in ds.labels if selected(k, s.exclude, s.include)]
        assert list(obj.xialabels_used) == use and list(obj.detectors_used) == [k[3:] for k in use]
        assert obj.dshape == full.shape[:-1] + (len(use),)
        if stats is not None:
            assert obj.sshape == stats.shape
            assert obj.nstats == (2 if s.icrocr else X.NSTATS)
        event = draw(st.sampled_from(["none", "none", "fail", "properties", "detectors"]))
        if event == "fail":
            # does not change what following operations return
            n = obj.dshape[0]
            try:
                with quiet():
                    obj[n + 1]
            except IndexError:
                pass
            else:
                raise AssertionError("index out of range accepted")
            rec.label("failed index")
        elif event == "properties":
            same(obj.data, full)
            if stats is not None:
                same(obj.stats, stats)
                same(obj.allstats, model(ds, _with(s, icrocr=False))[1])
            if ctrs is not None:
                same(obj.counters, ctrs)
        elif event == "detectors":
            seen = []
            for det in obj.iter_detectors():
                seen.append(det)
                one = model(ds, _with(s, exclude=[], include=[det]))[0]
                same(obj.data, one)
            assert seen == [k[3:] for k in use]
            rec.label("detectors")
        query(draw, ds, s, obj)
    after = sorted(os.listdir(path))
    assert after == expected_files(ds)


def _with(s, **kw):
    out = Settings()
    out.__dict__.update(s.__dict__)
    out.__dict__.update(kw)
    return out


# ---------------------------------------------------------------- copies
@check(quick=60, thorough=1200, shards={"quick": 2, "thorough": 4})
@given(st.data())
def copies(data):
    """Saving (processed) data as a new data set"""
    draw = data.draw
    ds = draw(dataset())
    ds.radix = "a"
    root = tempfile.mkdtemp()
    store(ds, os.path.join(root, "x"))
    obj = reopen(ds, os.path.join(root, "x"))
    s = draw(settings(ds))
    s.mode = "data"
    apply(obj, s)
    full, _, ctrs = model(ds, s)
    use = [k for k in ds.labels if selected(k, s.exclude, s.include)]
    direct = draw(B)
    newlabels = ["xiaS1"] if s.sum else use
    kw = {}
    if s.sum or draw(B):
        kw["xialabels"] = newlabels
    else:
        newlabels = ["xia%02d" % i for i in range(len(use))]
    copystats = ds.stats is not None and not s.sum and not ds.hassum and draw(B)
    allstats = model(ds, _with(s, icrocr=False))[1]
    copyctrs = ds.ctrs is not None and not any(k.startswith("xmap") for k in ds.ctrnames) and draw(B)
    stored = sorted(ds.ctrnames)
    rec.current = repr((ds.level, ds.data.shape, ds.labels, vars(s), kw, direct, copystats, copyctrs))
    rec.case((ds.level, ds.data.shape, s.sum, s.dtcor, s.norm is None, direct, copystats, copyctrs), nontrivial=ds.data.size > 1)
    cls = {0: xiaedf.xialine_number, 1: xiaedf.xiaimage_number, 2: xiaedf.xiastack_radix}[ds.level]
    args = {0: ("b", 1, 2), 1: ("b", 1), 2: ("b",)}[ds.level]
    new = cls(os.path.join(root, "y"), *args)
    with quiet():
        if direct:
            rec.label("copy")
            if copystats:
                kw["stats"] = True
            if copyctrs:
                kw["ctrs"] = True
                if draw(B):
                    stored = draw(st.permutations(ds.ctrnames))[: draw(st.integers(1, len(ds.ctrnames)))]
                    kw["ctrnames"] = list(stored)
                    rec.label("selected counters")
            new.save(obj, **kw)
        else:
            if copystats:
                kw["stats"] = obj.allstats
            if copyctrs:
                kw["ctrs"] = obj.counters[..., 0]
                kw["ctrnames"] = obj.counterbasenames()
                if draw(B):
                    order = draw(st.permutations(range(len(stored))))
                    kw["ctrs"] = kw["ctrs"][..., order]
                    kw["ctrnames"] = [kw["ctrnames"][i] for i in order]
            new.save(obj.data, **kw)
        again = draw(st.sampled_from([new, None])) or cls(os.path.join(root, "y"), *args)
        same(again.data, full)
        assert list(again.xialabels) == newlabels
        if copystats:
            same(again.allstats, allstats)
            rec.label("stats")
        else:
            assert again.has_stats is False
        if ds.level:
            if copyctrs:
                names_ = sorted(ds.ctrnames)
                same(again.counters, ctrs[..., [names_.index(k) for k in sorted(stored)], :])
                rec.label("counters")
                assert list(again.counternames()) == sorted(stored)
                k = draw(st.sampled_from(sorted(stored)))
                assert [os.path.basename(f) for f in again.ctrfilenames(k)] == ["b_{}_{:04d}_0000.edf".format(k, m) for m in (range(ds.nmaps) if ds.level == 2 else [1])]
            else:
                assert list(again.counternames()) == []
        # files are not overwritten unless requested
        other = np.asarray(full) * 2 + 1
        kw = {"xialabels": newlabels}
        assert other.shape == again.dshape
        again.save(other, **kw)
        same(cls(os.path.join(root, "y"), *args).data, full)
        # only the expected number of lines or images
        if ds.level and draw(B):
            more = np.concatenate([other, other[:1]])
            try:
                again.save(more, **kw)
            except RuntimeError:
                pass
            else:
                raise AssertionError("saved too many items")
            same(cls(os.path.join(root, "y"), *args).data, full)
        again.overwrite(True)
        again.save(other, **kw)
        same(cls(os.path.join(root, "y"), *args).data, other)
    # the source did not change
    same(obj.data, full)
    apply(obj, Settings())
    same(obj.data, pick(ds, ds.data))


# ---------------------------------------------------------------- collections
@check(quick=60, thorough=1200, shards={"quick": 2, "thorough": 4})
@given(st.data())
def collections_(data):
    """Stacks over several radices and directories, incomplete maps, counters elsewhere"""
    draw = data.draw
    root = tempfile.mkdtemp()
    nrad = draw(st.integers(1, 3))
    samedir = draw(B)
    nrow, nspec, nchan, ndet = draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 2))
    radices = draw(st.permutations(["a", "a_b", "c", "a_0001"]))[:nrad]
    labels = ["xia%02d" % i for i in range(ndet)]
    rng = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    content, paths, norm = {}, [], draw(B)
    elsewhere = draw(st.integers(0, 3)) == 0
    if draw(st.integers(0, 3)) == 0:
        cancelled(draw, root, rng, nspec, nchan, ndet, labels)
    for i, r in enumerate(radices):
        path = os.path.join(root, "d" if samedir else "d%d" % i)
        paths.append(path)
        for m in sorted(draw(st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True))):
            d = rng.randint(0, 1000, size=(nrow, nspec, nchan, ndet)).astype(np.int32)
            c = rng.uniform(1, 2, size=(nrow, nspec, 2))
            xiaedf.xiaimage_number(path, r, m).save(d, labels, ctrs=c, ctrnames=["arr_a", "arr_b"])
            content[r, m] = d, c
    dropped = None
    if draw(B) and len(content) > 1:
        # a map is not finished
        dropped = draw(st.sampled_from(sorted(content)[1:]))
        path = paths[radices.index(dropped[0])]
        row = draw(st.integers(0, nrow - 1))
        os.remove(os.path.join(path, xiaedf.xiafilename(dropped[0], dropped[1], row, labels[-1])))
        rec.label("incomplete map")
    if elsewhere:
        for path in set(paths):
            os.makedirs(os.path.join(path, "..", "ctr"), exist_ok=True)
            for f in os.listdir(path):
                if "_arr_" in f:
                    os.rename(os.path.join(path, f), os.path.join(path, "..", "ctr", f))
    how = draw(st.sampled_from(["radix", "mapnumbers", "files"]))
    if elsewhere:
        how = "image"
    keys = [k for k in sorted(content) if k != dropped]
    rec.current = repr((radices, sorted(content), dropped, how, samedir, nrow, nspec, nchan, ndet))
    rec.case((nrad, len(content), dropped is None, how, samedir), nontrivial=len(content) > 1)
    rec.label(how)
    with quiet():
        if how == "image":
            r, m = draw(st.sampled_from(keys))
            obj = xiaedf.xiaimage_number(paths[radices.index(r)], r, m)
            obj.counter_reldir("../ctr")
            d, c = content[r, m]
            same(obj.counters[..., 0], c)
            obj.globalnorm("arr_b")
            same(obj.data, d / c[..., 1, None, None])
            return
        if how == "radix":
            obj = xiaedf.xiastack_radix(list(paths), list(radices))
        elif how == "files":
            assume(dropped is None)
            files = [f for p, r in zip(paths, radices) for f in xiaedf.xiasearch(p, radix=r)]
            obj = xiaedf.xiastack_files(draw(st.permutations(files)))
        else:
            nums = {r: [m for q, m in sorted(content) if q == r] for r in radices}
            nums = {r: draw(st.lists(st.sampled_from(v + [9]), max_size=3, unique=True)) for r, v in nums.items()}
            # the first map is the reference
            assume([k for k in sorted(content) if k[1] in nums[k[0]]][:1] not in ([], [dropped]))
            keys = [k for k in keys if k[1] in nums[k[0]]]
            obj = xiaedf.xiastack_mapnumbers(list(paths), list(radices), [nums[r] for r in radices])
        d = np.stack([content[k][0] for k in keys])
        c = np.stack([content[k][1] for k in keys])
        same(obj.data, d)
        assert obj.dshape == d.shape
        same(obj.counters[..., 0], c)
        if norm and draw(B):
            # different for each image
            factor = [draw(st.sampled_from([1, 2, 0.5])) for _ in keys]
            for img, f in zip(obj, factor):
                img.localnorm("arr_a", func=lambda x, f=f: f * x)
            d = d / (c[..., 0] * np.array(factor)[:, None, None])[..., None, None]
            rec.label("norm per image")
        elif norm:
            obj.globalnorm("arr_a")
            d = d / c[..., 0][..., None, None]
        same(obj.data, d)
        same(obj[-1], d[-1])
        items = [obj.getitems()[i] for i in range(len(keys))]
        assert len(obj.getitems()) == len(keys)
        for item, e in zip(items, d):
            same(item.data, e)


def cancelled(draw, root, rng, nspec, nchan, ndet, labels):
    """An image without its last lines: counters of the complete image"""
    nrow = draw(st.integers(2, 4))
    n = draw(st.integers(1, nrow - 1))
    d = rng.randint(0, 1000, size=(nrow, nspec, nchan, ndet)).astype(np.int32)
    c = rng.uniform(1, 2, size=(nrow, nspec, 2))
    path = os.path.join(root, "cancelled")
    xiaedf.xiaimage_number(path, "r", 2).save(d, labels, ctrs=c, ctrnames=["arr_a", "arr_b"])
    for row in range(n, nrow):
        # the line being measured misses detectors
        for k in labels[(1 if len(labels) > 1 and row == n and draw(B) else 0):]:
            os.remove(os.path.join(path, xiaedf.xiafilename("r", 2, row, k)))
    rec.current = repr(("cancelled", d.shape, n, sorted(os.listdir(path))))
    rec.label("cancelled")
    with quiet():
        objs = [(xiaedf.xiaimage_number(path, "r", 2), ()), (xiaedf.xiastack_radix(path, "r"), (np.newaxis,)),
                (xiaedf.xiastack_mapnumbers(path, "r", [2]), (np.newaxis,))]
        left = {xiaedf.xianameparser.parse(f).linenum for f in os.listdir(path)} - {-1}
        obj, pre = objs[0 if left != set(range(n)) else draw(st.integers(0, 2))]
        same(obj.data, d[:n][pre])
        obj.globalnorm("arr_b")
        same(obj.data, (d[:n] / c[:n, :, 1, None, None])[pre])
        same(obj.data, (d[:n] / c[:n, :, 1, None, None])[pre])
        same(obj.counters[..., 0], c[pre])


@check(quick=40, thorough=500)
@given(st.data())
def headers(data):
    draw = data.draw
    nmaps, nrow, ncol = draw(st.integers(1, 3)), draw(st.integers(1, 2)), draw(st.integers(1, 3))
    path = os.path.join(tempfile.mkdtemp(), "x")
    val = st.text(LETTERS + string.digits + "._-", min_size=1, max_size=6)
    hs = [{"time": draw(val), "motor": draw(val)} for _ in range(nmaps)]
    arr = np.empty(nmaps, dtype=object)
    for i, h in enumerate(hs):
        arr[i] = h
    stats = draw(B)
    kw = {"stats": np.ones((nmaps, nrow, ncol, X.NSTATS, 1), np.int32)} if stats else {}
    obj = xiaedf.xiastack_radix(path, "r")
    rec.current = repr((hs, stats))
    rec.case((nmaps, nrow, ncol, stats), nontrivial=nmaps > 1)
    with quiet():
        obj.save(
            np.ones((nmaps, nrow, ncol, 2, 1), np.int32), ["xia00"], ctrs=np.ones((nmaps, nrow, ncol, 2)),
            ctrnames=["arr_a", "arr_b"], ctrheaders=arr, **kw
        )
        obj = xiaedf.xiastack_radix(path, "r")
        keys = draw(st.permutations(["time", "motor", "nothere"]))[: draw(st.integers(1, 3))]
        got = obj.headers(source="arr", keys=keys)
        assert got == [{k: h.get(k) for k in keys} for h in hs], (got, hs)
        full = obj.headers(source="arr")
        assert [{k: g[k] for k in h} for g, h in zip(full, hs)] == hs
        assert all(int(g["Dim_1"]) == ncol and int(g["Dim_2"]) == nrow for g in full)
        xia = obj.headers(source="xia")
        assert len(xia) == nmaps
        for h in xia:
            assert int(h["Dim_1"]) == (X.NSTATS if stats else ncol)
            assert int(h["Dim_2"]) == (ncol if stats else nrow)
