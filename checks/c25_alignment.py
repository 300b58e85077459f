"""C25: image alignment."""
import os
import tempfile
import warnings
import numpy as np
import logging
import h5py
import fabio
import lib_nx
from vh import st, given, assume, check, rec, rule
from spectrocrunch.align.alignFFT import alignFFT
from spectrocrunch.align.alignSimple import alignMin, alignMax, alignCentroid, alignGaussMax
from spectrocrunch.align.alignSource import alignSource
from spectrocrunch.align.alignDest import alignDest
from spectrocrunch.process import utils as processutils

logging.getLogger("spectrocrunch").setLevel(logging.CRITICAL)

rule(
    "Stacks of 1-5 windows on a generated scene (noise with one unique maximum and minimum, or smooth blobs on an "
    "empty background) at generated offsets, several stacks per alignment, one to four alignments with the same object "
    "and different options (reference mode, ROI, pad, crop, redo, preprocessing, initial shift). The model computes "
    "the output from the scene and the known offsets. Non-trivial: at least two images which differ by a shift and "
    "which are all found in the output."
)
B = st.booleans()
EXACT = {"max": alignMax, "min": alignMin}
SMOOTH = {"centroid": (alignCentroid, 0.02), "gaussmax": (alignGaussMax, 0.15), "fft": (alignFFT, 0.15)}


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


@st.composite
def windows(draw, kind, n, vector):
    """scene and offsets of the windows (y, x) such that the marker is in each of them"""
    rng = np.random.RandomState(draw(st.integers(0, 10**6)))
    maxshift = draw(st.integers(0, 5 if kind == "exact" else 4))
    margin = 1 if kind == "exact" else 9
    ny = draw(st.integers(3, 9)) + maxshift + 2 * margin
    nx = draw(st.integers(3, 9)) + maxshift + 2 * margin
    if kind != "exact" and draw(B):
        ny += 7
    offs = [[draw(st.integers(0, maxshift)), draw(st.integers(0, maxshift))] for _ in range(n)]
    if vector == "row":
        ny = 1
        offs = [[0, x] for _, x in offs]
    elif vector == "column":
        nx = 1
        offs = [[y, 0] for y, _ in offs]
    offs = np.array(offs)
    my, mx = (0 if vector == "row" else maxshift), (0 if vector == "column" else maxshift)
    if vector == "row":
        bigshape, lo, hi = (1, nx + maxshift), (0, maxshift + margin), (1, nx - margin)
    elif vector == "column":
        bigshape, lo, hi = (ny + maxshift, 1), (maxshift + margin, 0), (ny - margin, 1)
    else:
        bigshape, lo, hi = (ny + maxshift, nx + maxshift), (maxshift + margin,) * 2, (ny - margin, nx - margin)
    return rng, (ny, nx), bigshape, offs, lo, hi


def stackof(scene, offs, shape, stackdim, dtype):
    imgs = [scene[y : y + shape[0], x : x + shape[1]] for y, x in offs]
    return np.stack(imgs, axis=stackdim).astype(dtype)


def model(scene, off, imgsize, origin, outsize):
    """the pixels of one image in the output window (NaN = missing)"""
    out = np.full(outsize, np.nan)
    Y, X = np.mgrid[: outsize[0], : outsize[1]]
    Y, X = Y + origin[0], X + origin[1]
    ok = (Y >= off[0]) & (Y < off[0] + imgsize[0]) & (X >= off[1]) & (X < off[1] + imgsize[1])
    out[ok] = scene[Y[ok], X[ok]]
    return out


@st.composite
def options(draw, n, imgsize, lo, hi, offs, margin):
    """keyword arguments of one alignment"""
    kw = dict(pad=draw(B), crop=draw(B), onraw=draw(B))
    kw["refimageindex"] = draw(st.one_of(st.none(), st.integers(-1, n - 1)))
    if draw(st.integers(0, 2)) == 0:
        roi = []
        for k in range(2):
            # marker positions in all images (the marker area is lo..hi in the scene)
            a = draw(st.integers(0, max(lo[k] - offs[:, k].max() - margin[k], 0)))
            b = draw(st.integers(min(hi[k] - offs[:, k].min() + margin[k], imgsize[k]), imgsize[k]))
            b = {0: b, 1: b - imgsize[k] if b < imgsize[k] else None, 2: b}[draw(st.integers(0, 2))]
            a = draw(st.sampled_from([a, None])) if a == 0 else draw(st.sampled_from([a, a - imgsize[k]]))
            roi.append((a, b))
        kw["roi"] = tuple(roi)
    return kw


@check(quick=450, thorough=4000, shards={"quick": 4, "thorough": 8})
@given(st.data())
def exact(data):
    """markers on whole pixels: the output is known exactly"""
    draw = data.draw
    n = draw(st.integers(1, 5))
    vector = draw(st.sampled_from([None, None, None, "row", "column"]))
    rng, imgsize, bigshape, offs, lo, hi = draw(windows("exact", n, vector))
    method = draw(st.sampled_from(["max", "min"]))
    scene = rng.randint(100, 1000, bigshape).astype(float)
    spot = [draw(st.integers(lo[k], hi[k] - 1)) for k in range(2)]
    swap = draw(st.integers(0, 4)) == 0  # preprocessing turns the marker around
    scene[tuple(spot)] = 5000 if (method == "max") != swap else 3
    if draw(B):  # another marker of the opposite type
        other = (draw(st.integers(0, bigshape[0] - 1)), draw(st.integers(0, bigshape[1] - 1)))
        if other != tuple(spot):
            scene[other] = 3 if scene[tuple(spot)] > 1000 else 5000
    stackdim = draw(st.integers(0, 2))
    dtype = draw(st.sampled_from([np.float32, np.float64, np.int16, np.int32]))
    nsets = draw(st.integers(1, 3))
    iref = draw(st.integers(0, nsets - 1))
    scenes = [scene if k == iref else rng.randint(1, 1000, bigshape).astype(float) for k in range(nsets)]
    stacks = [stackof(s, offs, imgsize, stackdim, dtype) for s in scenes]
    copies = [s.copy() for s in stacks]
    cval = np.nan if method == "min" else draw(st.sampled_from([np.nan, np.nan, 0, -1]))
    odtype = np.float32 if dtype in (np.float32, np.int16) else np.float64
    out = [np.zeros(1, dtype=odtype)] * nsets
    o = EXACT[method](stacks, None, out, None, None, stackdim=stackdim, overwrite=True, cval=cval)
    axes = [None] * 3
    dims = [k for k in range(3) if k != stackdim]
    axes[stackdim] = np.arange(n) * 2.0
    start, delta = [draw(st.integers(-5, 5)) for _ in range(2)], [draw(st.sampled_from([1.0, -0.5, 2.0])) for _ in range(2)]
    for k in range(2):
        axes[dims[k]] = start[k] + delta[k] * np.arange(imgsize[k])
    for _ in range(draw(st.integers(1, 4))):
        kw = draw(options(n, imgsize, [spot[0], spot[1]], [spot[0] + 1, spot[1] + 1], offs, (0, 0)))
        if swap:
            kw["rawcalc"] = lambda img: 6000.0 - img
        pre = None
        if draw(st.integers(0, 5)) == 0 and kw.get("roi") is None and np.isnan(cval) and not swap:
            # initial shifts which keep the marker inside
            pre = []
            for k in range(n):
                p = [spot[0] - offs[k][0], spot[1] - offs[k][1]]
                q = [draw(st.integers(max(0, p[i] - 2), min(imgsize[i] - 1, p[i] + 2))) for i in range(2)]
                pre.append((p[1] - q[1], p[0] - q[0]))
            kw["prealigntransfo"] = []
            for p in pre:
                t = o.defaulttransform()
                t.settranslation(*p)
                kw["prealigntransfo"].append(t)
        desc = (method, n, imgsize, offs.tolist(), spot, stackdim, np.dtype(dtype).name, nsets, iref, repr(cval), swap, pre,
                {k: v for k, v in kw.items() if k not in ("rawcalc", "prealigntransfo")})
        rec.current = repr(desc)
        shifted = n > 1 and np.any(offs != offs[0])
        rec.case(repr(desc), nontrivial=bool(shifted))
        quiet(o.align, iref, **kw)
        verify(o, out, scenes, offs, imgsize, stackdim, dims, cval, kw, pre, axes, odtype)
        for s, c in zip(stacks, copies):
            assert np.array_equal(s, c), "source changed"
        if draw(st.integers(0, 3)) == 0:
            rec.label("redo")
            first = [s.copy() for s in out]
            cofs = o.absolute_cofs().copy()
            quiet(o.align, iref, redo=True)
            assert np.array_equal(cofs, o.absolute_cofs()), "redo changes the transformations"
            for a, b in zip(first, out):
                assert np.array_equal(a, b, equal_nan=True), "redo changes the result"


def verify(o, out, scenes, offs, imgsize, stackdim, dims, cval, kw, pre, axes, odtype):
    n = len(offs)
    iref = (kw["refimageindex"] or 0) % n
    cofs = o.absolute_cofs(homography=True, include_pre=True)
    assert cofs.shape == (n, 3, 3)
    T0 = cofs[:, :2, 2] - cofs[iref, :2, 2]
    ref = (offs[iref] - offs)[:, ::-1]
    assert np.array_equal(T0, ref), ("shifts", T0.tolist(), ref.tolist())
    assert np.array_equal(cofs[:, :2, :2], [np.identity(2)] * n) and np.array_equal(cofs[:, 2], [[0, 0, 1]] * n)
    pairwise = o.absolute_cofs(include_pre=True)
    assert np.array_equal(pairwise, cofs[:, :2, 2])
    lo, hi = offs.min(axis=0), offs.max(axis=0)
    inter = [imgsize[k] - (hi[k] - lo[k]) for k in range(2)]
    mode = "pad" if kw["pad"] else ("crop" if kw["crop"] else "same")
    rec.label(mode)
    rec.label("pairwise raw" if kw["refimageindex"] is None and kw["onraw"] else "pairwise" if kw["refimageindex"] is None else "fixed")
    shape = tuple(np.delete(out[0].shape, stackdim))
    imgs = [[np.take(s, i, axis=stackdim) for i in range(n)] for s in out]
    for s in out:
        assert s.dtype == odtype and s.shape == out[0].shape and s.shape[stackdim] == n
    ax = quiet(o.transform_axes, list(axes))
    assert [len(a) for a in ax] == list(out[0].shape), ("axes", [len(a) for a in ax], out[0].shape)
    ax2 = list(axes)
    quiet(o.getaxesaftertransformation, ax2)
    assert all(np.array_equal(a, b) for a, b in zip(ax, ax2))
    assert np.array_equal(ax[stackdim], axes[stackdim])
    assert tuple(o.dest_imgsize()) == shape
    if pre:
        # the initial shift loses data at the edges: images coincide where they have data
        rec.label("initial shift")
        for s, sc in zip(imgs, scenes):
            m = np.array(s)
            ok = ~np.isnan(m)
            lowest, highest = np.nanmin(np.where(ok, m, np.inf), axis=0), np.nanmax(np.where(ok, m, -np.inf), axis=0)
            any_ = ok.any(axis=0)
            assert np.array_equal(lowest[any_], highest[any_]), "images do not coincide"
            assert any_.any()
        return
    if mode == "crop" and min(inter) <= 0:
        return
    if mode == "pad":
        origin, size = lo, tuple(imgsize[k] + hi[k] - lo[k] for k in range(2))
    elif mode == "crop":
        origin, size = hi, tuple(inter)
    else:
        size = tuple(imgsize)
        # same size: centered, half pixels are interpolated
        if kw.get("roi") is None and not callable(kw.get("rawcalc")):
            origin = offs[iref]  # as aligned
            c = cofs[iref, :2, 2]
            assert np.array_equal(c, [0, 0]), ("reference moved", c)
        else:
            c = cofs[iref, :2, 2][::-1]
            want = (lo + hi) / 2.0 - offs[iref]
            assert np.array_equal(c, want), ("centered", c, want)
            origin = offs[iref] + c
    assert shape == tuple(size), ("size", mode, shape, size)
    if np.array_equal(origin, np.round(origin)):
        origin = np.round(origin).astype(int)
        for s, sc in zip(imgs, scenes):
            for i, img in enumerate(s):
                m = model(sc, offs[i], imgsize, origin, shape)
                miss = np.isnan(m)
                assert np.array_equal(img[~miss], m[~miss]), ("content of image", i, img, m)
                assert np.all(np.isnan(img[miss])) if np.isnan(cval) else np.all(img[miss] == cval), ("missing data", i, img, m)
    else:
        rec.label("half pixels")
        for s in imgs:
            m = np.array(s)
            ok = ~np.isnan(m) if np.isnan(cval) else m != cval
            full = ok.all(axis=0)
            for img in m:
                assert np.allclose(img[full], m[0][full], rtol=1e-5), "images do not coincide"
    # axes of the output: the reference image did not move along the axes
    if mode != "same":
        for k in range(2):
            a, b = ax[dims[k]], axes[dims[k]]
            if len(b) > 1:
                step = b[1] - b[0]
                want = b[0] + step * (np.arange(shape[k]) + origin[k] - offs[iref][k])
                assert np.allclose(a, want), ("axis", k, a, want)
            else:
                assert np.array_equal(a, b)
    else:
        for k in range(2):
            assert np.array_equal(ax[dims[k]], axes[dims[k]])


def blobs(rng, bigshape, lo, hi, nblobs, one):
    """smooth spots on an empty background, all of them in each window; returns a function of the position"""
    spots = []
    for _ in range(nblobs):
        c = [rng.uniform(lo[k], max(hi[k] - 1, lo[k])) for k in range(2)]
        if one:
            c = [np.round(x) for x in c]
        spots.append((c, rng.uniform(1.2, 1.6), rng.uniform(50, 100)))

    def f(y, x):
        r = 0.0
        for (cy, cx), sig, a in spots:
            d2 = (y - cy) ** 2 * (bigshape[0] > 1) + (x - cx) ** 2 * (bigshape[1] > 1)
            r = r + a * np.exp(-d2 / (2 * sig**2)) * (d2 < 49)
        return r

    return f


@check(quick=250, thorough=2500, shards={"quick": 4, "thorough": 8})
@given(st.data())
def smooth(data):
    """methods that interpolate: shifts are recovered within a fraction of a pixel"""
    draw = data.draw
    method = draw(st.sampled_from(sorted(SMOOTH)))
    cls, tol = SMOOTH[method]
    n = draw(st.integers(2, 4))
    vector = draw(st.sampled_from([None, None, "row", "column"]))
    rng, imgsize, bigshape, offs, lo, hi = draw(windows("smooth", n, vector))
    offs = offs.astype(float)
    subpixel = method == "fft" and draw(B)  # the others look for the brightest pixels
    if subpixel:
        d = np.array([[draw(st.floats(-0.45, 0.45)) * (bigshape[k] > 1) for k in range(2)] for _ in range(n)])
        offs = offs + d
    f = blobs(rng, bigshape, lo, hi, 1 if method != "fft" and method != "centroid" else draw(st.integers(1, 3)), method == "gaussmax")
    stackdim = draw(st.integers(0, 2))
    Y, X = np.mgrid[: imgsize[0], : imgsize[1]]
    imgs = [f(Y + oy, X + ox) for oy, ox in offs]
    gain = draw(st.sampled_from([None, None, 2.0])) if method != "fft" else None
    stack = np.stack(imgs, axis=stackdim).astype(draw(st.sampled_from([np.float32, np.float64])))
    second = np.stack([3 * i + 1 for i in imgs], axis=stackdim).astype(stack.dtype)
    out = [np.zeros(1, dtype=stack.dtype)] * 2
    o = cls([stack, second], None, out, None, None, stackdim=stackdim, overwrite=True)
    kw = dict(pad=draw(B), crop=draw(B), onraw=draw(B), refimageindex=draw(st.one_of(st.none(), st.integers(0, n - 1))))
    if method == "gaussmax" and kw["refimageindex"] is None:
        kw["onraw"] = True  # interpolated peaks have another top
    desc = (method, n, imgsize, offs.tolist(), stackdim, str(stack.dtype), kw)
    rec.current = repr(desc)
    rec.case(repr(desc), nontrivial=True)
    rec.label(method)
    if kw["refimageindex"] is None and not kw["onraw"] and not subpixel:
        rec.label("on aligned")
    quiet(o.align, 0, **kw)
    cofs = o.absolute_cofs(homography=True)[:, :2, 2]
    iref = (kw["refimageindex"] or 0) % n
    got = cofs - cofs[iref]
    ref = (offs[iref] - offs)[:, ::-1]
    t = tol * (n if kw["refimageindex"] is None else 1) * (3 if subpixel else 1)
    assert np.all(np.abs(got - ref) <= t), ("shifts", method, subpixel, got.tolist(), ref.tolist())
    # images coincide
    res = [[np.take(s, i, axis=stackdim) for i in range(n)] for s in out]
    assert out[0].shape == out[1].shape
    m, m2 = np.array(res[0]), np.array(res[1])
    ok = ~np.isnan(m).any(axis=0)
    assert np.array_equal(np.isnan(m), np.isnan(m2)), "stacks are treated differently"
    good = ~np.isnan(m)
    assert np.allclose(m2[good], 3 * m[good] + 1, rtol=1e-4, atol=1e-3), "stacks are treated differently"
    lost = sum(np.abs(imgs[iref]).ravel()) * 0.02
    amp = 45.0 * (t + (0.35 if subpixel or method != "max" else 0)) + 1
    if ok.any():
        diff = m[:, ok] - m[iref][ok]
        assert np.max(np.abs(diff)) <= amp * 2, ("images do not coincide", np.max(np.abs(diff)), amp)
    # no intensity is lost
    if kw["pad"]:
        assert np.allclose(np.nansum(m, axis=(1, 2)), [i.sum() for i in imgs], rtol=0.02), "intensity lost"


def makesource(kind, stacks, stackdim, root, name):
    """data stacks in another place; returns source, sublist, what to close, how to check that it is unchanged"""
    if kind == "array":
        return stacks, None, []
    if kind == "edf":
        d = os.path.join(root, name)
        os.makedirs(d)
        lst = []
        for j, s in enumerate(stacks):
            lst.append([])
            for i in range(s.shape[stackdim]):
                fn = "s{}_{:02d}.edf".format(j, i)
                img = np.ascontiguousarray(np.take(s, i, axis=stackdim))
                fabio.edfimage.edfimage(data=img).write(os.path.join(d, fn))
                lst[-1].append(fn)
        return d, lst, []
    fn = os.path.join(root, name + {"h5": ".h5", "nxs": ".nxs", "group": ".h5", "dataset": ".hdf5"}[kind])
    names = ["s{}".format(j) for j in range(len(stacks))]
    sub = "g/x" if kind == "group" else ""
    with h5py.File(fn, "w") as f:
        for nm, s in zip(names, stacks):
            f[(sub + "/" if sub else "") + nm] = s
    if kind in ("h5", "nxs"):
        return fn, names, []
    h = h5py.File(fn, "r")
    if kind == "group":
        return h[sub], names, [h]
    return [h[nm] for nm in names], None, [h]


def readedf(fn):
    with fabio.open(fn) as f:
        return f.data.copy()


@check(quick=100, thorough=1500, shards={"quick": 4, "thorough": 8})
@given(st.data())
def files(data):
    """data in files is aligned like data in memory"""
    draw = data.draw
    n = draw(st.integers(1, 4))
    rng, imgsize, bigshape, offs, lo, hi = draw(windows("exact", n, None))
    scene = rng.randint(100, 1000, bigshape).astype(float)
    spot = [draw(st.integers(lo[k], hi[k] - 1)) for k in range(2)]
    scene[tuple(spot)] = 5000
    stackdim = draw(st.integers(0, 2))
    dtype = draw(st.sampled_from([np.float32, np.int16, np.float64]))
    odtype = np.float64 if dtype == np.float64 else np.float32
    nsets = draw(st.integers(1, 2))
    iref = draw(st.integers(0, nsets - 1))
    scenes = [scene if k == iref else rng.randint(1, 1000, bigshape).astype(float) for k in range(nsets)]
    stacks = [stackof(s, offs, imgsize, stackdim, dtype) for s in scenes]
    skind = draw(st.sampled_from(["array", "h5", "nxs", "group", "dataset", "edf"]))
    dkind = draw(st.sampled_from(["array", "h5", "group", "dataset", "edf", "tif"]))
    overwrite = draw(B) if dkind in ("h5", "group", "edf", "tif") else True
    kws = [draw(options(n, imgsize, spot, [x + 1 for x in spot], offs, (0, 0))) for _ in range(draw(st.integers(1, 2)))]
    desc = (skind, dkind, overwrite, n, imgsize, offs.tolist(), spot, stackdim, np.dtype(dtype).name, nsets, iref, kws)
    rec.current = repr(desc)
    rec.case(repr(desc), nontrivial=n > 1 and (skind != "array" or dkind != "array"))
    rec.label("from " + skind)
    rec.label("to " + dkind)
    root = tempfile.mkdtemp()
    close = []
    try:
        source, sublist, close = makesource(skind, stacks, stackdim, root, "source")
        src = alignSource(source, sublist, stackdim=stackdim)
        assert (src.nimages, tuple(src.imgsize), src.nsets) == (n, tuple(imgsize), nsets)
        for j in range(nsets):
            for i in range(n):
                img = src.readimg(j, i)
                ref = np.take(stacks[j], i, axis=stackdim)
                assert np.array_equal(img, ref)
                img = src.readimgas(j, i, np.float64)
                assert img.dtype == np.float64 and np.array_equal(img, ref)
        names = ["a{}".format(j) for j in range(nsets)]
        ext = ""
        fn = os.path.join(root, "dest.h5")
        if dkind == "array":
            dest, dnames = [np.zeros(1, dtype=odtype)] * nsets, None
        elif dkind == "h5":
            dest, dnames, ext = fn, names, draw(st.sampled_from(["", "_al"]))
        elif dkind == "group":
            h = h5py.File(fn, "w")
            close.append(h)
            dest, dnames, ext = h.create_group("here") if draw(B) else h, names, draw(st.sampled_from(["", "_al"]))
        elif dkind == "dataset":
            h = h5py.File(fn, "w")
            close.append(h)
            dest = [h.create_dataset(nm, (1, 1, 1), dtype=odtype, maxshape=(None,) * 3) for nm in names]
            dnames = None
        else:
            dest, dnames, ext = os.path.join(root, "dest"), names, "." + dkind
        o = alignMax(source, sublist, dest, dnames, ext, stackdim=stackdim, overwrite=overwrite)
        seen = []
        for kw in kws:
            quiet(o.align, iref, **kw)
            mem = [np.zeros(1, dtype=odtype)] * nsets
            m = alignMax(stacks, None, mem, None, None, stackdim=stackdim, overwrite=True)
            quiet(m.align, iref, **kw)
            assert np.array_equal(m.absolute_cofs(), o.absolute_cofs())
            if dkind == "array":
                got = dest
            elif dkind in ("h5", "group", "dataset"):
                got = [d[()] for d in o.dest.datasets]
                paths = [d.name for d in o.dest.datasets]
                assert all(p.split("/")[-1] == nm + ext for p, nm in zip(paths, names))
                seen.append((paths, got))
            else:
                d = o.dest.destdir
                got = []
                count = len(str(n))
                paths = [[os.path.join(d, "{}_{:0{}d}{}".format(nm, i, count, ext)) for i in range(n)] for nm in names]
                for p in paths:
                    got.append(np.stack([readedf(x) for x in p], axis=stackdim))
                seen.append((paths, got))
            for a, b in zip(got, mem):
                assert (a.dtype == b.dtype or dkind == "tif") and a.shape == b.shape and np.array_equal(a, b, equal_nan=True), (a, b)
        if not overwrite:
            # earlier results are still there
            for paths, got in seen:
                for p, g in zip(paths, got):
                    if dkind in ("h5", "group"):
                        now = o.dest.handle[p][()]
                    else:
                        now = np.stack([readedf(x) for x in p], axis=stackdim)
                    assert now.shape == g.shape and np.array_equal(now, g, equal_nan=True), "earlier result overwritten"
        if skind == "edf":
            for j in range(nsets):
                for i in range(n):
                    assert np.array_equal(readedf(os.path.join(source, sublist[j][i])), np.take(stacks[j], i, axis=stackdim))
        elif skind != "array":
            for d, s in zip(o.source.datasets, stacks):
                assert np.array_equal(d[()], s)
    finally:
        for h in close:
            h.close()
        for x in ("source", "dest"):
            try:
                getattr(o, x).handle.close()
            except Exception:
                pass


@check(quick=120, thorough=2000, shards={"quick": 2, "thorough": 4})
@given(st.data())
def destinations(data):
    """the place where results are saved"""
    draw = data.draw
    kind = draw(st.sampled_from(["h5", "files"]))
    root = tempfile.mkdtemp()
    uid = 0
    log = []
    model_ = {}  # dataset or file name -> value
    fn = os.path.join(root, "d.h5")
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        ops.append((
            draw(st.lists(st.sampled_from(["a", "b", "ab"]), min_size=1, max_size=2, unique=True)),
            draw(st.sampled_from(["", "_x"] if kind == "h5" else [".edf", ".tif"])),
            draw(B),
            (draw(st.integers(1, 3)), draw(st.integers(2, 3)), draw(st.integers(2, 3))),
            draw(st.sampled_from([np.float32, np.float64])),
            draw(st.integers(0, 2)),
        ))
    rec.current = repr((kind, ops))
    rec.case(repr((kind, ops)), nontrivial=len(ops) > 1)
    rec.label(kind)
    for names, ext, overwrite, (n, ny, nx), dtype, stackdim in ops:
        uid += 1
        d = alignDest(fn if kind == "h5" else os.path.join(root, "out"), names, ext, stackdim=stackdim, overwrite=overwrite)
        try:
            d.prepare(n, (ny, nx), dtype)
            shape = [ny, nx]
            shape.insert(stackdim, n)
            imgs = {}
            for j, nm in enumerate(names):
                for i in range(n):
                    img = (np.arange(ny * nx).reshape(ny, nx) + 100 * uid + 10 * j + i).astype(dtype)
                    d.writeimg(img, j, i)
                    imgs[j, i] = img
            new = {}
            if kind == "h5":
                got = [x.name for x in d.datasets]
                for j, p in enumerate(got):
                    assert p.split("/")[-1] == names[j] + ext
                    new[p] = np.stack([imgs[j, i] for i in range(n)], axis=stackdim)
                    assert list(d.datasets[j].shape) == shape and d.datasets[j].dtype == dtype
            else:
                for j, nm in enumerate(names):
                    for i in range(n):
                        new[os.path.join(d.destdir, "{}_{}{}".format(nm, i, ext))] = imgs[j, i]
            if overwrite:
                first = "/" if kind == "h5" else os.path.join(root, "out")
                same = all(
                    first.rstrip("/") + "/" + nm + ext in model_
                    and model_[first.rstrip("/") + "/" + nm + ext].shape == tuple(shape)
                    and model_[first.rstrip("/") + "/" + nm + ext].dtype == dtype
                    for nm in names
                )
                if same and kind == "h5":
                    rec.label("overwritten")
                    assert set(new) <= set(model_), (new.keys(), model_.keys())
                elif kind == "h5":
                    assert not set(new) & set(model_), ("overwritten with another shape", new.keys(), model_.keys())
            else:
                assert not set(new) & set(model_), ("overwritten", new.keys(), model_.keys())
            model_.update(new)
            for p, v in model_.items():
                if kind == "h5":
                    now = d.handle[p][()]
                else:
                    now = readedf(p)
                assert now.shape == v.shape and np.array_equal(now, v), p
        finally:
            if kind == "h5":
                d.handle.close()


@check(quick=60, thorough=1000, shards={"quick": 4, "thorough": 8})
@given(st.data())
def task(data):
    """the alignment task on a data file"""
    draw = data.draw
    n = draw(st.integers(1, 4))
    rng, imgsize, bigshape, offs, lo, hi = draw(windows("exact", n, None))
    stackdim = draw(st.integers(0, 2))
    signals = draw(st.lists(st.tuples(st.sampled_from(["detector00", "detector01", "counters"]), st.sampled_from(["Fe-K", "S-K", "Ca"])), min_size=1, max_size=4, unique=True))
    iref = draw(st.integers(0, len(signals) - 1))
    method = draw(st.sampled_from(["max", "min"]))
    swap = draw(st.integers(0, 3)) == 0
    spot = [draw(st.integers(lo[k], hi[k] - 1)) for k in range(2)]
    scenes = [rng.randint(100, 1000, bigshape).astype(float) for _ in signals]
    scenes[iref][tuple(spot)] = 5000 if (method == "max") != swap else 3
    dtype = draw(st.sampled_from([np.float32, np.float64]))
    stacks = [stackof(s, offs, imgsize, stackdim, dtype) for s in scenes]
    dims = [k for k in range(3) if k != stackdim]
    values = [None] * 3
    values[stackdim] = np.arange(n) * 0.5 + 7
    for k in range(2):
        values[dims[k]] = draw(st.integers(-5, 5)) + draw(st.sampled_from([1.0, -0.5, 2.0])) * np.arange(imgsize[k])
    axs = [("ax%d" % k, values[k], draw(st.sampled_from([None, "um", "keV"])), None) for k in range(3)]
    params = {"alignmethod": method, "stackdim": stackdim, "crop": draw(B), "reference": "/" .join(signals[iref])}
    refs = {None: None, "first": 0, "middle": n // 2, "last": n - 1, 0: 0, -1: n - 1, 0.0: 0}
    name = draw(st.sampled_from(["default", None, "first", "middle", "last", 0, -1, 0.5]))
    if name == 0.5:
        index = int(round(0.5 * n))
        assume(index < n)
    else:
        index = {"default": n - 1}.get(name) if name == "default" else refs[name]
    if name != "default":
        params["refimageindex"] = name
    if swap:
        params["alignmultiplier"] = -1
        if draw(B):
            params["alignoffset"] = 6000
    elif draw(B):
        params["alignoffset"] = 10
    kw = {"pad": not params["crop"], "crop": params["crop"], "onraw": True, "refimageindex": index}
    if draw(st.integers(0, 2)) == 0:
        kw["roi"] = params["roi"] = draw(options(n, imgsize, spot, [x + 1 for x in spot], offs, (0, 0))).get("roi")
    desc = (params, signals, offs.tolist(), imgsize, spot, np.dtype(dtype).name)
    rec.current = repr(desc)
    rec.case(repr(desc), nontrivial=bool(n > 1 and np.any(offs != offs[0])))
    # signals of one group are next to each other in a file
    order = [s for g in dict.fromkeys(g for g, _ in signals) for s in signals if s[0] == g]
    p = lib_nx.build(axs, [(g, s, stacks[signals.index((g, s))]) for g, s in order])
    t = processutils.create_task(dependencies=p, method="align", **params)
    quiet(t.run)
    assert t.done
    lo, hi = offs.min(axis=0), offs.max(axis=0)
    origin = hi if params["crop"] else lo
    size = tuple(imgsize[k] - (hi[k] - lo[k]) if params["crop"] else imgsize[k] + hi[k] - lo[k] for k in range(2))
    ref = index or 0
    with t.output.results.open() as f:
        cofs = f["change-of-frame"][()]
        assert np.array_equal(cofs - cofs[ref], (offs[ref] - offs)[:, ::-1]), (cofs, offs)
        assert {g for g in f if f[g].attrs.get("NX_class") == "NXdata" and not isinstance(f.get(g, getlink=True), h5py.SoftLink)} >= {g for g, _ in signals}
        for (g, s), sc in zip(signals, scenes):
            got = f[g][s][()]
            want = np.stack([model(sc, o, imgsize, origin, size) for o in offs], axis=stackdim)
            assert got.shape == want.shape and got.dtype == dtype, (got.shape, want.shape, got.dtype)
            assert np.array_equal(got, want, equal_nan=True), ("content", g, s, got, want)
            names = [x.decode() if isinstance(x, bytes) else x for x in f[g].attrs["axes"]]
            assert names == [a[0] for a in axs], names
            for k in range(3):
                ax = f[g][names[k]]
                if k == stackdim:
                    want = values[k]
                else:
                    j = dims.index(k)
                    step = values[k][1] - values[k][0]
                    want = values[k][0] + step * (np.arange(size[j]) + origin[j] - offs[ref][j])
                assert np.allclose(ax[()], want), ("axis", k, ax[()], want)
                unit = ax.attrs.get("units", "") or ""
                assert {"µm": "um", "dimensionless": ""}.get(unit, unit) == (axs[k][2] or ""), ("units", unit)
    rec.label(repr(name))
