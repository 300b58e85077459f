"""C24: coordinate transforms."""
import copy
import math
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.align.transform import transform
from spectrocrunch.align.types import transformationType as T

rule(
    "Programs of up to 8 operations (set, copy, compose, invert, change of frame, in place or not, conversion between "
    "types) on generated transforms of the five types next to 3x3 model matrices; point sets mapped by a known "
    "transform; images with linear, random or blob content. Non-trivial: a program in which two transforms of "
    "different type or a rotated/sheared one are combined, at least 3 non-degenerate points, or an image which is "
    "moved and stays partly inside."
)
B = st.booleans()
NAMES = ["translation", "rigid", "similarity", "affine", "projective"]
ORDER = {getattr(T, n): i for i, n in enumerate(NAMES)}
TRN = st.one_of(st.floats(-20, 20), st.integers(-20, 20).map(float), st.just(0.0))
ANG = st.one_of(st.floats(-3.1, 3.1), st.sampled_from([0.0, math.pi / 2, -math.pi / 2, 0.1, -0.1, 3.0]))


def matrix(name, draw):
    """random change-of-frame matrix of this type"""
    M = np.identity(3)
    M[0, 2], M[1, 2] = draw(TRN), draw(TRN)
    if name == "translation":
        return M
    a = draw(ANG)
    M[:2, :2] = [[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]
    if name == "rigid":
        return M
    M[:2, :2] *= draw(st.floats(0.5, 2))
    if name == "similarity":
        return M
    sx, sy, sh = draw(st.floats(0.6, 1.6)), draw(st.floats(0.6, 1.6)), draw(st.floats(-0.8, 0.8))
    M[:2, :2] = M[:2, :2].dot([[sx, sh], [0, sy]])
    if name == "affine":
        return M
    M[2, 0], M[2, 1] = draw(st.floats(-0.002, 0.002)), draw(st.floats(-0.002, 0.002))
    return M


def close(a, b, scale=1.0, tol=1e-8, msg=""):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, (msg, a.shape, b.shape)
    assert np.all(np.isfinite(a)), (msg, a)
    assert np.max(np.abs(a - b), initial=0) <= tol * max(scale, np.max(np.abs(b), initial=0)), (msg, a, b)


def setmatrix(t, name, M, draw):
    """use one of the setters"""
    if name == "translation":
        if draw(B):
            t.settranslation(M[0, 2], M[1, 2])
        else:
            t.settranslation(draw(st.sampled_from([list, tuple, np.array]))(M[:2, 2]))
    elif name == "rigid" and draw(B):
        t.setrigid(math.atan2(M[1, 0], M[0, 0]), M[0, 2], M[1, 2])
    elif name == "projective":
        t.setprojective(M)
    elif draw(B):
        t.setaffine(M[:2])
    else:
        t.setlinear(M[:2, :2])
        t.settranslation(M[:2, 2])


@st.composite
def news(draw, names=NAMES):
    name = draw(st.sampled_from(names))
    M = matrix(name, draw) if draw(st.integers(0, 5)) else np.identity(3)
    t = transform(getattr(T, name), cval=0)
    setmatrix(t, name, M, draw)
    return t, M, getattr(T, name)


def homog(xy):
    return np.vstack([np.asarray(xy), np.ones(np.shape(xy)[1])])


def project(h):
    return h[:2] / h[2]


def verify(t, M, typ, points):
    assert t.transfotype == typ, ("type", str(t.transfotype), str(typ))
    scale = 1.0
    close(t.getnumpyhomography(), M, scale, 1e-8, "matrix")
    close(t.getprojective(), M, scale, 1e-8, "matrix")
    close(t.gettranslation(), M[:2, 2], scale, 1e-8, "translation")
    close(t.getlinear(), M[:2, :2], scale, 1e-8, "linear part")
    close(t.getaffine(), M[:2], scale, 1e-8, "affine part")
    if typ == T.translation:
        close(t.getnumpy(), M[:2, 2], scale, 1e-8)
    else:
        close(t.getnumpy(), M, scale, 1e-8)
    if typ in (T.translation, T.rigid):
        th, tx, ty = t.getrigid()
        ref = np.array([[math.cos(th), -math.sin(th), tx], [math.sin(th), math.cos(th), ty]])
        close(ref, M[:2], scale, 1e-7, "rotation and translation")
    ident = np.array_equal(t.getnumpyhomography(), np.identity(3))
    assert t.isidentity() == ident
    assert bool(t.islinearidentity()) == np.array_equal(t.getlinear(), np.identity(2))
    assert bool(t.isprojidentity()) == np.array_equal(t.getnumpyhomography()[2, :2], [0, 0])
    h = homog(points)
    inv = np.linalg.inv(M)
    close(t.transformcoordinates(h), inv.dot(h), scale, 1e-6, "transformed coordinates")
    close(t.transformcoordinatesinverse(h), M.dot(h), scale, 1e-6, "original coordinates")
    close(t.transformcoordinates(h[:, 0]), inv.dot(h[:, 0]), scale, 1e-6, "one point")
    close(t.transformcoordinatesinverse(t.transformcoordinates(h)), h, scale, 1e-6, "there and back")
    if typ == T.translation:
        close(t.transformcoordinates(points), points - M[:2, 2:], scale, 1e-8, "plain coordinates")
        close(t.transformcoordinates(points[:, 0]), points[:, 0] - M[:2, 2], scale, 1e-8, "plain coordinates")
    str(t)


@check(quick=400, thorough=8000, shards={"quick": 4, "thorough": 8})
@given(st.data())
def programs(data):
    """a history of operations on a few transforms"""
    draw = data.draw
    points = np.array([[draw(st.floats(-30, 30)) for _ in range(3)] for _ in range(2)])
    objs = [list(draw(news(), "transform")) for _ in range(draw(st.integers(2, 3)))]
    nops = draw(st.integers(1, 8))
    log = []
    rec.current = repr(([(str(ty), M.tolist()) for _, M, ty in objs], log))
    mixed = len({ty for _, _, ty in objs}) > 1 or any(not np.array_equal(M[:2, :2], np.identity(2)) for _, M, _ in objs)
    combined = False
    for _ in range(nops):
        i = draw(st.integers(0, len(objs) - 1))
        j = draw(st.integers(0, len(objs) - 1))
        (t, M, ty), (u, N, uy) = objs[i], objs[j]
        op = draw(st.sampled_from(
            ["after", "before", "after_inplace", "before_inplace", "new_frame", "new_frame_inplace",
             "inverse", "inverse_inplace", "copy", "from", "set", "trn", "identity", "linear", "rigid", "affine", "projective"]))
        log.append((op, i, j))
        rec.current = repr(([(str(ty_), M_.tolist()) for _, M_, ty_ in objs], log))
        big = max(ty, uy, key=lambda x: ORDER[x])
        new = None
        before_u = u.getnumpyhomography().copy()
        if op in ("after", "before", "new_frame") or op.endswith("_inplace") and not op.startswith("inverse"):
            combined = True
            R = {"a": N.dot(M), "b": M.dot(N), "n": np.linalg.inv(N).dot(M).dot(N)}[op[0]]
            if i == j and op.endswith("_inplace"):
                if op[0] == "n":
                    continue  # the frame changes while it is being used
            if op.endswith("_inplace"):
                getattr(t, op)(u)
                objs[i][1:] = [R, big]
            else:
                new = [getattr(t, op)(u), R, big]
                assert new[0].cval == t.cval or (op == "new_frame" and new[0].cval == u.cval)
        elif op == "inverse":
            new = [t.inverse(), np.linalg.inv(M), ty]
            h = homog(points)
            close(new[0].transformcoordinates(t.transformcoordinates(h)), h, 1, 1e-6, "inverse after transform")
            ident = t.after(new[0])
            close(ident.getnumpyhomography(), np.identity(3), 1, 1e-7, "identity")
        elif op == "inverse_inplace":
            t.inverse_inplace()
            objs[i][1] = np.linalg.inv(M)
        elif op == "copy":
            new = [t.copy() if draw(B) else copy.copy(t), M.copy(), ty]
            assert new[0] is not t
            new[0].interpolationargs
            assert new[0].interpolationargs == t.interpolationargs and new[0].cval == t.cval
        elif op == "from":
            t.fromtransform(u)
            objs[i][1:] = [N.copy(), uy]
        elif op == "set":
            name = NAMES[ORDER[ty]]
            M2 = matrix(name, draw)
            setmatrix(t, name, M2, draw)
            objs[i][1] = M2
        elif op == "trn":
            M2 = M.copy()
            M2[0, 2], M2[1, 2] = draw(TRN), draw(TRN)
            t.settranslation(M2[0, 2], M2[1, 2])
            objs[i][1] = M2
        elif op == "identity":
            t.setidentity()
            objs[i][1] = np.identity(3)
        elif op == "linear":
            if ty in (T.rigid, T.similarity):
                continue
            M2 = M.copy()
            M2[:2, :2] = matrix("affine", draw)[:2, :2]
            t.setlinear(M2[:2, :2])
            objs[i][1:] = [M2, T.affine if ty == T.translation else ty]
        elif op == "affine":
            if ty in (T.rigid, T.similarity):
                continue
            M2 = M.copy()
            M2[:2] = matrix("affine", draw)[:2]
            t.setaffine(M2[:2])
            objs[i][1:] = [M2, T.affine if ty == T.translation else ty]
        elif op == "rigid":
            a, tx, ty_ = draw(ANG), draw(TRN), draw(TRN)
            t.setrigid(a, tx, ty_)
            M2 = M.copy()
            M2[:2] = [[math.cos(a), -math.sin(a), tx], [math.sin(a), math.cos(a), ty_]]
            objs[i][1] = M2
            # a rotation in a transform of a more general type is still of that type or rigid
            assert t.transfotype in (ty, T.rigid)
            assert ty != T.translation or t.transfotype == T.rigid
            objs[i][2] = t.transfotype
        elif op == "projective":
            M2 = matrix("projective", draw)
            t.setprojective(M2)
            objs[i][1:] = [M2, T.projective]
        # results that are too stretched to be compared are not used
        for o in objs + ([new] if new else []):
            assume(np.linalg.cond(o[1]) < 1e6 and np.abs(o[1]).max() < 1e4)
        if i != j:
            assert np.array_equal(u.getnumpyhomography(), before_u), "the other transform changed"
        for o in objs:
            verify(*o, points)
        if new:
            verify(*new, points)
            if len(objs) < 4:
                objs.append(new)
            else:
                objs[j] = new
    rec.case(rec.current, nontrivial=mixed and combined)
    for op, _, _ in log:
        rec.label(op)


@check(quick=200, thorough=4000, shards={"quick": 2, "thorough": 8})
@given(st.data())
def sequence(data):
    """a composed transform acts like its parts one after the other, on homogeneous coordinates too"""
    draw = data.draw
    ts = [draw(news(), "transform") for _ in range(draw(st.integers(2, 4)))]
    pts = homog(np.array([[draw(st.floats(-30, 30)) for _ in range(4)] for _ in range(2)]))
    M = np.identity(3)
    for _, m, _ in ts:
        M = M.dot(m)
    assume(np.linalg.cond(M) < 1e7)
    types = [ty for _, _, ty in ts]
    rec.case([m.tolist() for _, m, _ in ts], nontrivial=len(set(types)) > 1)
    c = ts[0][0]
    d = ts[-1][0]
    for t, _, _ in ts[1:]:
        c = c.before(t)
    for t, _, _ in ts[-2::-1]:
        d = d.after(t)
    h = pts
    for t, _, _ in ts:
        h = t.transformcoordinates(h)
    assert np.all(np.abs(h[2]) > 1e-3)
    ref = np.linalg.inv(M).dot(pts)
    if np.all(np.abs(ref[2]) > 0.05):
        close(project(h), project(ref), 1, 1e-5, "one after the other")
        close(project(c.transformcoordinates(pts)), project(h), 1, 1e-5, "composed from the first on")
        close(project(d.transformcoordinates(pts)), project(h), 1, 1e-5, "composed from the last back")
        back = h
        for t, _, _ in ts[::-1]:
            back = t.transformcoordinatesinverse(back)
        close(project(back), pts[:2], 1, 1e-5, "back to the original")
        back = c.inverse().transformcoordinates(h)
        close(project(back), pts[:2], 1, 1e-5, "inverse")
    # other frame: map to the old frame, transform, map to the new frame
    t, _, ty = ts[0]
    f = ts[1][0]
    g = t.new_frame(f)
    h = f.transformcoordinates(t.transformcoordinates(f.transformcoordinatesinverse(pts)))
    got = g.transformcoordinates(pts)
    if np.all(np.abs(h[2]) > 0.05):
        close(project(got), project(h), 1, 1e-5, "changed frame")
    t2 = t.copy()
    t2.new_frame_inplace(f)
    close(t2.getnumpyhomography(), g.getnumpyhomography(), 1, 1e-6, "changed frame in place")


@check(quick=300, thorough=5000, shards={"quick": 2, "thorough": 8})
@given(st.data())
def keypoints(data):
    """a transform estimated from exact pairs maps these pairs on each other"""
    draw = data.draw
    name = draw(st.sampled_from(NAMES[:4]))
    M = matrix(name, draw)
    n = draw(st.integers({"translation": 1, "rigid": 2, "similarity": 2, "affine": 3}[name], 25))
    rng = np.random.RandomState(draw(st.integers(0, 10**6)))
    kind = draw(st.sampled_from(["cloud", "cloud", "grid", "far", "skewed"]))
    src = rng.uniform(0, 100, (2, n))
    if kind == "grid":
        src = np.round(src / 10) * 10
    elif kind == "far":
        src = src + 1000
    elif kind == "skewed":
        src = src**2 / 100
    dev = src - src.mean(axis=1, keepdims=True)
    s = np.linalg.svd(dev, compute_uv=False)
    need = {"translation": 0, "rigid": 1, "similarity": 1, "affine": 2}[name]
    assume(all(s[k] > 5 for k in range(min(need, len(s)))))
    dst = project(np.linalg.inv(M).dot(homog(src)))
    rec.case([name, M.tolist(), src.tolist()], nontrivial=n >= 3)
    rec.label(name)
    t = transform(getattr(T, name))
    if draw(B):
        setmatrix(t, name, matrix(name, draw), draw)  # previous value has no influence
    before = src.copy(), dst.copy()
    t.fromkeypoints(src[0], src[1], dst[0], dst[1])
    assert np.array_equal(src, before[0]) and np.array_equal(dst, before[1])
    assert t.transfotype == getattr(T, name)
    close(project(t.transformcoordinates(homog(src))), dst, 1, 1e-6, "source points")
    close(project(t.transformcoordinatesinverse(homog(dst))), src, 1, 1e-6, "destination points")
    close(t.getlinear(), M[:2, :2], 1, 1e-6, "linear part")
    close(t.gettranslation(), M[:2, 2], 100, 1e-5, "translation")
    inv = transform(getattr(T, name))
    inv.fromkeypoints(dst[0], dst[1], src[0], src[1])
    close(inv.getnumpyhomography(), np.linalg.inv(M), 100, 1e-5, "swapped pairs")


def sample(img, x, y):
    """linear interpolation and which positions lie inside"""
    ny, nx = img.shape
    eps = 1e-9
    inside = (x >= 0) & (x <= nx - 1) & (y >= 0) & (y <= ny - 1)
    sure = (x > eps) & (x < nx - 1 - eps) & (y > eps) & (y < ny - 1 - eps)
    border = inside & ~sure
    out = (x < -1e-6) | (x > nx - 1 + 1e-6) | (y < -1e-6) | (y > ny - 1 + 1e-6)
    x0 = np.clip(np.floor(x).astype(int), 0, nx - 2)
    y0 = np.clip(np.floor(y).astype(int), 0, ny - 2)
    fx, fy = x - x0, y - y0
    v = (
        img[y0, x0] * (1 - fx) * (1 - fy)
        + img[y0, x0 + 1] * fx * (1 - fy)
        + img[y0 + 1, x0] * (1 - fx) * fy
        + img[y0 + 1, x0 + 1] * fx * fy
    )
    return v, sure, out


@check(quick=300, thorough=5000, shards={"quick": 2, "thorough": 8})
@given(st.data())
def images(data):
    """the content of an image moves like the coordinates"""
    draw = data.draw
    name = draw(st.sampled_from(NAMES[:4]))
    M = matrix(name, draw)
    rng = np.random.RandomState(draw(st.integers(0, 10**6)))
    ny, nx = draw(st.integers(4, 18)), draw(st.integers(4, 18))
    # keep the center roughly in place
    c = np.array([nx / 2.0, ny / 2.0])
    sh = np.array([draw(st.floats(-1, 1)) * nx, draw(st.floats(-1, 1)) * ny]) * draw(st.sampled_from([0.2, 0.2, 0.6]))
    M[:2, 2] = c - M[:2, :2].dot(c) + sh
    if name == "translation" and draw(B):
        M[:2, 2] = np.round(M[:2, 2])
    asname = name if draw(B) else draw(st.sampled_from(NAMES[NAMES.index(name):4]))
    cval = draw(st.sampled_from([0, -1.5, np.nan]))
    t = transform(getattr(T, asname), cval=cval)
    setmatrix(t, asname if asname == "translation" else ("affine" if asname != "rigid" else "rigid"), M, draw)
    y, x = np.mgrid[:ny, :nx].astype(float)
    img = rng.rand(ny, nx) * 10 if draw(B) else 3 + 0.5 * x - 0.25 * y
    if draw(st.integers(0, 3)) == 0:
        img = np.asfortranarray(img)
    xo = M[0, 0] * x + M[0, 1] * y + M[0, 2]
    yo = M[1, 0] * x + M[1, 1] * y + M[1, 2]
    ref, inside, outside = sample(img, xo, yo)
    orig = img.copy()
    rec.case([name, asname, M.tolist(), ny, nx], nontrivial=bool(inside.any()) and not np.array_equal(M, np.identity(3)))
    rec.label(asname)
    got = t.transformimage(img)
    assert np.array_equal(img, orig), "image changed"
    assert got.shape == img.shape
    if inside.any():
        assert np.max(np.abs(got[inside] - ref[inside])) < 1e-6, ("content", M.tolist(), got, ref)
    if outside.any():
        o = got[outside]
        assert np.all(np.isnan(o)) if np.isnan(cval) else np.all(o == cval), ("outside", M.tolist(), o)
    # a pixel which goes to a pixel keeps its value exactly
    src = np.array([draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1))], dtype=float)
    dst = project(t.transformcoordinates(homog(src[:, None])))[:, 0]
    r = np.round(dst)
    if np.all(np.abs(dst - r) < 1e-9) and 0 <= r[0] < nx and 0 <= r[1] < ny and 0 < src[0] < nx - 1 and 0 < src[1] < ny - 1:
        rec.label("pixel on pixel")
        assert abs(got[int(r[1]), int(r[0])] - img[int(src[1]), int(src[0])]) < 1e-6
    # transform and back
    if name == "translation" and np.array_equal(M, np.round(M)):
        rec.label("whole pixels")
        back = t.inverse().transformimage(got)
        keep = np.ones((ny, nx), bool)
        dx, dy = M[:2, 2]
        keep &= (x - dx >= 0) & (x - dx <= nx - 1) & (y - dy >= 0) & (y - dy <= ny - 1)
        if keep.any():
            assert np.array_equal(back[keep], img[keep]), "moved there and back"
