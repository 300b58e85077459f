"""C09: Fourier tools against the definition of the discrete Fourier transform."""
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.math import ft

rule(
    "Complex and real signals of 1-33 points (1D) and up to 12x12 (2D), both "
    "normalisation and frequency conventions, spacings, sub-regions, frequency subsets, "
    "centred spectra. Non-trivial: more than one point and (for sub-regions) a proper "
    "sub-region, (for shifts) a non-zero shift."
)

CONV = [ft.fftConvention.numpy, ft.fftConvention.idl]
CONVN = ["numpy", "idl"]


@st.composite
def signal(draw, n):
    seed = draw(st.integers(0, 10 ** 6))
    cplx = draw(st.booleans())
    rng = np.random.RandomState(seed)
    shape = n if isinstance(n, tuple) else (n,)
    f = np.round(rng.uniform(-10, 10, shape), 3)
    if cplx:
        f = f + 1j * np.round(rng.uniform(-10, 10, shape), 3)
    return f


def close(a, b, what, scale=None):
    a = np.asarray(a)
    b = np.asarray(b)
    assert a.shape == b.shape, "%s: shape %r instead of %r" % (what, a.shape, b.shape)
    s = max(1.0, np.abs(b).max() if b.size else 1.0)
    if scale:
        s = max(s, scale)
    err = np.abs(a - b).max() if a.size else 0
    assert err <= 1e-8 * s, "%s: differs by %g" % (what, err)


def freqs_ref(n, d, conv, centered):
    """All k/(n.d), one period, non-negative first; the Nyquist frequency of an even
    length is negative (numpy) or positive (idl)."""
    k = np.arange(n)
    if conv == "numpy":
        k = np.where(k >= (n + 1) // 2, k - n, k)
    else:
        k = np.where(k > n // 2, k - n, k)
    if centered:
        k = np.sort(k)
    return k / (n * d)


def dft_ref(f, x, u, sign, axis=0):
    """sum_x f(x) exp(sign.2.pi.i.u.x): plain loop"""
    f = np.moveaxis(np.asarray(f, dtype=complex), axis, 0)
    out = np.zeros((len(u),) + f.shape[1:], dtype=complex)
    for i, ui in enumerate(u):
        for j, xj in enumerate(x):
            out[i] += f[j] * np.exp(sign * 2j * np.pi * ui * xj)
    return np.moveaxis(out, 0, axis)


SPACING = st.sampled_from([1, 1, 0.5, 2, 0.25, 3.7])


@check(quick=600, thorough=20000)
@given(
    n=st.integers(1, 40), d=SPACING, ci=st.integers(0, 1), centered=st.booleans(),
    data=st.data(),
)
def frequencies(n, d, ci, centered, data):
    u = ft.fftfreq(n, d=d, centered=centered, freqconvention=CONV[ci])
    close(u, freqs_ref(n, d, CONVN[ci], centered), "fftfreq")
    if ci == 0 and not centered:
        close(u, np.fft.fftfreq(n, d), "numpy fftfreq")
    # the shift maps the default order on the centred one, and back
    u0 = ft.fftfreq(n, d=d, freqconvention=CONV[ci])
    u1 = ft.fftfreq(n, d=d, centered=True, freqconvention=CONV[ci])
    close(ft.fftshift(u0, freqconvention=CONV[ci]), u1, "fftshift of the frequencies")
    close(ft.ifftshift(u1, freqconvention=CONV[ci]), u0, "ifftshift of the frequencies")
    shape = tuple(data.draw(st.lists(st.integers(1, 7), min_size=1, max_size=3)))
    a = np.arange(np.prod(shape)).reshape(shape)
    acopy = a.copy()
    s = ft.fftshift(a, freqconvention=CONV[ci])
    assert np.array_equal(ft.ifftshift(s, freqconvention=CONV[ci]), a), "ifftshift(fftshift)"
    assert np.array_equal(
        ft.fftshift(ft.ifftshift(a, freqconvention=CONV[ci]), freqconvention=CONV[ci]), a
    ), "fftshift(ifftshift)"
    if ci == 0:
        assert np.array_equal(s, np.fft.fftshift(a)), "numpy fftshift"
        assert np.array_equal(ft.ifftshift(a), np.fft.ifftshift(a)), "numpy ifftshift"
    else:
        # zero frequency lands where the centred frequencies are zero
        z = tuple(
            int(np.flatnonzero(ft.fftfreq(m, centered=True, freqconvention=CONV[1]) == 0)[0])
            for m in shape
        )
        assert s[z] == a[(0,) * len(shape)], "zero frequency not at zero"
    assert np.array_equal(a, acopy), "input modified"
    rec.case(("freq", n, d, ci, centered, shape), nontrivial=n > 1 and a.size > 1)


@check(quick=500, thorough=15000)
@given(n=st.integers(1, 33), d=SPACING, ci=st.integers(0, 1), centered=st.booleans(), data=st.data())
def roundtrip1d(n, d, ci, centered, data):
    f = data.draw(signal(n))
    f0 = f.copy()
    kw = {"dx": d, "normconvention": CONV[ci], "centered": centered}
    F = ft.fft(f, **kw)
    x = np.arange(n) * d
    u = freqs_ref(n, d, "numpy", centered)
    ref = dft_ref(f, x, u, -1)
    if ci == 1:
        ref = ref / n
    close(F, ref, "fft")
    if not centered:
        close(F * (n if ci else 1), np.fft.fft(f), "numpy fft")
    close(ft.ifft(F, **kw), f, "ifft(fft)")
    close(ft.fft(ft.ifft(f, **kw), **kw), f, "fft(ifft)", scale=100)
    # same thing with explicitly given frequencies, in any order
    order = data.draw(st.permutations(range(n)))
    u2 = u[list(order)]
    kw2 = {"dx": d, "normconvention": CONV[ci], "u": u2}
    F2 = ft.fft(f, **kw2)
    close(F2, F[list(order)], "fft with permuted frequencies")
    close(ft.ifft(F2, **kw2), f, "ifft with permuted frequencies")
    # Parseval
    p = np.sum(np.abs(F) ** 2) * (n if ci else 1.0 / n)
    assert abs(p - np.sum(np.abs(f) ** 2)) <= 1e-8 * max(1, p), "Parseval"
    assert np.array_equal(f, f0), "input modified"
    rec.case(("rt", n, d, ci, centered, f.tobytes()), nontrivial=n > 1)


@check(quick=300, thorough=8000)
@given(
    ny=st.integers(1, 12), nx=st.integers(1, 12), dy=SPACING, dx=SPACING,
    ci=st.integers(0, 1), centered=st.booleans(), data=st.data(),
)
def roundtrip2d(ny, nx, dy, dx, ci, centered, data):
    f = data.draw(signal((ny, nx)))
    f0 = f.copy()
    kw = {"dx": dx, "dy": dy, "normconvention": CONV[ci], "centered": centered}
    F = ft.fft2(f, **kw)
    norm = nx * ny if ci else 1
    ref = np.fft.fft2(f)
    if centered:
        ref = np.fft.fftshift(ref)
    close(F * norm, ref, "fft2")
    close(ft.ifft2(F, **kw), f, "ifft2(fft2)")
    close(ft.fft2(ft.ifft2(f, **kw), **kw), f, "fft2(ifft2)", scale=1000)
    # separable: row-wise then column-wise 1D transforms
    kx = {"dx": dx, "normconvention": CONV[ci], "centered": centered}
    ky = {"dx": dy, "normconvention": CONV[ci], "centered": centered}
    G = np.stack([ft.fft(row, **kx) for row in f], axis=0)
    G = np.stack([ft.fft(col, **ky) for col in G.T], axis=1)
    close(F, G, "separability")
    assert np.array_equal(f, f0), "input modified"
    rec.case(("rt2", ny, nx, dy, dx, ci, centered, f.tobytes()), nontrivial=nx > 1 and ny > 1)


@st.composite
def region(draw, n):
    a = draw(st.integers(0, n - 1))
    b = draw(st.integers(a, n - 1))
    return a, b


@check(quick=500, thorough=15000)
@given(
    ny=st.integers(1, 12), nx=st.integers(1, 12), dy=SPACING, dx=SPACING,
    ci=st.integers(0, 1), centered=st.booleans(), twod=st.booleans(), data=st.data(),
)
def subregion(ny, nx, dy, dx, ci, centered, twod, data):
    """A region of the inverse transform, a range of frequencies of the transform"""
    x0, x1 = data.draw(region(nx))
    y0, y1 = data.draw(region(ny))
    # sometimes leave the end open
    ox1 = None if (x1 == nx - 1 and data.draw(st.booleans())) else x1
    oy1 = None if (y1 == ny - 1 and data.draw(st.booleans())) else y1
    base = {"normconvention": CONV[ci]}
    xoff = data.draw(st.integers(-5, 5))
    yoff = data.draw(st.integers(-5, 5))
    if twod:
        f = data.draw(signal((ny, nx)))
        k = {"dx": dx, "dy": dy, "centered": centered}
        k.update(base)
        F = ft.fft2(f, **k)
        part = ft.ifft2(F, x0=x0, x1=ox1, y0=y0, y1=oy1, **k)
        close(part, f[y0 : y1 + 1, x0 : x1 + 1], "region of ifft2")
        u = ft.fftfreq(nx, dx, centered=centered)
        v = ft.fftfreq(ny, dy, centered=centered)
        iu = sorted(data.draw(st.sets(st.integers(0, nx - 1), min_size=1)))
        iv = sorted(data.draw(st.sets(st.integers(0, ny - 1), min_size=1)))
        P = ft.fft2(f, u=u[iu], v=v[iv], dx=dx, dy=dy)
        full = ft.fft2(f, dx=dx, dy=dy, centered=centered)
        close(P, full[np.ix_(iv, iu)], "frequency range of fft2")
        # one range given, the other default
        P = ft.fft2(f, u=u[iu], dx=dx, dy=dy, centered=centered)
        close(P, full[:, iu], "u range of fft2")
        P = ft.fft2(f, v=v[iv], dx=dx, dy=dy, centered=centered)
        close(P, full[iv, :], "v range of fft2")
        # real space that does not start at zero
        P = ft.fft2(f, dx=dx, dy=dy, centered=centered, x0=xoff, x1=xoff + nx - 1,
                    y0=yoff, y1=yoff + ny - 1)
        ph = np.exp(-2j * np.pi * (v[:, None] * dy * yoff + u[None, :] * dx * xoff))
        close(P, full * ph, "fft2 with another origin")
        nt = (x0, x1, y0, y1) != (0, nx - 1, 0, ny - 1)
    else:
        f = data.draw(signal(nx))
        k = {"dx": dx, "centered": centered}
        k.update(base)
        F = ft.fft(f, **k)
        part = ft.ifft(F, x0=x0, x1=ox1, **k)
        close(part, f[x0 : x1 + 1], "region of ifft")
        u = ft.fftfreq(nx, dx, centered=centered)
        iu = sorted(data.draw(st.sets(st.integers(0, nx - 1), min_size=1)))
        P = ft.fft(f, u=u[iu], dx=dx)
        full = ft.fft(f, dx=dx, centered=centered)
        close(P, full[iu], "frequency range of fft")
        P = ft.fft(f, dx=dx, centered=centered, x0=xoff, x1=xoff + nx - 1)
        close(P, full * np.exp(-2j * np.pi * u * dx * xoff), "fft with another origin")
        # a region outside the data: periodic
        per = ft.ifft(F, x0=xoff, x1=xoff + nx + 2, **k)
        close(per, f[np.arange(xoff, xoff + nx + 3) % nx], "periodicity")
        nt = (x0, x1) != (0, nx - 1)
    rec.case(("sub", twod, ny, nx, dy, dx, ci, centered, x0, x1, y0, y1, f.tobytes()), nontrivial=nt)


@check(quick=500, thorough=15000)
@given(
    ny=st.integers(2, 12), nx=st.integers(2, 12), ci=st.integers(0, 1), fi=st.integers(0, 1),
    twod=st.booleans(), fractional=st.booleans(), data=st.data(),
)
def shifts(ny, nx, ci, fi, twod, fractional, data):
    """A phase ramp in Fourier space moves the signal"""
    norm = {"normconvention": CONV[ci]}
    if fractional:
        # band-limited signal: a sum of harmonics strictly below Nyquist
        sx = data.draw(st.integers(-30, 30)) / 10.0
        sy = data.draw(st.integers(-30, 30)) / 10.0
        kx = (nx - 1) // 2
        ky = (ny - 1) // 2
        nh = data.draw(st.integers(1, 3))
        hs = [
            (
                data.draw(st.integers(-kx, kx)),
                data.draw(st.integers(-ky, ky)),
                data.draw(st.integers(1, 5)),
                data.draw(st.integers(0, 6)),
            )
            for _ in range(nh)
        ]
    else:
        sx = data.draw(st.integers(-2 * nx, 2 * nx))
        sy = data.draw(st.integers(-2 * ny, 2 * ny))
        hs = None
    if twod:
        yy, xx = np.mgrid[0:ny, 0:nx].astype(float)
    else:
        xx = np.arange(nx, dtype=float)
        yy = np.zeros(nx)

    def gen(x, y):
        return sum(
            a * np.cos(2 * np.pi * (p * x / nx + (q * y / ny if twod else 0)) + ph)
            for p, q, a, ph in hs
        )

    if fractional:
        f = gen(xx, yy)
        expected = gen(xx - sx, yy - sy)
    else:
        f = data.draw(signal((ny, nx) if twod else nx))
        expected = np.roll(f, (sy, sx), axis=(0, 1)) if twod else np.roll(f, sx)
    u = ft.fftfreq(nx, freqconvention=CONV[fi])
    v = ft.fftfreq(ny, freqconvention=CONV[fi])
    if twod:
        F = ft.fft2(f, u=u, v=v, **norm)
        ph = np.exp(-2j * np.pi * (u[None, :] * sx + v[:, None] * sy))
        r = ft.ifft2(F * ph, u=u, v=v, **norm)
    else:
        F = ft.fft(f, u=u, **norm)
        r = ft.ifft(F * np.exp(-2j * np.pi * u * sx), u=u, **norm)
    close(r, expected, "shifted signal")
    # multiplying by a phase in real space rolls the spectrum
    if not fractional:
        if twod:
            m = np.exp(2j * np.pi * (xx * sx / nx + yy * sy / ny))
            close(ft.fft2(f * m, **norm), np.roll(ft.fft2(f, **norm), (sy, sx), axis=(0, 1)),
                  "modulation")
        else:
            m = np.exp(2j * np.pi * xx * sx / nx)
            close(ft.fft(f * m, **norm), np.roll(ft.fft(f, **norm), sx), "modulation")
    rec.case(("shift", twod, fractional, ny, nx, sx, sy, ci, fi, repr(hs), np.asarray(f).tobytes()),
             nontrivial=bool(sx) or (twod and bool(sy)))
