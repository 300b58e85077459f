"""C23: polarization states and scattering."""
import math
import numpy as np
from vh import st, given, assume, check, rec, rule
from spectrocrunch.sources import polarization as pol
from spectrocrunch.sources.polarization import Jones, Stokes
from spectrocrunch.patch import jsonpickle

rule(
    "Generated fully and partially polarized states (complex field vectors, Stokes vectors from coherent mixtures, "
    "ellipse parameters; special states: linear along the axes, circular, unpolarized, weak), rotation angles and "
    "scattering directions. Oracles: the electric field projected on the scattered directions, Klein-Nishina, "
    "and explicit formulae. Non-trivial: a state that is not linear along an axis."
)
B = st.booleans()
EPS0C = 8.8541878128e-12 * 299792458.0
AMP = st.one_of(st.floats(0.01, 10), st.sampled_from([0.0, 1.0, 1e-3, 300.0]))
PHASE = st.one_of(st.floats(-180, 180), st.sampled_from([0.0, 90.0, -90.0, 180.0, 45.0]))
ANGLE = st.one_of(st.floats(-360, 360), st.sampled_from([0.0, 45.0, 90.0, 180.0, -90.0, 30, 135.0]))
POLAR = st.one_of(st.floats(0, 180), st.sampled_from([0.0, 90.0, 180.0, 60.0]))


@st.composite
def vectors(draw):
    a, b = draw(AMP), draw(AMP)
    assume(a > 0 or b > 0)
    p, q = math.radians(draw(PHASE)), math.radians(draw(PHASE))
    return [a * complex(math.cos(p), math.sin(p)), b * complex(math.cos(q), math.sin(q))]


@st.composite
def stokesvectors(draw, full=None):
    """partially polarized state with a given polarized fraction"""
    v = draw(vectors())
    s = stokes_of(v)
    kind = draw(st.sampled_from(["partial", "partial", "full", "none"])) if full is None else ("full" if full else "partial")
    if kind == "full":
        return s
    f = 0.0 if kind == "none" else draw(st.floats(0.05, 0.95))
    return np.array([s[0], s[1] * f, s[2] * f, s[3] * f])


def stokes_of(v):
    a, b = v
    x = a.conjugate() * b
    return np.array([abs(a) ** 2 + abs(b) ** 2, abs(a) ** 2 - abs(b) ** 2, 2 * x.real, 2 * x.imag])


def close(a, b, scale=1.0, tol=1e-9, msg=""):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, (msg, a.shape, b.shape)
    assert np.all(np.isfinite(a)), (msg, a)
    assert np.max(np.abs(a - b), initial=0) <= tol * scale, (msg, a, b)


def sameangle(a, b, period, tol, msg):
    d = (a - b + period / 2) % period - period / 2
    assert abs(d) <= tol, (msg, a, b)


def trivial(s):
    return abs(s[2]) + abs(s[3]) < 1e-9 * s[0]


@check(quick=500, thorough=30000, shards={"quick": 2, "thorough": 8})
@given(st.data())
def field(data):
    """fully polarized"""
    v = data.draw(vectors(), "v")
    s = stokes_of(v)
    n = s[0]
    rec.current = repr(v)
    rec.case(rec.current, nontrivial=not trivial(s))
    J = Jones(*v)
    close(J.V, v, math.sqrt(n))
    close(J.to_numpy(), v, math.sqrt(n))
    close(J.sqnorm, n, n)
    close(J.norm, math.sqrt(n), math.sqrt(n))
    close(J.intensity, n / 2 * EPS0C, n * EPS0C, 1e-7)
    assert J.intensity >= 0
    C = np.outer(v, np.conj(v))
    close(J.coherency_matrix, C, n)
    S = J.to_stokes(silent=True)
    close(S.S, s, n, msg="Stokes")
    close(S.to_numpy(), s, n)
    close(S.coherency_matrix, C, n, msg="coherency matrix")
    close(S.intensity, J.intensity, J.intensity)
    close(J.dop, 1)
    close(S.dop, 1, 1, 1e-7)
    close(J.dolp, math.hypot(s[1], s[2]) / n)
    close(J.docp, s[3] / n)
    close(J.hdolp, s[1] / n)
    close(S.intensity_polarized, J.intensity, J.intensity, 1e-7)
    close(S.intensity_unpolarized, 0, J.intensity, 1e-7)
    # angles
    if v[0] != 0:
        sameangle(J.phase0, math.degrees(np.angle(v[0])), 360, 1e-6, "phase")
    if v[1] != 0:
        sameangle(J.phase1, math.degrees(np.angle(v[1])), 360, 1e-6, "phase")
    if min(abs(v[0]), abs(v[1])) > 1e-3 * math.sqrt(n):
        sameangle(J.phase_difference, math.degrees(np.angle(v[1] / v[0])), 360, 1e-5, "phase difference")
        sameangle(S.phase_difference, math.degrees(np.angle(v[1] / v[0])), 360, 1e-5, "phase difference")
    if math.hypot(s[1], s[2]) > 1e-3 * n:
        # direction of the long axis of the ellipse
        t = np.radians(np.linspace(0, 360, 2881))
        E = J.efield(np.degrees(t))
        E1 = np.real(np.outer(v, np.exp(-1j * t)))
        close(E, E1, math.sqrt(n), 1e-9, "field")
        k = np.argmax((E**2).sum(axis=0))
        if math.hypot(s[1], s[2]) > 0.05 * n:
            sameangle(J.polangle, math.degrees(math.atan2(E[1, k], E[0, k])), 180, 1.5, "long axis")
        sameangle(J.polangle, S.polangle, 180, 1e-6, "angle")
        # amplitude along and perpendicular to the long axis
        amax = math.sqrt((E**2).sum(axis=0).max())
        amin = math.sqrt((E**2).sum(axis=0).min())
        close(math.tan(abs(S.ellipangle)), amin / amax, 1, 5e-3, "ellipticity")
    if abs(s[3]) > 1e-6 * n:
        assert J.handedness == S.handedness == ("left" if s[3] > 0 else "right")
        # direction of rotation of the field
        E = J.efield([0, 1e-3])
        turn = E[0, 0] * E[1, 1] - E[1, 0] * E[0, 1]
        if abs(turn) > 1e-12 * n:
            assert (turn > 0) == (J.handedness == "left"), (turn, s)
    # back
    ph = data.draw(PHASE, "phase0")
    for J2, phase in (
        (Jones.from_coherency_matrix(C), 0),
        (Jones.from_coherency_matrix(C, phase0=ph), ph),
        (S.to_jones(phase0=ph), ph),
        (S.to_jones(), 0),
        (Jones.from_params(**J.to_params()), J.phase0),
        (Jones.from_params(**dict(J.to_params(), phase0=ph)), ph),
    ):
        assert isinstance(J2, Jones)
        close(stokes_of(J2.V), s, n, 1e-6, "state")
        if abs(v[0]) > 1e-3 * math.sqrt(n):
            sameangle(J2.phase0, phase, 360, 1e-5, "absolute phase")
            want = np.array(v) * np.exp(1j * (math.radians(phase) - np.angle(v[0])))
            close(J2.V, want, math.sqrt(n), 1e-4, "field vector")
    J3 = Jones(1, 0)
    J3.coherency_matrix = C
    close(stokes_of(J3.V), s, n, 1e-6, "coherency matrix set")
    I = data.draw(st.floats(1e-3, 1e4), "I")
    J4 = Jones(*v)
    J4.intensity = I
    close(J4.intensity, I, I)
    close(J4.V / np.sqrt(J4.sqnorm), np.array(v) / math.sqrt(n))
    assert J == Jones(*v) and not (J != Jones(*v)) and J != Jones(v[0] + 1, v[1]) and J != S
    # rotation
    a, b = data.draw(ANGLE, "a"), data.draw(ANGLE, "b")
    r = math.radians(a)
    want = [v[0] * math.cos(r) + v[1] * math.sin(r), -v[0] * math.sin(r) + v[1] * math.cos(r)]
    close(J.rotate(a).V, want, math.sqrt(n), 1e-9, "rotated axes")
    close(J.rotate(a).rotate(b).V, J.rotate(a + b).V, math.sqrt(n), 1e-7, "composed rotations")
    close(J.rotate(a).rotate(-a).V, J.V, math.sqrt(n), 1e-9, "inverse rotation")
    close(J.rotate(a).to_stokes(silent=True).S, S.rotate(a).S, n, 1e-8, "rotation of the state")
    close(J.rotate(a).intensity, J.intensity, J.intensity)
    if math.hypot(s[1], s[2]) > 1e-3 * n:
        sameangle(J.rotate(a).polangle, J.polangle - a, 180, 1e-5, "rotated angle")
    str(J)


@check(quick=500, thorough=30000, shards={"quick": 2, "thorough": 8})
@given(st.data())
def partial(data):
    s = data.draw(stokesvectors(), "s")
    n = s[0]
    rec.current = repr(list(s))
    rec.case(rec.current, nontrivial=not trivial(s))
    S = Stokes(*s)
    close(S.S, s, n)
    p = math.sqrt(s[1] ** 2 + s[2] ** 2 + s[3] ** 2)
    close(S.intensity, n / 2 * EPS0C, n * EPS0C, 1e-7)
    close(S.intensity_polarized, p / 2 * EPS0C, n * EPS0C, 1e-7)
    close(S.intensity_unpolarized, (n - p) / 2 * EPS0C, n * EPS0C, 1e-7)
    close(S.intensity_polarized + S.intensity_unpolarized, S.intensity, S.intensity)
    assert S.intensity >= 0 and S.intensity_polarized >= 0 and S.intensity_unpolarized >= -1e-9 * S.intensity
    close(S.dop, p / n)
    assert 0 <= S.dolp <= S.dop * (1 + 1e-9) + 1e-12 <= 1 + 1e-8
    close(S.dop**2, S.dolp**2 + S.docp**2)
    close(S.dolp, math.hypot(s[1], s[2]) / n)
    close(S.docp, s[3] / n)
    close(S.hdolp, s[1] / n)
    C = S.coherency_matrix
    want = np.array([[s[0] + s[1], s[2] - 1j * s[3]], [s[2] + 1j * s[3], s[0] - s[1]]]) / 2
    close(C, want, n, msg="coherency matrix")
    assert np.all(np.linalg.eigvalsh(C) >= -1e-9 * n)
    close(Stokes.from_coherency_matrix(C).S, s, n, msg="from the coherency matrix")
    S2 = Stokes(1, 0, 0, 0)
    S2.coherency_matrix = C
    close(S2.S, s, n)
    d = S.decompose()
    close(d["pol"].S + d["unpol"].S, s, n, msg="decomposed")
    close(d["unpol"].S[1:], [0, 0, 0])
    if p > 1e-6 * n:
        close(d["pol"].dop, 1)
    S3 = Stokes.from_params(**S.to_params())
    close(S3.S, s, n, 1e-6, "parameters")
    par = S.to_params()
    assert par["intensity"] == S.intensity and par["dop"] == S.dop and par["dolp"] == S.dolp and par["handedness"] == S.handedness
    # to a field
    if p < n * (1 - 1e-4):
        try:
            S.to_jones()
        except RuntimeError:
            pass
        else:
            assert False, "unpolarized fraction lost silently"
        if p > 1e-3 * n:
            close(stokes_of(S.to_jones(allowloss=True).V), [p, s[1], s[2], s[3]], n, 1e-7, "polarized fraction")
    else:
        close(stokes_of(S.to_jones().V), s, n, 1e-6, "field")
    I = data.draw(st.floats(1e-3, 1e4), "I")
    whole = data.draw(st.sampled_from([None, [1, 0, 0, 0], [2, 1, 0, 1], [3, 0, 2, 0]]), "integers")
    for x in [s] + ([whole] if whole else []):
        S4 = Stokes(*x)
        S4.intensity = I
        close(S4.intensity, I, I)
        close(S4.S / S4.S[0], np.array(x) / x[0])
    a, b = data.draw(ANGLE, "a"), data.draw(ANGLE, "b")
    R = np.array([[math.cos(math.radians(a)), math.sin(math.radians(a))], [-math.sin(math.radians(a)), math.cos(math.radians(a))]])
    close(S.rotate(a).coherency_matrix, R.dot(C).dot(R.T), n, 1e-8, "rotated")
    close(S.rotate(a).rotate(b).S, S.rotate(a + b).S, n, 1e-7, "composed rotations")
    close(S.rotate(a).rotate(-a).S, s, n, 1e-9, "inverse rotation")
    close(S.rotate(180).S, s, n)
    assert S.rotate(a).handedness == S.handedness
    assert S == Stokes(*s) and S != Stokes(s[0] + 1, s[1], s[2], s[3]) and S != Jones(1, 0)
    # sum of field vectors without coherence
    v, w = data.draw(vectors(), "v"), data.draw(vectors(), "w")
    tot = Stokes.from_coherency_matrix(np.outer(v, np.conj(v)) + np.outer(w, np.conj(w)))
    close(tot.S, stokes_of(v) + stokes_of(w), tot.S[0], msg="incoherent sum")
    assert 0 <= tot.dop <= 1 + 1e-9
    # not Hermitian
    bad = np.array(C)
    bad[0, 1] += 0.1 * n
    for cls in (Stokes, Jones):
        try:
            cls.from_coherency_matrix(bad)
        except RuntimeError:
            pass
        else:
            assert False, "not Hermitian"
    str(S)


@check(quick=300, thorough=15000, shards={"quick": 1, "thorough": 8})
@given(st.data())
def parameters(data):
    """ellipse parameters"""
    I = data.draw(st.floats(1e-3, 1e4), "I")
    dop = data.draw(st.one_of(st.floats(0.01, 1), st.sampled_from([1.0, 1, 0.5])), "dop")
    dolp = dop * data.draw(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0])), "dolp")
    angle = data.draw(st.one_of(st.floats(-89.9, 89.9), st.sampled_from([0, 45.0, -45.0, 90.0, 30.0])), "angle")
    hand = data.draw(st.sampled_from(["left", "right"]), "handedness")
    rec.current = repr((I, dop, dolp, angle, hand))
    rec.case(rec.current, nontrivial=0 < dolp < dop and angle not in (0, 90))
    S = Stokes.from_params(intensity=I, dop=dop, dolp=dolp, polangle=angle, handedness=hand)
    close(S.intensity, I, I)
    close(S.dop, dop)
    close(S.dolp, dolp, 1, 1e-7)
    if dolp > 1e-6:
        sameangle(S.polangle, angle, 180, 1e-5, "angle")
    docp = math.sqrt(max(dop**2 - dolp**2, 0))
    close(abs(S.docp), docp, 1, 1e-6)
    if docp > 1e-6:
        assert S.handedness == hand and (S.docp > 0) == (hand == "left")
    r = math.radians(2 * angle)
    want = S.S[0] * np.array([1, dolp * math.cos(r), dolp * math.sin(r), docp * (1 if hand == "left" else -1)])
    close(S.S, want, S.S[0], 1e-6, "Stokes vector")
    try:
        Stokes.from_params(intensity=I, dop=dop * 0.9, dolp=dop, polangle=angle, handedness=hand)
    except RuntimeError:
        pass
    else:
        assert False, "linear fraction larger than the polarized one"
    ph = data.draw(PHASE, "phase0")
    d1 = dolp / dop
    J = Jones.from_params(intensity=I, dolp=d1, polangle=angle, handedness=hand, phase0=ph)
    close(J.intensity, I, I, 1e-7)
    close(J.dolp, d1, 1, 1e-6)
    if abs(J.V[0]) > 1e-3 * J.norm:
        sameangle(J.phase0, ph, 360, 1e-5, "phase")
    if d1 > 1e-6:
        sameangle(J.polangle, angle, 180, 1e-4, "angle")
    if d1 < 1 - 1e-6:
        assert J.handedness == hand
    x = data.draw(st.floats(1e-6, 1e6), "x")
    close(pol.intensity_to_jonesnormsq(pol.jonesnormsq_to_intensity(x)), x, x)
    close(pol.jonesnormsq_to_intensity(x), x / 2 * EPS0C, x, 1e-8)


def direction(azimuth, polar):
    a, p = math.radians(azimuth), math.radians(polar)
    return np.array([math.sin(p) * math.cos(a), math.sin(p) * math.sin(a), math.cos(p)])


def pairs(s):
    """incoherent field vectors that add up to the state"""
    C = np.array([[s[0] + s[1], s[2] - 1j * s[3]], [s[2] + 1j * s[3], s[0] - s[1]]]) / 2
    w, v = np.linalg.eigh(C)
    return [v[:, i] * math.sqrt(max(w[i], 0)) for i in range(2)]


@check(quick=600, thorough=30000, shards={"quick": 2, "thorough": 8})
@given(st.data())
def scattering(data):
    s = data.draw(stokesvectors(), "s")
    n = s[0]
    az, po = data.draw(ANGLE, "azimuth"), data.draw(POLAR, "polar")
    e = data.draw(st.one_of(st.floats(0.1, 200), st.sampled_from([1.0, 10, 511.0])), "energy")
    rec.current = repr((list(s), az, po, e))
    rec.case(rec.current, nontrivial=not trivial(s) and 0 < po < 180)
    S = Stokes(*s)
    k = direction(az, po)
    vs = pairs(s)
    # perpendicular to the scattering plane, in the plane
    perp = np.array([math.sin(math.radians(az)), -math.cos(math.radians(az)), 0])
    inpl = np.cross(k, perp)
    tot = 0
    C = np.zeros((2, 2), dtype=complex)
    for v in vs:
        E = np.array([v[0], v[1], 0])
        Esc = E - E.dot(k) * k
        tot += np.vdot(Esc, Esc).real
        x = np.array([Esc.dot(perp), Esc.dot(inpl)])
        C += np.outer(x, x.conj())
    Sc = S.thomson_scattering(az, po)
    close(Sc.S[0], tot, n, 1e-8, "scattered intensity")
    close(S.thomson_intensity(az, po), S.intensity * tot / n, S.intensity, 1e-8, "elastic intensity")
    close(S.thomson_intensity(az, po), Sc.intensity, S.intensity, 1e-8, "intensity of the scattered state")
    close(pol.MuellerMatrixThomson(az, po).dot(s), Sc.S, n)
    ref = np.array([(C[0, 0] + C[1, 1]).real, (C[0, 0] - C[1, 1]).real, (C[0, 1] + C[1, 0]).real, (1j * (C[0, 1] - C[1, 0])).real])
    close(np.abs(Sc.S), np.abs(ref), n, 1e-7, "scattered state")
    close(Sc.S[1], ref[1], n, 1e-7)
    # orientation of the frame: continuous with the incoming beam
    close(Sc.S, stokes_matrix(s, az, po), n, 1e-7, "scattered state")
    assert Sc.S[0] >= -1e-12 * n and (Sc.S[0] < 1e-9 * n or 0 <= Sc.dop <= 1 + 1e-7)
    if abs(S.dop - 1) < 1e-12:
        J = S.to_jones()
        Jsc = J.thomson_scattering(az, po)
        close(Jsc.to_stokes(silent=True).S, Sc.S, n, 1e-7, "scattered field")
    # arrays of directions
    K = S.thomson_K
    azs = np.radians([az, az + 10, 0.0])
    pos = np.radians([po, 30.0, po])
    got = K(azs, pos)
    close(got, [S.thomson_intensity(math.degrees(a), math.degrees(p)) / S.intensity for a, p in zip(azs, pos)], 1, 1e-9, "arrays")
    # inelastic: Klein-Nishina
    kk = e / 510.99895069
    q = 1 / (1 + kk * (1 - math.cos(math.radians(po))))
    kn = q**2 * ((q + 1 / q) / 2 * n - (n - tot))
    Ci = S.compton_scattering(az, po, e)
    close(Ci.S[0], kn, n, 1e-7, "inelastic scattering")
    close(S.compton_intensity(az, po, e), S.intensity * kn / n, S.intensity, 1e-7, "inelastic intensity")
    close(S.compton_intensity(az, po, e), Ci.intensity, S.intensity, 1e-8, "intensity of the scattered state")
    close(pol.MuellerMatrixCompton(az, po, e).dot(s), Ci.S, n)
    assert Ci.S[0] >= -1e-12 * n and (Ci.S[0] < 1e-9 * n or 0 <= Ci.dop <= 1 + 1e-7)
    K = S.compton_K(e)
    close(K(azs, pos), [S.compton_intensity(math.degrees(a), math.degrees(p), e) / S.intensity for a, p in zip(azs, pos)], 1, 1e-9, "arrays")
    # low energy
    close(S.compton_scattering(az, po, 1e-5).S, Sc.S, n, 1e-6, "low energy")
    close(S.compton_intensity(az, po, 1e-5), S.thomson_intensity(az, po), S.intensity, 1e-6, "low energy")
    # forward scattering is elastic
    close(S.compton_scattering(az, 0, e).S, S.thomson_scattering(az, 0).S, n, 1e-9, "forward")
    close(S.compton_intensity(az, 0, e), S.intensity, S.intensity, 1e-9)
    # rotating the state and the direction
    a = data.draw(ANGLE, "rotation")
    close(S.rotate(a).thomson_scattering(az - a, po).S, Sc.S, n, 1e-7, "rotated scattering")
    close(S.rotate(a).compton_scattering(az - a, po, e).S, Ci.S, n, 1e-7, "rotated scattering")
    # matrices
    R = pol.JonesMatrixRotation(a)
    close(Stokes.jones_to_mueller(R), pol.MuellerMatrixRotation(a), 1, 1e-9, "Mueller matrix of a rotation")
    M = Stokes.jones_to_mueller(pol.JonesMatrixThomson(po)).dot(pol.MuellerMatrixRotation(-pol.ThomsonRotationAngle(az)))
    close(M, pol.MuellerMatrixThomson(az, po), 1, 1e-8, "Mueller matrix")
    v = data.draw(vectors(), "v")
    G = np.array([[data.draw(st.complex_numbers(max_magnitude=3), "g") for _ in range(2)] for _ in range(2)])
    x = G.dot(v)
    close(Stokes.jones_to_mueller(G).dot(stokes_of(v)), stokes_of([complex(y) for y in x]), stokes_of(v)[0] * 30, 1e-9, "Mueller matrix of any matrix")


def stokes_matrix(s, az, po):
    """rotation to the scattering plane followed by the reduction of the in-plane component"""
    r = math.radians(2 * (az - 90))
    s1 = s[1] * math.cos(r) + s[2] * math.sin(r)
    s2 = -s[1] * math.sin(r) + s[2] * math.cos(r)
    c = math.cos(math.radians(po))
    p, q = (s[0] + s1) / 2, (s[0] - s1) / 2 * c**2
    return np.array([p + q, p - q, s2 * c, s[3] * c])
