"""C05 bounds and averages, C06 spheroidal-inclusion schemes."""
import numpy as np

from . import eshelby as E
from .engine import (MISSING, Cat, I, R, Rel, Skip, Spec, Vec, Violation, agree, call, note_known, require,
                     require_agree)

KS = R(.5, 400, (1, 36, 37, 50), log=True)
GS = R(.5, 300, (1, 45, 44, 30), log=True)
KI = R(0, 200, (0, 0, 2.2, 37))
GI = R(0, 200, (0, 0, 1, 44))
F = R(0, 1, (0, 1, .5))

# ----------------------------------------------------------------- C05
MODS = Vec(R(.001, 450, (1, 10, 37), log=True), (1, 6))
FR = Vec(R(0, 1, (0, 1)), 6)


def fracs(fr, n):
    """Fractions that add up to one; zeros stay zero when some other phase is present."""
    x = np.array(fr[:n], float)
    if x.sum() < 1e-6 or round(1e6 * float(fr[0])) % 3:
        x = x + 1e-3
    return x / x.sum()


@Rel("C05", "C05.VRH_many_phases", dict(seed=I(0, 10 ** 9), n=I(1, 60), m=I(1, 150), zero=Cat(False, True), unit=Cat(1, 1e3, 1e9, 1e-3)), n_a=60, n_b=12)
def _(seed, n, m, zero, unit):
    rng = np.random.default_rng(seed)
    M = 10 ** rng.uniform(-2, 2.6, n) * unit
    f = rng.random((m, n))
    if zero:
        f[rng.random((m, n)) < .3] = 0.0
        f[:, 0] += 1e-3
    f /= f.sum(1)[:, None]
    want = (f * M).sum(1), 1 / (f / M).sum(1)
    got = call("EM.VRH", f, M)
    for g, w, nm in zip(got, (want[0], want[1], (want[0] + want[1]) / 2), ("Voigt", "Reuss", "Hill")):
        require(np.shape(g) == (m,), "%s of %d mixtures has shape %s" % (nm, m, np.shape(g)))
        require_agree(g, w, "%s average of %d mixtures of %d phases" % (nm, m, n), rtol=1e-9)
    one = call("EM.VRH", f[m - 1], M)
    require_agree(one, tuple(np.asarray(g)[m - 1] for g in got), "one mixture alone", rtol=1e-9)


@Rel("C05", "C05.VRH", dict(m=MODS, fr=FR, lay=Cat("list", "tuple", "array", "int", "rows", "readonly", "npint"), perm=I(0, 999)),
     n_a=200, n_b=25, n_sc=20)
def _(m, fr, lay, perm):
    n = len(m)
    f = fracs(fr, n)
    M = np.array(m)
    if lay in ("int", "npint"):
        M = np.maximum(1, np.rint(M))
        m = [int(x) for x in M]
        if lay == "npint":
            m = np.array(m)
    if lay == "list":
        got = call("EM.VRH", list(f), list(m))
    elif lay == "tuple":
        got = call("EM.VRH", tuple(f), tuple(m))
    elif lay == "rows":
        f2 = np.stack([f, f[::-1]])
        got = call("EM.VRH", f2, M)
        want = ((f2 * M).sum(1), 1 / (f2 / M).sum(1))
        require_agree(got[:2], want, "row-wise Voigt/Reuss", rtol=1e-10)
        require_agree(got[2], (want[0] + want[1]) / 2, "Hill", rtol=1e-10)
        return
    elif lay == "readonly":
        f.setflags(write=False)
        M.setflags(write=False)
        got = call("EM.VRH", f, M)
    else:
        got = call("EM.VRH", f, m)
    V, Rr, H = [float(np.squeeze(x)) for x in got]
    require_agree((V, Rr, H), (sum(f * M), 1 / sum(f / M), (sum(f * M) + 1 / sum(f / M)) / 2), "Voigt/Reuss/Hill", rtol=1e-10)
    tol = 1e-9 * M.max()
    require(M.min() - tol <= Rr <= H + tol and H <= V + tol and V <= M.max() + tol,
            "ordering min<=Reuss<=Hill<=Voigt<=max fails: %r %r %r" % (Rr, H, V))
    p = np.random.default_rng(perm).permutation(n)
    require_agree(call("EM.VRH", f[p], M[p]), (V, Rr, H), "average depends on the order of the phases", rtol=1e-9)


Spec("C05", "EM.cripor", dict(K0=KS, G0=R(0, 300, (0, 45)), phi=R(0, 1, (0, .4)), phic=R(.05, 1, (.4, .36))),
     lambda K0, G0, phi, phic: (K0 - K0 * phi / phic, G0 - G0 * phi / phic), vec=("K0", "G0", "phi", "phic"),
     ints=("K0", "G0"), floor=1e-11)


def _cr(M0, Mf, phic, den=False):
    return np.array([(1 - phic) * M0 + phic * Mf]) if den is True else np.array([1 / ((1 - phic) / M0 + phic / Mf)])


Spec("C05", "EM.cripor_reuss", dict(M0=KS, Mf=R(.001, 100, (2.2, 1), log=True, eq=("M0",)), phic=F, den=Cat(True, False, MISSING)), _cr,
     ints=("M0",), n_b=12, n_sc=20)


def _zeta(K, G):
    return G / 6 * (9 * K + 8 * G) / (K + 2 * G)


def _hs_ref(f, K1, K2, G1, G2, Kr, Gr):
    """Hashin-Shtrikman from the strain-energy form: harmonic average of moduli
    shifted by the constraint of the reference phase."""
    a, b = 4 * Gr / 3, _zeta(Kr, Gr)
    K = 1 / (f / (K1 + a) + (1 - f) / (K2 + a)) - a
    G = 1 / (f / (G1 + b) + (1 - f) / (G2 + b)) - b
    return K, G


def _hs(f, K1, K2, G1, G2, bound="upper"):
    if bound == "upper":
        return _hs_ref(f, K1, K2, G1, G2, K1, G1)
    K, G = _hs_ref(f, K1, K2, G1, G2, K2, np.where(np.equal(G2, 0), 0.0, G2))
    z = np.equal(G2, 0) & (np.asarray(f) < 1)
    return K, np.where(z, 0.0, G)


Spec("C05", "EM.HS", dict(f=F, K1=KS, K2=R(.01, 300, (1, 2.2), log=True, eq=("K1",)), G1=GS, G2=R(0, 300, (0,), eq=("G1",)),
                          bound=Cat("upper", "lower", MISSING)), _hs,
     vec=("f", "K1", "K2", "G1", "G2"), ints=("K1", "K2", "G1", "G2"), floor=1e-10, n_b=60,
     valid=lambda f, K1, K2, G1, G2, bound="upper": ~((np.equal(G2, 0)) & np.equal(f, 1)) & np.greater(np.minimum(K1, K2), 0) & np.greater(G1, 0))


@Rel("C05", "C05.HS_bounds", dict(f=F, K1=KS, K2=R(.05, 400, log=True), G1=GS, G2=R(.05, 300, log=True)), n_a=150)
def _(f, K1, K2, G1, G2):
    (K1, K2), (G1, G2) = sorted((K1, K2))[::-1], sorted((G1, G2))[::-1]
    ku, gu = call("EM.HS", f, K1, K2, G1, G2, bound="upper")
    kl, gl = call("EM.HS", f, K1, K2, G1, G2, bound="lower")
    for lo, hi, a, b, nm in ((kl, ku, K1, K2, "bulk"), (gl, gu, G1, G2, "shear")):
        V, Rr, H = call("EM.VRH", [f, 1 - f], [a, b])
        t = 1e-9 * a
        require(Rr - t <= lo <= hi + t and hi <= V + t, "%s: Reuss<=HS-<=HS+<=Voigt fails: %r %r %r %r" % (nm, Rr, lo, hi, V))
    require_agree(call("EM.HS", 1 - f, K2, K1, G2, G1, "lower"), (ku, gu),
                  "exchanging the phases does not exchange the bounds", rtol=1e-8)
    require_agree(call("EM.HS", 1.0, K1, K2, G1, G2), (K1, G1), "f=1 is not phase 1", rtol=1e-10)
    require_agree(call("EM.HS", 0.0, K1, K2, G1, G2), (K2, G2), "f=0 is not phase 2", rtol=1e-10)
    # Mori-Tanaka with phase 1 as matrix is the Hashin-Shtrikman estimate
    require_agree(call("EM.MT_average", f, K1, G1, K1, G1, K2, G2), (ku, gu), "Mori-Tanaka(matrix=1) != HS+", rtol=1e-8)
    require_agree(call("EM.MT_average", f, K2, G2, K1, G1, K2, G2), (kl, gl), "Mori-Tanaka(matrix=2) != HS-", rtol=1e-8)
    # Gassmann-free limits of the critical-porosity models
    require_agree(call("EM.cripor", K1, G1, 0.0, .4), (K1, G1), "cripor at zero porosity")
    k, g = call("EM.cripor", K1, G1, .4, .4)
    require(abs(k) < 1e-9 * K1 and abs(g) < 1e-9 * G1, "cripor not zero at critical porosity")


Spec("C05", "EM.MT_average", dict(f=F, Kmat=KS, Gmat=GS, K1=R(0.1, 300, (37,), eq=("Kmat",)), G1=R(0.0, 300, (0, 45), eq=("Gmat",)),
                                  K2=R(.01, 300, (1,), eq=("Kmat", "K1")), G2=R(0, 300, (0,), eq=("Gmat", "G1"))),
     lambda f, Kmat, Gmat, K1, G1, K2, G2: _hs_ref(f, K1, K2, G1, G2, Kmat, Gmat),
     vec=("f", "Kmat", "Gmat", "K1", "G1", "K2", "G2"), ints=("Kmat", "Gmat"), floor=1e-10, n_b=50,
     valid=lambda f, Kmat, Gmat, K1, G1, K2, G2: (np.greater(Kmat, 0) & np.greater(Gmat, 0)))

# ----------------------------------------------------------------- C06
AL = R(.001, 100, (.01, .1, .5, 2, 10, 1, 1, .995, .99, 1.01, 1.0045), log=True)


def _al_ok(a):
    a = np.asarray(a)
    return (np.abs(a - 1) > .004) | (a == 1)


def _pq_tol(Km, Gm, Ki, Gi, alpha):
    with np.errstate(all="ignore"):
        P, Q = E.PQ(Km, Gm, Ki, Gi, alpha)
        d = np.abs(np.asarray(alpha, float) - 1)
        e = np.where(d > 0, 4e-15 / np.maximum(d, 1e-9) ** 3, 0) + 4e-15 * np.asarray(alpha, float) ** 2 + 1e-15 / np.asarray(alpha, float) ** 2
    return [np.abs(P) * e * (1 + np.abs(P)), np.abs(Q) * e * (1 + np.abs(Q))]


def _pq(Km, Gm, Ki, Gi, alpha):
    return E.PQ(Km, Gm, Ki, Gi, alpha)


Spec("C06", "EM.PQ", dict(Km=KS, Gm=GS, Ki=R(0, 400, (0, 2.2), eq=("Km",)), Gi=R(0, 300, (0, 1), eq=("Gm",)), alpha=AL), _pq,
     vec=("Km", "Gm", "Ki", "Gi"), ints=("Km", "Gm"), rtol=1e-7, csens=1e-2, tolf=_pq_tol, n_a=300, n_b=60, n_sc=30, no=("nan",),
     valid=lambda Km, Gm, Ki, Gi, alpha: _al_ok(alpha) & np.greater(Km, 0) & np.greater(Gm, 0) & ((np.asarray(Ki) + np.asarray(Gi) > 0) | (np.asarray(alpha) > .005)))

Spec("C06", "EM.PQ_vectorize", dict(Km=KS, Gm=GS, Ki=R(0, 400, (0, 2.2)), Gi=R(0, 300, (0, 1)), alpha=AL), _pq,
     vec=("Ki", "Gi", "alpha"), rtol=1e-7, csens=1e-2, tolf=_pq_tol, nonscalar=True, n_b=60,
     no=("nan", "subset", "two_d", "zero_d", "broadcast", "npscalar", "pyint", "scalar", "int_arr"),
     alt=("F2", lambda Km, Gm, Ki, Gi, alpha: E.PQ(Km, Gm, Ki, Gi, alpha, E.g_defect)),
     valid=lambda Km, Gm, Ki, Gi, alpha: _al_ok(alpha) & ((np.asarray(Ki) + np.asarray(Gi) > 0) | (np.asarray(alpha) > .005)))


@Rel("C06", "C06.PQ_laws", dict(Km=KS, Gm=GS, Ki=R(0, 400, (0,)), Gi=R(0, 300, (0,)), al=R(.01, 20, (.1, 1, 3), log=True), s=R(.01, 100, log=True)))
def _(Km, Gm, Ki, Gi, al, s):
    if not _al_ok(al):
        raise Skip()
    P, Q = call("EM.PQ", Km, Gm, Ki, Gi, al)
    require(P > 0 and Q > 0, "strain concentration factors not positive: %r %r" % (P, Q))
    require_agree(call("EM.PQ", s * Km, s * Gm, s * Ki, s * Gi, al), (P, Q), "not scale invariant", rtol=1e-5)
    require_agree(call("EM.PQ", Km, Gm, Km, Gm, al), (1.0, 1.0), "inclusion of matrix material is not neutral", rtol=1e-7)
    v = call("EM.PQ_vectorize", Km, Gm, np.array([Ki, Km, Ki]), np.array([Gi, Gm, Gi]), np.array([min(al, 1 / al), al, 1.0]))
    a = call("EM.PQ", Km, Gm, Ki, Gi, min(al, 1 / al))
    c = call("EM.PQ", Km, Gm, Ki, Gi, 1.0)
    require_agree((v[0][0], v[1][0], v[0][2], v[1][2]), (a[0], a[1], c[0], c[1]), "vectorised factors differ from scalar ones", rtol=1e-7)
    # spheres as the limit of nearly spherical spheroids
    n1 = call("EM.PQ", Km, Gm, Ki, Gi, .98)
    require(abs(n1[0] / c[0] - 1) < .03 and abs(n1[1] / c[1] - 1) < .03, "sphere is not the limit of spheroids: %r %r" % (n1, c))


def cpa(K, G, X, al, g=None, K0=None):
    """Coherent-potential solution by Berryman's fixed-point iteration."""
    k, s = float((X * K).sum()), float((X * G).sum())
    for it in range(4000):
        P, Q = E.PQ(k, s, K, G, al, g)
        k2, s2 = float((X * K * P).sum() / (X * P).sum()), float((X * G * Q).sum() / (X * Q).sum())
        if abs(k2 - k) < 1e-12 * k2 and abs(s2 - s) < 1e-12 * s2:
            return k2, s2
        k, s = k2, s2
    raise Skip()


def sc_run(Kv, Gv, fr, av, n, lay):
    K, G, al = np.array(Kv[:n]), np.array(Gv[:n]), np.array(av[:n])
    X = fracs(fr, n)
    al = np.where(al > 1, np.maximum(al, 4.0), al)      # below that the recorded defect has no root at all
    if not _al_ok(al).all():
        raise Skip()
    if lay == "int":
        K, G = np.rint(K), np.rint(G)
    args = (K, G, X, al) if lay != "int" else (K.astype(int), G.astype(int), X, al)
    if lay == "list":
        args = tuple(list(map(float, a)) for a in args)
        args = args[:3] + (np.array(args[3]),)
    got = call("EM.Berryman_sc", *args)
    return K, G, X, al, got


def sc_judge(K, G, X, al, got, what):
    want = cpa(K, G, X, al)
    ok, why = agree(got, want, 2e-6)
    if not ok:
        if (al > 1).any():
            # the recorded defect: a root of the equations with the wrong shape factor
            k, g = float(np.squeeze(got[0])), float(np.squeeze(got[1]))
            P, Q = E.PQ(k, g, K, G, al, E.g_defect)
            if abs((X * (K - k) * P).sum()) < 1e-6 * K.max() and abs((X * (G - g) * Q).sum()) < 1e-6 * G.max():
                note_known("F3")
                return False
        raise Violation("%s: %s" % (what, why))
    return True


@Rel("C06", "C06.Berryman_sc", dict(Kv=Vec(R(5, 80, (37,)), 5), Gv=Vec(R(4, 60, (45,)), 5), fr=FR, n=I(1, 5),
                                    av=Vec(R(.01, 10, (.1, 1, 1, .5, 3), log=True), 5), lay=Cat("array", "list", "int"), perm=I(0, 99)),
     n_a=80, n_b=12, n_sc=10, weight=3)
def _(Kv, Gv, fr, n, av, lay, perm):
    K, G, X, al, got = sc_run(Kv, Gv, fr, av, n, lay)
    true = sc_judge(K, G, X, al, got, "self-consistent moduli")
    p = np.random.default_rng(perm).permutation(n)
    if true:
        require_agree(call("EM.Berryman_sc", K[p], G[p], X[p], al[p]), got, "depends on the order of the phases", rtol=2e-6)
    require_agree(call("EM.Berryman_sc", np.full(n, 30.0), np.full(n, 20.0), X, al), (30.0, 20.0),
                  "identical phases do not give their own moduli", rtol=1e-7)
    if true and (al <= 1).all():
        t = 1e-6
        require(K.min() * (1 - t) <= got[0] <= K.max() * (1 + t) and G.min() * (1 - t) <= got[1] <= G.max() * (1 + t),
                "moduli outside the range of the phases")


@Rel("C06", "C06.Berryman_sc_pores", dict(K=R(20, 80), G=R(15, 60), Kf=R(0, 3, (0, 2.2)), al=R(.2, 1, (1,)), phi=R(0.001, .15), shape=Cat(.3, 1.0)),
     n_a=60, n_b=10, n_sc=10, weight=2)
def _(K, G, Kf, al, phi, shape):
    if not _al_ok(al):
        raise Skip()
    Kv, Gv, X, a = np.array([K, Kf]), np.array([G, 0.0]), np.array([1 - phi, phi]), np.array([shape, al])
    got = call("EM.Berryman_sc", Kv, Gv, X, a)
    sc_judge(Kv, Gv, X, a, got, "self-consistent moduli with pores")


@Rel("C06", "C06.Berryman_sc_porous_mixture", dict(Kv=Vec(R(10, 80, (37,)), 5), Gv=Vec(R(8, 60, (45,)), 5), fr=FR, n=I(2, 5), av=Vec(R(.2, 1, (1, 1, .5)), 5),
                                                   Kf=R(0, 3, (0, 2.2)), phi=R(.0005, .15, (.001,))), n_a=60, n_b=10, n_sc=10, weight=2)
def _(Kv, Gv, fr, n, av, Kf, phi):
    if n == 5:                    # a longer list of minerals
        Kv, Gv, fr, av, n = Kv + [x * .9 for x in Kv], Gv + [x * 1.1 for x in Gv], fr + fr, av + av[::-1], 10
    K, G, a, X = np.array(Kv[:n]), np.array(Gv[:n]), np.array(av[:n]), fracs(fr, n)
    if not _al_ok(a).all():
        raise Skip()
    K[0], G[0] = Kf, 0.0
    X = np.append(phi, X[1:] / X[1:].sum() * (1 - phi))
    sc_judge(K, G, X, a, call("EM.Berryman_sc", K, G, X, a), "self-consistent moduli of several minerals with pores")


def dem_ref(Km, Gm, Ki, Gi, al, t):
    from scipy.integrate import solve_ivp

    def rhs(x, y):
        P, Q = E.PQ(y[0], y[1], Ki, Gi, al)
        return [(Ki - y[0]) * float(P) / (1 - x), (Gi - y[1]) * float(Q) / (1 - x)]
    r = solve_ivp(rhs, (0, t[-1] + 1e-12), [Km, Gm], method="DOP853", rtol=1e-9, atol=1e-10 * min(Km, Gm), t_eval=t)
    if not r.success or r.y.shape[1] != len(t):
        raise Skip()
    return r.y


@Rel("C06", "C06.Berryman_DEM", dict(Km=R(10, 100, (37,)), Gm=R(8, 80, (45,)), Ki=R(0, 100, (0, 2.2)), Gi=R(0, 80, (0,)),
                                     al=R(.03, 10, (.1, 1, 2, .5), log=True), phi=R(0.0, .65, (0, .1, .2, .3, .05))),
     n_a=40, n_b=8, n_sc=5, weight=4)
def _(Km, Gm, Ki, Gi, al, phi):
    if not _al_ok(al):
        raise Skip()
    k, g, t = call("EM.Berryman_DEM", Km, Gm, Ki, Gi, al, phi)
    k, g, t = np.asarray(k), np.asarray(g), np.asarray(t)
    require(k.shape == g.shape == t.shape and t.ndim == 1, "outputs differ in shape")
    require(t[0] == 0 and np.all(np.diff(t) > 0) and phi - 1e-9 <= t[-1] <= phi + .01 + 1e-9, "inclusion fractions do not run from 0 to the desired fraction")
    if len(t) > 1:
        require_agree(np.diff(t), np.full(len(t) - 1, .01), "fraction step", rtol=1e-6)
    y = dem_ref(Km, Gm, Ki, Gi, al, t)
    require_agree((k, g), (y[0], y[1]), "differential effective medium", rtol=1e-5, scale=None, atol=1e-5 * min(Km, Gm))
    require_agree((k[0], g[0]), (Km, Gm), "no inclusions: not the host", rtol=1e-10)


@Rel("C06", "C06.DEM_neutral_and_bounds", dict(Km=R(10, 100), Gm=R(8, 80), fK=R(.05, 1, (1,)), fG=R(.05, 1, (1,)), al=R(.03, 10, (.1, 1, 2, .5), log=True), phi=R(0.01, .6)),
     n_a=30, n_b=6, n_sc=5, weight=2)
def _(Km, Gm, fK, fG, al, phi):
    if not _al_ok(al):
        raise Skip()
    k, g, t = call("EM.Berryman_DEM", Km, Gm, fK * Km, fG * Gm, al, phi)
    for i in (len(t) // 2, len(t) - 1):
        ku, gu = call("EM.HS", 1 - t[i], Km, fK * Km, Gm, fG * Gm, "upper")
        kl, gl = call("EM.HS", 1 - t[i], Km, fK * Km, Gm, fG * Gm, "lower")
        require(kl * (1 - 1e-5) <= k[i] <= ku * (1 + 1e-5) and gl * (1 - 1e-5) <= g[i] <= gu * (1 + 1e-5),
                "DEM moduli violate the Hashin-Shtrikman bounds")
    k, g, t = call("EM.Berryman_DEM", Km, Gm, Km, Gm, al, phi)
    require_agree((k, g), (np.full(len(t), Km), np.full(len(t), Gm)), "inclusions of host material change the host", rtol=1e-6)
