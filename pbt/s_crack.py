"""C07 pore/crack schemes (isotropic), C08 Hudson and Eshelby-Cheng crack models."""
import numpy as np

from . import eshelby as E
from . import tensor as T
from .engine import (MISSING, Cat, I, R, Rel, Skip, Spec, Vec, Violation, agree, call, note_known, require,
                     require_agree)

KS = R(1, 400, (36, 37, 50), log=True)
GS = R(1, 300, (45, 44, 30), log=True)
ratio = R(.3, 8, (1,), log=True)          # K/G of a solid


def zeta(K, G):
    return G / 6 * (9 * K + 8 * G) / (K + 2 * G)


def PQs(Km, Gm, Ki, Gi):
    """Sphere."""
    a, z = 4 * Gm / 3, zeta(Km, Gm)
    return (Km + a) / (Ki + a), (Gm + z) / (Gi + z)


# ----------------------------------------------------------------- C07
def _swiss(Ks, Gs, phi):
    P, Q = PQs(Ks, Gs, 0.0, 0.0)
    return Ks / (1 + phi * P), Gs / (1 + phi * Q)


Spec("C07", "EM.Swiss_cheese", dict(Ks=KS, Gs=GS, phi=R(0, 1, (0, .1, .36))), _swiss, vec=("phi",), ints=("Ks", "Gs"))


@Rel("C07", "C07.Swiss_cheese_outer", dict(K=Vec(KS, 4), G=Vec(GS, 4), phi=Vec(R(0, .9, (0,)), (1, 5)), n=I(1, 4), sc=Cat(0, 1)))
def _(K, G, phi, n, sc):
    K, G = np.array(K[:n]), np.array(G[:n])
    p = phi[0] if sc else np.array(phi)
    got = call("EM.Swiss_cheese", K, G, p)
    want = _swiss(K[:, None], G[:, None], p)
    for g, w in zip(got, want):
        require(np.shape(g) == np.shape(w), "shape %s, expected one row per solid %s" % (np.shape(g), np.shape(w)))
    require_agree(got, want, "one row per solid, one column per porosity", rtol=1e-9)


def _sc(phi, Ks, Gs, iter_n):
    K, G = Ks + 0 * phi, Gs + 0 * phi
    for _ in range(iter_n):
        K = 1 / (1 / Ks + phi * (1 / K + .75 / G))
        P, Q = PQs(K, G, 0.0, 0.0)
        G = 1 / (1 / Gs + phi * Q / G)
    return K, G


Spec("C07", "EM.SC", dict(phi=R(0, .45, (0, .1, .3)), Ks=KS, Gs=GS, iter_n=Cat(*range(13), 30, 50, 100, 200)), _sc, vec=("phi",), ints=("Ks", "Gs"),
     rtol=1e-7, n_b=40, n_pts=120)


@Rel("C07", "C07.SC_fixed_point", dict(phi=R(0, .42, (0, .2)), Ks=R(5, 100), r=R(.5, 4)))
def _(phi, Ks, r):
    Gs = Ks / r
    K, G = call("EM.SC", phi, Ks, Gs, 600)
    P, Q = PQs(K, G, 0.0, 0.0)
    # K* = Ks (1 - phi P*), the self-consistent equations for spherical pores
    require_agree((K, G), (Ks * (1 - phi * P), Gs * (1 - phi * Q)), "iteration does not converge to the self-consistent moduli", rtol=1e-5, scale=.01 * Ks)
    sw = call("EM.Swiss_cheese", Ks, Gs, phi)
    require(K <= sw[0] * (1 + 1e-9) and G <= sw[1] * (1 + 1e-9), "self-consistent moduli above the non-interacting ones")
    h = call("EM.HS", 1 - phi, Ks, 0.0, Gs, 0.0, "upper")
    require(0 <= K <= h[0] * (1 + 1e-9) and 0 <= G <= h[1] * (1 + 1e-9), "outside the Hashin-Shtrikman bounds")
    if not flex_converges(phi, Ks, 0.0, Gs, 0.0):
        return
    fl = call("EM.SC_flex", phi, 600, Ks, 0.0, Gs, 0.0)
    require_agree(fl, (K, G), "SC and SC_flex disagree for empty pores", rtol=1e-4, scale=.01 * Ks)


def _crack(Ks, Gs, cd):
    E_, nu = 9 * Ks * Gs / (3 * Ks + Gs), (3 * Ks - 2 * Gs) / (6 * Ks + 2 * Gs)
    # compliance contribution of randomly oriented penny cracks
    dK = 16 * (1 - nu ** 2) * cd / (9 * (1 - 2 * nu))
    dG = 32 * (1 - nu) * (5 - nu) * cd / (45 * (2 - nu))
    return Ks / (1 + dK), Gs / (1 + dG)


KN = R(5, 200, (36, 37), log=True)
GN = R(2, 120, (45, 44), log=True)
Spec("C07", "EM.Dilute_crack", dict(Ks=KN, Gs=GN, cd=R(0, 2, (0, .1))), _crack, vec=("Ks", "Gs", "cd"), ints=("Ks", "Gs"))


def _ob(K0, G0, crd):
    nu0 = (3 * K0 - 2 * G0) / (6 * K0 + 2 * G0)
    nu = nu0 - 16 * crd * nu0 / 9
    return (K0 - K0 * 16 * (1 - nu ** 2) * crd / (9 * (1 - 2 * nu)),
            G0 - G0 * 32 * (1 - nu) * (5 - nu) * crd / (45 * (2 - nu)))


Spec("C07", "EM.OConnell_Budiansky", dict(K0=KN, G0=GN, crd=R(0, .5625, (0, .1))), _ob, vec=("K0", "G0", "crd"), ints=("K0", "G0"), floor=1e-10)


@Rel("C07", "C07.crack_limits", dict(K0=KN, r=R(.6, 5), crd=R(0, .4, (0, .05)), e=R(1e-6, 1e-4, log=True)))
def _(K0, r, crd, e):
    G0 = K0 / r
    for f in ("EM.Dilute_crack", "EM.OConnell_Budiansky"):
        require_agree(call(f, K0, G0, 0.0), (K0, G0), "%s without cracks is not the solid" % f, rtol=1e-10)
    # same compliance to first order in crack density, and equal to random Hudson cracks' bulk modulus
    d, o = call("EM.Dilute_crack", K0, G0, e), call("EM.OConnell_Budiansky", K0, G0, e)
    slope = np.array([(K0 - d[0]) / K0, (G0 - d[1]) / G0])
    for a, b, m, s in ((d[0], o[0], K0, slope[0]), (d[1], o[1], G0, slope[1])):
        require(abs(a - b) <= m * (5 * s * s + 60 * e * e + 1e-13) * 3, "dilute and self-consistent crack models differ at first order")
    a, b = call("EM.Dilute_crack", K0, G0, np.array([crd, crd + .01]))
    require(a[1] < a[0] <= K0 * (1 + 1e-12) and b[1] < b[0] <= G0 * (1 + 1e-12), "cracks do not soften the rock")


def ob_fl(K0, G0, Kfl, crd, alpha, defect=False):
    """O'Connell-Budiansky eqs. 23 and 25, followed from the uncracked solid.
    defect: the crack compressibility in eq. 25 mixes in the background's Poisson ratio (F7)."""
    nu0 = (3 * K0 - 2 * G0) / (6 * K0 + 2 * G0)
    w = Kfl / alpha / K0

    def F(x, c):
        nu, D = x
        c1 = 9 / 16 * (1 - 2 * nu) / (1 - (nu0 if defect else nu) ** 2)
        return np.array([45 / 16 * (nu0 - nu) * (2 - nu) - c * (1 - nu ** 2) * (D * (1 + 3 * nu0) * (2 - nu) - 2 * (1 - 2 * nu0)),
                         c * D * D - (c + c1 + 3 * w / (4 * np.pi)) * D + c1])
    c0 = 9 / 16 * (1 - 2 * nu0) / (1 - nu0 ** 2)
    x = np.array([nu0, c0 / (c0 + 3 * w / (4 * np.pi))])
    n = max(4, int(np.ceil(crd / .01)))
    for c in np.linspace(0, crd, n + 1)[1:]:
        for _ in range(50):
            f = F(x, c)
            Jm = np.array([(F(x + d, c) - F(x - d, c)) / 2e-7 for d in (np.array([1e-7, 0]), np.array([0, 1e-7]))]).T
            dx = np.linalg.solve(Jm, f)
            x = x - dx
            if np.abs(dx).max() < 1e-13:
                break
        else:
            raise Skip()
    nu, D = x
    return (K0 * (1 - 16 * (1 - nu ** 2) * crd * D / (9 * (1 - 2 * nu))),
            G0 * (1 - 32 / 45 * (1 - nu) * (D + 3 / (2 - nu)) * crd))


@Rel("C07", "C07.OConnell_Budiansky_fl", dict(K0=R(5, 250, (37,)), r=R(.7, 4), w=R(0, 10, (0, 0, 1, .01, .1)), alpha=R(.0003, .5, log=True), crd=R(.0, .53, (.1,))),
     n_a=100, n_b=15, n_sc=15)
def _(K0, r, w, alpha, crd):
    G0 = K0 / r
    Kfl = w * alpha * K0
    got = call("EM.OConnell_Budiansky_fl", K0, G0, Kfl, crd, alpha)
    ok, why = agree(got, ob_fl(K0, G0, Kfl, crd, alpha), 1e-6)
    if not ok:
        if not agree(got, ob_fl(K0, G0, Kfl, crd, alpha, True), 1e-6)[0]:
            raise Violation("fluid-saturated cracked solid: " + why)
        note_known("F7")
    require_agree(call("EM.OConnell_Budiansky_fl", 2 * K0, 2 * G0, 2 * Kfl, crd, alpha), tuple(2 * np.asarray(g) for g in got), "not homogeneous in the moduli", rtol=1e-6)
    require(got[0] <= K0 * (1 + 1e-9) and got[1] <= G0 * (1 + 1e-9), "cracks stiffen the rock")


def _scd(Km, Gm, Ki, Gi, f, mode):
    # fraction times relative modulus defect times strain concentration
    P, Q = PQs(Km, Gm, Ki, Gi)
    a, b = (1 - Ki / Km) * P, (1 - Gi / Gm) * Q
    return (1 / (1 + f * a), 1 / (1 + f * b)) if mode == "stress" else (1 - f * a, 1 - f * b)


Spec("C07", "EM.SC_dilute", dict(Km=KS, Gm=GS, Ki=R(0, 300, (0, 2.2)), Gi=R(0, 300, (0, 1)), f=R(0, 1, (0, .1)), mode=Cat("stress", "strain")),
     _scd, vec=("Km", "Gm", "Ki", "Gi", "f"), ints=("Km", "Gm"), floor=1e-11,
     valid=lambda Km, Gm, Ki, Gi, f, mode: (np.abs(np.asarray(Km) - Ki) > 1e-3 * Km) & (np.abs(np.asarray(Gm) - Gi) > 1e-3 * Gm))


def _flex(f, iter_n, Km, Ki, Gm, Gi):
    K, G = Km + 0 * f, Gm + 0 * f
    for _ in range(iter_n):
        P, Q = PQs(K, G, Ki, Gi)
        K, G = Km + f * (Ki - Km) * P, Gm + f * (Gi - Gm) * Q
    return K, G


Spec("C07", "EM.SC_flex", dict(f=R(0, .5, (0, .1)), iter_n=Cat(*range(9), 20, 50, 100), Km=R(10, 200, (37,)), Ki=R(0, 150, (0, 2.2)), Gm=R(8, 150, (45,)), Gi=R(0, 100, (0,))),
     _flex, vec=("f",), ints=("Km", "Gm"), rtol=1e-6, csens=1e-2, floor=1e-9, n_b=40, n_pts=120,
     valid=lambda f, iter_n, Km, Ki, Gm, Gi: _flex_ok(f, iter_n, Km, Ki, Gm, Gi))


def flex_converges(f, Km, Ki, Gm, Gi):
    """Does the documented iteration settle, away from its removable singularity?"""
    K, G = Km, Gm
    with np.errstate(all="ignore"):
        for n in range(600):
            if min(K, G) <= 1e-4 * min(Km, Gm) or abs(K - Ki) < 1e-4 * Km or abs(G - Gi) < 1e-4 * Gm or K > 1e6:
                return False
            P, Q = PQs(K, G, Ki, Gi)
            K2, G2 = Km + f * (Ki - Km) * P, Gm + f * (Gi - Gm) * Q
            d, (K, G) = max(abs(K2 - K), abs(G2 - G)), (K2, G2)
    return d < 1e-9 * Km


def _flex_ok(f, iter_n, Km, Ki, Gm, Gi):
    """Iterates that stay clear of the removable singularity K_eff = Ki."""
    f = np.asarray(f, float)
    ok = np.ones(f.shape, bool)
    with np.errstate(all="ignore"):
        for n in range(iter_n):
            K, G = _flex(f, n, Km, Ki, Gm, Gi)
            ok = ok & (np.abs(K - Ki) > 1e-3 * Km) & (np.abs(G - Gi) > 1e-3 * Gm) & (K > 1e-3 * Km) & (G > 1e-3 * Gm)
    return ok


@Rel("C07", "C07.SC_flex_fixed_point", dict(f=R(0, .4, (0,)), Km=R(10, 100), Ki=R(0, 100, (0, 2.2)), Gm=R(8, 80), Gi=R(0, 80, (0,))))
def _(f, Km, Ki, Gm, Gi):
    if abs(Km - Ki) < .5 or abs(Gm - Gi) < .5:
        raise Skip()
    if not flex_converges(f, Km, Ki, Gm, Gi):
        raise Skip()
    K, G = call("EM.SC_flex", f, 600, Km, Ki, Gm, Gi)
    P, Q = PQs(K, G, Ki, Gi)
    P0, Q0 = PQs(K, G, Km, Gm)
    # coherent potential: the composite sees no average perturbation
    s = max(Km, Gm, Ki, Gi)
    require(abs((1 - f) * (Km - K) * P0 + f * (Ki - K) * P) < 1e-4 * s and abs((1 - f) * (Gm - G) * Q0 + f * (Gi - G) * Q) < 1e-4 * s,
            "iteration does not converge to the self-consistent moduli: %r %r" % (K, G))
    lo, hi = min(Km, Ki), max(Km, Ki)
    require(lo - 1e-6 * s <= K <= hi + 1e-6 * s, "outside the range of the phases")


# ----------------------------------------------------------------- C08
def U13(K, G, Ki, Gi, al):
    lam = K - 2 * G / 3
    kap = (Ki + 4 * Gi / 3) * (lam + 2 * G) / (np.pi * al * G * (lam + G))
    M = 4 * Gi * (lam + G) / (np.pi * al * G * (3 * lam + 4 * G))
    return 16 * (lam + 2 * G) / (3 * (3 * lam + 4 * G)) / (1 + M), 4 * (lam + 2 * G) / (3 * (lam + G)) / (1 + kap)


def frame(n):
    n = np.asarray(n, float) / np.linalg.norm(n)
    a = np.array([1.0, 0, 0]) if abs(n[0]) < .9 else np.array([0, 1.0, 0])
    u = np.cross(n, a)
    u /= np.linalg.norm(u)
    return u, np.cross(n, u), n


def dC1(K, G, Ki, Gi, al, crd, n):
    """First-order Hudson correction of one set with normal n (rank-4)."""
    U1, U3 = U13(K, G, Ki, Gi, al)
    c = T.iso(K, G)
    u, v, w = frame(n)
    s = lambda a: np.einsum("ijkl,i,j->kl", c, a, w)          # stress opened by a displacement along a
    out = U3 * np.multiply.outer(s(w), s(w)) + U1 * (np.multiply.outer(s(u), s(u)) + np.multiply.outer(s(v), s(v)))
    return -crd / G * out


def dC2(K, G, c1):
    """Second-order correction: interaction through the isotropic background."""
    lam = K - 2 * G / 3
    d = np.eye(3)
    r = G / (lam + 2 * G)
    chi = (np.einsum("ik,jl->ijkl", d, d) * (4 + r) - (np.einsum("ij,kl->ijkl", d, d) + np.einsum("il,jk->ijkl", d, d)) * (1 - r)) / 15
    return np.einsum("pqij,ijkl,klrs->pqrs", c1, chi, c1) / G


def _hudson(K, G, Ki, Gi, alpha, crd, order=1, axis=3):
    n = [0, 0, 1.0] if axis == 3 else [1.0, 0, 0]
    c1 = dC1(K, G, Ki, Gi, alpha, crd, n)
    c = T.iso(K, G) + c1
    if order == 2:
        c = c + dC2(K, G, c1)
    return T.to6(c)


CK = dict(K=R(5, 250, (37, 36)), G=R(4, 150, (45, 44)), Ki=R(0, 50, (0, 0, 2.2)), Gi=R(0, 40, (0, 0, .5)), alpha=R(.0001, 1, (.1, .01), log=True))
Spec("C08", "EM.hudson", dict(CK, crd=R(0, .5, (0, .01, .1)), order=Cat(1, 2, MISSING), axis=Cat(MISSING,)), _hudson, floor=1e-10, n_a=120, n_b=15, n_sc=20, ints=("K", "G"), name="hudson_default_axis",
     build=lambda b: b)
Spec("C08", "EM.hudson", dict(CK, crd=R(0, .5, (0, .01, .1)), order=Cat(1, 2), axis=Cat(1, 3)), _hudson, floor=1e-10, n_a=200, n_b=20, n_sc=20, ints=("K", "G"), name="hudson_axis")


@Rel("C08", "C08.hudson_ortho", dict({k: v for k, v in CK.items() if k != "alpha"}, al=Vec(CK["alpha"], 3), cr=Vec(R(0, .5, (0, .05, .1)), 3), lay=Cat("list", "array", "tuple")))
def _(K, G, Ki, Gi, al, cr, lay):
    mk = {"list": list, "array": np.array, "tuple": tuple}[lay]
    got = call("EM.hudson_ortho", K, G, Ki, Gi, mk(al), mk(cr))
    c = T.iso(K, G)
    for i in range(3):
        c = c + dC1(K, G, Ki, Gi, al[i], cr[i], np.eye(3)[i])
    require_agree(got, T.to6(c), "three orthogonal crack sets", rtol=1e-9, scale=K)
    one = call("EM.hudson_ortho", K, G, Ki, Gi, mk(al), mk([0.0, 0.0, cr[2]]))
    require_agree(one, call("EM.hudson", K, G, Ki, Gi, al[2], cr[2]), "one set along x3 != single-set model", rtol=1e-9, scale=K)
    one = call("EM.hudson_ortho", K, G, Ki, Gi, mk(al), mk([cr[0], 0.0, 0.0]))
    require_agree(one, call("EM.hudson", K, G, Ki, Gi, al[0], cr[0], 1, 1), "one set along x1 != single-set model", rtol=1e-9, scale=K)


def cone(K, G, Ki, Gi, alpha, crd, theta):
    t = np.deg2rad(theta)
    c, n = T.iso(K, G), 12
    for p in 2 * np.pi * np.arange(n) / n:
        c = c + dC1(K, G, Ki, Gi, alpha, crd / n, [np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])
    return T.to6(c)


def cone_defect(K, G, Ki, Gi, alpha, crd, theta):
    """Recorded defect F4: the normal-compliance term of C66 is four times too large."""
    C = cone(K, G, Ki, Gi, alpha, crd, theta)
    U1, U3 = U13(K, G, Ki, Gi, alpha)
    C[5, 5] -= crd / 2 * G * U3 * 3 * np.sin(np.deg2rad(theta)) ** 4
    return C


Spec("C08", "EM.hudson_cone", dict(CK, crd=R(0, .5, (0, .01, .1)), theta=R(-90, 180, (0, 30, 45, 60, 90))), cone, alt=("F4", cone_defect),
     floor=1e-9, n_a=120, n_b=15, n_sc=15)


def rand_ref(K, G, Ki, Gi, alpha, crd, div=15.0):
    """Isotropic average of the single-set correction, from its two linear invariants."""
    U1, U3 = U13(K, G, Ki, Gi, alpha)
    lam = K - 2 * G / 3
    c33, c11, c13, c44, c12 = [-crd * x for x in ((lam + 2 * G) ** 2 * U3 / G, lam ** 2 * U3 / G, lam * (lam + 2 * G) * U3 / G, G * U1, lam ** 2 * U3 / G)]
    iikk = c33 + 2 * c11 + 4 * c13 + 2 * c12
    ikik = c33 + 2 * c11 + 2 * (2 * c44)
    dK = iikk / 9
    dG = (ikik - iikk / 3) / 10
    if div != 15.0:
        dG15 = dG
        dG = dG15 * 15          # recorded defect F5: shear correction not divided by 15
        # lambda correction uses the same wrong shear correction; bulk is unaffected
    return K + dK, G + dG


Spec("C08", "EM.hudson_rand", dict(CK, crd=R(0, .5, (0, .01, .1))), rand_ref, alt=("F5", lambda **k: rand_ref(div=1.0, **k)),
     vec=("K", "G", "Ki", "Gi", "alpha", "crd"), ints=("K", "G"), floor=1e-9)


@Rel("C08", "C08.cone_and_random_limits", dict(CK, crd=R(0, .2, (0, .05)), theta=R(0, 90)))
def _(K, G, Ki, Gi, alpha, crd, theta):
    C0 = call("EM.hudson_cone", K, G, Ki, Gi, alpha, crd, 0.0)
    require_agree(C0, call("EM.hudson", K, G, Ki, Gi, alpha, crd), "cone of zero opening != aligned cracks", rtol=1e-9, scale=K)
    C = call("EM.hudson_cone", K, G, Ki, Gi, alpha, 0.0, theta)
    require_agree(C, T.to6(T.iso(K, G)), "no cracks: not the background", rtol=1e-9, scale=K)
    require_agree(call("EM.hudson_rand", K, G, Ki, Gi, alpha, 0.0), (K, G), "no cracks: not the background", rtol=1e-10)
    # bulk modulus is the same for every crack orientation distribution
    C = np.asarray(call("EM.hudson_cone", K, G, Ki, Gi, alpha, crd, theta))
    H = np.asarray(call("EM.hudson", K, G, Ki, Gi, alpha, crd))
    kr = call("EM.hudson_rand", K, G, Ki, Gi, alpha, crd)[0]
    require_agree(C[:3, :3].sum() / 9, H[:3, :3].sum() / 9, "Voigt bulk modulus depends on crack orientation", rtol=1e-9)
    require_agree(kr, H[:3, :3].sum() / 9, "Voigt bulk modulus of random cracks", rtol=1e-9)
    O = np.asarray(call("EM.hudson_ortho", K, G, Ki, Gi, [alpha] * 3, [crd / 3] * 3))
    require_agree(O[:3, :3].sum() / 9, kr, "Voigt bulk modulus of three crack sets", rtol=1e-9)
    H2 = np.asarray(call("EM.hudson", K, G, Ki, Gi, alpha, crd, 2))
    t = 1e-9 * K
    require((np.diag(H2) >= np.diag(H) - t).all(), "second-order correction softens further")


def ec_parts(K, G, phi, alpha, Kf):
    K, G, phi, alpha, Kf = np.broadcast_arrays(*[np.asarray(x, float) for x in (K, G, phi, alpha, Kf)])
    C0, C1 = E.iso_m(K, G), E.iso_m(Kf, 0 * Kf)
    t = E.conc(K, G, Kf, 0 * Kf, alpha)
    M = C0 + phi[..., None, None] * (C1 - C0) @ t
    return M


def ec(K, G, phi, alpha, Kf, mat=False, defect=False):
    M = ec_parts(K, G, phi, alpha, Kf)
    C11, C33, C13, C44, C66 = M[..., 0, 0], M[..., 2, 2], .5 * (M[..., 0, 2] + M[..., 2, 0]), M[..., 3, 3] / 2, M[..., 5, 5] / 2
    if defect:
        # F6: one term of the C11 correction is not divided by the common determinant
        nu = (3 * K - 2 * G) / (6 * K + 2 * G)
        S = E.S_mandel(alpha, nu)
        S11, S33, S12, S13, S31 = S[..., 0, 0], S[..., 2, 2], S[..., 0, 1], S[..., 0, 2], S[..., 2, 0]
        c = Kf / (3 * (K - Kf))
        D = S33 * S11 + S33 * S12 - 2 * S31 * S13 - (S11 + S12 + S33 - 1 - 3 * c) - c * (S11 + S12 + 2 * (S33 - S13 - S31))
        x = (K - 2 * G / 3) * (S31 - S33 + 1)
        C11 = C11 - phi * (x - x / D)
    if mat is True:
        return T.vti(C11, C33, C13, C44, C66)
    return np.array([C11, C33, C13, C44, C66])


EC = dict(K=R(5, 100, (37,)), G=R(4, 80, (45,)), phi=R(0, .4, (0, .01)), alpha=R(.001, .95, (.1, .01, .5), log=True), Kf=R(0, 30, (0, 2.1)), mat=Cat(False, True, MISSING))
Spec("C08", "EM.Eshelby_Cheng", EC, ec, alt=("F6", lambda **k: ec(defect=True, **k)), rtol=1e-6, csens=1e-2, floor=1e-9, n_a=200, n_b=20, n_sc=20,
     ints=("K", "G"), valid=lambda K, G, phi, alpha, Kf, mat=False: np.greater(np.abs(np.subtract(K, Kf)), .5))


@Rel("C08", "C08.Eshelby_Cheng_vs_Hudson", dict(K=R(10, 80), r=R(.7, 2), crd=R(0.001, .05), w=R(0, 3, (0,))))
def _(K, r, crd, w):
    """For thin cracks the inclusion model tends to Hudson's first-order model
    (all components but the one recorded as defective)."""
    G = K / r
    al = 1e-4
    Kf = w * al * K
    phi = call("utils.crack_por", crd, al)
    a = np.asarray(call("EM.Eshelby_Cheng", K, G, phi, al, Kf))
    H = np.asarray(call("EM.hudson", K, G, Kf, 0.0, al, crd))
    got, want = a[[1, 2, 3, 4]], np.array([H[2, 2], H[0, 2], H[3, 3], H[5, 5]])
    require_agree(got, want, "C33, C13, C44, C66 of thin cracks", rtol=2e-3, scale=K)
