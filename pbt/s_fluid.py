"""C09 isotropic fluid substitution, C10 anisotropic fluid substitution, C11 Biot, C12 squirt and patchy saturation."""
import numpy as np
import scipy.special as sp

from . import tensor as T
from .engine import (MISSING, Cat, I, R, Rel, Skip, Spec, Vec, Violation, agree, call, note_known, require,
                     require_agree)

K0_ = R(5, 150, (36, 37, 77), log=True)
FK = R(.001, .97, (.5,))                # Kdry / K0
PHI = R(.005, .6, (.1, .2, .36))
KF = R(.0001, 4.5, (2.2, 2.25, 1), log=True)
RH = R(1.5, 5, (2.65,))
RF = R(.001, 1.6, (1, .8))


def gass(Kd, K0, Kf, phi):
    """Biot-Gassmann through the Biot coefficient and storage modulus."""
    a = 1 - Kd / K0
    return Kd + a ** 2 / (phi / Kf + (a - phi) / K0)


# ----------------------------------------------------------------- C09
Spec("C09", "Fluid.Brie", dict(Kw=R(.05, 40, (2.2, 2.25)), Kgas=R(0, 5, (0, .01), eq=("Kw",)), Sw=R(0, 1, (0, 1, .5)), e=Cat(1, 2, 3, 5, 40, 1.5, 2.7)),
     lambda Kw, Kgas, Sw, e: Kgas + (Kw - Kgas) * np.power(Sw, float(e)), vec=("Kw", "Kgas", "Sw"), ints=(), floor=1e-13)


def b_gass(b):
    K0 = b.pop("K0")
    fk = b.pop("fk")
    return dict(K_dry=fk * K0, G_dry=b.pop("G"), K_mat=K0, Kf=b.pop("Kf"), phi=b.pop("phi") * (1 - fk))


Spec("C09", "Fluid.Gassmann", dict(K0=K0_, fk=R(0, .97, (0, .5)), G=R(0, 100, (0, 10)), Kf=R(.0001, 60, (2.2, 1), log=True), phi=R(0, 1, (0, .2, 1))),
     lambda K_dry, G_dry, K_mat, Kf, phi: (gass(K_dry, K_mat, Kf, phi), G_dry + 0 * K_dry + 0 * phi), build=b_gass,
     vec=("K_dry", "G_dry", "K_mat", "Kf", "phi"), rtol=1e-7, n_b=50, no=("nan",))


def b_sub(b):
    K0, fk = b["K0"], b["fk"]
    phi = .01 + .98 * b["phi"] * (1 - fk)
    return dict(phi=phi, K0=K0, Ksat1=gass(fk * K0, K0, b["Kfl1"], phi), Kfl1=b["Kfl1"], Kfl2=b["Kfl2"])


def dry(Ks, K0, Kf, phi):
    x = phi * K0 / Kf
    return (Ks * (x + 1 - phi) - K0) / (x + Ks / K0 - 1 - phi)


SUB = dict(K0=K0_, fk=R(.02, .97, (.5,)), phi=R(0, 1, (.2, 1)), Kfl1=KF, Kfl2=R(.0001, 4.5, (2.2, .03), log=True, eq=("Kfl1",)))
Spec("C09", "Fluid.Gassmann_sub", SUB, lambda phi, K0, Ksat1, Kfl1, Kfl2: gass(dry(Ksat1, K0, Kfl1, phi), K0, Kfl2, phi),
     build=b_sub, vec=("phi", "K0", "Ksat1", "Kfl1", "Kfl2"), rtol=1e-6, csens=1e-2, n_b=50)
Spec("C09", "Fluid.Gassmann_approx", SUB,
     lambda Msat1, M0, Mfl1, phi, Mfl2: gass(dry(Msat1, M0, Mfl1, phi), M0, Mfl2, phi),
     build=lambda b: (lambda d: dict(Msat1=d["Ksat1"], M0=d["K0"], Mfl1=d["Kfl1"], phi=d["phi"], Mfl2=d["Kfl2"]))(b_sub(b)),
     vec=("phi", "M0", "Msat1", "Mfl1", "Mfl2"), rtol=1e-6, csens=1e-2, n_b=40)


def b_vels(b):
    K0, fk = b["K0"], b["fk"]
    return dict(K_dry=fk * K0, G_dry=b["fg"] * K0, K0=K0, D0=b["D0"], Kf=b["Kf"], Df=b["Df"], phi=b["phi"] * (1 - fk))


def _vels(K_dry, G_dry, K0, D0, Kf, Df, phi):
    rho = D0 + phi * (Df - D0)
    return (1000 * np.sqrt((gass(K_dry, K0, Kf, phi) + 4 * G_dry / 3) / rho), 1000 * np.sqrt(G_dry / rho), rho)


VB = dict(K0=K0_, fk=R(.02, .97, (.5,)), fg=R(.0, 1.2, (0, .4)), D0=RH, Kf=KF, Df=RF, phi=R(0, 1, (0, .2, 1)))
Spec("C09", "Fluid.vels", VB, _vels, build=b_vels, vec=("K_dry", "G_dry", "K0", "D0", "Kf", "Df", "phi"), rtol=1e-7, n_b=50)


def b_gv(b):
    K0, fk = b["K0"], b["fk"]
    phi = .01 + .98 * b["phi"] * (1 - fk)
    rho = b["D0"] * (1 - phi) + phi * b["Df"]
    K, G = gass(fk * K0, K0, b["Kf"], phi), b["fg"] * K0
    return dict(Vp1=np.sqrt((K + 4 * G / 3) / rho), Vs1=np.sqrt(G / rho), rho1=rho, rhofl1=b["Df"], Kfl1=b["Kf"],
                rhofl2=b["Df2"], Kfl2=b["Kf2"], K0=K0, phi=phi)


def _gv(Vp1, Vs1, rho1, rhofl1, Kfl1, rhofl2, Kfl2, K0, phi):
    G = rho1 * Vs1 ** 2
    K1 = rho1 * Vp1 ** 2 - 4 * G / 3
    K2 = gass(dry(K1, K0, Kfl1, phi), K0, Kfl2, phi)
    rho2 = rho1 + phi * (rhofl2 - rhofl1)
    return np.sqrt((K2 + 4 * G / 3) / rho2), np.sqrt(G / rho2)


GV = dict(VB, fg=R(.01, 1.2, (.4,)), Kf2=R(.0001, 4.5, (2.2,), log=True, eq=("Kf",)), Df2=R(.001, 1.6, (1,), eq=("Df",)))
Spec("C09", "Fluid.Gassmann_vels", GV, _gv, build=b_gv,
     vec=("Vp1", "Vs1", "rho1", "rhofl1", "Kfl1", "rhofl2", "Kfl2", "K0", "phi"), rtol=1e-6, csens=1e-2, n_b=50)


@Rel("C09", "C09.substitution_laws", dict(GV, n=Cat(0, 1, 4), Kf3=KF))
def _(K0, fk, fg, D0, Kf, Df, phi, Kf2, Df2, n, Kf3):
    phi = .01 + .98 * phi * (1 - fk)
    Kd, G = fk * K0, fg * K0
    if n:
        Kd = Kd * np.linspace(.9, 1, n)
    s1 = call("Fluid.Gassmann", Kd, G, K0, Kf, phi)[0]
    s2 = call("Fluid.Gassmann", Kd, G, K0, Kf2, phi)[0]
    cond = 1e-9 * (1 + K0 / (phi * min(Kf, Kf2, Kf3)))
    sub = lambda k, a, b: call("Fluid.Gassmann_sub", phi, K0, k, a, b)
    require_agree(sub(s1, Kf, Kf2), s2, "substituting fluid 1 by 2 != saturating with 2", rtol=cond)
    require_agree(sub(sub(s1, Kf, Kf2), Kf2, Kf), s1, "substituting back does not restore the rock", rtol=cond)
    require_agree(sub(sub(s1, Kf, Kf2), Kf2, Kf3), sub(s1, Kf, Kf3), "substitutions do not compose", rtol=cond)
    require_agree(sub(s1, Kf, Kf), s1, "substituting a fluid by itself changes the rock", rtol=1e-9)
    require(np.all(s1 >= np.asarray(Kd) * (1 - 1e-9)) and np.all(np.asarray(s1) <= K0 * (1 + 1e-9)), "saturated modulus outside [dry, mineral]")
    require(np.all(((s2 - s1) >= -1e-9 * K0) == (Kf2 >= Kf)) or Kf2 == Kf or np.all(abs(s2 - s1) < 1e-9 * K0), "stiffer fluid softens the rock")
    # velocity form == modulus form
    V = call("Fluid.vels", Kd, G, K0, D0, Kf, Df, phi)
    V2 = call("Fluid.vels", Kd, G, K0, D0, Kf2, Df2, phi)
    got = call("Fluid.Gassmann_vels", V[0] / 1e3, V[1] / 1e3, V[2], Df, Kf, Df2, Kf2, K0, phi)
    require_agree(got, (V2[0] / 1e3, V2[1] / 1e3), "velocity substitution != forward model", rtol=max(cond, 1e-7))
    vv = call("utils.V", s1, G, V[2])
    require_agree(V[:2], vv, "velocities of saturated rock", rtol=1e-9)
    require_agree(call("Fluid.Gassmann", Kd, G, K0, K0, phi)[0], _gk0(Kd, K0, phi), "pores filled with mineral", rtol=1e-8)


def _gk0(Kd, K0, phi):
    return gass(Kd, K0, K0, phi)


@Rel("C09", "C09.Brie_limits", dict(Kw=R(1, 5), Kg=R(.001, .5), S=R(0, 1), e=R(1, 40)))
def _(Kw, Kg, S, e):
    require_agree(call("Fluid.Brie", Kw, Kg, 1.0, e), Kw, "water-saturated mixture is not water", rtol=1e-10)
    require_agree(call("Fluid.Brie", Kw, Kg, 0.0, e), Kg, "gas-saturated mixture is not gas", rtol=1e-10)
    V = call("EM.VRH", [S, 1 - S], [Kw, Kg])
    require_agree(call("Fluid.Brie", Kw, Kg, S, 1), V[0], "exponent 1 is not the Voigt average", rtol=1e-9)
    a = call("Fluid.Brie", Kw, Kg, np.array([S, S]), e)
    require(Kg - 1e-9 <= a[0] <= V[0] + 1e-9, "mixture outside [gas, Voigt]")


# ----------------------------------------------------------------- C10
def aniso_S(K0, G0, B, kind):
    """A dry compliance softer than the mineral: S0 + B B^T."""
    S0 = np.linalg.inv(T.to6(T.iso(K0, G0)))
    B = np.array(B).reshape(6, 6)
    X = B @ B.T / (6 * K0) + .05 / K0 * np.diag([1, 1, 1, 2, 2, 2.0])
    if kind == "vti":
        C = T.vti(*[float(v) for v in (1, 1, .2, .4, .4)])
        a = abs(B[0, 0]) + .1
        s = np.zeros((6, 6))
        s[:3, :3] = [[a, .1 * a, -.1 * a], [.1 * a, a, -.1 * a], [-.1 * a, -.1 * a, 1.5 * a + abs(B[1, 1])]]
        s[3, 3] = s[4, 4] = a + abs(B[2, 2])
        s[5, 5] = 2 * (a - .1 * a)
        X = s / K0
    elif kind == "iso":
        a, g = abs(B[0, 0]) + .1, abs(B[1, 1]) + .1
        X = np.linalg.inv(T.to6(T.iso(K0 / a, G0 / g)))
    return S0, S0 + X


def bk_ref(S, K0, G0, Kf, phi, sign=1):
    """Brown & Korringa eq. 32 on rank-4 compliances."""
    s = T.comp_to4(S)
    s0 = T.comp_to4(np.linalg.inv(T.to6(T.iso(K0, G0))))
    d = np.einsum("ijaa->ij", s) - np.einsum("ijaa->ij", s0)
    bd = np.einsum("aabb", s)
    if sign > 0:
        den = (1 / Kf - 1 / K0) * phi + (bd - 1 / K0)
        return T.comp_to6(s - np.multiply.outer(d, d) / den)
    den = (1 / Kf - 1 / K0) * phi - (bd - 1 / K0)
    return T.comp_to6(s + np.multiply.outer(d, d) / den)


BKB = dict(K0=R(10, 100, (37,)), G0=R(5, 80, (44,)), B=Vec(R(-1, 1, (0,)), 36), kind=Cat("general", "general", "vti", "iso"), Kf=R(.001, 30, (2.2,), log=True), phi=R(.001, .9, (.1,)))


def bk_scale(*M):
    return max(np.abs(m).max() for m in M)


@Rel("C10", "C10.dry_sat_round_trip", BKB, n_a=120, n_b=20, n_sc=15)
def _(K0, G0, B, kind, Kf, phi):
    Kf = min(Kf, .95 * K0)         # a pore fluid is softer than the mineral
    S0, Sd = aniso_S(K0, G0, B, kind)
    keep = Sd.copy()
    Sd.setflags(write=False)
    Ss = call("Fluid.Brown_Korringa_dry2sat", Sd, K0, G0, Kf, phi)
    sc = bk_scale(Sd)
    require_agree(Ss, bk_ref(keep, K0, G0, Kf, phi), "saturated compliance", rtol=1e-8, scale=sc)
    want = bk_ref(keep, K0, G0, Kf, phi)
    want.setflags(write=phi > .3)
    cond = 1e-10 * (1 + 1 / abs(((1 / Kf - 1 / K0) * phi - (want[:3, :3].sum() - 1 / K0)) * K0)) * 10
    require_agree(call("Fluid.Brown_Korringa_sat2dry", want, K0, G0, Kf, phi), keep, "drying the saturated rock does not restore it", rtol=max(cond, 1e-8), scale=sc)
    require_agree(call("Fluid.Brown_Korringa_sat2dry", want, K0, G0, Kf, phi), bk_ref(want, K0, G0, Kf, phi, -1), "dry compliance", rtol=max(cond, 1e-8), scale=sc)
    Ss = np.asarray(Ss)
    require_agree(Ss, Ss.T, "saturated compliance not symmetric", rtol=1e-10, scale=sc)
    require(np.linalg.eigvalsh(keep - (Ss + Ss.T) / 2).min() >= -1e-9 * sc, "fluid softens the rock")
    require_agree(call("Fluid.Brown_Korringa_dry2sat", S0, K0, G0, Kf, phi), S0, "rock without soft pores changes", rtol=1e-8, scale=bk_scale(S0))


@Rel("C10", "C10.substitution", dict(BKB, Kf2=R(.01, 4, (1,))), n_a=100, n_b=20, n_sc=15)
def _(K0, G0, B, kind, Kf, phi, Kf2):
    Kf = min(Kf, .95 * K0)
    S0, Sd = aniso_S(K0, G0, B, kind)
    S1, S2 = bk_ref(Sd, K0, G0, Kf, phi), bk_ref(Sd, K0, G0, Kf2, phi)
    C1 = np.linalg.inv(S1)
    c = abs(((1 / Kf - 1 / K0) * phi - (S1[:3, :3].sum() - 1 / K0)) * K0)
    rt = 1e-8 * (1 + 1 / c) * 10
    if rt > 1e-4:
        raise Skip()
    got = call("Fluid.Brown_Korringa_sub", C1, K0, G0, Kf, Kf2, phi)
    require_agree(got[0], np.linalg.inv(S2), "substituted stiffness", rtol=rt, scale=bk_scale(C1))
    require_agree(got[1], S2, "substituted compliance", rtol=rt, scale=bk_scale(S2))
    require_agree(np.asarray(got[0]) @ np.asarray(got[1]), np.eye(6), "stiffness and compliance are not inverse", rtol=1e-6, scale=1.0)
    same = call("Fluid.Brown_Korringa_sub", C1, K0, G0, Kf, Kf, phi)
    require_agree(same[0], C1, "substituting a fluid by itself changes the rock", rtol=rt, scale=bk_scale(C1))
    require_agree(same[1], S1, "substituting a fluid by itself changes the compliance", rtol=rt, scale=bk_scale(S1))


@Rel("C10", "C10.isotropic_is_Gassmann", dict(K0=R(10, 100), G0=R(5, 80), fk=R(.05, .9), fg=R(.05, .95), Kf=R(.01, 4), Kf2=R(.01, 4), phi=R(.01, .9)), n_a=120)
def _(K0, G0, fk, fg, Kf, Kf2, phi):
    phi = max(phi * (1 - fk), .01)
    Kd, Gd = fk * K0, fg * G0
    Sd = np.linalg.inv(T.to6(T.iso(Kd, Gd)))
    Ks, Gs = call("Fluid.Gassmann", Kd, Gd, K0, Kf, phi)
    Ss = call("Fluid.Brown_Korringa_dry2sat", Sd, K0, G0, Kf, phi)
    require_agree(np.linalg.inv(Ss), T.to6(T.iso(Ks, Gs)), "isotropic rock does not follow Gassmann", rtol=1e-7, scale=K0)
    rt = 1e-7 * (1 + K0 / (phi * Kf))
    K2 = call("Fluid.Gassmann_sub", phi, K0, Ks, Kf, Kf2)
    C2 = call("Fluid.Brown_Korringa_sub", T.to6(T.iso(Ks, Gs)), K0, G0, Kf, Kf2, phi)[0]
    require_agree(C2, T.to6(T.iso(K2, Gs)), "isotropic substitution does not follow Gassmann", rtol=rt, scale=K0)


# ----------------------------------------------------------------- C11
def F_biot(z):
    """Viscodynamic operator, scaled Bessel functions."""
    x = z * np.exp(-1j * np.pi / 4)
    t = np.exp(1j * 3 * np.pi / 4) * sp.jve(1, x) / sp.jve(0, x)
    t = np.where(z > 1e3, (1 + 1j) / np.sqrt(2), t)
    F = .25 * z * t / (1 + 2j * t / z)
    return np.where(z < .1, 1.0, F)


def _biot(Kdry, Gdry, K0, Kfl, rho0, rhofl, eta, phi, kapa, a, alpha, freq):
    Kdry, Gdry, freq = np.broadcast_arrays(*[np.atleast_1d(np.asarray(x, float)) for x in (Kdry, Gdry, freq)])
    bi = 1 - Kdry / K0
    M = 1 / (phi / Kfl + (bi - phi) / K0)
    C = bi * M
    H = Kdry + 4 * Gdry / 3 + bi ** 2 * M
    rho = (1 - phi) * rho0 + phi * rhofl
    w = 2 * np.pi * freq
    q = alpha * rhofl / phi - 1j * eta / (w * kapa) * F_biot(np.sqrt(w * a ** 2 * rhofl / eta))
    n = len(w)
    A = np.zeros((n, 2, 2), complex)
    Bm = np.zeros((n, 2, 2), complex)
    A[:, 0, 0], A[:, 0, 1], A[:, 1, 0], A[:, 1, 1] = H, C, C, M
    Bm[:, 0, 0], Bm[:, 0, 1], Bm[:, 1, 0], Bm[:, 1, 1] = rho, rhofl, rhofl, q
    bad = ~(np.isfinite(A).all((1, 2)) & np.isfinite(Bm).all((1, 2)))
    A[bad] = Bm[bad] = np.eye(2)
    s2 = np.linalg.eigvals(np.linalg.solve(A, Bm))
    s2[bad] = np.nan
    big = np.argmax(np.abs(s2), 1)
    # trace/determinant polish: eigenvalues of very different size
    det = (rho * q - rhofl ** 2) / (H * M - C ** 2)
    lg = s2[np.arange(n), big]
    s2 = np.stack([lg, det / lg], 1)
    o = np.argsort(np.sqrt(s2).real, 1)          # the fast wave has the smaller slowness
    s2 = np.take_along_axis(s2, o, 1)
    ss = (rho - rhofl ** 2 / q) / Gdry
    v = lambda s: 1 / np.sqrt(s).real
    Q = lambda s: (1 / s).imag / (1 / s).real
    return v(s2[:, 0]), v(s2[:, 1]), v(ss), Q(s2[:, 0]), Q(s2[:, 1]), Q(ss)


BB = dict(K0=K0_, fk=R(.05, .9, (.5,)), fg=R(.05, 1, (.4,)), Kfl=R(.01, 4, (2.25,), log=True), rho0=RH, rhofl=R(.05, 1.5, (1,)), eta=R(1e-5, 1, (1e-3, .1), log=True),
          phi=R(.05, .95, (.3,)), kapa=R(1e-6, 10, (1e-3,), log=True), a=R(1e-6, 1e-2, (1e-5,), log=True), alpha=R(1, 4, (1, 2)), freq=R(1e-3, 1e7, (1, 100, 1000), log=True))


def b_biot(b):
    K0, fk = b.pop("K0"), b.pop("fk")
    d = dict(Kdry=fk * K0, Gdry=b.pop("fg") * K0, K0=K0, Kfl=b["Kfl"], rho0=b["rho0"], rhofl=b["rhofl"], eta=b["eta"], phi=b["phi"] * (1 - fk),
             kapa=b["kapa"], a=b["a"], alpha=b["alpha"], freq=b["freq"])
    return d


def _biot_valid(Kdry, Gdry, K0, Kfl, rho0, rhofl, eta, phi, kapa, a, alpha, freq):
    z = np.sqrt(2 * np.pi * np.asarray(freq) * a ** 2 * rhofl / eta)
    return (np.abs(z / .1 - 1) > 1e-3) & (np.abs(z / 1e3 - 1) > 1e-3) & (phi > .01)


def _biot_tol(Kdry, Gdry, K0, Kfl, rho0, rhofl, eta, phi, kapa, a, alpha, freq):
    # cancellation between the two roots when they differ by orders of magnitude
    w = 2 * np.pi * np.atleast_1d(np.asarray(freq, float))
    big = 1 + eta / (w * kapa) / (rhofl / phi) * (1 + np.sqrt(w * a ** 2 * rhofl / eta))
    with np.errstate(all="ignore"):
        r = _biot(Kdry, Gdry, K0, Kfl, rho0, rhofl, eta, phi, kapa, a, alpha, freq)
        s2 = (r[0] / r[1]) ** 2 + big * 50
        z = np.sqrt(w * a ** 2 * rhofl / eta)
        e = 4e-14 * s2 + np.where(z < .3, 1e-13 / np.minimum(z, 1) ** 4, 0)
    return [e * r[0], e * r[1], e * r[2], e + 0 * r[0], e * (1 + np.abs(r[4])), e + 0 * r[0]]


Spec("C11", "Fluid.Biot", BB, _biot, build=b_biot, vec=("freq",), rtol=1e-7, csens=1e-2, floor=1e-12, tolf=_biot_tol, valid=_biot_valid,
     no=("two_d", "broadcast", "series"), n_a=200, n_b=60, n_pts=100)
Spec("C11", "Fluid.Biot", BB, _biot, build=b_biot, vec=("Kdry", "Gdry", "freq"), rtol=1e-7, csens=1e-2, floor=1e-12, tolf=_biot_tol, valid=_biot_valid,
     no=("two_d", "broadcast", "zero_d", "npscalar", "size1", "scalar", "pyint", "series", "nan"), n_a=10, n_b=30, n_pts=60, name="Biot_frame_arrays")


def _bhf(Kdry, Gdry, K0, Kfl, rho0, rhofl, phi, alpha):
    Kdry, Gdry, K0, Kfl, rho0, rhofl, phi, alpha = np.broadcast_arrays(*[np.asarray(x, float) for x in (Kdry, Gdry, K0, Kfl, rho0, rhofl, phi, alpha)])
    bi = 1 - Kdry / K0
    M = 1 / (phi / Kfl + (bi - phi) / K0)
    C, H = bi * M, Kdry + 4 * Gdry / 3 + bi ** 2 * M
    rho, q = (1 - phi) * rho0 + phi * rhofl, alpha * rhofl / phi
    # (H s - rho)(M s - q) = (C s - rhofl)^2, s = slowness^2
    A, B, D = H * M - C * C, -(H * q + M * rho - 2 * C * rhofl), rho * q - rhofl ** 2
    r = np.sqrt(B * B - 4 * A * D)
    # v^2 = 1/s are the roots of D v^4 + B v^2 + A
    vf = (-B + r) / (2 * D)
    return np.sqrt(vf), np.sqrt(A / (D * vf)), np.sqrt(Gdry / (rho - rhofl ** 2 / q))


HB = {k: v for k, v in BB.items() if k not in ("eta", "kapa", "a", "freq")}


def b_hf(b):
    K0, fk = b.pop("K0"), b.pop("fk")
    return dict(Kdry=fk * K0, Gdry=b.pop("fg") * K0, K0=K0, Kfl=b["Kfl"], rho0=b["rho0"], rhofl=b["rhofl"], phi=b["phi"] * (1 - fk), alpha=b["alpha"])


V8 = ("Kdry", "Gdry", "K0", "Kfl", "rho0", "rhofl", "phi", "alpha")
Spec("C11", "Fluid.Biot_HF", HB, _bhf, build=b_hf, vec=V8, rtol=1e-6, csens=1e-2, n_b=50,
     valid=lambda **k: np.asarray(k["phi"]) > .01)


def _gshf(Kdry, Gdry, K0, Kfl, rho0, rhofl, phi, alpha):
    rho = (1 - phi) * rho0 + phi * rhofl
    rb = rho - phi * rhofl / alpha
    b = 1 - Kdry / K0
    M = 1 / (phi / Kfl + (b - phi) / K0)
    return np.sqrt((Kdry + 4 * Gdry / 3 + M * (phi * rho / (rhofl * alpha) + b * b - 2 * b * phi / alpha)) / rb), np.sqrt(Gdry / rb)


Spec("C11", "Fluid.Geertsma_Smit_HF", HB, _gshf, build=b_hf, vec=V8, rtol=1e-6, n_b=50)
Spec("C11", "Fluid.Geertsma_Smit_LF", dict(Vp0=R(.5, 8000, (3, 3000), log=True), Vpinf=R(.5, 8000, (3.2,), log=True), freq=R(1e-3, 1e8, (100,), log=True), phi=R(.01, .9),
                                           rhofl=RF, kapa=R(1e-16, 10, log=True), eta=R(1e-6, 10, log=True)),
     lambda Vp0, Vpinf, freq, phi, rhofl, kapa, eta: (lambda r: np.sqrt((Vpinf ** 4 / (1 + r) + Vp0 ** 4 / (1 + 1 / r)) / (Vpinf ** 2 / (1 + r) + Vp0 ** 2 / (1 + 1 / r))))(
         (phi * eta / (2 * np.pi * rhofl * kapa) / freq) ** 2),
     vec=("Vp0", "Vpinf", "freq", "phi", "rhofl", "kapa", "eta"), rtol=1e-7, n_b=40, csens=1e-2, tolf=lambda Vp0, Vpinf, **k: 1e-9 * (np.asarray(Vp0) + np.asarray(Vpinf)))


@Rel("C11", "C11.frequency_limits", dict(HB, eta=R(1e-4, .1, log=True), kapa=R(1e-4, .1, log=True)), n_a=120)
def _(eta, kapa, **b):
    d = b_hf(dict(b))
    if d["phi"] < .01:
        raise Skip()
    a = 1e-5
    # low frequency: viscous term dominates
    f0 = 1e-5 * eta * d["phi"] / (kapa * d["rhofl"] * 2 * np.pi)
    lo = call("Fluid.Biot", *[d[k] for k in ("Kdry", "Gdry", "K0", "Kfl", "rho0", "rhofl")], eta, d["phi"], kapa, a, d["alpha"], np.array([f0]))
    Vp, Vs, rho = call("Fluid.vels", d["Kdry"], d["Gdry"], d["K0"], d["rho0"], d["Kfl"], d["rhofl"], d["phi"])
    require_agree((lo[0] * 1e3, lo[2] * 1e3), (Vp, Vs), "low-frequency limit is not Gassmann", rtol=1e-5)
    # high frequency: inertial term dominates
    f1 = 1e9 * eta * d["phi"] / (kapa * d["rhofl"] * 2 * np.pi)
    a = min(1e-5, .09 / np.sqrt(2 * np.pi * f1 * d["rhofl"] / eta))       # keeps the operator at its low-frequency value
    hi = call("Fluid.Biot", *[d[k] for k in ("Kdry", "Gdry", "K0", "Kfl", "rho0", "rhofl")], eta, d["phi"], kapa, a, d["alpha"], np.array([f1]))
    hf = call("Fluid.Biot_HF", *[d[k] for k in V8])
    require_agree(hi[:3], hf, "high-frequency limit is not Biot_HF", rtol=1e-5)
    require(hf[0] >= lo[0][0] * (1 - 1e-9) and hf[2] >= lo[2][0] * (1 - 1e-9), "velocity decreases with frequency")
    gs = call("Fluid.Geertsma_Smit_HF", *[d[k] for k in V8])
    require_agree(gs[1], hf[2], "Geertsma-Smit shear velocity", rtol=1e-9)
    require(gs[0] >= hf[0] * (1 - 1e-9), "Geertsma-Smit velocity below the Biot limit")
    g = call("Fluid.Geertsma_Smit_LF", 3.0, 3.3, np.array([1e-9 * f0, 1e6 * f1]), d["phi"], d["rhofl"], kapa, eta)
    require_agree(g, np.array([3.0, 3.3]), "Geertsma-Smit interpolation limits", rtol=1e-6)


# ----------------------------------------------------------------- C12
def _mj(Vp_hs, Vs_hs, Vpdry, Vsdry, K0, rhodry, rhofl, Kfl, phi):
    k = lambda vp, vs: rhodry * (vp ** 2 - 4 * vs ** 2 / 3) / 1e6
    Kd, Gd, Kh = k(Vpdry, Vsdry), rhodry * Vsdry ** 2 / 1e6, k(Vp_hs, Vs_hs)
    Ks = gass(Kh, K0, Kfl, phi)
    Gs = Gd / (1 - 4 * Gd / 15 * (1 / Kd - 1 / Kh))
    rho = rhodry + phi * rhofl
    return Ks, Gs, 1e3 * np.sqrt((Ks + 4 * Gs / 3) / rho), 1e3 * np.sqrt(Gs / rho)


def b_mj(b):
    K0 = b["K0"]
    Kh, Kd = b["fh"] * K0, b["fh"] * K0 * b["fd"]
    Gh, Gd = b["gh"] * K0, b["gh"] * K0 * b["gd"]
    r = b["rhodry"]
    vp, vs = (lambda k, g: 1e3 * np.sqrt((k + 4 * g / 3) / r)), (lambda g: 1e3 * np.sqrt(g / r))
    return dict(Vp_hs=vp(Kh, Gh), Vs_hs=vs(Gh), Vpdry=vp(Kd, Gd), Vsdry=vs(Gd), K0=K0, rhodry=r, rhofl=b["rhofl"], Kfl=b["Kfl"], phi=b["phi"] * (1 - b["fh"]))


Spec("C12", "Fluid.Mavko_Jizba", dict(K0=K0_, fh=R(.2, .95), fd=R(.2, 1, (1,)), gh=R(.1, .9), gd=R(.3, 1, (1,)), rhodry=R(1.2, 3), rhofl=RF, Kfl=KF, phi=R(.01, 1)),
     _mj, build=b_mj, vec=("Vpdry", "Vsdry"), rtol=1e-6, n_b=40, no=("nan",),
     valid=lambda Vp_hs, Vs_hs, Vpdry, Vsdry, K0, rhodry, rhofl, Kfl, phi: _mj_ok(Vp_hs, Vs_hs, Vpdry, Vsdry, rhodry))


def _mj_ok(Vp_hs, Vs_hs, Vpdry, Vsdry, rhodry):
    Kd, Gd = rhodry * (Vpdry ** 2 - 4 * Vsdry ** 2 / 3) / 1e6, rhodry * Vsdry ** 2 / 1e6
    Kh = rhodry * (Vp_hs ** 2 - 4 * Vs_hs ** 2 / 3) / 1e6
    return (Kd > .05 * Gd) & (1 - 4 * Gd / 15 * (1 / Kd - 1 / Kh) > .05)


def squirt_ref(Sd, Sh):
    """Mukerji & Mavko through rank-4 crack orientation tensors."""
    def t4(S):
        M = np.zeros((6, 6))
        M[0, 0] = M[1, 1] = S[0]
        M[0, 1] = M[1, 0] = S[1]
        M[0, 2] = M[2, 0] = M[1, 2] = M[2, 1] = S[2]
        M[2, 2] = S[3]
        M[3, 3] = M[4, 4] = S[4]
        M[5, 5] = 2 * (S[0] - S[1])
        return T.comp_to4(M)
    D = t4(np.subtract(Sd, Sh))
    aabb = np.einsum("aabb", D)
    d = D / aabb
    return d, aabb, t4(Sd)


def squirt_wet(Sd, Sh, s44=True):
    d, aabb, s = squirt_ref(Sd, Sh)
    al = .25 * (np.einsum("abab", d) - 1)
    e, v = np.eye(3), np.einsum("ijaa->ij", d)
    sym = (np.einsum("ik,jl->ijkl", e, v) + np.einsum("il,jk->ijkl", e, v) + np.einsum("jk,il->ijkl", e, v) + np.einsum("jl,ik->ijkl", e, v))
    G = (d - al * sym) / (1 - 4 * al)
    W = T.comp_to6(s - aabb * G)
    return np.array([W[0, 0], W[0, 1], W[0, 2], W[2, 2], W[3, 3]]), G, aabb


def squirt_f8(Sd, Sh):
    """What the code computes today (known finding F8)."""
    D = np.subtract(Sd, Sh)
    A = 2 * D[0] + 2 * D[1] + 4 * D[2] + D[3]
    d = D / A
    al = .25 * (2 * d[0] + d[3] + 4 * d[4] + 4 * (d[0] - d[1]) - 1)
    t = 1 - 4 * al
    g11 = d[0] - 4 * al / t * (d[1] + d[2])
    g33 = d[3] - 8 * al * d[2] / t
    G = np.array([g11, d[1] / t, d[2] / t, g33, (d[4] - (d[0] + d[2]) / 4) / t + (g11 + g33) / 4])
    return np.asarray(Sd, float) - A * G, abs(t)


def squirt_check(got, Sd, Sh, E, want, t=1.0):
    bug, tb = squirt_f8(Sd, Sh)
    if agree(got, want, 1e-7, scale=1e-2 / E / min(1, t))[0]:
        return
    if agree(got, bug, 1e-7, scale=1e-2 / E / min(1, tb))[0]:
        note_known("F8")
        return
    require_agree(got, want, "wet-frame compliances [S11 S12 S13 S33 S44]", rtol=1e-7, scale=1e-2 / E)


SQ = dict(E=R(.5, 300), nu=R(.05, .35), x=Vec(R(0, 1, (0,)), 5), lay=Cat("list", "array", "tuple"))


def sq_build(E, nu, x):
    Sh = np.array([1, -nu, -nu, 1, 2 * (1 + nu)]) / E
    # compliant cracks, normals distributed about x3: n_i n_j n_k n_l and n_i n_l delta terms
    bn, bt = .1 + x[0], .1 + x[1]
    c2 = .2 + .6 * x[2]                         # <n3^2>
    c4 = c2 * (c2 + (1 - c2) * .8 * x[3])       # <n3^4> in [c2^2, c2]
    m11 = (1 - c2) / 2
    n1111 = 3 * (1 - 2 * c2 + c4) / 8
    n1122 = n1111 / 3
    n1133 = (c2 - c4) / 2
    g = bt
    f = bn - bt
    d1111 = f * n1111 + g * m11
    d1122 = f * n1122
    d1133 = f * n1133
    d3333 = f * c4 + g * c2
    d1313 = f * n1133 + g / 4 * (m11 + c2)
    D = np.array([d1111, d1122, d1133, d3333, 4 * d1313]) / E
    return Sh + D, Sh, c4, n1111, n1133, bn, bt, E


@Rel("C12", "C12.Squirt_anisotropic", SQ, n_a=150, n_b=20, n_sc=15)
def _(E, nu, x, lay):
    Sd, Sh, *_r = sq_build(E, nu, x)
    want, G, aabb = squirt_wet(Sd, Sh)
    mk = {"list": list, "array": np.array, "tuple": tuple}[lay]
    got = np.asarray(call("Fluid.Squirt_anisotropic", mk(Sd), mk(Sh)), float)
    squirt_check(got, Sd, Sh, E, want)
    # fluid closes the bulk compliance change of the cracks
    b = lambda S: 2 * S[0] + 2 * S[1] + 4 * S[2] + S[3]
    require_agree(b(got), b(Sh), "wet frame's bulk compliance is not the crack-free one", rtol=1e-7, scale=1.0 / E)


@Rel("C12", "C12.isotropic_squirt", dict(K0=R(20, 80), fh=R(.3, .95), fd=R(.3, .98), gh=R(.2, .9), gd=R(.4, .98), rho=R(1.5, 3)), n_a=120)
def _(K0, fh, fd, gh, gd, rho):
    Kh, Gh = fh * K0, gh * K0
    Kd, Gd = Kh * fd, Gh * gd
    iso = lambda K, G: [(1 / (3 * G) + 1 / (9 * K)), (1 / (9 * K) - 1 / (6 * G)), (1 / (9 * K) - 1 / (6 * G)), (1 / (3 * G) + 1 / (9 * K)), 1 / G]
    Sd, Sh = np.array(iso(Kd, Gd)), np.array(iso(Kh, Gh))
    W = np.asarray(call("Fluid.Squirt_anisotropic", Sd, Sh))
    v = lambda K, G: (1e3 * np.sqrt((K + 4 * G / 3) / rho), 1e3 * np.sqrt(G / rho))
    ph, pd = v(Kh, Gh), v(Kd, Gd)
    mj = call("Fluid.Mavko_Jizba", ph[0], ph[1], np.array([pd[0]]), np.array([pd[1]]), K0, rho, 1.0, 2.2, .1)
    d, aabb, s = squirt_ref(Sd, Sh)
    al = .25 * (np.einsum("abab", d) - 1)
    if abs(1 - 4 * al) < .02:
        raise Skip()
    g = float(np.asarray(mj[1])[0])
    iw = [1 / (3 * g) + 1 / (9 * Kh), 1 / (9 * Kh) - 1 / (6 * g)]
    if abs(squirt_f8(Sd, Sh)[1]) < .02:
        raise Skip()
    squirt_check(W, Sd, Sh, K0, np.array([iw[0], iw[1], iw[1], iw[0], 1 / g]), abs(1 - 4 * al))
    require_agree(mj[0], gass(Kh, K0, 2.2, .1), "high-frequency bulk modulus", rtol=1e-7)


def white_ref(Kdry, Gdry, K0, phi, rho0, rhofl1, rhofl2, Kfl1, Kfl2, eta1, eta2, kapa, a, sg, freq):
    w = 2 * np.pi * np.asarray(freq, float)
    b = a * sg ** (-1 / 3)
    bi = 1 - Kdry / K0
    M = [1 / (phi / k + (bi - phi) / K0) for k in (Kfl1, Kfl2)]
    K = [Kdry + bi ** 2 * m for m in M]
    # drained diffusion modulus as in Dutta & Ode
    KE = [m * (1 - k * (1 - q / K0) * bi / (phi * q * (1 - k / K0))) for m, k, q in zip(M, (Kfl1, Kfl2), K)]
    x = [np.sqrt(1j * w * e / (kapa * ke)) for e, ke in zip((eta1, eta2), KE)]
    xa, ya, yb = x[0] * a, x[1] * a, x[1] * b
    th = np.tanh(yb - ya)
    Z1 = eta1 * a / kapa / (xa / np.tanh(xa) - 1)
    Z2 = eta2 * a / kapa * (yb - th) / ((ya * yb - 1) * th + yb - ya)
    den = K[1] * (3 * K[0] + 4 * Gdry) + 4 * Gdry * (K[0] - K[1]) * sg
    R1 = (K[0] - Kdry) / bi * (3 * K[1] + 4 * Gdry) / den
    R2 = (K[1] - Kdry) / bi * (3 * K[0] + 4 * Gdry) / den
    Q1, Q2 = bi * M[0] / K[0], bi * M[1] / K[1]
    W = 3 * a ** 2 * (R1 - R2) * (Q2 - Q1) / (b ** 3 * 1j * w * (Z1 + Z2))
    # Hill: uniform shear modulus, patches at their own saturated modulus
    g = 4 * Gdry / 3
    Kinf = 1 / (sg / (K[0] + g) + (1 - sg) / (K[1] + g)) - g
    Ks = Kinf / (1 - Kinf * W)
    Mc = Ks + g
    rho = (1 - phi) * rho0 + phi * (sg * rhofl1 + (1 - sg) * rhofl2)
    sl = np.sqrt(rho / Mc)
    return 1 / sl.real, -w * sl.imag, Ks


WB = dict(K0=R(20, 80, (35,)), fk=R(.1, .8), fg=R(.1, .9), phi=R(.1, .9, (.3,)), rho0=RH, rhofl1=R(.05, 1.2), rhofl2=R(.5, 1.5, (1,)), Kfl1=R(.02, 1.5, log=True), Kfl2=R(1, 4, (2.25,)),
          eta1=R(1e-5, 1e-2, log=True), eta2=R(1e-4, .1, (1e-3,), log=True), a=R(.01, 1, (.1,)), sg=R(.01, .9, (.1, .5)), x=R(.1, 1000, (1,), log=True), kapa=R(1e-4, 1, log=True))


def b_white(b):
    """Frequency and permeability placed so that the diffusion length covers both regimes."""
    K0, fk = b["K0"], b["fk"]
    Kdry, phi = fk * K0, b["phi"] * (1 - fk)
    bi = 1 - fk
    k, a = b["kapa"], b["a"]
    M = 1 / (phi / b["Kfl1"] + (bi - phi) / K0)
    w = (b["x"] / a) ** 2 * k * M / b["eta1"]
    return dict(Kdry=Kdry, Gdry=b["fg"] * K0, K0=K0, phi=phi, rho0=b["rho0"], rhofl1=b["rhofl1"], rhofl2=b["rhofl2"], Kfl1=b["Kfl1"], Kfl2=b["Kfl2"],
                eta1=b["eta1"], eta2=b["eta2"], kapa=k, a=a, sg=b["sg"], freq=w / (2 * np.pi))


def _w_tol(**k):
    r = white_ref(**k)
    return [1e-9 * np.abs(r[0]), 1e-9 * np.asarray(k["freq"]) / np.abs(r[0]) * 10, 1e-9 * np.abs(r[2])]


def _w_ok(Kdry, Gdry, K0, phi, rho0, rhofl1, rhofl2, Kfl1, Kfl2, eta1, eta2, kapa, a, sg, freq):
    bi = 1 - Kdry / K0
    M2 = 1 / (phi / Kfl2 + (bi - phi) / K0)
    x2 = np.sqrt(2 * np.pi * np.asarray(freq) * eta2 / (kapa * M2)) * a
    return (x2 * (sg ** (-1 / 3) - 1) > .02) & (x2 > .02) & (phi > .01)


Spec("C12", "Fluid.White_Dutta_Ode", WB, white_ref, build=b_white, vec=("freq",), no=("series",), rtol=1e-6, csens=1e-2, tolf=_w_tol, valid=_w_ok, n_a=200, n_b=40, n_pts=100)


@Rel("C12", "C12.patchy_limits", {k: v for k, v in WB.items() if k not in ("x",)}, n_a=120)
def _(**b):
    lo, hi = b_white(dict(b, x=.03)), b_white(dict(b, x=3e4))
    if b["eta2"] > 30 * b["eta1"] or b["eta2"] < b["eta1"] / 3:
        raise Skip()
    order = ("Kdry", "Gdry", "K0", "phi", "rho0", "rhofl1", "rhofl2", "Kfl1", "Kfl2", "eta1", "eta2", "kapa", "a", "sg")
    v, aw, ks = call("Fluid.White_Dutta_Ode", *[lo[k] for k in order], np.array([lo["freq"], hi["freq"]]))
    Kd, G, K0, phi, s = lo["Kdry"], lo["Gdry"], lo["K0"], lo["phi"], lo["sg"]
    wood = 1 / (s / lo["Kfl1"] + (1 - s) / lo["Kfl2"])
    low = call("Fluid.Gassmann", Kd, G, K0, wood, phi)[0]
    k1, k2 = call("Fluid.Gassmann", Kd, G, K0, lo["Kfl1"], phi)[0], call("Fluid.Gassmann", Kd, G, K0, lo["Kfl2"], phi)[0]
    g = 4 * G / 3
    high = 1 / (s / (k1 + g) + (1 - s) / (k2 + g)) - g
    require_agree(ks[0].real, low, "low-frequency limit is not Gassmann with the mixed fluid", rtol=2e-2)
    require_agree(ks[1].real, high, "high-frequency limit is not the patchy (Hill) modulus", rtol=2e-2)
    require(np.isfinite(v).all() and np.isfinite(aw).all(), "not finite")
    require(v[1] >= v[0] * (1 - 1e-6), "velocity decreases with frequency")
    # rounding in the low-frequency pressure coefficients (a thin shell cancels to third order) reaches 1e-8 of the modulus
    require((np.asarray(aw) >= -1e-6 * np.abs([lo["freq"], hi["freq"]])).all(), "negative attenuation")
