"""C15 contact theories of grain packs, C16 sand and shale models, C17 patchy cement models."""
import numpy as np

from .engine import (MISSING, Cat, I, R, Rel, Skip, Spec, Vec, Violation, agree, call, note_known, require,
                     require_agree)

K0_ = R(5, 250, (36.6, 37, 36))
G0_ = R(3, 150, (45, 44, 45))
PC = R(.2, .6, (.36, .4))
CN = R(2, 20, (6, 8.6, 9))
SG = R(.001, 500, (1, 5, 10, 20, 100), log=True)
F_ = R(0, 1, (0, .5, 1))


def poi(K, G):
    E = 9 * K * G / (3 * K + G)
    return E / (2 * G) - 1


def cbrt(x):
    return np.cbrt(x)


# ----------------------------------------------------------------- C15
def hm(K0, G0, phic, Cn, sigma, f):
    """Hertz-Mindlin from the contact stiffnesses of two elastic spheres."""
    nu = poi(K0, G0)
    P = sigma / 1000
    a = cbrt(3 * np.pi * (1 - nu) * P / (2 * Cn * (1 - phic) * G0))      # contact radius / grain radius
    sn, st = 4 * G0 * a / (1 - nu), 8 * G0 * a / (2 - nu)
    K = Cn * (1 - phic) * sn / (12 * np.pi)
    return K, Cn * (1 - phic) * (sn + 1.5 * f * st) / (20 * np.pi)


PK = dict(K0=K0_, G0=G0_, phic=PC, Cn=CN, sigma=SG, f=F_)
ALLV = ("K0", "G0", "phic", "Cn", "sigma", "f")
Spec("C15", "GM.hertzmindlin", dict(PK, sigma=R(0, 500, (0, .01, 1, 5, 20, 100))), hm, vec=ALLV, ints=("sigma", "Cn"), rtol=1e-9, n_b=50)
Spec("C15", "GM.Walton", dict(PK, sigma=R(0, 500, (0, .01, 1, 5, 20, 100))), hm, vec=ALLV, ints=("sigma", "Cn"), rtol=1e-9, n_b=50)


def _digby(K0, G0, phi, Cn, sigma, a_R):
    nu = poi(K0, G0)
    q = 3 * np.pi * (1 - nu) * np.asarray(sigma, float) / 1000 / (2 * Cn * (1 - phi) * G0)
    p = 1.5 * a_R ** 2
    # single real root of d^3 + p d - q by the hyperbolic formula
    if a_R > 1e-9:
        s = np.sqrt(p / 3)
        d = 2 * s * np.sinh(np.arcsinh(q / (2 * s ** 3)) / 3)
    else:
        d = np.cbrt(q)
    b = np.hypot(d, a_R)
    K = Cn * (1 - phi) * 4 * G0 * b / (1 - nu) / (12 * np.pi)
    return K, .6 * K + 1.5 * Cn * (1 - phi) * 8 * G0 * a_R / (2 - nu) / (20 * np.pi) + 0 * b


Spec("C15", "GM.Digby", dict(K0=K0_, G0=G0_, phi=R(.05, .5, (.36,)), Cn=CN, sigma=R(0, 500, (0, .01, 1, 5, 20, 100)), a_R=R(0, .4, (0, .2))), _digby,
     vec=("sigma",), ints=("sigma", "Cn"), rtol=1e-6, csens=1e-2, no=("two_d", "series", "nan"), n_a=200, n_b=60, n_pts=40)

_x, _w = np.polynomial.legendre.leggauss(120)
_x, _w = (_x + 1) / 2, _w / 2


def _johnson(fix):
    def f(K0, G0, n, phi, epsilon, epsilon_axial, path="together"):
        nu = poi(K0, G0)
        Cn, Ct = 4 * G0 / (1 - nu), 8 * G0 / (2 - nu)
        Bw, Cw = 2 / (np.pi * Cn), 4 / np.pi * (1 / Ct - 1 / Cn)
        al = np.sqrt(epsilon / epsilon_axial)
        g = 3 * n * (1 - phi) * np.sqrt(-epsilon) / (4 * np.pi ** 2 * Bw * (2 * Bw + Cw)) / al
        if fix:
            I0, I2, I4 = [float(np.sum(_w * _x ** k * np.sqrt(al ** 2 + _x ** 2))) for k in (0, 2, 4)]
            C11 = g * (2 * Bw * (I0 - I2) + .75 * Cw * (I0 - 2 * I2 + I4))
        else:       # recorded defect F10: misplaced parenthesis in I0, and C11 of the weak-anisotropy limit
            r = np.sqrt(1 + al ** 2)
            I0 = .5 * (r + al ** 2 * np.log(1 + r / al))
            I2 = .25 * (r ** 3 - al ** 2 * I0)
            I4 = (r ** 3 - 3 * al ** 2 * I2) / 6
            C11 = g * (4 * Bw / 3 + 2 * Cw / 5 + al ** 2 * (2 * Bw / 15 + Cw / 35))
        C33 = g * (4 * Bw * I2 + 2 * Cw * I4)
        C13 = g * Cw * (I2 - I4)
        C44 = g * (Bw / 2 * (I0 + I2) + Cw * (I2 - I4))
        C66 = g * (Bw * (I0 - I2) + Cw / 4 * (I0 - 2 * I2 + I4))
        C = np.zeros((6, 6))
        C[0, 0] = C[1, 1] = C11
        C[0, 1] = C[1, 0] = C11 - 2 * C66
        C[0, 2] = C[2, 0] = C[1, 2] = C[2, 1] = C13
        C[2, 2], C[3, 3], C[4, 4], C[5, 5] = C33, C44, C44, C66
        # tangential work along the loading path
        t = {"together": I2 - I4, "uni_iso": 1 / 12., "iso_uni": al ** 2 * I0 + (1 - al ** 2) * I2 - I4 - 2 * al ** 3 / 3}[path.replace("-", "_")]
        s = -(-epsilon) ** 1.5 * (1 - phi) * n / (4 * np.pi * al ** 3)
        return C, 2 * s * (Ct * t + Cn * (al ** 2 * I2 + I4)), s * (-Ct * t + Cn * (al ** 2 * I0 + (1 - al ** 2) * I2 - I4))
    return f


Spec("C15", "GM.johnson", dict(K0=K0_, G0=G0_, n=CN, phi=R(.2, .5, (.36,)), epsilon=R(-.05, -1e-4), epsilon_axial=R(-.05, -1e-3), path=Cat("together", "uni_iso", "iso_uni", MISSING)),
     _johnson(True), alt=("F10", _johnson(False)), rtol=1e-6, csens=1e-2, n_a=200, n_b=40, valid=lambda **k: .1 < k["epsilon"] / k["epsilon_axial"] < 40)


@Rel("C15", "C15.pack_laws", dict(PK, s2=SG, a=R(.001, .3)))
def _(K0, G0, phic, Cn, sigma, f, s2, a):
    K, G = call("GM.hertzmindlin", K0, G0, phic, Cn, sigma, f)
    require_agree((K, G), call("GM.Walton", K0, G0, phic, Cn, sigma, f), "Walton and Hertz-Mindlin packs differ", rtol=1e-9)
    K2, G2 = call("GM.hertzmindlin", K0, G0, phic, Cn, s2, f)
    r = (s2 / sigma) ** (1 / 3)
    require_agree((K2, G2), (K * r, G * r), "moduli do not grow with the cube root of stress", rtol=1e-9)
    g0, g1 = call("GM.hertzmindlin", K0, G0, phic, Cn, sigma, 0)[1], call("GM.hertzmindlin", K0, G0, phic, Cn, sigma, 1)[1]
    require_agree(G, f * g1 + (1 - f) * g0, "shear modulus not linear in the shear factor", rtol=1e-9)
    require_agree(g0, .6 * K, "smooth pack: G != 3/5 K", rtol=1e-9)
    nu = poi(K0, G0)
    require_agree(g1, .6 * K * (5 - 4 * nu) / (2 - nu), "rough pack ratio", rtol=1e-9)
    Kd, Gd = call("GM.Digby", K0, G0, phic, Cn, sigma, 0.0)
    require_agree((Kd, Gd), (K, g0), "unbonded Digby pack is not the smooth pack", rtol=1e-6)
    Ka, Ga = call("GM.Digby", K0, G0, phic, Cn, sigma, a)
    require(Ka >= Kd * (1 - 1e-7) and Ga >= Gd * (1 - 1e-7), "initial bonding softens the pack")
    Kz, Gz = call("GM.Digby", K0, G0, phic, Cn, 0.0, a)
    require(np.all(Kz > 0) and np.all(Ka >= Kz * (1 - 1e-7)), "bonded pack does not stiffen with stress")


# ----------------------------------------------------------------- C16
def mix(T, Ka, Ga, Kb, Gb, Kr, Gr):
    """Hashin-Shtrikman-Walpole average of a (fraction T) and b with reference medium r."""
    k = 4 * Gr / 3
    z = Gr * (9 * Kr + 8 * Gr) / (6 * (Kr + 2 * Gr))
    return (Ka + k) * (Kb + k) / (T * (Kb + k) + (1 - T) * (Ka + k)) - k, (Ga + z) * (Gb + z) / (T * (Gb + z) + (1 - T) * (Ga + z)) - z


def cc(K0, G0, Kc, Gc, phi, phic, Cn, scheme):
    v0, vc = poi(K0, G0), poi(Kc, Gc)
    d = phic - phi
    a = 2 * np.sqrt(np.sqrt(d / (3 * Cn * (1 - phic)))) if scheme == 1 else np.sqrt(2 * d / (3 * (1 - phic)))
    ln, lt = 2 * Gc * (1 - v0) * (1 - vc) / (np.pi * G0 * (1 - 2 * vc)), Gc / (np.pi * G0)
    sn = -.024153 * ln ** -1.3646 * a * a + .20405 * ln ** -.89008 * a + .00024649 * ln ** -1.9864
    st = (-.01 * (2.26 * v0 ** 2 + 2.07 * v0 + 2.3) * lt ** (.079 * v0 ** 2 + .1754 * v0 - 1.342) * a * a
          + (.0573 * v0 ** 2 + .0937 * v0 + .202) * lt ** (.0274 * v0 ** 2 + .0529 * v0 - .8765) * a
          + 1e-4 * (9.654 * v0 ** 2 + 4.945 * v0 + 3.1) * lt ** (.01867 * v0 ** 2 + .4011 * v0 - 1.8186))
    K = Cn * (1 - phic) * (Kc + 4 * Gc / 3) * sn / 6
    return K, .6 * K + .15 * Cn * (1 - phic) * Gc * st


U = R(0, 1, (0, 1, .5))
KC_ = R(10, 100, (36.6,), eq=("K0",))
GC_ = R(5, 60, (45, 9), eq=("G0",))


def b_phi(order, ref="phic"):
    def f(b):
        b = dict(b)
        b["phi"] = b.pop("x") * b[ref]
        return {k: b[k] for k in order}
    return f


Spec("C16", "GM.ThomasStieber", dict(phi_sand=R(.1, .45, (.3,)), phi_sh=R(.05, .4, (.2,)), vsh=U),
     lambda phi_sand, phi_sh, vsh: (np.where(phi_sand - vsh + phi_sh * vsh > phi_sh * vsh, phi_sand - vsh + phi_sh * vsh, phi_sh * vsh), phi_sand * (1 - vsh) + phi_sh * vsh),
     vec=("phi_sand", "phi_sh", "vsh"), floor=1e-13, no=("nan",))
Spec("C16", "GM.silty_shale", dict(C=U, Kq=K0_, Gq=G0_, Ksh=R(2, 30, (10,)), Gsh=R(1, 20, (5,))),
     lambda C, Kq, Gq, Ksh, Gsh: mix(C, Ksh, Gsh, Kq, Gq, Ksh, Gsh), vec=("C", "Kq", "Gq", "Ksh", "Gsh"), ints=("Ksh",), rtol=1e-9)


Spec("C16", "GM.shaly_sand", dict(phic=R(.2, .5, (.4,)), x=U, Kss=R(2, 40, (10,)), Gss=R(1, 30, (8,)), Kcc=R(2, 40, (12,), eq=("Kss",)), Gcc=R(1, 30, (9,), eq=("Gss",))),
     lambda phis, C, Kss, Gss, Kcc, Gcc: mix(C / phis, Kcc, Gcc, Kss, Gss, Kss, Gss),
     build=lambda b: dict(phis=b["phic"], C=b["x"] * b["phic"], Kss=b["Kss"], Gss=b["Gss"], Kcc=b["Kcc"], Gcc=b["Gcc"]),
     vec=("phis", "C", "Kss", "Gss", "Kcc", "Gcc"), rtol=1e-9)
Spec("C16", "GM.contactcement", dict(K0=K0_, G0=G0_, Kc=KC_, Gc=GC_, x=U, phic=PC, Cn=CN, scheme=Cat(1, 2)), cc,
     build=b_phi(("K0", "G0", "Kc", "Gc", "phi", "phic", "Cn", "scheme")), vec=("K0", "G0", "Kc", "Gc", "phi", "phic", "Cn"), rtol=1e-9, csens=1e-2, n_b=60)

SSB = dict(K0=K0_, G0=G0_, x=U, phic=PC, Cn=CN, sigma=SG, f=F_)
SSO = ("K0", "G0", "phi", "phic", "Cn", "sigma", "f")


def _soft(K0, G0, phi, phic, Cn, sigma, f):
    K, G = hm(K0, G0, phic, Cn, sigma, f)
    return mix(phi / phic, K, G, K0, G0, K, G)


def _stiff(K0, G0, phi, phic, Cn, sigma, f):
    K, G = hm(K0, G0, phic, Cn, sigma, f)
    return mix(phi / phic, K, G, K0, G0, K0, G0)


Spec("C16", "GM.softsand", SSB, _soft, build=b_phi(SSO), vec=SSO, ints=("sigma", "Cn"), rtol=1e-9, n_b=60)
Spec("C16", "GM.stiffsand", SSB, _stiff, build=b_phi(SSO), vec=SSO, ints=("sigma", "Cn"), rtol=1e-9, n_b=60)

CCB = dict(K0=K0_, G0=G0_, Kc=KC_, Gc=GC_, x=U, phic=PC, y=R(.01, .99), Cn=CN, scheme=Cat(1, 2))


def b_cem(order):
    def f(b):
        b = dict(b)
        b["phi_b"] = b.pop("y") * b["phic"]
        b["phi"] = b.pop("x") * b["phic"]
        return {k: b[k] for k in order}
    return f


def _cst(phi_b, K0, G0, Kc, Gc, phi, phic, Cn, scheme):
    K, G = cc(K0, G0, Kc, Gc, phi_b, phic, Cn, scheme)
    return mix(phi / phi_b, K, G, K0, G0, K, G)


def _muhs(K0, G0, Kc, Gc, phi, phi_b, phic, Cn, scheme):
    K, G = cc(K0, G0, Kc, Gc, phi_b, phic, Cn, scheme)
    return mix(phi / phi_b, K, G, K0, G0, K0, G0)


def _no_pole(ref):
    def ok(**k):
        r = ref(**k)
        return (np.abs(r[0]) < 200) & (np.abs(r[1]) < 200)
    return ok


Spec("C16", "GM.constantcement", CCB, _cst, build=b_cem(("phi_b", "K0", "G0", "Kc", "Gc", "phi", "phic", "Cn", "scheme")),
     vec=("phi_b", "K0", "G0", "Kc", "Gc", "phi", "phic", "Cn"), rtol=1e-8, csens=1e-2, n_b=60, valid=_no_pole(_cst))
Spec("C16", "GM.MUHS", CCB, _muhs, build=b_cem(("K0", "G0", "Kc", "Gc", "phi", "phi_b", "phic", "Cn", "scheme")),
     vec=("phi_b", "K0", "G0", "Kc", "Gc", "phi", "phic", "Cn"), rtol=1e-8, csens=1e-2, n_b=60, valid=_no_pole(_muhs))


@Rel("C16", "C16.end_members", dict(CCB, sigma=SG, f=F_, Ksh=R(2, 30), Gsh=R(1, 20), vsh=U, phi_sh=R(.05, .4)))
def _(K0, G0, Kc, Gc, x, phic, y, Cn, scheme, sigma, f, Ksh, Gsh, vsh, phi_sh):
    M = (K0, G0)
    pack = call("GM.hertzmindlin", K0, G0, phic, Cn, sigma, f)
    for n in ("GM.softsand", "GM.stiffsand"):
        require_agree(call(n, K0, G0, 0.0, phic, Cn, sigma, f), M, n + " without porosity is not the mineral", rtol=1e-9)
        require_agree(call(n, K0, G0, phic, phic, Cn, sigma, f), pack, n + " at critical porosity is not the pack", rtol=1e-9)
    phi = x * phic
    so, st = call("GM.softsand", K0, G0, phi, phic, Cn, sigma, f), call("GM.stiffsand", K0, G0, phi, phic, Cn, sigma, f)
    if pack[0] < K0 and pack[1] < G0:
        require(so[0] <= st[0] * (1 + 1e-9) and so[1] <= st[1] * (1 + 1e-9), "soft sand stiffer than stiff sand")
        require_agree(so, call("EM.HS", 1 - x, K0, pack[0], G0, pack[1], "lower"), "soft sand is not the lower HS bound", rtol=1e-8)
        require_agree(st, call("EM.HS", 1 - x, K0, pack[0], G0, pack[1], "upper"), "stiff sand is not the upper HS bound", rtol=1e-8)
    pb = y * phic
    b = call("GM.contactcement", K0, G0, Kc, Gc, pb, phic, Cn, scheme)
    for z, want in ((0.0, M), (pb, b)):
        require_agree(call("GM.constantcement", pb, K0, G0, Kc, Gc, z, phic, Cn, scheme), want, "constant cement end member at phi=%r" % z, rtol=1e-8)
        require_agree(call("GM.MUHS", K0, G0, Kc, Gc, z, pb, phic, Cn, scheme), want, "increasing cement end member at phi=%r" % z, rtol=1e-8)
    require_agree(call("GM.silty_shale", 1, K0, G0, Ksh, Gsh), (Ksh, Gsh), "pure shale", rtol=1e-9)
    require_agree(call("GM.silty_shale", 0, K0, G0, Ksh, Gsh), M, "pure silt", rtol=1e-9)
    require_agree(call("GM.shaly_sand", phic, 0, K0, G0, Ksh, Gsh), M, "clean sand", rtol=1e-9)
    require_agree(call("GM.shaly_sand", phic, phic, K0, G0, Ksh, Gsh), (Ksh, Gsh), "critical clay content", rtol=1e-9)
    abc, ac = call("GM.ThomasStieber", phic, phi_sh, vsh)
    require(abc <= ac + 1e-12 and abc >= 0, "dispersed-shale porosity above the laminar line")
    require_agree(call("GM.ThomasStieber", phic, phi_sh, 0.0), (phic, phic), "clean sand porosity", rtol=1e-10)
    require_agree(call("GM.ThomasStieber", phic, phi_sh, 1.0), (phi_sh if phic < 1 else 0, phi_sh), "shale porosity", rtol=1e-10)


# ----------------------------------------------------------------- C17
PCB = dict(f=U, sigma=SG, K0=K0_, G0=G0_, x=U, phic=PC, v_cem=R(.002, .15, (.1, .02, .04, .05)), v_ci=R(.005, .15, (.111, .04, .1), eq=("v_cem",)), Kc=KC_, Gc=GC_, Cn=CN,
           mode=Cat("stiff", "soft"), scheme=Cat(1, 2), f_=R(0, 1, (0, .5, 1)))
PCO = ("f", "sigma", "K0", "G0", "phi", "phic", "v_cem", "v_ci", "Kc", "Gc", "Cn", "mode", "scheme", "f_")


def ends(sigma, K0, G0, phic, v_cem, v_ci, Kc, Gc, Cn, scheme, f_):
    u = hm(K0, G0, phic, Cn, sigma, f_)
    if v_cem <= v_ci:
        c = cc(K0, G0, Kc, Gc, phic - v_cem, phic, Cn, scheme)
    else:
        c = _muhs(K0, G0, Kc, Gc, phic - v_cem, phic - v_ci, phic, Cn, scheme)
    return u, c


def patchy(f, u, c, stiff):
    r = c if stiff else u
    return mix(f, c[0], c[1], u[0], u[1], r[0], r[1])


def _vp(al, f, sigma, K0, G0, phi, phic, v_cem, v_ci, Kc, Gc, Cn, scheme, f_):
    u, c = ends(sigma, K0, G0, phic, v_cem, v_ci, Kc, Gc, Cn, scheme, f_)
    a, b = patchy(f, u, c, True), patchy(f, u, c, False)
    K, G = a[0] + al * (b[0] - a[0]), a[1] + al * (b[1] - a[1])
    return mix(phi / phic, K, G, K0, G0, K, G)


def _pcm(f, sigma, K0, G0, phi, phic, v_cem, v_ci, Kc, Gc, Cn, mode, scheme, f_):
    return _vp(0.0 if mode == "stiff" else 1.0, f, sigma, K0, G0, phi, phic, v_cem, v_ci, Kc, Gc, Cn, scheme, f_)


def _p_ok(**k):
    u, c = ends(*[k[n] for n in ("sigma", "K0", "G0", "phic", "v_cem", "v_ci", "Kc", "Gc", "Cn", "scheme", "f_")])
    return (np.abs(u[0] - c[0]) > 1e-4 * K0_.lo) & (np.abs(u[1] - c[1]) > 1e-4 * K0_.lo) & (c[0] > .1) & (c[1] > .1) & (c[0] < 200)


PV = ("f", "sigma", "phi", "K0", "G0", "Kc", "Gc", "Cn", "phic", "f_")
Spec("C17", "GM.pcm", PCB, _pcm, build=b_phi(PCO), vec=PV, ints=("sigma", "Cn"), rtol=1e-8, csens=1e-2, valid=_p_ok, n_a=250, n_b=100, no=("nan",))
Spec("C17", "GM.pcm", PCB, _pcm, build=b_phi(PCO), vec=("sigma", "phi"), ints=("sigma",), rtol=1e-8, csens=1e-2, valid=_p_ok, n_a=20, n_b=40, n_pts=100, name="pcm_curves", no=("nan",))
VPB = {"alpha": U}
VPB.update({k: v for k, v in PCB.items() if k != "mode"})
VPO = ("alpha",) + tuple(k for k in PCO if k != "mode")


def _vpcm(alpha, **k):
    return _vp(alpha, **k)


def _vp_ok(alpha, **k):
    return _p_ok(**k)


Spec("C17", "GM.vpcm", VPB, _vpcm, build=b_phi(VPO), vec=("alpha",) + PV, ints=("sigma", "Cn"), rtol=1e-8, csens=1e-2, valid=_vp_ok, n_a=250, n_b=100, no=("nan",))
Spec("C17", "GM.vpcm", VPB, _vpcm, build=b_phi(VPO), vec=("alpha", "sigma", "phi"), ints=("sigma",), rtol=1e-8, csens=1e-2, valid=_vp_ok, n_a=20, n_b=40, n_pts=100, name="vpcm_curves", no=("nan",))


def _dil(k, sigma0, sigma, m):
    x = 1 - np.asarray(sigma, float) / sigma0
    return np.where(x < 0, 0.0, k * np.abs(x) ** m)


Spec("C17", "GM.diluting", dict(k=R(.1, 3, (1,)), sigma0=R(5, 80, (20,)), y=R(0, 1.5, (0, 1, .5)), m=Cat(.5, 1.5, .3, 2.5, 3.7)), _dil,
     build=lambda b: dict(k=b["k"], sigma0=b["sigma0"], sigma=b["sigma0"] * b["y"], m=b["m"]), vec=("sigma",), nonscalar=True, rtol=1e-9, floor=1e-12, csens=1e-2,
     no=("zero_d", "npscalar", "scalar", "pyint", "nan"), n_b=50)
Spec("C17", "GM.diluting", dict(k=R(.1, 3, (1,)), sigma0=R(5, 80, (20,)), y=R(0, 1, (0, 1, .5)), m=Cat(1, 2, 3, 5, 1.0)), _dil,
     build=lambda b: dict(k=b["k"], sigma0=b["sigma0"], sigma=b["sigma0"] * b["y"], m=b["m"]), vec=("sigma",), nonscalar=True, rtol=1e-9, floor=1e-12, csens=1e-2,
     no=("zero_d", "npscalar", "scalar", "pyint", "nan"), n_b=50, name="diluting_int", valid=lambda k, sigma0, sigma, m: sigma <= sigma0)


@Rel("C17", "C17.patchy_laws", {k: v for k, v in PCB.items() if k != "mode"}, n_a=150)
def _(f, sigma, K0, G0, x, phic, v_cem, v_ci, Kc, Gc, Cn, scheme, f_):
    kw = dict(sigma=sigma, K0=K0, G0=G0, phic=phic, v_cem=v_cem, v_ci=v_ci, Kc=Kc, Gc=Gc, Cn=Cn, scheme=scheme, f_=f_)
    if not _p_ok(**kw):
        raise Skip()
    phi = x * phic
    tail = (sigma, K0, G0, phi, phic, v_cem, v_ci, Kc, Gc, Cn)
    pcm = lambda f, mode: call("GM.pcm", f, *tail, mode, scheme, f_)
    vp = lambda a: call("GM.vpcm", a, f, *tail, scheme, f_)
    st, so = pcm(f, "stiff"), pcm(f, "soft")
    require_agree(vp(0.0), st, "undiluted cement is not the stiff patchy model", rtol=1e-9)
    require_agree(vp(1.0), so, "fully diluted cement is not the soft patchy model", rtol=1e-9)
    soft = call("GM.softsand", K0, G0, phi, phic, Cn, sigma, f_)
    for mode in ("stiff", "soft"):
        require_agree(pcm(0.0, mode), soft, "no cemented patches (%s): not the soft sand model" % mode, rtol=1e-7)
    one = pcm(1.0, "stiff")
    require_agree(one, pcm(1.0, "soft"), "fully cemented rock depends on the mixing mode", rtol=1e-7)
    if v_cem <= v_ci:
        cem = call("GM.contactcement", K0, G0, Kc, Gc, phic - v_cem, phic, Cn, scheme)
    else:
        cem = call("GM.MUHS", K0, G0, Kc, Gc, phic - v_cem, phic - v_ci, phic, Cn, scheme)
    at = call("GM.pcm", 1.0, sigma, K0, G0, phic, phic, v_cem, v_ci, Kc, Gc, Cn, "stiff", scheme, f_)
    require_agree(at, cem, "fully cemented rock at critical porosity is not the cement model", rtol=1e-7)
    pack = call("GM.hertzmindlin", K0, G0, phic, Cn, sigma, f_)
    if cem[0] > pack[0] and cem[1] > pack[1] and cem[0] < K0 and cem[1] < G0:
        require(so[0] <= st[0] * (1 + 1e-9) and so[1] <= st[1] * (1 + 1e-9), "soft mixing stiffer than stiff mixing")
        require(soft[0] <= so[0] * (1 + 1e-9) and st[0] <= one[0] * (1 + 1e-9), "patchy rock outside its end members")
    v_at = call("GM.pcm", f, sigma, K0, G0, 0.0, phic, v_cem, v_ci, Kc, Gc, Cn, "stiff", scheme, f_)
    require_agree(v_at, (K0, G0), "rock without porosity is not the mineral", rtol=1e-8)
