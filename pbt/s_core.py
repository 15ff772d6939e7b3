"""C01: unit conversions, moduli/velocity algebra and stiffness-matrix builders."""
import numpy as np

from . import tensor as T
from .engine import Cat, R, Rel, Skip, Spec, Violation, agree, call, require, require_agree

K = R(0.01, 500, (1, 36, 37.0), log=True)
G = R(0.0, 300, (0, 1, 44, 45), ps=.15)
RHO = R(0.05, 20, (1.0, 2.65), log=True)

Spec("C01", "utils.V", dict(K=R(0.0, 500, (0, 1, 36)), G=R(0, 300, (0, 1, 44), eq=("K",)), rho=RHO),
     lambda K, G, rho: (1000 * np.sqrt((3 * K + 4 * G) / (3 * rho)), 1000 * np.sqrt(G / rho)),
     vec=("K", "G", "rho"), ints=("K", "G"))
Spec("C01", "utils.poi", dict(K=K, G=R(0, 300, (0, 1, 44), eq=("K",))),
     lambda K, G: 0.5 * (K - 2 * G / 3) / (K + G / 3), vec=("K", "G"), ints=("K", "G"), floor=1e-13,
     valid=lambda K, G: np.asarray(K) > 0)
Spec("C01", "utils.lame", dict(K=R(0, 500, (0,)), G=R(0, 300, (0,), eq=("K",))),
     lambda K, G: (3 * K - 2 * G) / 3, vec=("K", "G"), ints=("K", "G"), floor=1e-12)
Spec("C01", "utils.M_from_V", dict(den=RHO, vp=R(0, 12000, (0, 1500, 3000)), vs=R(0, 8000, (0, 1500), eq=("vp",))),
     lambda den, vp, vs: (den * ((vp / 1000) ** 2 - 4 * (vs / 1000) ** 2 / 3), den * (vs / 1000) ** 2),
     vec=("den", "vp", "vs"), ints=("vp", "vs"), floor=1e-12)
Spec("C01", "utils.crack_por", dict(crd=R(0, 2, (0, .1)), alpha=R(0, 10, (0, 1, .01))),
     lambda crd, alpha: alpha * crd * np.pi / 0.75, vec=("crd", "alpha"))

CIJ = R(-50, 300, (0, 1, 10.0))
Spec("C01", "utils.write_HTI_matrix", dict(C11=CIJ, C33=CIJ, C13=CIJ, C44=CIJ, C55=CIJ),
     lambda C11, C33, C13, C44, C55: T.hti(C11, C33, C13, C44, C55),
     ints=("C11", "C33", "C13", "C44", "C55"), floor=1e-12, n_b=12, n_sc=25)
Spec("C01", "utils.write_VTI_matrix", dict(C11=CIJ, C33=CIJ, C13=CIJ, C44=CIJ, C66=CIJ),
     lambda C11, C33, C13, C44, C66: T.vti(C11, C33, C13, C44, C66),
     ints=("C11", "C33", "C13", "C44", "C66"), floor=1e-12, n_b=12, n_sc=25)


def _vti_comp(S11, S12, S13, S33, S44):
    # a TI compliance is invariant under rotation about x3: s_1212 = (S11-S12)/2,
    # engineering S66 = 4 s_1212
    S = np.zeros((6, 6))
    S[0, 0] = S[1, 1] = S11
    S[0, 1] = S[1, 0] = S12
    for i in (0, 1):
        S[i, 2] = S[2, i] = S13
    S[2, 2] = S33
    S[3, 3] = S[4, 4] = S44
    S[5, 5] = 4 * (S11 - S12) / 2
    return S


SIJ = R(-0.5, 2, (0, .01, 1))
Spec("C01", "utils.write_VTI_compliance", dict(S11=SIJ, S12=SIJ, S13=SIJ, S33=SIJ, S44=SIJ), _vti_comp,
     floor=1e-13, n_b=12, n_sc=25)


def _ortho(C11, C22, C33, C12, C13, C23, C44, C55, C66):
    C = np.diag([C11, C22, C33, C44, C55, C66]).astype(float)
    for (i, j), v in {(0, 1): C12, (0, 2): C13, (1, 2): C23}.items():
        C[i, j] = C[j, i] = v
    return C


_N9 = ("C11", "C22", "C33", "C12", "C13", "C23", "C44", "C55", "C66")
Spec("C01", "utils.write_matrix", {k: CIJ for k in _N9}, _ortho, ints=_N9, n_b=12, n_sc=25)
Spec("C01", "utils.write_iso", dict(K=R(0, 500, (0, 36)), G=R(0, 300, (0, 44), eq=("K",))),
     lambda K, G: T.to6(T.iso(K, G)), ints=("K", "G"), floor=1e-12, n_b=12, n_sc=25)


def _v2c(Vp0, Vp45, Vp90, Vs0, Vsh90, den):
    """C13 from det(Gamma(45 deg) - rho v^2) = 0 of the Christoffel equation."""
    C11, C33, C44, C66 = den * Vp90 ** 2, den * Vp0 ** 2, den * Vs0 ** 2, den * Vsh90 ** 2
    m = den * Vp45 ** 2
    off2 = (0.5 * (C11 + C44) - m) * (0.5 * (C33 + C44) - m)      # (0.5 (C13+C44))^2
    return T.vti(C11, C33, 2 * np.sqrt(off2) - C44, C44, C66)


def _v2c_build(b):
    """Velocities of a generated stiff medium, by the Christoffel equation."""
    C33, r = b.pop("C33"), b.pop("rho")
    C11, C44, C66 = C33 * b.pop("f11"), C33 * b.pop("f44"), C33 * b.pop("f66")
    a = np.minimum(C11, C33)
    C13 = -C44 + b.pop("f13") * (a - C44)      # C13+C44 in (0, ..)
    t = 0.5 * (C11 + C44) + 0.5 * (C33 + C44)
    d = 0.5 * (C11 + C44) - 0.5 * (C33 + C44)
    m45 = 0.5 * (t + np.sqrt(d * d + (C13 + C44) ** 2))
    s = lambda x: np.sqrt(x / r)
    return dict(Vp0=s(C33), Vp45=s(m45), Vp90=s(C11), Vs0=s(C44), Vsh90=s(C66), den=r)


Spec("C01", "utils.v_to_c_VTI",
     dict(C33=R(2, 200, log=True), rho=R(.5, 8), f11=R(0.6, 2.5, (1,)), f44=R(.02, .45), f66=R(.02, .6), f13=R(.1, 1.5, (1,))),
     _v2c, build=_v2c_build, rtol=1e-7, csens=1e-2, n_b=12, n_sc=25)


@Rel("C01", "C01.velocity_moduli_round_trip",
     dict(K=K, G=R(0, 300, (0,)), rho=RHO, n=Cat(0, 1, 3)))
def _(K, G, rho, n):
    if n:
        K, G, rho = np.full(n, K), np.linspace(G, G + 1, n), np.full(n, rho)
    vp, vs = call("utils.V", K, G, rho)
    K2, G2 = call("utils.M_from_V", rho, vp, vs)
    s = np.maximum(K, G) + 1e-9
    require_agree((K2, G2), (K, G), "M_from_V(V(K,G)) != (K,G)", rtol=1e-9, scale=s)
    vp2, vs2 = call("utils.V", K2, np.maximum(G2, 0), rho)
    require_agree((vp2, vs2), (vp, vs), "V(M_from_V) != velocities", rtol=1e-7)


@Rel("C01", "C01.poisson_lame_consistency", dict(K=K, G=R(0.001, 300)))
def _(K, G):
    nu, lam = call("utils.poi", K, G), call("utils.lame", K, G)
    require(-1 - 1e-12 <= nu <= 0.5 + 1e-12, "Poisson's ratio %r outside [-1, 1/2]" % nu)
    require_agree(nu, lam / (2 * (lam + G)), "nu != lambda/(2(lambda+G))", rtol=1e-9, atol=1e-12)
    vp, vs = call("utils.V", K, G, 2.0)
    r2 = (vp / vs) ** 2
    require_agree(nu, (r2 - 2) / (2 * (r2 - 1)), "nu does not match Vp/Vs", rtol=1e-8, atol=1e-10 * r2)


@Rel("C01", "C01.isotropic_builders_agree", dict(K=K, G=R(0.01, 300)))
def _(K, G):
    lam = K - 2 * G / 3
    P = lam + 2 * G
    C = call("utils.write_iso", K, G)
    require_agree(C, call("utils.write_VTI_matrix", P, P, lam, G, G), "iso != VTI(iso)", scale=P)
    require_agree(C, call("utils.write_HTI_matrix", P, P, lam, G, G), "iso != HTI(iso)", scale=P)
    require_agree(C, call("utils.write_matrix", P, P, P, lam, lam, lam, G, G, G), "iso != ortho(iso)", scale=P)
    require_agree(C[:3, :3].sum() / 9, K, "bulk modulus not recovered", rtol=1e-9, scale=P)
    E = 9 * K * G / (3 * K + G)
    nu = (3 * K - 2 * G) / (6 * K + 2 * G)
    S = call("utils.write_VTI_compliance", 1 / E, -nu / E, -nu / E, 1 / E, 1 / G)
    require_agree(np.asarray(S) @ np.asarray(C), np.eye(6), "compliance x stiffness != 1", rtol=1e-7, scale=1.0 + P / min(K, G))


@Rel("C01", "C01.TI_builders_symmetry",
     dict(C11=R(1, 200), C33=R(1, 200), C13=R(-20, 100), C44=R(.1, 80), C66=R(.1, 80), ang=R(-180, 180)))
def _(C11, C33, C13, C44, C66, ang):
    c, s = np.cos(np.deg2rad(ang)), np.sin(np.deg2rad(ang))
    V = call("utils.write_VTI_matrix", C11, C33, C13, C44, C66)
    R3 = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.0]])
    require_agree(T.rotate(V, R3), V, "VTI matrix not invariant about x3", rtol=1e-10, scale=300)
    H = call("utils.write_HTI_matrix", C11, C33, C13, C44, C66)
    R1 = np.array([[1.0, 0, 0], [0, c, s], [0, -s, c]])
    require_agree(T.rotate(H, R1), H, "HTI matrix not invariant about x1", rtol=1e-10, scale=300)


@Rel("C01", "C01.velocities_to_VTI_inverts",
     dict(C33=R(2, 200, log=True), rho=R(.5, 8), f11=R(0.6, 2.5, (1,)), f44=R(.02, .45), f66=R(.02, .6), f13=R(.1, 1.5, (1,))))
def _(**b):
    C33, r = b["C33"], b["rho"]
    C11, C44, C66 = C33 * b["f11"], C33 * b["f44"], C33 * b["f66"]
    C13 = -C44 + b["f13"] * (min(C11, C33) - C44)
    C = T.vti(C11, C33, C13, C44, C66)
    vp = [np.sqrt(T.christoffel(C, np.array([np.sin(t), 0, np.cos(t)]))[0].max() / r) for t in (0, np.pi / 4, np.pi / 2)]
    # at 0/90 degrees the P mode is the one polarised along the direction
    vp[0], vp[2] = np.sqrt(C33 / r), np.sqrt(C11 / r)
    got = call("utils.v_to_c_VTI", vp[0], vp[1], vp[2], np.sqrt(C44 / r), np.sqrt(C66 / r), r)
    require_agree(got, C, "velocity inversion does not return the medium", rtol=1e-6, scale=C33)
