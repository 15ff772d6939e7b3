"""C26: formulas that are not calibrated in fixed units give the same physics in every consistent set of units.

Moduli scale by m, densities by d, lengths by l; velocities then scale by sqrt(m/d), times by l/v,
viscosities by m*time, permeabilities by l^2.  Scaling the inputs must scale the outputs, nothing else."""
import numpy as np

from . import engine, tensor as T
from .engine import Cat, I, MISSING, R, Rel, Skip, Spec, Vec, Violation, agree, call, flat, require, require_agree
from .s_avo import HB as AVOHB, hti as avo_hti
from .s_fluid import BKB, aniso_S, SQ, sq_build
from .s_aniso import C21, KIND, sym6

UM = Cat(1.0, 1e9, 1e9, 1e6, 1e3, 1e-3, 1e-6, 1e-9, 145.0377)
UD = Cat(1.0, 1.0, 1e3, 1e-3, 62.428)
UL = Cat(1.0, 1.0, 1e-3, 1e2, 1e-6, 3.2808)


def factor(dim, m, d, l):
    v = (m / d) ** .5
    t = l / v
    return {"0": 1.0, "m": m, "d": d, "l": l, "v": v, "t": t, "f": 1 / t, "eta": m * t, "k": l * l, "c": 1 / m, "i": d * v, "1/l": 1 / l}[dim]


# function -> (dimension of each dimensional argument, dimension of each output)
M2 = ("m", "m")
C9 = dict.fromkeys(("C11", "C22", "C33", "C12", "C13", "C23", "C44", "C55", "C66"), "m")
CR = dict(K="m", G="m", Ki="m", Gi="m")
KG0 = dict(K0="m", G0="m")
CEM = dict(KG0, Kc="m", Gc="m")
SCR = dict(Dqz="d", Kqz="m", Gqz="m", Dsh="d", Ksh="m", Gsh="m", Dc="d", Kc="m", Gc="m", Db="d", Kb="m")
BIO = dict(Kdry="m", Gdry="m", K0="m", Kfl="m", rho0="d", rhofl="d")
L2 = dict(vp1="v", vs1="v", vp2="v", vs2="v")
DIMS = {
    "utils.V": (dict(K="m", G="m", rho="d"), ("v", "v")),
    "utils.poi": (dict(K="m", G="m"), ("0",)),
    "utils.lame": (dict(K="m", G="m"), ("m",)),
    "utils.M_from_V": (dict(den="d", vp="v", vs="v"), M2),
    "utils.write_HTI_matrix": (C9, ("m",)),
    "utils.write_VTI_matrix": (C9, ("m",)),
    "utils.write_matrix": (C9, ("m",)),
    "utils.write_VTI_compliance": (dict.fromkeys(("S11", "S12", "S13", "S33", "S44"), "c"), ("c",)),
    "utils.write_iso": (dict(K="m", G="m"), ("m",)),
    "utils.v_to_c_VTI": (dict(Vp0="v", Vp45="v", Vp90="v", Vs0="v", Vsh90="v", den="d"), ("m",)),
    "Anisotropy.Thomsen": (dict(C9, den="d"), ("v", "v", "v", "0", "0", "0")),
    "Anisotropy.Thomsen_Tsvankin": (C9, ("0",) * 7),
    "EM.cripor": (KG0, M2),
    "EM.cripor_reuss": (dict(M0="m", Mf="m"), ("m",)),
    "EM.HS": (dict(K1="m", K2="m", G1="m", G2="m"), M2),
    "EM.MT_average": (dict(Kmat="m", Gmat="m", K1="m", G1="m", K2="m", G2="m"), M2),
    "EM.PQ": (dict(Km="m", Gm="m", Ki="m", Gi="m"), ("0", "0")),
    "EM.PQ_vectorize": (dict(Km="m", Gm="m", Ki="m", Gi="m"), ("0", "0")),
    "EM.Swiss_cheese": (dict(Ks="m", Gs="m"), M2),
    "EM.SC": (dict(Ks="m", Gs="m"), M2),
    "EM.Dilute_crack": (dict(Ks="m", Gs="m"), M2),
    "EM.OConnell_Budiansky": (KG0, M2),
    "EM.SC_dilute": (dict(Km="m", Gm="m", Ki="m", Gi="m"), ("0", "0")),
    "EM.SC_flex": (dict(Km="m", Gm="m", Ki="m", Gi="m"), M2),
    "hudson_default_axis": (CR, ("m",)),
    "hudson_axis": (CR, ("m",)),
    "EM.hudson_cone": (CR, ("m",)),
    "EM.hudson_rand": (CR, M2),
    "EM.Eshelby_Cheng": (dict(K="m", G="m", Kf="m"), None),
    "Fluid.Brie": (dict(Kw="m", Kgas="m"), ("m",)),
    "Fluid.Gassmann": (dict(K_dry="m", G_dry="m", K_mat="m", Kf="m"), M2),
    "Fluid.Gassmann_sub": (dict(K0="m", Ksat1="m", Kfl1="m", Kfl2="m"), ("m",)),
    "Fluid.Gassmann_approx": (dict(Msat1="m", M0="m", Mfl1="m", Mfl2="m"), ("m",)),
    "Fluid.vels": (dict(K_dry="m", G_dry="m", K0="m", D0="d", Kf="m", Df="d"), ("v", "v", "d")),
    "Fluid.Gassmann_vels": (dict(Vp1="v", Vs1="v", rho1="d", rhofl1="d", Kfl1="m", rhofl2="d", Kfl2="m", K0="m"), ("v", "v")),
    "Fluid.Biot": (dict(BIO, eta="eta", kapa="k", a="l", freq="f"), ("v", "v", "v", "0", "0", "0")),
    "Fluid.Biot_HF": (BIO, ("v",) * 3),
    "Fluid.Geertsma_Smit_HF": (BIO, ("v",) * 2),
    "Fluid.Geertsma_Smit_LF": (dict(Vp0="v", Vpinf="v", freq="f", rhofl="d", kapa="k", eta="eta"), ("v",)),
    "Fluid.Mavko_Jizba": (dict(Vp_hs="v", Vs_hs="v", Vpdry="v", Vsdry="v", K0="m", rhodry="d", rhofl="d", Kfl="m"), ("m", "m", "v", "v")),
    "Fluid.White_Dutta_Ode": (dict(Kdry="m", Gdry="m", K0="m", rho0="d", rhofl1="d", rhofl2="d", Kfl1="m", Kfl2="m", eta1="eta", eta2="eta", kapa="k",
                                   a="l", freq="f"), ("v", "1/l", "m")),
    "GM.hertzmindlin": (dict(KG0, sigma="m"), M2),
    "GM.Walton": (dict(KG0, sigma="m"), M2),
    "GM.Digby": (dict(KG0, sigma="m"), M2),
    "GM.johnson": (KG0, ("m", "m", "m")),
    "GM.silty_shale": (dict(Kq="m", Gq="m", Ksh="m", Gsh="m"), M2),
    "GM.shaly_sand": (dict(Kss="m", Gss="m", Kcc="m", Gcc="m"), M2),
    "GM.contactcement": (CEM, M2),
    "GM.softsand": (dict(KG0, sigma="m"), M2),
    "GM.stiffsand": (dict(KG0, sigma="m"), M2),
    "GM.constantcement": (CEM, M2),
    "GM.MUHS": (CEM, M2),
    "GM.pcm": (dict(CEM, sigma="m"), M2),
    "GM.vpcm": (dict(CEM, sigma="m"), M2),
    "GM.diluting": (dict(sigma0="m", sigma="m"), ("0",)),
    "AVO.zoeppritz": (dict(L2, rho1="d", rho2="d"), ("0", "0")),
    "AVO.Aki_Richards": (dict(L2, den1="d", den2="d"), ("0",) * 4),
    "AVO.AVO_abe": (dict(L2, d1="d", d2="d"), ("0",) * 5),
    "AVO.AVO_ortho": (dict(a1="v", b1="v", a2="v", b2="v", rho1="d", rho2="d"), ("0", "0")),
    "Empirical.krief": (dict(Kg="m", Gg="m"), ("m",) * 3),
    "Permeability.Kozeny_Carman": (dict(d="l"), ("k",)),
    "Permeability.Kozeny_Carman_Percolation": (dict(d="l"), ("k",)),
    "Permeability.Panda_Lake": (dict(d="l"), ("k",)),
    "Permeability.Panda_Lake_cem": (dict(d="l"), ("k",)),
    "Permeability.Revil": (dict(d="l"), ("k",)),
    "Permeability.Fredrich": (dict(d="l"), ("k",)),
    "QI.matrix_modulus": (dict(M_sh="m", M_g="m", M_c="m"), ("m",)),
    "QI.den_matrix": (dict(den_sh="d", den_g="d", den_c="d"), ("d",)),
    "QI.cst_vels": (dict(K0="m", D0="d", G0="m", Kc="m", Gc="m", Db="d", Kb="m", Dsh="d", Dqz="d", Dc="d"), ("v", "v")),
    "QI.cal_v_const": (SCR, ("v", "v")),
    "QI.screening": (dict(SCR, sigma="m"), ("0",) + ("v",) * 6),
}


def make(name, argd, outd):
    spec = engine.SPECS[name]

    @Rel("C26", "C26." + name, dict(spec.base, u_m=UM, u_d=UD, u_l=UL, lay_=Cat("scalar", "array")), n_a=40, n_b=10, n_sc=8)
    def rel(u_m, u_d, u_l, lay_, **b):
        args = spec.args_of(b)
        given = {k: v for k, v in args.items() if not (isinstance(v, str) and v == MISSING)}
        if spec.valid is not None and not np.all(spec.valid(**given)):
            raise Skip()
        try:
            want, tols = spec.expected(args)
        except ArithmeticError:
            raise Skip()
        if not all(np.isfinite(w).all() for w in want) and name not in ("QI.screening", "QI.cst_vels"):
            raise Skip()
        arr = spec.vec and (lay_ == "array" or spec.nonscalar)

        def run(a):
            if arr:
                a = {k: (np.array([v, v]) if k in spec.vec and isinstance(v, float) else v) for k, v in a.items()}
            return [np.asarray(x) for x in flat(tuple(engine.plain(g) for g in (r if isinstance(r, (tuple, list)) else (r,))))
                    ] if (r := spec.invoke(a)) is not None else []
        unit = {k: factor(argd[k], u_m, u_d, u_l) if k in argd else 1.0 for k in args}
        one = run(args)
        two = run({k: (v * unit[k] if unit[k] != 1.0 else v) for k, v in args.items()})
        if len(one) != len(two):
            raise Violation("%s returns %d outputs in one set of units and %d in another" % (spec.path, len(one), len(two)))
        od = outd if outd is not None else None
        for i, (x, y) in enumerate(zip(one, two)):
            d = od[i] if od is not None else (None if x.size == 1 else "m")
            if d is None:
                continue
            x, y = np.ravel(x), np.ravel(y) / factor(d, u_m, u_d, u_l)
            if x.shape != y.shape:
                raise Violation("%s: output %d has shape %s in one set of units and %s in another" % (spec.path, i, x.shape, y.shape))
            big = np.max(np.abs(x[np.isfinite(x)]), initial=0)
            t = 4 * np.max(np.abs(tols[i] if i < len(tols) else 0)) + 1e-8 * np.abs(x) + (1e-11 * big if x.size > 4 else 0)
            if not engine.close(x, y, t).all():
                j = int(np.flatnonzero(~engine.close(x, y, t))[0])
                raise Violation("%s: output %d is %r; with moduli x %g, densities x %g, lengths x %g it becomes %r after converting back" % (
                    spec.path, i, x[j].item(), u_m, u_d, u_l, y[j].item()))


for _n, (_a, _o) in DIMS.items():
    make(_n, _a, _o)


# ------------------------------------------------- functions without a scalar form
def same(a, b, what, rtol=1e-7, scale=None):
    require_agree(a, b, what + " (converted back)", rtol=rtol, scale=scale)


def mx(x):
    return max(float(np.max(np.abs(v), initial=0)) for v in flat(x))


@Rel("C26", "C26.layered_and_rotated", dict(v=Vec(R(.01, 10), (1, 6)), g=Vec(R(.5, 80), 6), q=Vec(R(0, 4), 6), den=Vec(R(1, 4), 6), c=C21, kind=KIND, th=R(-180, 180, (30, 45)),
                                            axis=Cat(1, 3), u_m=UM, u_d=UD, u_l=UL))
def _(v, g, q, den, c, kind, th, axis, u_m, u_d, u_l):
    n = len(v)
    v, g, den = np.array(v), np.array(g[:n]), np.array(den[:n])
    lam = g * np.array(q[:n])
    a = call("Anisotropy.Backus", v, lam, g)
    b = call("Anisotropy.Backus", v * u_l, lam * u_m, g * u_m)
    same([x / u_m for x in flat(b)], a, "Backus average in other units", scale=mx(a))
    vp, vs = np.sqrt((lam + 2 * g) / den), np.sqrt(g / den)
    dep = 100 + np.concatenate([[0.], np.cumsum(v)])
    k = factor("v", u_m, u_d, u_l)
    a = flat(call("Anisotropy.Backus_log", vp, vs, den, dep))
    b = flat(call("Anisotropy.Backus_log", vp * k, vs * k, den * u_d, dep * u_l))
    same([x / (u_d if i == 5 else u_m) for i, x in enumerate(b)], a, "Backus average of a log in other units", rtol=1e-6, scale=mx(a[:5]))
    C = sym6(c, kind)
    a = np.asarray(call("Anisotropy.Bond_trans", C, th, axis))
    b = np.asarray(call("Anisotropy.Bond_trans", C * u_m, th, axis)) / u_m
    same(b, a, "rotated stiffness in other units", rtol=1e-9, scale=mx(C))


@Rel("C26", "C26.azimuthal_velocities", dict(C33=R(5, 100), f11=R(.7, 3), f44=R(.05, .5), f66=R(.05, .5), f13=R(.05, .95), den=R(1, 5), az=Vec(R(-180, 360), (1, 4)),
                                             kind=Cat("HTI", "VTI"), u_m=UM, u_d=UD, u_l=UL))
def _(C33, f11, f44, f66, f13, den, az, kind, u_m, u_d, u_l):
    mk = T.hti if kind == "HTI" else T.vti
    C = np.asarray(mk(f11 * C33, C33, f13 * min(C33, f11 * C33) * .8, f44 * C33, f66 * C33))
    k = factor("v", u_m, u_d, u_l)
    a = call("Anisotropy.vel_azi_" + kind, C, den, np.array(az))
    b = call("Anisotropy.vel_azi_" + kind, C * u_m, den * u_d, np.array(az))
    for x in flat(a):
        if not np.isfinite(x).all() or (x < .05).any():
            raise Skip()
    same([x / k for x in flat(b)], a, "phase velocities in other units")


@Rel("C26", "C26.mixtures", dict(m=Vec(R(.5, 200, log=True), (2, 5)), fr=Vec(R(.01, 1), 5), Kv=Vec(R(10, 80), 4), Gv=Vec(R(8, 60), 4), av=Vec(R(.1, 1, (1,)), 4), n=I(2, 4),
                                 Ki=R(0, 60, (0, 2.2)), Gi=R(0, 40, (0,)), al=R(.1, 3, (1,), log=True), phi=R(0.01, .3), u_m=UM), n_a=60, n_b=8, n_sc=6)
def _(m, fr, Kv, Gv, av, n, Ki, Gi, al, phi, u_m):
    k = len(m)
    f = np.array(fr[:k]) / sum(fr[:k])
    a = call("EM.VRH", f, np.array(m))
    b = call("EM.VRH", f, np.array(m) * u_m)
    same([x / u_m for x in flat(b)], a, "Voigt-Reuss-Hill average in other units")
    X = np.array(fr[:n]) / sum(fr[:n])
    K, G = np.array(Kv[:n]), np.array(Gv[:n])
    a = call("EM.Berryman_sc", K, G, X, np.array(av[:n]))
    b = call("EM.Berryman_sc", K * u_m, G * u_m, X, np.array(av[:n]))
    same([x / u_m for x in flat(b)], a, "self-consistent moduli in other units", rtol=1e-5)
    a = flat(call("EM.Berryman_DEM", Kv[0], Gv[0], Ki, Gi, al, phi))
    b = flat(call("EM.Berryman_DEM", Kv[0] * u_m, Gv[0] * u_m, Ki * u_m, Gi * u_m, al, phi))
    # the integrator works to an absolute tolerance of about 1e-8
    if u_m > 1e-2:
        same([b[0] / u_m, b[1] / u_m, b[2]], a, "DEM moduli in other units", rtol=1e-5, scale=1.0)


@Rel("C26", "C26.cracks", dict(K=R(10, 80), G=R(8, 60), Ki=R(0, 5, (0, 2.2)), Gi=R(0, 3, (0,)), al=Vec(R(.001, .2, log=True), 3), cr=Vec(R(0, .1, (0,)), 3), Kf=R(0, 3, (0, 2.2)),
                               a0=R(.001, .1, log=True), u_m=UM))
def _(K, G, Ki, Gi, al, cr, Kf, a0, u_m):
    a = np.asarray(call("EM.hudson_ortho", K, G, Ki, Gi, al, cr))
    b = np.asarray(call("EM.hudson_ortho", K * u_m, G * u_m, Ki * u_m, Gi * u_m, al, cr)) / u_m
    same(b, a, "three crack sets in other units", rtol=1e-9, scale=mx(a))
    a = call("EM.OConnell_Budiansky_fl", K, G, Kf, cr[0], a0)
    b = call("EM.OConnell_Budiansky_fl", K * u_m, G * u_m, Kf * u_m, cr[0], a0)
    same([x / u_m for x in flat(b)], a, "fluid-filled cracks in other units", rtol=1e-6)


@Rel("C26", "C26.anisotropic_fluids", dict(BKB, Kf2=R(.01, 4, (1,)), E=R(5, 100), nu=R(.05, .35), x=Vec(R(0, 1), 5), u_m=UM))
def _(K0, G0, B, kind, Kf, phi, Kf2, E, nu, x, u_m):
    Kf = min(Kf, .95 * K0)
    S = aniso_S(K0, G0, B, kind)[1]
    a = np.asarray(call("Fluid.Brown_Korringa_dry2sat", S, K0, G0, Kf, phi))
    b = np.asarray(call("Fluid.Brown_Korringa_dry2sat", S / u_m, K0 * u_m, G0 * u_m, Kf * u_m, phi)) * u_m
    same(b, a, "saturated compliance in other units", scale=mx(a))
    c = np.asarray(call("Fluid.Brown_Korringa_sat2dry", a, K0, G0, Kf, phi))
    d = np.asarray(call("Fluid.Brown_Korringa_sat2dry", a / u_m, K0 * u_m, G0 * u_m, Kf * u_m, phi)) * u_m
    t = 1e-7 * max(1., mx(S) / mx(a)) ** 2
    same(d, c, "dry compliance in other units", rtol=t, scale=mx(c))
    C = np.linalg.inv(a)
    if np.linalg.cond(a) > 1e5:
        raise Skip()
    c = call("Fluid.Brown_Korringa_sub", C, K0, G0, Kf, Kf2, phi)
    d = call("Fluid.Brown_Korringa_sub", C * u_m, K0 * u_m, G0 * u_m, Kf * u_m, Kf2 * u_m, phi)
    same(np.asarray(d[0]) / u_m, c[0], "substituted stiffness in other units", rtol=1e-5, scale=mx(c[0]))
    same(np.asarray(d[1]) * u_m, c[1], "substituted compliance in other units", rtol=1e-5, scale=mx(c[1]))
    Sd, Sh = sq_build(E, nu, x)[:2]
    a = np.asarray(call("Fluid.Squirt_anisotropic", list(Sd), list(Sh)), float)
    b = np.asarray(call("Fluid.Squirt_anisotropic", [s / u_m for s in Sd], [s / u_m for s in Sh]), float) * u_m
    same(b, a, "squirt compliance in other units", rtol=1e-6, scale=mx(a))


@Rel("C26", "C26.reflections", dict(AVOHB, th=Vec(R(0, 55, (0, 20)), (1, 4)), az=Vec(R(-180, 360, (0, 90)), (1, 4)), vp=Vec(R(1.5, 6), (1, 5)), r=Vec(R(.3, .6), 5), d=Vec(R(1.5, 3), 5),
                                    SP=R(.5, .65), u_m=UM, u_d=UD))
def _(a1, r1, e1, d1, g1, rho1, a2, r2, e2, d2, g2, rho2, th, az, vp, r, d, SP, u_m, u_d):
    C1, C2 = np.asarray(avo_hti(a1, r1, e1, d1, g1, rho1)), np.asarray(avo_hti(a2, r2, e2, d2, g2, rho2))
    x = np.asarray(call("AVO.AVO_HTI", rho1, rho2, C1, C2, th, az))
    y = np.asarray(call("AVO.AVO_HTI", rho1 * u_d, rho2 * u_d, C1 * u_m, C2 * u_m, th, az))
    if not np.isfinite(x).all():
        raise Skip()
    same(y, x, "azimuthal reflectivity in other units", rtol=1e-7, scale=max(.1, mx(x)))
    n = len(vp)
    vp, d = np.array(vp), np.array(d[:n])
    vs = vp * np.array(r[:n])
    k = (u_m / u_d) ** .5
    ang = np.array(th)[np.array(th) < 40]
    if not len(ang):
        raise Skip()
    x = flat(call("AVO.EI_ref", vp, vs, d, ang, SP))
    y = flat(call("AVO.EI_ref", vp * k, vs * k, d * u_d, ang, SP))
    if not all(np.isfinite(z).all() for z in x):
        raise Skip()
    same([z / (k * u_d) for z in y], x, "normalised elastic impedance in other units", rtol=1e-7)
