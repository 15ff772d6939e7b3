"""C27: models of the library that share a limit agree in it (model against model, no outside reference)."""
import numpy as np

from . import tensor as T
from .engine import Cat, I, R, Rel, Skip, Vec, call, require, require_agree
from .s_crack import flex_converges
from .s_em import _al_ok
from .s_fluid import HB, V8, WB, b_hf, b_white
from .s_gm import CCB, PCB, SG, F_

P = "C27"


def iso6(K, G):
    return np.asarray(call("utils.write_iso", K, G), float)


# ----------------------------------------------------------------- isotropic input
@Rel(P, "C27.isotropic_velocities", dict(K=R(.5, 200, (36,), log=True), G=R(.01, 150, (45,)), rho=R(.3, 10, (1, 2.65)), ang=Vec(R(-180, 360, (0, 45, 90)), (1, 6)), n=I(1, 6), w=Vec(R(.01, 5), 6)), n_a=120)
def _(K, G, rho, ang, n, w):
    vp, vs = call("utils.V", K, G, rho)
    one = np.ones(len(ang))
    C = iso6(K, G)
    for f in ("vel_azi_HTI", "vel_azi_VTI"):
        v = call("Anisotropy." + f, C, rho, np.array(ang))
        require_agree([np.asarray(x) * 1000 for x in v], [vp * one, vs * one, vs * one], f + " of an isotropic solid", rtol=1e-7)
    lam, M = call("utils.lame", K, G), K + 4 * G / 3
    st = call("Anisotropy.Backus", w[:n], [lam] * n, [G] * n)
    require_agree(st, (M, M, lam, G, G), "stack of identical layers", rtol=1e-9, scale=M)
    lg = call("Anisotropy.Backus_log", [vp / 1000] * n, [vs / 1000] * n, [rho] * n, np.concatenate([[0], np.cumsum(w[:n])]))
    require_agree(lg, (M, M, lam, G, G, rho), "log of identical layers", rtol=1e-8, scale=M)
    th = [call("Anisotropy.Thomsen", *st, rho, a) for a in ang]
    for t in th:
        require_agree(t[:3], (vp, vs, vs), "weak-anisotropy velocities of an isotropic solid", rtol=1e-7)
        require(max(abs(float(x)) for x in t[3:]) < 1e-7 * (1 + M / G), "anisotropy parameters of an isotropic solid are not zero")
    ts = call("Anisotropy.Thomsen_Tsvankin", M, M, M, lam, lam, lam, G, G, G)
    require(max(abs(float(x)) for x in ts) < 1e-7 * (1 + M / G), "orthorhombic parameters of an isotropic solid are not zero")
    v2c = call("utils.v_to_c_VTI", vp / 1e3, vp / 1e3, vp / 1e3, vs / 1e3, vs / 1e3, rho)
    require_agree(v2c, C, "stiffness from isotropic velocities", rtol=1e-6, scale=M)


@Rel(P, "C27.anisotropic_models_without_cause", dict(K=R(5, 200, (37,)), G=R(4, 120, (45,)), Ki=R(0, 4, (0, 2.2)), Gi=R(0, 3, (0,)), al=R(.001, .9, (.1,), log=True), th=R(0, 90, (0, 30)), order=Cat(1, 2), axis=Cat(1, 3)), n_a=120)
def _(K, G, Ki, Gi, al, th, order, axis):
    C = iso6(K, G)
    require_agree(call("EM.hudson", K, G, Ki, Gi, al, 0.0, order, axis), C, "no aligned cracks", rtol=1e-9, scale=K)
    require_agree(call("EM.hudson_ortho", K, G, Ki, Gi, [al] * 3, [0.0] * 3), C, "no crack sets", rtol=1e-9, scale=K)
    require_agree(call("EM.hudson_cone", K, G, Ki, Gi, al, 0.0, th), C, "no cone of cracks", rtol=1e-9, scale=K)
    require_agree(iso6(*call("EM.hudson_rand", K, G, Ki, Gi, al, 0.0)), C, "no random cracks", rtol=1e-9, scale=K)
    require_agree(call("EM.Eshelby_Cheng", K, G, 0.0, al, Ki, True), C, "no ellipsoidal cracks", rtol=1e-9, scale=K)


@Rel(P, "C27.isotropic_fluid_substitution", dict(K0=R(10, 150, (37,)), G0=R(8, 100, (44,)), fk=R(.05, .95, (.5,)), fg=R(.05, .95), Kf=R(.001, 4.5, (2.2,), log=True), Kf2=R(.001, 4.5, (.1,), log=True), x=R(.02, .98)), n_a=150)
def _(K0, G0, fk, fg, Kf, Kf2, x):
    phi = x * (1 - fk) + .005
    Kd, Gd = fk * K0, fg * G0
    inv = np.linalg.inv
    k1, g1 = call("Fluid.Gassmann", Kd, Gd, K0, Kf, phi)
    k2, g2 = call("Fluid.Gassmann", Kd, Gd, K0, Kf2, phi)
    rt = 1e-7 * (1 + K0 / (phi * min(Kf, Kf2)))
    S1 = call("Fluid.Brown_Korringa_dry2sat", inv(iso6(Kd, Gd)), K0, G0, Kf, phi)
    require_agree(inv(S1), iso6(k1, g1), "Brown-Korringa of an isotropic dry rock", rtol=1e-7, scale=K0)
    require_agree(inv(call("Fluid.Brown_Korringa_sat2dry", inv(iso6(k1, g1)), K0, G0, Kf, phi)), iso6(Kd, Gd), "Brown-Korringa drying of an isotropic rock", rtol=rt, scale=K0)
    require_agree(call("Fluid.Brown_Korringa_sub", iso6(k1, g1), K0, G0, Kf, Kf2, phi)[0], iso6(k2, g2), "Brown-Korringa substitution in an isotropic rock", rtol=rt, scale=K0)
    require_agree(call("Fluid.Gassmann_sub", phi, K0, k1, Kf, Kf2), k2, "Gassmann substitution and saturation", rtol=rt)
    # a fluid-like frame: P-modulus and bulk-modulus substitution coincide
    require_agree(call("Fluid.Gassmann_approx", k1, K0, Kf, phi, Kf2), k2, "P-modulus substitution without rigidity", rtol=rt)
    v = call("Fluid.vels", Kd, Gd, K0, 2.6, Kf, 1.0, phi)
    require_agree(v[:2], call("utils.V", k1, g1, v[2]), "saturated velocities", rtol=1e-9)
    kk, gg = call("utils.M_from_V", v[2], v[0], v[1])
    require_agree((kk, gg), (k1, g1), "moduli of the saturated velocities", rtol=1e-8, scale=K0)


# ----------------------------------------------------------------- small concentrations
def slopes(name, got, base, e, want, tol, scale):
    for g, b, w, s, m in zip(got, base, want, scale, ("bulk", "shear")):
        d = (float(np.squeeze(g)) - b) / e
        if abs(d - w) > tol * s:
            require(False, "%s: initial slope of the %s modulus %r, the other theories give %r" % (name, m, d, w))


@Rel(P, "C27.dilute_spheres", dict(K=R(5, 150, (37,)), r=R(.6, 4), ki=R(0, 1.5, (0, 0, .05)), gi=R(0, 1.5, (0, 0)), dry=Cat(True, False), m=Cat("stress", "strain")), n_a=120, n_b=10)
def _(K, r, ki, gi, dry, m):
    G = K / r
    Ki, Gi = (0.0, 0.0) if dry else (ki * K, gi * G)
    if not dry and (abs(Ki / K - 1) < .02 or abs(Gi / G - 1) < .02):
        raise Skip()
    p, q = [float(x) for x in call("EM.PQ", K, G, Ki, Gi, 1.0)]
    want = (Ki - K) * p, (Gi - G) * q
    b = max(p, q, 1.0)
    e = 3e-4 / b
    sc = (K * b, G * b)
    t = 6e-3
    cases = [("SC_dilute", call("EM.SC_dilute", K, G, Ki, Gi, e, m)),
             ("Mori-Tanaka", call("EM.MT_average", 1 - e, K, G, K, G, Ki, Gi)),
             ("vectorised inclusion factors", None)]
    cases[0] = ("SC_dilute", tuple(float(x) * y for x, y in zip(cases[0][1], (K, G))))
    pv, qv = call("EM.PQ_vectorize", K, G, np.array([Ki, K]), np.array([Gi, G]), np.array([1.0, 1.0]))
    require_agree((pv[0], qv[0], pv[1], qv[1]), (p, q, 1.0, 1.0), "list form of the inclusion factors", rtol=1e-8)
    cases.pop()
    if K > Ki and G > Gi:
        cases.append(("Hashin-Shtrikman with the solid as matrix", call("EM.HS", 1 - e, K, Ki, G, Gi, "upper")))
    elif K < Ki and G < Gi:
        cases.append(("Hashin-Shtrikman with the solid as matrix", call("EM.HS", e, Ki, K, Gi, G, "lower")))
    if flex_converges(e, K, Ki, G, Gi):
        cases.append(("self-consistent iteration", call("EM.SC_flex", e, 60, K, Ki, G, Gi)))
    cases.append(("coherent potential", call("EM.Berryman_sc", [K, Ki], [G, Gi], [1 - e, e], np.array([1.0, 1.0]))))
    if dry:
        cases.append(("Swiss cheese", call("EM.Swiss_cheese", K, G, e)))
        cases.append(("self-consistent pores", call("EM.SC", e, K, G, 60)))
    for n, got in cases:
        slopes(n, got, (K, G), e, want, t, sc)
    k, g, ts = call("EM.Berryman_DEM", K, G, Ki, Gi, 1.0, .012)
    e = float(ts[1])
    slopes("differential scheme", (k[1], g[1]), (K, G), e, want, 6 * e * b, sc)


@Rel(P, "C27.dilute_spheroids", dict(K=R(5, 150, (37,)), r=R(.6, 4), ki=R(0, 1.5, (0, 0, .05)), gi=R(0, 1.5, (0, 0)), al=R(.02, 10, (.1, .5, 2), log=True), dry=Cat(True, False)), n_a=80, n_b=8)
def _(K, r, ki, gi, al, dry):
    if not _al_ok(al):
        raise Skip()
    G = K / r
    Ki, Gi = (0.0, 0.0) if dry else (ki * K, gi * G)
    p, q = [float(x) for x in call("EM.PQ", K, G, Ki, Gi, al)]
    want = (Ki - K) * p, (Gi - G) * q
    b = max(p, q, 1.0)
    if al <= 1:                   # prolate: recorded defects F2, F3
        pv, qv = call("EM.PQ_vectorize", K, G, np.array([Ki, K]), np.array([Gi, G]), np.array([al, al]))
        require_agree((pv[0], qv[0], pv[1], qv[1]), (p, q, 1.0, 1.0), "list form of the inclusion factors", rtol=1e-6)
    if .1 <= al <= 1:
        e = 3e-4 / b
        got = call("EM.Berryman_sc", [K, Ki], [G, Gi], [1 - e, e], np.array([1.0, al]))
        slopes("coherent potential", got, (K, G), e, want, 6e-3, (K * b, G * b))
    k, g, ts = call("EM.Berryman_DEM", K, G, Ki, Gi, al, .012)
    e = float(ts[1])
    if e * b < .1:
        slopes("differential scheme", (k[1], g[1]), (K, G), e, want, 6 * e * b, (K * b, G * b))


def iso_part(C):
    """Bulk and shear modulus of the isotropic tensor closest to C."""
    c = T.to4(np.asarray(C, float))
    a, b = np.einsum("iijj", c), np.einsum("ijij", c)
    return a / 9, (b - a / 3) / 10


@Rel(P, "C27.dilute_cracks", dict(K=R(5, 150, (37,)), r=R(.6, 4), w=R(0, 5, (0, 0, .1, 1)), e=R(1e-5, 1e-4, log=True), th=R(0, 90, (0, 45)), a2=R(1e-4, .5, (.01, .1), log=True), ax=Cat(1, 3), Gi=R(0, 2, (0,))), n_a=120, n_b=10)
def _(K, r, w, e, th, a2, ax, Gi):
    G = K / r
    al = 1e-4
    one, two = [(np.asarray(call("EM.hudson", K, G, w * a2 * K, w * a2 * Gi * G, a2, e, o, ax)) - np.asarray(call("utils.write_iso", K, G))) / e for o in (1, 2)]
    require_agree(two, one, "second-order correction of first order in crack density", rtol=1e-2 + 300 * e, scale=np.abs(one).max())
    Kf = w * al * K
    base = (K, G)
    cases = []
    H = call("EM.hudson", K, G, Kf, 0.0, al, e)
    want = [(a - b) / e for a, b in zip(iso_part(H), base)]
    sc = [max(abs(x), 1e-2 * K) for x in want]
    cases.append(("aligned along x1", iso_part(call("EM.hudson", K, G, Kf, 0.0, al, e, 1, 1))))
    cases.append(("aligned, second order", iso_part(call("EM.hudson", K, G, Kf, 0.0, al, e, 2))))
    cases.append(("three sets", iso_part(call("EM.hudson_ortho", K, G, Kf, 0.0, [al] * 3, [e / 2, e / 3, e / 6]))))
    cases.append(("fluid-filled self-consistent cracks", call("EM.OConnell_Budiansky_fl", K, G, Kf, e, al)))
    if w == 0:
        cases.append(("non-interacting cracks", call("EM.Dilute_crack", K, G, e)))
        cases.append(("self-consistent cracks", call("EM.OConnell_Budiansky", K, G, e)))
    for n, got in cases:
        slopes(n, got, base, e, want, 200 * e + 1e-3, sc)
    require_agree(call("EM.hudson_cone", K, G, Kf, 0.0, al, e, 0.0), H, "closed cone of cracks", rtol=1e-9, scale=K)
    kr = call("EM.hudson_rand", K, G, Kf, 0.0, al, e)[0]
    require(abs((kr - K) / e - want[0]) <= 1e-5 * sc[0], "random cracks: slope of the bulk modulus")
    kc = iso_part(call("EM.hudson_cone", K, G, Kf, 0.0, al, e, th))[0]
    require(abs((kc - K) / e - want[0]) <= 1e-5 * sc[0], "cone of cracks: slope of the bulk modulus")
    # needle-thin spheroids are the same cracks
    por = float(call("utils.crack_por", e, al))
    p, q = call("EM.PQ", K, G, Kf, 0.0, al)
    got = K + por * (Kf - K) * p, G - por * G * q
    slopes("thin spheroids", got, base, e, want, .01, sc)
    a = np.asarray(call("EM.Eshelby_Cheng", K, G, por, al, Kf))[[1, 2, 3, 4]]
    b = np.array([H[2, 2], H[0, 2], H[3, 3], H[5, 5]])
    c = iso6(K, G)
    c = np.array([c[2, 2], c[0, 2], c[3, 3], c[5, 5]])
    require_agree((a - c) / e, (b - c) / e, "slopes of C33, C13, C44, C66 of ellipsoidal cracks and Hudson's", rtol=1e-2, scale=np.abs((b - c) / e).max())
    # filling dry aligned cracks, hydraulically connected, is filling each of them
    if w:
        D = np.asarray(call("EM.hudson", K, G, 0.0, 0.0, al, e))
        S = np.asarray(call("Fluid.Brown_Korringa_dry2sat", np.linalg.inv(D), K, G, Kf, por))
        require_agree((np.linalg.inv(S) - iso6(K, G)) / e, (np.asarray(H) - iso6(K, G)) / e, "Brown-Korringa filling of dry cracks", rtol=200 * e + 1e-2, scale=K)


# ----------------------------------------------------------------- filled pores
@Rel(P, "C27.filled_pores", dict(K=R(5, 150, (37,)), r=R(.6, 4), Kf=R(.001, 4.5, (2.2, 1), log=True), phi=R(0.001, 1, (.1, .4)), al=R(.02, 1, (1, .1), log=True)), n_a=150)
def _(K, r, Kf, phi, al):
    G = K / r
    kd, gd = call("EM.HS", 1 - phi, K, 0.0, G, 0.0, "upper")
    kw, gw = call("EM.HS", 1 - phi, K, Kf, G, 0.0, "upper")
    gk = call("Fluid.Gassmann", kd, gd, K, Kf, phi)
    require_agree(gk, (kw, gw), "filling the pores of the upper bound is not Gassmann substitution", rtol=1e-8, scale=1e-3 * K)
    mt = call("EM.MT_average", 1 - phi, K, G, K, G, Kf, 0.0)
    require_agree(mt, (kw, gw), "Mori-Tanaka with fluid pores", rtol=1e-8, scale=1e-3 * K)
    sus = call("EM.VRH", [phi, 1 - phi], [Kf, K])[1]
    require_agree(call("Fluid.Gassmann", 0.0, 0.0, K, Kf, phi)[0], sus, "a frame without strength is not the suspension", rtol=1e-8)
    require_agree(call("EM.HS", 1 - phi, K, Kf, G, 0.0, "lower")[0], sus, "lower bound with a fluid is not the suspension", rtol=1e-8)
    require_agree(call("EM.cripor_reuss", K, Kf, phi)[0], sus, "Reuss average of mineral and fluid", rtol=1e-8)
    # dilute inclusions: fluid-filled = dry + Gassmann
    if al != 1 and not _al_ok(al):
        raise Skip()
    p0, q0 = [float(x) for x in call("EM.PQ", K, G, 0.0, 0.0, al)]
    p1, q1 = [float(x) for x in call("EM.PQ", K, G, Kf, 0.0, al)]
    e = 1e-6 / p0
    s = (float(call("Fluid.Gassmann", K * (1 - e * p0), G, K, Kf, e)[0]) - K) / e
    require(abs(s - (Kf - K) * p1) <= 1e-4 * K * p0, "filling a dilute pore: %r from Gassmann, %r from the inclusion theory" % (s, (Kf - K) * p1))
    if al == 1:
        require_agree(q0, q1, "a fluid in a spherical pore changes the shear modulus", rtol=1e-7)


# ----------------------------------------------------------------- frequency and squirt limits
@Rel(P, "C27.wave_limits", dict(HB, eta=R(1e-4, .1, log=True), kapa=R(1e-4, .1, log=True), f=R(1e-2, 1e5, log=True)), n_a=150)
def _(eta, kapa, f, **b):
    d = b_hf(dict(b))
    if d["phi"] < .01:
        raise Skip()
    K0, Kd, Gd, Kf, phi = d["K0"], d["Kdry"], d["Gdry"], d["Kfl"], d["phi"]
    rho = (1 - phi) * d["rho0"] + phi * d["rhofl"]
    k, g = call("Fluid.Gassmann", Kd, Gd, K0, Kf, phi)
    vp, vs = call("utils.V", k, g, rho)
    f0 = 1e-5 * eta * phi / (kapa * d["rhofl"] * 2 * np.pi)
    six = [d[x] for x in ("Kdry", "Gdry", "K0", "Kfl", "rho0", "rhofl")]
    lo = call("Fluid.Biot", *six, eta, phi, kapa, 1e-5, d["alpha"], f0)
    require_agree((lo[0] * 1e3, lo[2] * 1e3), (vp, vs), "Biot at low frequency", rtol=1e-5)
    f1 = 1e9 * eta * phi / (kapa * d["rhofl"] * 2 * np.pi)
    a = min(1e-5, .09 / np.sqrt(2 * np.pi * f1 * d["rhofl"] / eta))
    hi = call("Fluid.Biot", *six, eta, phi, kapa, a, d["alpha"], f1)
    hf = call("Fluid.Biot_HF", *[d[x] for x in V8])
    require_agree(hi[:3], hf, "Biot at high frequency", rtol=1e-5)
    gs = call("Fluid.Geertsma_Smit_HF", *[d[x] for x in V8])
    require_agree(gs[1], hf[2], "high-frequency shear velocities", rtol=1e-9)
    # pores locked to the frame: the wave carries the whole mass
    lock = dict(d, alpha=1e9)
    l1, l2 = call("Fluid.Biot_HF", *[lock[x] for x in V8]), call("Fluid.Geertsma_Smit_HF", *[lock[x] for x in V8])
    require_agree((l1[0] * 1e3, l1[2] * 1e3), (vp, vs), "infinite tortuosity is not the Gassmann rock (Biot)", rtol=1e-5)
    require_agree([float(np.squeeze(x)) * 1e3 for x in l2], (vp, vs), "infinite tortuosity is not the Gassmann rock (Geertsma-Smit)", rtol=1e-5)
    # one fluid in both patches
    w = call("Fluid.White_Dutta_Ode", Kd, Gd, K0, phi, d["rho0"], d["rhofl"], d["rhofl"], Kf, Kf, eta, eta, kapa, .1, .3, np.array([f, 2 * f]))
    if np.isfinite(np.asarray(w[0], float)).all():
        require_agree(np.ravel(w[0]) * 1e3, np.full(2, float(np.squeeze(vp))), "patches of one fluid", rtol=1e-6)
        require_agree(np.real(np.ravel(w[2])), np.full(2, float(np.squeeze(k))), "modulus with patches of one fluid", rtol=1e-6)
    for lim, want in ((1e-6, lo), (1e6, hi)):
        v = call("Fluid.Geertsma_Smit_LF", lo[0], hi[0], lim * phi * eta / (2 * np.pi * d["rhofl"] * kapa), phi, d["rhofl"], kapa, eta)
        require_agree(v, want[0], "Geertsma-Smit dispersion end point", rtol=1e-5)
    # no compliant pores: unrelaxed = relaxed
    rd = (1 - phi) * d["rho0"]
    vd = call("utils.V", Kd, Gd, rd)
    mj = call("Fluid.Mavko_Jizba", vd[0], vd[1], np.array([vd[0]]), np.array([vd[1]]), K0, rd, d["rhofl"], Kf, phi)
    require_agree((mj[0], mj[1]), (k, g), "squirt without compliant pores is not Gassmann", rtol=1e-6, scale=1e-2 * K0)
    require_agree((mj[2], mj[3]), (vp, vs), "squirt velocities without compliant pores", rtol=1e-6)


@Rel(P, "C27.patchy_to_uniform", {k: v for k, v in WB.items() if k not in ("x",)}, n_a=100)
def _(**b):
    lo = b_white(dict(b, x=.03))
    if b["eta2"] > 30 * b["eta1"] or b["eta2"] < b["eta1"] / 3:
        raise Skip()
    order = ("Kdry", "Gdry", "K0", "phi", "rho0", "rhofl1", "rhofl2", "Kfl1", "Kfl2", "eta1", "eta2", "kapa", "a", "sg")
    v, aw, ks = call("Fluid.White_Dutta_Ode", *[lo[k] for k in order], np.array([lo["freq"]]))
    s = lo["sg"]
    wood = call("EM.VRH", [s, 1 - s], [lo["Kfl1"], lo["Kfl2"]])[1]
    rf = s * lo["rhofl1"] + (1 - s) * lo["rhofl2"]
    u = call("Fluid.vels", lo["Kdry"], lo["Gdry"], lo["K0"], lo["rho0"], wood, rf, lo["phi"])
    require_agree(np.asarray(v).ravel()[0] * 1e3, u[0], "patchy rock at low frequency is not the uniformly saturated one", rtol=1e-2)


# ----------------------------------------------------------------- fluids
@Rel(P, "C27.fluid_limits", dict(T=R(20, 150, (50,)), Pp=R(5, 60, (20, 99)), S=R(0, .3, (0, .1)), x=R(0, 1, (0, 1, .5)), e=Cat(1, 2, 3, 10), G=R(.56, 1.5, (.6,)), den=R(.75, .95), bw=Cat(True, False)), n_a=120)
def _(T, Pp, S, x, e, G, den, bw):
    br, b0 = call("BW.rho_K_brine", T, Pp, S), call("BW.rho_K_brine", T, Pp, 0.0)
    require_agree(b0, call("BW.rho_K_water", T, Pp), "brine without salt is not water", rtol=1e-9)
    require_agree(call("BW.v_brine", T, Pp, 0.0), call("BW.v_water", T, Pp), "sound in brine without salt", rtol=1e-9)
    for r, v in ((br, call("BW.v_brine", T, Pp, S)), (b0, call("BW.v_water", T, Pp))):
        require_agree(call("utils.V", r[1], 0.0, r[0])[0], v, "velocity, density and modulus of the fluid", rtol=1e-9)
    require_agree(call("BW.rho_K_go", Pp, T, den, G, 0.0)[0], call("BW.rho_K_oil", Pp, T, den)[0], "oil with no gas in solution (density)", rtol=.2)
    co = call("BW.rho_K_gas", Pp, T, 1.5349) if bw else call("BW.rho_K_co2", Pp, T, 1.5349)
    for brie in (None, e):
        require_agree(call("BW.co2_brine", T, Pp, S, 0.0, brie, bw), br, "no CO2", rtol=1e-9)
        require_agree(call("BW.co2_brine", T, Pp, S, 1.0, brie, bw), co, "only CO2", rtol=1e-9)
    m = call("BW.co2_brine", T, Pp, S, x, None, bw)
    require_agree(m[1], call("EM.VRH", [x, 1 - x], [co[1], br[1]])[1], "uniform mixture is not the Reuss average", rtol=1e-9)
    require_agree(m[0], call("EM.VRH", [x, 1 - x], [co[0], br[0]])[0], "density of the mixture", rtol=1e-9)
    require_agree(call("BW.co2_brine", T, Pp, S, x, e, bw)[1], call("Fluid.Brie", br[1], co[1], 1 - x, e), "Brie mixture", rtol=1e-9)
    require_agree(call("Fluid.Brie", br[1], co[1], 1 - x, 1), call("EM.VRH", [x, 1 - x], [co[1], br[1]])[0], "Brie mixture with exponent one is not the Voigt average", rtol=1e-9)


# ----------------------------------------------------------------- packs, cement, patchy cement, curves
@Rel(P, "C27.packs_and_cement", dict(CCB, sigma=SG, f=F_, al=R(0, 1, (0, 1)), fp=R(0, 1, (0, 1))), n_a=120)
def _(K0, G0, Kc, Gc, x, phic, y, Cn, scheme, sigma, f, al, fp):
    pack = call("GM.hertzmindlin", K0, G0, phic, Cn, sigma, f)
    require_agree(call("GM.Walton", K0, G0, phic, Cn, sigma, f), pack, "Walton and Hertz-Mindlin packs", rtol=1e-9)
    sm = call("GM.hertzmindlin", K0, G0, phic, Cn, sigma, 0.0)
    require_agree(call("GM.Digby", K0, G0, phic, Cn, sigma, 0.0), sm, "unbonded Digby pack and smooth pack", rtol=1e-6)
    phi, pb = x * phic, y * phic
    for n in ("softsand", "stiffsand"):
        require_agree(call("GM." + n, K0, G0, phic, phic, Cn, sigma, f), pack, n + " at critical porosity", rtol=1e-9)
        require_agree(call("GM." + n, K0, G0, 0.0, phic, Cn, sigma, f), (K0, G0), n + " without pores", rtol=1e-9)
    if pack[0] < K0 and pack[1] < G0:
        for n, bd in (("softsand", "lower"), ("stiffsand", "upper")):
            require_agree(call("GM." + n, K0, G0, phi, phic, Cn, sigma, f), call("EM.HS", 1 - x, K0, pack[0], G0, pack[1], bd), n + " and the Hashin-Shtrikman bound", rtol=1e-8)
    cem = call("GM.contactcement", K0, G0, Kc, Gc, pb, phic, Cn, scheme)
    if not (max(cem) < 150):
        raise Skip()
    require_agree(call("GM.constantcement", pb, K0, G0, Kc, Gc, pb, phic, Cn, scheme), cem, "constant cement at its well-sorted end", rtol=1e-8)
    require_agree(call("GM.MUHS", K0, G0, Kc, Gc, pb, pb, phic, Cn, scheme), cem, "increasing cement at its cemented end", rtol=1e-8)
    v = phic - pb
    args = (sigma, K0, G0, phi, phic, v, v + 1e-9, Kc, Gc, Cn)
    if min(abs(a - b) for a, b in zip(pack, cem)) < 1e-3 or min(cem) < .1:
        raise Skip()
    st, so = [call("GM.pcm", fp, *args, m, scheme, f) for m in ("stiff", "soft")]
    require_agree(call("GM.vpcm", 0.0, fp, *args, scheme, f), st, "varying patchy cement, undiluted", rtol=1e-8)
    require_agree(call("GM.vpcm", 1.0, fp, *args, scheme, f), so, "varying patchy cement, diluted", rtol=1e-8)
    soft = call("GM.softsand", K0, G0, phi, phic, Cn, sigma, f)
    for m in ("stiff", "soft"):
        require_agree(call("GM.pcm", 0.0, *args, m, scheme, f), soft, "patchy cement without cement", rtol=1e-7)
        # all cemented at critical porosity: the contact-cement pack
        a2 = (sigma, K0, G0, phic, phic, v, v + 1e-9, Kc, Gc, Cn)
        require_agree(call("GM.pcm", 1.0, *a2, m, scheme, f), cem, "patchy cement, all cemented", rtol=1e-7)


SCN = dict(K0=R(20, 80, (36.6,)), G0=R(15, 60, (45,)), D0=R(2, 3), Kc=R(20, 80, (36.6,)), Gc=R(15, 50, (45,)), Kb=R(.05, 3, (2.5,)), Db=R(.3, 1.2), y=R(.5, .95), phic=R(.3, .45, (.4,)), Cn=R(4, 12, (9,)), sigma=R(1, 60, (20,)), f=F_, scheme=Cat(1, 2), i=I(0, 99))


@Rel(P, "C27.curves_are_the_models", SCN, n_a=60, n_b=8, n_sc=8)
def _(K0, G0, D0, Kc, Gc, Kb, Db, y, phic, Cn, sigma, f, scheme, i):
    """Without shale and with cement of the grains' density the diagnostic curves are the rock models, saturated."""
    pb = y * phic
    s = call("QI.screening", D0, K0, G0, 2.6, 20.0, 10.0, D0, K0, G0, Db, Kb, pb, phic, sigma, 0.0, scheme, f, Cn)
    phi = np.asarray(s[0])
    p = float(phi[i])
    kd, gd = call("GM.softsand", K0, G0, p, phic, Cn, sigma, f)
    v = call("Fluid.vels", kd, gd, K0, D0, Kb, Db, p)
    require_agree((s[1][i], s[4][i]), v[:2], "friable line", rtol=1e-7)
    if p <= pb:
        kd, gd = call("GM.MUHS", K0, G0, K0, G0, p, pb, phic, Cn, scheme)
        require_agree((s[2][i], s[5][i]), call("Fluid.vels", kd, gd, K0, D0, Kb, Db, p)[:2], "increasing-cement line", rtol=1e-7)
    if p >= pb and i < 99:        # at critical porosity no cement is left and the moduli vanish
        kd, gd = call("GM.contactcement", K0, G0, K0, G0, p, phic, Cn, scheme)
        require_agree((s[3][i], s[6][i]), call("Fluid.vels", kd, gd, K0, D0, Kb, Db, p)[:2], "contact-cement line", rtol=1e-7)
    q = pb * (.05 + .009 * i)
    kd, gd = call("GM.constantcement", pb, K0, G0, Kc, Gc, q, phic, Cn, scheme)
    c = call("QI.cst_vels", pb, K0, D0, G0, np.array([q]), phic, Cn, Kc, Gc, Db, Kb, scheme, 0.0, 2.6, D0, D0)
    require_agree([float(np.squeeze(t)) for t in c], [float(t) for t in call("Fluid.vels", kd, gd, K0, D0, Kb, Db, q)[:2]], "constant-cement line", rtol=1e-7)
    require_agree(call("QI.matrix_modulus", 0.0, phic, phic, 20.0, K0, Kc), K0, "matrix without shale and cement", rtol=1e-9)
    fr = [.1 / (1 - pb), (1 - phic - .1) / (1 - pb), (phic - pb) / (1 - pb)]
    require_agree(call("QI.matrix_modulus", .1, phic, pb, 20.0, K0, Kc), call("EM.VRH", fr, [20.0, K0, Kc])[2], "matrix modulus is not the Hill average", rtol=1e-9)
    require_agree(call("QI.den_matrix", .1, phic, pb, 2.6, D0, 2.7), call("EM.VRH", fr, [2.6, D0, 2.7])[0], "matrix density is not the average", rtol=1e-9)


# ----------------------------------------------------------------- reflections
@Rel(P, "C27.reflections", dict(a=R(2, 6), r=R(.35, .6), d=R(1.8, 3), x=R(-1, 1), y=R(-1, 1), z=R(-1, 1), big=R(.01, .2), th=R(0, 50, (0, 20)), az=R(-180, 180), h=Cat(1e-4)), n_a=150)
def _(a, r, d, x, y, z, big, th, az, h):
    b = r * a
    c6 = lambda vp, vs, rho: iso6(*call("utils.M_from_V", rho, vp * 1e3, vs * 1e3))
    for k in (big, h):
        u = (a * (1 + k * x), b * (1 + k * y * .5), d * (1 + k * z))
        up, lo = (a, b, d), u
        t = 0.0 if k == big else th
        imp = (u[0] * u[2] - a * d) / (u[0] * u[2] + a * d)
        hti = float(np.ravel(call("AVO.AVO_HTI", d, u[2], c6(*up), c6(*lo), np.array([t]), np.array([az])))[0])
        orth = call("AVO.AVO_ortho", a, b, 0., 0., 0., 0., 0., d, u[0], u[1], 0., 0., 0., 0., 0., u[2], t)
        ak = call("AVO.Aki_Richards", t, a, u[0], b, u[1], d, u[2])
        ab = call("AVO.AVO_abe", a, b, d, *u)
        require_agree((ab[0], ab[2]), (ak[2], ak[3]), "intercept and gradient", rtol=1e-8, scale=1e-3)
        if t == 0:
            z0 = call("AVO.zoeppritz", a, b, d, *u, 0.0)[0]
            require_agree((z0, hti, orth[0], orth[1]), (imp,) * 4, "normal incidence", rtol=1e-8, scale=1e-3)
            require_agree(ak[0], ak[2], "Aki-Richards at normal incidence is not its intercept", rtol=1e-8, scale=1e-3)
        else:
            require_agree((hti, orth[0], orth[1]), (ak[0],) * 3, "weak isotropic contrast", rtol=1e-2, scale=k * .1)
            V = [np.array(q) for q in zip(up, lo)]
            for nm in (True, False):
                ei = np.asarray(call("AVO.EI_ref", V[0], V[1], V[2], np.array([t]), r, nm)[0])
                require_agree(.5 * np.log(ei[1, 0] / ei[0, 0]), ak[0], "elastic impedance contrast", rtol=1e-2, scale=k * .1)
        hti2 = float(np.ravel(call("AVO.AVO_HTI", d, u[2], c6(*up), c6(*lo), np.array([th]), np.array([az + 33.])))[0])
        hti1 = float(np.ravel(call("AVO.AVO_HTI", d, u[2], c6(*up), c6(*lo), np.array([th]), np.array([az])))[0])
        o2 = call("AVO.AVO_ortho", a, b, 0., 0., 0., 0., 0., d, u[0], u[1], 0., 0., 0., 0., 0., u[2], th)
        require_agree((hti1, hti2), (o2[0], o2[1]), "isotropic contrast in the HTI and orthorhombic formulas", rtol=1e-8, scale=1e-3)


# ----------------------------------------------------------------- permeability
@Rel(P, "C27.permeability", dict(phi=R(.05, .45, (.2,)), d=R(1, 500, (100,), log=True), b=R(1, 5), Swi=R(.05, .9), w=R(1e-3, 1, log=True), rr=R(1e-3, 1, log=True)), n_a=100)
def _(phi, d, b, Swi, w, rr):
    kc = call("Permeability.Kozeny_Carman", phi, d)
    s = (1 - phi) ** 2 / (1 - phi) ** 2
    require_agree(call("Permeability.Kozeny_Carman_Percolation", phi, 0.0, d, 1 / 180.) * s, kc, "percolation threshold zero is not Kozeny-Carman", rtol=1e-9)
    require_agree(call("Permeability.Panda_Lake", d, 0.0, .3, 2.5, phi), kc, "uniform grains (tortuosity 2.5) are not Kozeny-Carman", rtol=1e-9)
    require_agree(call("Permeability.Fredrich", phi, d, b), phi ** 3 * d ** 2 / (90 * b * (1 - phi) ** 2), "Fredrich", rtol=1e-9)
    require_agree(call("Permeability.Fredrich", phi, d, 2.0), kc, "Fredrich with shape factor 2 is not Kozeny-Carman", rtol=1e-9)
    require_agree(call("Permeability.Panda_Lake_cem", phi, d) / call("Permeability.Panda_Lake_cem", .2, 100.0), kc / call("Permeability.Kozeny_Carman", .2, 100.0), "cemented packs scale differently from Kozeny-Carman", rtol=1e-9)
    require_agree(call("Permeability.Bernabe", phi, 0.0, w, rr) / phi, call("Permeability.Bernabe", phi, 1.0, np.sqrt(1.5) * rr, w) / phi, "tubes and cracks of equal conductance", rtol=1e-9)
    t = call("Permeability.Perm_logs", phi, Swi)
    require_agree(t[2] / t[1], (1 - Swi) ** 2 * phi ** -.5, "Coates and Timur", rtol=1e-9)
