"""C28: results stay within rigorous bounds and respond to their causes in the physical direction."""
import numpy as np

from .engine import Cat, I, R, Rel, Skip, Vec, Violation, call, require
from .s_em import FR, _al_ok, fracs
from .s_crack import flex_converges
from .s_fluid import BKB, BB, V8, WB, aniso_S, b_biot, b_white
from .s_gm import CCB, PCB, PK, SG, F_, _p_ok
from .s_qi import SCB, SCO, _sc_ok, b_sc

P = "C28"
n_grid = 41


def between(lo, x, hi, what, tol=1e-9, scale=None):
    lo, x, hi = [np.asarray(v, float) for v in (lo, x, hi)]
    s = np.maximum(np.abs(lo), np.abs(hi)) if scale is None else scale
    s = np.where(np.isfinite(s), s, np.abs(x))
    t = tol * s
    ok = (x >= lo - t) & (x <= hi + t)
    if not np.all(ok):
        raise Violation("%s: %r not within [%r, %r]" % (what, np.asarray(x).tolist(), np.asarray(lo).tolist(), np.asarray(hi).tolist()))


def rising(y, what, tol=1e-9, sign=1, x=None):
    """No step of the curve goes the wrong way; with x, none of the larger steps is flat either."""
    y = np.asarray(y, float).ravel() * sign
    if not np.isfinite(y).all():
        raise Violation("%s: not finite: %r" % (what, (y * sign).tolist()))
    d = np.diff(y)
    if d.size and d.min() < -tol * np.abs(y).max():
        k = int(d.argmin())
        raise Violation("%s does not %s: step %d of %d goes from %r to %r" % (what, "rise" if sign > 0 else "fall", k, y.size, y[k] * sign, y[k + 1] * sign))
    if x is not None and d.size:
        dx = np.diff(np.asarray(x, float))
        flat = (dx > 1e-3 * (dx.sum())) & (d <= 0)
        if flat.any():
            k = int(flat.argmax())
            raise Violation("%s: no response between %r and %r: stays %r" % (what, x[k], x[k + 1], y[k] * sign))


def falling(y, what, tol=1e-9, x=None):
    rising(y, what, tol, -1, x)


def psd(M, what, tol):
    M = np.asarray(M, float)
    lo = np.linalg.eigvalsh((M + M.T) / 2).min()
    if lo < -tol:
        raise Violation("%s: smallest eigenvalue %r" % (what, lo))


def walpole(f, K, G):
    """Hashin-Shtrikman-Walpole bounds of any number of phases, in any order of stiffness."""
    f, K, G = [np.asarray(x, float) for x in (f, K, G)]
    kb, gb = [], []
    for m in (np.min, np.max):
        k, g = m(K), m(G)
        a = 4 * g / 3
        z = g / 6 * (9 * k + 8 * g) / (k + 2 * g) if g > 0 else 0.0
        with np.errstate(all="ignore"):
            kb.append(1 / np.sum(f / (K + a)) - a)
            gb.append(1 / np.sum(f / (G + z)) - z)
    return kb, gb


def ticks(lo, hi, seed, n=n_grid):
    """Sorted points, with some close pairs."""
    rng = np.random.default_rng(seed)
    a = rng.uniform(lo, hi, n - 2)
    a[: n // 4] = a[n // 4: 2 * (n // 4)] + (hi - lo) * 1e-4 * rng.random(n // 4)
    return np.sort(np.clip(np.concatenate([[lo, hi], a]), lo, hi))


def along(f, xs, layout):
    """f over the points as one array call, or point by point."""
    if layout == "array":
        return f(xs)
    r = [f(float(x)) for x in xs]
    if isinstance(r[0], (tuple, list)):
        return [np.array([float(np.squeeze(q[i])) for q in r]) for i in range(len(r[0]))]
    return np.array([float(np.squeeze(q)) for q in r])


LAYO = Cat("array", "scalar")
SEED = I(0, 10 ** 6)


# ----------------------------------------------------------------- mixtures
@Rel(P, "C28.inclusion_models_in_bounds", dict(Km=R(5, 150, (37,)), r=R(.5, 5), fk=R(.02, 3, (1, .05)), fg=R(.02, 3, (1, .05)), f=R(0, .5, (0, .1)), al=R(.03, 1, (1, .1), log=True), al2=R(.03, 10, (1, 2), log=True)), n_a=60, n_b=8, n_sc=8, weight=2)
def _(Km, r, fk, fg, f, al, al2):
    if not _al_ok(al) or not _al_ok(al2):
        raise Skip()
    Gm = Km / r
    Ki, Gi = fk * Km, fg * Gm
    (kl, kh), (gl, gh) = walpole([1 - f, f], [Km, Ki], [Gm, Gi])
    ck = lambda got, nm, tol=1e-7: (between(kl, got[0], kh, nm + " bulk modulus", tol), between(gl, got[1], gh, nm + " shear modulus", tol))
    ck(call("EM.MT_average", 1 - f, Km, Gm, Km, Gm, Ki, Gi), "Mori-Tanaka")
    ck(call("EM.Berryman_sc", [Km, Ki], [Gm, Gi], [1 - f, f], np.array([1.0, 1.0])), "self-consistent spheres", 1e-6)
    if al >= .1 and max(fk, fg, 1 / fk, 1 / fg) < 20:
        ck(call("EM.Berryman_sc", [Km, Ki], [Gm, Gi], [1 - f, f], np.array([1.0, al])), "self-consistent spheroids", 1e-6)
    if flex_converges(f, Km, Ki, Gm, Gi):
        ck(call("EM.SC_flex", f, 600, Km, Ki, Gm, Gi), "self-consistent iteration", 1e-6)
    k, g, t = call("EM.Berryman_DEM", Km, Gm, Ki, Gi, al2, f)
    for i in range(len(t)):
        (a, b), (c, d) = walpole([1 - t[i], t[i]], [Km, Ki], [Gm, Gi])
        between(a, k[i], b, "differential scheme, bulk modulus at %r" % t[i], 1e-5)
        between(c, g[i], d, "differential scheme, shear modulus at %r" % t[i], 1e-5)
    (rising if Ki > Km else falling)(k, "bulk modulus along the differential scheme", 1e-6) if (fk - 1) * (fg - 1) > 0 else None
    a, h, b = call("EM.VRH", [f, 1 - f], [Ki, Km])[1], call("EM.VRH", [f, 1 - f], [Ki, Km])[2], call("EM.VRH", [f, 1 - f], [Ki, Km])[0]
    between(a, kl, kh, "Reuss average above the lower bound")
    between(kl, kh, b, "Voigt average below the upper bound")
    between(a, h, b, "Hill average")
    p, q = call("EM.PQ", Km, Gm, Ki, Gi, al2)
    require(p > 0 and q > 0, "strain concentration not positive")
    between(min(1, Km / Ki), p, np.inf if Ki < Km else 1, "volumetric strain of the inclusion", 1e-6) if Gi == Gm else None


@Rel(P, "C28.multiphase_self_consistent", dict(Kv=Vec(R(5, 80, (37,)), 5), Gv=Vec(R(4, 60, (45,)), 5), fr=FR, n=I(2, 5), av=Vec(R(.2, 1, (1, 1, .5)), 5)), n_a=50, n_b=8, n_sc=8, weight=2)
def _(Kv, Gv, fr, n, av):
    K, G, X, al = np.array(Kv[:n]), np.array(Gv[:n]), fracs(fr, n), np.array(av[:n])
    if not _al_ok(al).all():
        raise Skip()
    got = call("EM.Berryman_sc", K, G, X, al)
    (kl, kh), (gl, gh) = walpole(X, K, G)
    between(kl, got[0], kh, "self-consistent bulk modulus of %d phases" % n, 1e-6)
    between(gl, got[1], gh, "self-consistent shear modulus of %d phases" % n, 1e-6)
    for M in (K, G):
        V, Rr, H = [float(np.squeeze(x)) for x in call("EM.VRH", X, M)]
        between(M.min(), Rr, M.max(), "Reuss average")
        between(Rr, H, V, "Hill average")
        between(Rr, V, M.max(), "Voigt average")


@Rel(P, "C28.pores_and_cracks_soften", dict(K=R(5, 150, (37,)), r=R(.6, 4), seed=SEED, lay=LAYO, Kf=R(.001, 4.5, (2.2,), log=True), it=Cat(1, 2, 5, 30, 200)), n_a=60, n_b=10, n_sc=8)
def _(K, r, seed, lay, Kf, it):
    G = K / r
    phi = ticks(0, .4, seed)
    for nm, f in (("Swiss cheese", lambda p: call("EM.Swiss_cheese", K, G, p)), ("critical porosity", lambda p: call("EM.cripor", K, G, p, .4)),
                  ("upper bound", lambda p: call("EM.HS", 1 - p, K, 0.0, G, 0.0, "upper")), ("empirical frame", lambda p: call("Empirical.krief", p, K, G)[:0:-1])):
        k, g = along(f, phi, lay)
        falling(k, nm + ": bulk modulus with porosity", x=phi)
        falling(g, nm + ": shear modulus with porosity", x=phi)
        between(0, k, K, nm + ": bulk modulus")
        between(0, g, G, nm + ": shear modulus")
    k, g = along(lambda p: call("EM.SC", p, K, G, it), phi, lay)
    falling(k, "self-consistent pores: bulk modulus with porosity", x=phi)
    falling(g, "self-consistent pores: shear modulus with porosity", x=phi)
    a, b = np.asarray(call("EM.SC", phi, K, G, 1)), np.asarray(call("EM.SC", phi, K, G, 2))
    falling(np.array([a[0].sum(), b[0].sum(), np.asarray(call("EM.SC", phi, K, G, 10))[0].sum()]), "self-consistent softening with the number of iterations")
    sw = call("EM.Swiss_cheese", K, G, phi)
    between(0, k, np.asarray(sw[0]), "self-consistent below non-interacting pores")
    c = ticks(0, .5, seed + 1)
    for nm, f in (("non-interacting cracks", lambda p: call("EM.Dilute_crack", K, G, p)), ("self-consistent cracks", lambda p: call("EM.OConnell_Budiansky", K, G, p)), ("random cracks", lambda p: call("EM.hudson_rand", K, G, 0.0, 0.0, .01, p))):
        k, g = along(f, c, lay)
        falling(k, nm + ": bulk modulus with crack density", x=c)
        falling(g, nm + ": shear modulus with crack density", x=c)
    d, o = call("EM.Dilute_crack", K, G, c), call("EM.OConnell_Budiansky", K, G, c)
    between(0, o[0], d[0], "self-consistent cracks below non-interacting ones, bulk", 1e-9, K)
    # a filled pore or crack is stiffer than an empty one
    al = .02
    ks = [float(np.squeeze(call("EM.OConnell_Budiansky_fl", K, G, x, .2, al)[0])) for x in (0.0, Kf / 2, Kf)]
    rising(ks, "bulk modulus with the stiffness of the crack fluid", 1e-7)


@Rel(P, "C28.crack_sets_soften", dict(K=R(5, 150, (37,)), r=R(.6, 4), Kf=R(0, 10, (0, 2.2)), Gf=R(0, 5, (0,)), al=R(.0005, .3, (.01,), log=True), c=R(0, .1, (0, .05)), c2=R(0, .1, (0,)), th=R(0, 90, (0, 45, 90)), ax=Cat(1, 3)), n_a=120, n_b=15)
def _(K, r, Kf, Gf, al, c, c2, th, ax):
    G = K / r
    C0 = np.asarray(call("utils.write_iso", K, G), float)
    lo, hi = sorted((c, c + c2))
    t = 1e-9 * K
    for nm, f in (("aligned cracks", lambda k, g, e: call("EM.hudson", K, G, k, g, al, e, 1, ax)), ("three sets", lambda k, g, e: call("EM.hudson_ortho", K, G, k, g, [al] * 3, [e, e / 2, e / 4])),
                  ("cone", lambda k, g, e: call("EM.hudson_cone", K, G, k, g, al, e, th)), ("random cracks", lambda k, g, e: call("utils.write_iso", *call("EM.hudson_rand", K, G, k, g, al, e)))):
        a, b = np.asarray(f(Kf, Gf, lo)), np.asarray(f(Kf, Gf, hi))
        psd(C0 - a, nm + " stiffen the solid", t)
        psd(a - b, nm + ": more cracks stiffen the solid", t)
        psd(a - np.asarray(f(0.0, 0.0, lo)), nm + ": filling softens", t)
        psd(np.asarray(f(2 * Kf + .1, Gf, lo)) - a, nm + ": a stiffer fill softens", t)


# ----------------------------------------------------------------- layers and waves in them
@Rel(P, "C28.layers", dict(v=Vec(R(.01, 10), (1, 7)), g=Vec(R(.5, 80), 7), q=Vec(R(.05, 4), 7), rho=R(1, 4), ang=Vec(R(0, 360, (0, 45, 90)), (1, 5)), hti=Cat(False, True)), n_a=150)
def _(v, g, q, rho, ang, hti):
    n = len(v)
    V, G = np.array(v), np.array(g[:n])
    K = G * np.array(q[:n]) + 1e-3
    lam = K - 2 * G / 3
    C11, C33, C13, C44, C66 = [float(x) for x in call("Anisotropy.Backus", V, lam, G)]
    C = np.asarray(call("utils.write_VTI_matrix", C11, C33, C13, C44, C66), float)
    w = V / V.sum()
    iso = [np.asarray(call("utils.write_iso", k, m)) for k, m in zip(K, G)]
    CV = sum(x * c for x, c in zip(w, iso))
    SR = sum(x * np.linalg.inv(c) for x, c in zip(w, iso))
    t = 1e-9 * np.abs(CV).max()
    psd(CV - C, "layered medium stiffer than the Voigt average", t)
    psd(SR - np.linalg.inv(C), "layered medium softer than the Reuss average", 1e-9 * np.abs(SR).max())
    psd(C, "layered medium unstable", t)
    between(C44, C66, G.max(), "shear moduli of a layered medium")
    th = call("Anisotropy.Thomsen", C11, C33, C13, C44, C66, rho, 30.0)
    require(th[3] - th[5] >= -1e-9 * (1 + C33 / C44), "epsilon below delta in a stack of isotropic layers: %r %r" % (th[3], th[5]))
    require(th[4] >= -1e-9, "negative gamma in a stack of isotropic layers")
    f = "Anisotropy.vel_azi_VTI"
    M = C
    if hti:
        p = [2, 1, 0, 5, 4, 3]
        M, f = C[np.ix_(p, p)], "Anisotropy.vel_azi_HTI"
    vp, vsh, vsv = [np.asarray(x, float) for x in call(f, M, rho, np.array(ang))]
    big, small = np.sqrt(np.linalg.eigvalsh(C).max() / rho), np.sqrt(np.linalg.eigvalsh(np.diag([1, 1, 1, 1, 1, 1]) @ C).min() / 2 / rho)
    between(small, vp, big, "P velocity in a layered medium")
    for s in (vsh, vsv):
        between(small, s, vp, "S velocity in a layered medium", 1e-7)


@Rel(P, "C28.isotropic_conversions", dict(K=R(.01, 300, (37,), log=True), G=R(0, 200, (0, 45)), rho=R(.1, 10), seed=SEED, lay=LAYO), n_a=80, n_b=10)
def _(K, G, rho, seed, lay):
    vp, vs = call("utils.V", K, G, rho)
    require(vp >= vs * np.sqrt(4 / 3) * (1 - 1e-9) and vs >= 0, "Vp/Vs below its smallest value")
    between(-1, call("utils.poi", K, G), .5, "Poisson's ratio", 1e-9, 1.0)
    ks, gs = ticks(.01, 100, seed), ticks(0, 100, seed + 1)
    rising(along(lambda k: call("utils.V", k, G, rho)[0], ks, lay), "P velocity with bulk modulus")
    rising(along(lambda g: call("utils.V", K, g, rho)[1], gs, lay), "S velocity with shear modulus")
    falling(along(lambda d: call("utils.V", K, 1.0, d)[0], ticks(.1, 10, seed), lay), "P velocity with density")
    falling(along(lambda g: call("utils.poi", K, g), gs, lay), "Poisson's ratio with shear modulus")


# ----------------------------------------------------------------- fluid substitution
@Rel(P, "C28.saturation", dict(K0=R(10, 150, (37,)), fk=R(.01, .97, (.5,)), r=R(.5, 4), seed=SEED, x=R(.01, .99), Kf=R(.001, 4.5, (2.2,), log=True), Kg=R(.001, .5, log=True), e=Cat(1, 2, 3, 10), lay=LAYO), n_a=80, n_b=12)
def _(K0, fk, r, seed, x, Kf, Kg, e, lay):
    Kd, G = fk * K0, fk * K0 / r
    phi = .005 + x * (1 - fk) * .99
    if phi > 1 - fk:
        raise Skip()
    kfs = ticks(.001, 4.5 if seed % 2 else .95 * K0, seed)
    ks = along(lambda k: call("Fluid.Gassmann", Kd, G, K0, k, phi)[0], kfs, lay)
    rising(ks, "saturated modulus with the fluid's", x=kfs)
    between(Kd, ks, K0, "saturated modulus")
    between([float(np.squeeze(call("EM.VRH", [phi, 1 - phi], [k, K0])[1])) for k in kfs], ks, K0, "saturated modulus below the suspension")
    kd = ticks(0, K0 * (1 - phi), seed + 1)
    rising(along(lambda k: call("Fluid.Gassmann", k, G, K0, Kf, phi)[0], kd, lay), "saturated modulus with the frame's", x=kd)
    G0 = K0 / r
    up = call("EM.HS", 1 - phi, K0, 0.0, G0, 0.0, "upper")[0]
    if Kd <= up:
        between(0, call("Fluid.Gassmann", Kd, G, K0, Kf, phi)[0], call("EM.HS", 1 - phi, K0, Kf, G0, 0.0, "upper")[0], "saturated modulus above the upper bound", 1e-8)
    ps = ticks(.005, .999 * (1 - fk), seed + 2) if fk < .9 else None
    if ps is not None:
        falling(along(lambda p: call("Fluid.Gassmann", Kd, G, K0, Kf, p)[0], ps, lay), "saturated modulus with porosity, for a given frame")
    s = ticks(0, 1, seed + 3)
    b = along(lambda q: call("Fluid.Brie", max(Kf, Kg), Kg, q, e), s, lay)
    rising(b, "Brie modulus with water saturation")
    between(Kg, b, s * max(Kf, Kg) + (1 - s) * Kg, "Brie modulus")
    rising(along(lambda k: call("Fluid.Gassmann_sub", phi, K0, float(ks[-1]), float(kfs[-1]), k), kfs, lay), "substituted modulus with the new fluid's")
    v = along(lambda d: call("Fluid.vels", Kd, G, K0, 2.65, Kf, d, phi), ticks(.01, 1.5, seed), lay)
    falling(v[0], "P velocity with fluid density", x=ticks(.01, 1.5, seed))
    falling(v[1], "S velocity with fluid density")
    rising(v[2], "bulk density with fluid density", x=ticks(.01, 1.5, seed))


@Rel(P, "C28.anisotropic_saturation", dict(BKB, Kf2=R(.001, 4, (1,), log=True), stiff=R(.02, .95), hard=Cat(False, True)), n_a=80, n_b=15)
def _(K0, G0, B, kind, Kf, phi, Kf2, stiff, hard):
    a, b = sorted((stiff * K0 * .8, stiff * K0)) if hard else sorted((min(Kf, .9 * K0), min(Kf2, .9 * K0)))
    S0, Sd = aniso_S(K0, G0, B, kind)
    t = 1e-9 * np.abs(Sd).max()
    Sa, Sb = [np.asarray(call("Fluid.Brown_Korringa_dry2sat", Sd.copy(), K0, G0, k, phi)) for k in (a, b)]
    psd(Sd - Sa, "a fluid softens the rock", t)
    psd(Sa - Sb, "a stiffer fluid softens the rock", t)
    psd(Sb - S0, "saturated rock stiffer than its mineral", t)
    if abs((1 / a - 1 / K0) * phi - (Sa[:3, :3].sum() - 1 / K0)) * K0 > 1e-4:
        D = np.asarray(call("Fluid.Brown_Korringa_sat2dry", Sa.copy(), K0, G0, a, phi))
        psd(D - Sa, "drying stiffens the rock", 1e-6 * np.abs(Sd).max())


@Rel(P, "C28.poroelastic_waves", dict({k: v for k, v in BB.items() if k != "freq"}, seed=SEED), n_a=60, n_b=10)
def _(seed, **b):
    d = b_biot(dict(b, freq=1.0))
    if d["phi"] < .01:
        raise Skip()
    fc = d["eta"] * d["phi"] / (2 * np.pi * d["kapa"] * d["rhofl"])
    d["a"] = np.sqrt(8 * d["kapa"] * d["alpha"] / d["phi"])            # pore size that goes with the permeability
    fr = fc * 10.0 ** ticks(-2.5, 2.5, seed)
    z = np.sqrt(2 * np.pi * fr * d["a"] ** 2 * d["rhofl"] / d["eta"])
    fr = fr[(np.abs(z / .1 - 1) > 1e-3) & (z > .3) & (z < 900)]
    if fr.size < 3:
        raise Skip()
    V = [np.asarray(x, float) for x in call("Fluid.Biot", *[d[k] for k in ("Kdry", "Gdry", "K0", "Kfl", "rho0", "rhofl", "eta", "phi", "kapa", "a", "alpha")], fr)]
    lo = call("Fluid.vels", d["Kdry"], d["Gdry"], d["K0"], d["rho0"], d["Kfl"], d["rhofl"], d["phi"])
    hf = call("Fluid.Biot_HF", *[d[k] for k in V8])
    t = 1e-6
    between(lo[1] / 1e3, V[2], np.inf, "S velocity below the low-frequency limit", t, hf[2])
    between(0, V[1], V[0], "slow P velocity", t)
    rising(V[2], "S velocity with frequency", 1e-6)
    for q, nm in ((V[3], "fast P"), (V[5], "S")):
        require((q >= -1e-9).all(), "negative attenuation of the %s wave" % nm)
    require((V[4] > 0).all(), "negative attenuation of the slow wave")
    g = call("Fluid.Geertsma_Smit_HF", *[d[k] for k in V8])
    between(hf[0], float(np.squeeze(g[0])), np.inf, "Geertsma-Smit limit below Biot's", 1e-8, hf[0])
    w = np.asarray(call("Fluid.Geertsma_Smit_LF", lo[0], hf[0] * 1e3, fr, d["phi"], d["rhofl"], d["kapa"], d["eta"]))
    rising(w, "Geertsma-Smit velocity with frequency")
    between(lo[0], w, hf[0] * 1e3, "Geertsma-Smit velocity", 1e-8)


@Rel(P, "C28.squirt_and_patches", dict(K0=R(20, 80), fh=R(.3, .95), fd=R(.3, 1, (1,)), gh=R(.2, .9), gd=R(1, 3, (1,)), rho=R(1.5, 3), Kf=R(.01, 4, (2.2,), log=True), rf=R(.05, 1.2), x=R(.05, 1)), n_a=100)
def _(K0, fh, fd, gh, gd, rho, Kf, rf, x):
    Kh, Gh = fh * K0, gh * K0
    Kd = Kh * fd
    Gd = 1 / (1 / Gh + gd * 4 / 15 * (1 / Kd - 1 / Kh))         # cracks soften in shear at least as far as the squirt model assumes
    phi = x * (1 - fh)
    h, d = call("utils.V", Kh, Gh, rho), call("utils.V", Kd, Gd, rho)
    k, g, vp, vs = [float(np.squeeze(q)) for q in call("Fluid.Mavko_Jizba", h[0], h[1], np.array([d[0]]), np.array([d[1]]), K0, rho, rf, Kf, phi)]
    ks = call("Fluid.Gassmann", Kd, Gd, K0, Kf, phi)[0]
    between(ks, k, K0, "unrelaxed bulk modulus", 1e-7)
    require(g >= Gd * (1 - 1e-9), "unrelaxed shear modulus below the dry one: %r < %r" % (g, Gd))
    v = call("utils.V", ks, Gd, rho + phi * rf)
    require(vp >= v[0] * (1 - 1e-7) and vs >= v[1] * (1 - 1e-7), "unrelaxed velocities below the relaxed ones")


# ----------------------------------------------------------------- packs, sands, cement
@Rel(P, "C28.packs", dict(PK, seed=SEED, lay=LAYO), n_a=80, n_b=12)
def _(K0, G0, phic, Cn, sigma, f, seed, lay):
    s = ticks(.01, 200, seed)
    for nm in ("hertzmindlin", "Walton"):
        F = lambda **k: (lambda a: call("GM." + nm, *[a[n] for n in ("K0", "G0", "phic", "Cn", "sigma", "f")]))(dict(dict(K0=K0, G0=G0, phic=phic, Cn=Cn, sigma=sigma, f=f), **k))
        for i, m in enumerate(("bulk", "shear")):
            rising(along(lambda x: F(sigma=x), s, lay)[i], "%s %s modulus with stress" % (nm, m), x=s)
            for c in (phic, .2, .5):
                rising(along(lambda x: F(Cn=x, phic=c), ticks(2, 20, seed), lay)[i], "%s %s modulus with coordination" % (nm, m), x=ticks(2, 20, seed))
            falling(along(lambda x: F(phic=x), ticks(.2, .6, seed), lay)[i], "%s %s modulus with porosity" % (nm, m), x=ticks(.2, .6, seed))
            rising(along(lambda x: F(G0=x), ticks(3, 150, seed), lay)[1], "%s shear modulus with the grains'" % nm) if K0 > 80 else None
        rising(along(lambda x: F(f=x), ticks(0, 1, seed), lay)[1], "%s shear modulus with friction" % nm, x=ticks(0, 1, seed))
    kd, gd = call("GM.Digby", K0, G0, phic, Cn, s, .1)
    rising(kd, "Digby bulk modulus with stress", 1e-7, x=s)
    rising(gd, "Digby shear modulus with stress", 1e-7, x=s)
    a = [[float(np.squeeze(q)) for q in call("GM.Digby", K0, G0, phic, Cn, sigma, x)] for x in ticks(0, .3, seed, 9)]
    rising([q[0] for q in a], "Digby bulk modulus with bonding", 1e-6, x=ticks(0, .3, seed, 9))
    rising([q[1] for q in a], "Digby shear modulus with bonding", 1e-6, x=ticks(0, .3, seed, 9))


@Rel(P, "C28.sands", dict(CCB, sigma=SG, f=F_, seed=SEED, lay=LAYO, Ksh=R(2, 30), Gsh=R(1, 20)), n_a=80, n_b=12)
def _(K0, G0, Kc, Gc, x, phic, y, Cn, scheme, sigma, f, seed, lay, Ksh, Gsh):
    pack = call("GM.hertzmindlin", K0, G0, phic, Cn, sigma, f)
    phi = ticks(0, phic, seed)
    if pack[0] < K0 and pack[1] < G0:
        c = {}
        for nm in ("softsand", "stiffsand"):
            c[nm] = k, g = along(lambda p: call("GM." + nm, K0, G0, p, phic, Cn, sigma, f), phi, lay)
            falling(k, nm + " bulk modulus with porosity")
            falling(g, nm + " shear modulus with porosity")
            between(pack[0], k, K0, nm + " bulk modulus")
            between(pack[1], g, G0, nm + " shear modulus")
        for i in (0, 1):
            between(0, c["softsand"][i], c["stiffsand"][i], "soft sand above stiff sand", 1e-9)
        s = ticks(sigma / 100, sigma, seed)
        for nm in ("softsand", "stiffsand"):
            k, g = along(lambda q: call("GM." + nm, K0, G0, x * phic, phic, Cn, q, f), s, lay)
            rising(k, nm + " bulk modulus with stress")
            rising(g, nm + " shear modulus with stress")
    pb = y * phic
    cem = call("GM.contactcement", K0, G0, Kc, Gc, pb, phic, Cn, scheme)
    p2 = ticks(0, pb, seed + 1)
    if cem[0] < K0 and cem[1] < G0 and min(cem) > 0:
        c = {}
        for nm, F in (("constant", lambda p: call("GM.constantcement", pb, K0, G0, Kc, Gc, p, phic, Cn, scheme)), ("increasing", lambda p: call("GM.MUHS", K0, G0, Kc, Gc, p, pb, phic, Cn, scheme))):
            c[nm] = k, g = along(F, p2, lay)
            falling(k, nm + " cement: bulk modulus with porosity")
            falling(g, nm + " cement: shear modulus with porosity")
            between(cem[0], k, K0, nm + " cement: bulk modulus")
            between(cem[1], g, G0, nm + " cement: shear modulus")
        for i in (0, 1):
            between(0, c["constant"][i], c["increasing"][i], "constant-cement line above the upper bound")
    # a little cement at the contacts: the more, the stiffer (the fitted polynomial may turn over by a fraction of a per cent)
    q = ticks(.93 * phic, phic, seed + 2)
    k, g = along(lambda p: call("GM.contactcement", K0, G0, Kc, Gc, p, phic, Cn, scheme), q, lay)
    falling(k, "contact cement: bulk modulus with porosity", 1e-2)
    falling(g, "contact cement: shear modulus with porosity", 1e-2)
    cl = ticks(0, 1, seed)
    for nm, F, z in (("silty shale", lambda u: call("GM.silty_shale", u, K0, G0, Ksh, Gsh), 1.0), ("shaly sand", lambda u: call("GM.shaly_sand", phic, u, K0, G0, Ksh, Gsh), phic)):
        k, g = along(F, cl * z, lay)
        for m, a, b in ((k, K0, Ksh), (g, G0, Gsh)):
            between(min(a, b), m, max(a, b), nm)
            (falling if b < a else rising)(m, nm + " with clay content")


@Rel(P, "C28.patchy_cement", dict({k: v for k, v in PCB.items() if k != "mode"}, seed=SEED, lay=LAYO), n_a=80, n_b=12)
def _(f, sigma, K0, G0, x, phic, v_cem, v_ci, Kc, Gc, Cn, scheme, f_, seed, lay):
    kw = dict(sigma=sigma, K0=K0, G0=G0, phic=phic, v_cem=v_cem, v_ci=v_ci, Kc=Kc, Gc=Gc, Cn=Cn, scheme=scheme, f_=f_)
    if not _p_ok(**kw):
        raise Skip()
    at = lambda ff, phi, m: call("GM.pcm", ff, sigma, K0, G0, phi, phic, v_cem, v_ci, Kc, Gc, Cn, m, scheme, f_)
    u = call("GM.hertzmindlin", K0, G0, phic, Cn, sigma, f_)
    c = at(1.0, phic, "stiff")
    if not (u[0] < c[0] < K0 and u[1] < c[1] < G0):
        raise Skip()
    phi = x * phic
    fs = ticks(0, 1, seed)
    end = [at(z, phi, "stiff") for z in (0.0, 1.0)]
    r = {}
    for m in ("stiff", "soft"):
        r[m] = k, g = along(lambda z: at(z, phi, m), fs, lay)
        rising(k, "patchy cement (%s): bulk modulus with the cemented share" % m, 1e-8)
        rising(g, "patchy cement (%s): shear modulus with the cemented share" % m, 1e-8)
        between(end[0][0], k, end[1][0], "patchy cement (%s): bulk modulus" % m, 1e-7)
        between(end[0][1], g, end[1][1], "patchy cement (%s): shear modulus" % m, 1e-7)
        k, g = along(lambda p: at(f, p, m), ticks(0, phic, seed), lay)
        falling(k, "patchy cement (%s): bulk modulus with porosity" % m, 1e-8)
        falling(g, "patchy cement (%s): shear modulus with porosity" % m, 1e-8)
    for i in (0, 1):
        between(0, r["soft"][i], r["stiff"][i], "soft mixing above stiff mixing", 1e-8)
    k, g = along(lambda a: call("GM.vpcm", a, f, sigma, K0, G0, phi, phic, v_cem, v_ci, Kc, Gc, Cn, scheme, f_), fs, lay)
    falling(k, "varying patchy cement: bulk modulus with dilution", 1e-8)
    falling(g, "varying patchy cement: shear modulus with dilution", 1e-8)
    for e in (.5, 1.5):
        w = np.asarray(call("GM.diluting", 1.0, 20.0, ticks(0, 30, seed), e))
        falling(w, "cement dilution with stress")
        between(0, w, 1, "cement dilution")


# ----------------------------------------------------------------- fluids
@Rel(P, "C28.fluids", dict(T=R(20, 120, (50,)), Pp=R(5, 60, (20,)), S=R(0, .3, (0, .1)), G=R(.56, 1.2, (.6,)), den=R(.75, .95), seed=SEED, lay=LAYO, e=Cat(None, 1, 3), x=R(0, 1)), n_a=80, n_b=12)
def _(T, Pp, S, G, den, seed, lay, e, x):
    ps = ticks(5, 60, seed)
    for nm, F in (("brine", lambda p: call("BW.rho_K_brine", T, p, S)), ("water", lambda p: call("BW.rho_K_water", T, p)), ("oil", lambda p: call("BW.rho_K_oil", p, T, den)), ("gas", lambda p: call("BW.rho_K_gas", p, T, G))):
        r, k = along(F, ps, lay)
        require((np.asarray(r) > 0).all() and (np.asarray(k) > 0).all(), nm + ": density or modulus not positive")
        rising(r, nm + ": density with pressure", 1e-6, x=ps)
        rising(k, nm + ": modulus with pressure", 1e-6)
    ss = ticks(0, .3, seed)
    r, k = along(lambda s: call("BW.rho_K_brine", T, Pp, s), ss, lay)
    rising(r, "brine density with salinity", x=ss)
    rising(k, "brine modulus with salinity", 1e-6)
    for nm, F in (("oil", lambda t: call("BW.rho_K_oil", Pp, t, den)), ("brine", lambda t: call("BW.rho_K_brine", t, Pp, S))):
        falling(along(F, ticks(30, 120, seed), lay)[0], nm + ": density with temperature", 1e-6)
    falling(along(lambda t: call("BW.rho_K_oil", Pp, t, den)[1], ticks(20, 120, seed), lay), "oil modulus with temperature", 1e-6)
    s = ticks(0, 1, seed)
    d, k = along(lambda q: call("BW.co2_brine", T, Pp, S, q, e), s, lay)
    b, c = call("BW.co2_brine", T, Pp, S, 0.0, e), call("BW.co2_brine", T, Pp, S, 1.0, e)
    for y, i, m in ((d, 0, "density"), (k, 1, "modulus")):
        between(min(b[i], c[i]), y, max(b[i], c[i]), "CO2-brine " + m)
        (falling if c[i] < b[i] else rising)(y, "CO2-brine %s with CO2 content" % m)


# ----------------------------------------------------------------- reflections, permeability, trends
@Rel(P, "C28.reflections", dict(a=R(1.5, 6), d=R(1.5, 3), r=R(.3, .6), seed=SEED, th=R(0, 50, (0,))), n_a=80, n_b=12)
def _(a, d, r, seed, th):
    b = r * a
    v2 = ticks(1.2, 8, seed, 21)
    out = []
    for q in v2:
        t = (a, b, d, float(q), r * float(q), d)
        R0 = [float(np.squeeze(x)) for x in (call("AVO.zoeppritz", *t, 0.0)[0], call("AVO.AVO_ortho", a, b, 0., 0., 0., 0., 0., d, t[3], t[4], 0., 0., 0., 0., 0., d, 0.0)[0])]
        for z in R0:
            between(-1, z, 1, "normal reflection coefficient")
            require(z * (q - a) >= -1e-12, "sign of the normal reflection")
        out.append(R0)
    for i in (0, 1):
        rising([o[i] for o in out], "normal reflection with the lower medium's velocity")
    vp = np.sort(np.random.default_rng(seed).uniform(2, 6, 8))
    ei = call("AVO.EI_ref", vp, vp * .5, np.full(8, d), np.array([0.0, 20.0]), .5, True)
    for e in ei[:1]:
        require((np.asarray(e) > 0).all(), "elastic impedance not positive")
        rising(np.asarray(e)[:, 0], "elastic impedance with velocity")
        rising(np.asarray(e)[:, 1], "elastic impedance at 20 degrees with velocity")


@Rel(P, "C28.permeability", dict(phi=R(.05, .45, (.2,)), d=R(1, 500, (100,), log=True), seed=SEED, lay=LAYO, b=R(1, 5), S=R(-1, 2), C=R(0, 1), tau=R(1, 5), sw=R(.05, .9), crf=R(0, 1), w=R(.01, 1), pc=R(0, .2, (0, .02))), n_a=80, n_b=12)
def _(phi, d, seed, lay, b, S, C, tau, sw, crf, w, pc):
    p, g = ticks(.01, .5, seed), ticks(1, 500, seed)
    for nm, F in (("Kozeny-Carman", lambda x, y: call("Permeability.Kozeny_Carman", x, y)), ("percolating", lambda x, y: call("Permeability.Kozeny_Carman_Percolation", x, pc, y, 1.0)),
                  ("Panda-Lake", lambda x, y: call("Permeability.Panda_Lake", y, C, S, tau, x)), ("cemented", lambda x, y: call("Permeability.Panda_Lake_cem", x, y)), ("Revil", lambda x, y: call("Permeability.Revil", x, y)),
                  ("Fredrich", lambda x, y: call("Permeability.Fredrich", x, y, b))):
        k = along(lambda x: F(x, d), p, lay)
        if nm != "percolating":                            # negative below its threshold, by its formula
            require((np.asarray(k) >= 0).all(), nm + " permeability negative")
        rising(k, nm + " permeability with porosity", x=p)
        if nm != "percolating" or phi > pc:
            rising(along(lambda y: F(phi, y), g, lay), nm + " permeability with grain size", x=g)
    rising(along(lambda x: call("Permeability.Bernabe", x, crf, w, w), p, lay), "Bernabe permeability with porosity", x=p)
    s = ticks(.05, .9, seed)
    for i in range(4):
        falling(along(lambda z: call("Permeability.Perm_logs", phi, z)[i], s, lay), "log permeability %d with irreducible water" % i, x=s)
        rising(along(lambda z: call("Permeability.Perm_logs", z, sw)[i], p, lay), "log permeability %d with porosity" % i, x=p)
    for i in range(2):
        falling(along(lambda z: call("Permeability.Owolabi", phi, z)[i], s, lay), "Owolabi permeability %d with irreducible water" % i, x=s)
        require((np.asarray(along(lambda z: call("Permeability.Owolabi", z, sw)[i], p, lay)) > 0).all() if sw < .87 else True, "Owolabi permeability not positive")


@Rel(P, "C28.trends", dict(seed=SEED, lay=LAYO, vsh=R(0, 1, (0, 1)), phi=R(.02, .35), C=R(0, .5)), n_a=60, n_b=10)
def _(seed, lay, vsh, phi, C):
    z = ticks(0, 5299, seed)
    for nm, t in (("yu_segment_trend", 2e-3), ("Scherbaum", 1e-12), ("Storvoll", 1e-12), ("Hillis", 1e-12), ("Japsen", 2e-3), ("hjelstuen", 1e-12)):
        v = along(lambda q: call("Empirical." + nm, q), z, lay)
        rising(v, nm + " velocity with depth", t)
        between(1400, v, 12000, nm + " velocity")
    for nm, F in (("ehrenberg", lambda q: call("Empirical.ehrenberg", q)), ("Ramm", lambda q: call("Empirical.ramm_porosity", q)), ("Ramm, second formation", lambda q: call("Empirical.ramm_porosity", q, False)), ("Ramm segments", lambda q: call("Empirical.ramm_porosity_segment", q))):
        falling(along(F, z, lay), nm + " porosity with depth", x=z)
    p = ticks(.01, .4, seed)
    for i, w in enumerate(("P", "S")):
        falling(along(lambda q: call("Empirical.han", q, C)[i], p, lay), "Han %s velocity with porosity" % w, x=p)
        falling(along(lambda q: call("Empirical.han", phi, q)[i], p, lay), "Han %s velocity with clay" % w, x=p)
        for k in (1, 2):
            rising(along(lambda q: call("Empirical.empirical_StPeter", q, k)[i], ticks(0, 1, seed), lay), "St Peter %s velocity with pressure" % w, x=ticks(0, 1, seed))
    falling(along(lambda q: call("Empirical.Sclater", q), p, lay), "Sclater depth with porosity", x=p)
    falling(along(lambda q: call("Empirical.Cp", q), p, lay), "coordination number with porosity", x=p)
    vp = ticks(1500, 8000, seed)
    vs = along(lambda q: call("Empirical.esti_VS", q, vsh), vp, lay)
    rising(vs, "estimated S velocity with P velocity", x=vp)
    between(0, vs, vp * np.sqrt(3) / 2, "estimated S velocity")
    b = np.array([along(lambda q: call("Empirical.esti_VS", q, e), vp, lay) for e in (0.0, 1.0)])
    between(b.min(0), vs, b.max(0), "estimated S velocity between sand and shale")


# ----------------------------------------------------------------- the rest of the toolbox
@Rel(P, "C28.averages", dict(M=Vec(R(1e-3, 300, (37, .02), log=True), 6), M2=Vec(R(1e-3, 200, (44,), log=True), 6), fr=FR, n=I(1, 5), seed=SEED), n_a=120, n_b=15)
def _(M, M2, fr, n, seed):
    K, G, X = np.array(M[:n]), np.array(M2[:n]), fracs(fr, n)
    for A in (K, G):
        V, R_, H = [float(np.squeeze(x)) for x in call("EM.VRH", X, A)]
        between(A.min(), R_, A.max(), "Reuss average")
        between(R_, V, A.max(), "Voigt average")
        between(R_, H, V, "Hill average")
        # stiffening one phase stiffens every average
        B = A.copy()
        B[seed % n] *= 1.5
        for a, b in zip((V, R_, H), call("EM.VRH", X, B)):
            require(float(np.squeeze(b)) >= a * (1 - 1e-12), "stiffer phase, softer average")
    if n < 2:
        return
    f = ticks(0, 1, seed)
    k, g = {}, {}
    for b in ("upper", "lower"):
        k[b], g[b] = [np.asarray(q) for q in call("EM.HS", f, K[0], K[1], G[0], G[1], b)]
        for y, A in ((k[b], K), (g[b], G)):
            (rising if A[0] >= A[1] else falling)(y, "Hashin-Shtrikman %s with the first phase" % b)
            v = np.stack([np.asarray(call("EM.VRH", np.stack([f, 1 - f], -1), A[:2])[i]) for i in (0, 1)])
            between(v[1], y, v[0], "Hashin-Shtrikman %s between Reuss and Voigt" % b)
    # 'upper' is the one with the first phase as shell; it is the stiffer one when that phase is stiffer
    up, lo = ("upper", "lower") if G[0] >= G[1] else ("lower", "upper")
    between(0, k[lo], k[up], "bulk bounds crossed")
    if (K[0] - K[1]) * (G[0] - G[1]) >= 0:
        between(0, g[lo], g[up], "shear bounds crossed")


@Rel(P, "C28.dilute_and_critical", dict(K=R(5, 150, (37,)), r=R(.6, 4), fk=R(0, 3, (0, 1, .05)), fg=R(0, 3, (0, 1, .05)), seed=SEED, lay=LAYO, al=R(.0005, .2, (.01,), log=True), Kf=R(0, 4, (0, 2.2)), phic=R(.3, .6, (.4,)), rho=R(1, 4), rf=R(.01, 1.2)), n_a=80, n_b=12)
def _(K, r, fk, fg, seed, lay, al, Kf, phic, rho, rf):
    G = K / r
    Ki, Gi = fk * K, fg * G
    f = ticks(0, .4, seed)
    if abs(fk - 1) > 1e-3 and abs(fg - 1) > 1e-3:
        s = along(lambda x: call("EM.SC_dilute", K, G, Ki, Gi, x, "stress"), f, lay)
        e = along(lambda x: call("EM.SC_dilute", K, G, Ki, Gi, x, "strain"), f, lay)
        for i, (q, nm) in enumerate(((fk, "bulk"), (fg, "shear"))):
            for w in (s, e):
                (rising if q > 1 else falling)(w[i], "dilute %s modulus with inclusions" % nm)
            # stress prescribed: 1/(1 + x) is never below strain prescribed: 1 - x
            between(np.asarray(e[i]), np.asarray(s[i]), np.inf, "dilute %s modulus for given stress" % nm, 1e-9, 1.0)
    M = along(lambda p: call("EM.MT_average", 1 - p, K, G, K, G, Ki, Gi), f, lay)
    for i, (q, nm) in enumerate(((fk, "bulk"), (fg, "shear"))):
        (rising if q > 1 else falling)(M[i], "Mori-Tanaka %s modulus with inclusions" % nm)
    for b in ("upper", "lower"):
        if b == "lower" and min(Ki, Gi) <= 0:
            continue
        h = along(lambda p: call("EM.HS", 1 - p, K, Ki, G, Gi, b), ticks(0, 1, seed + 1), lay)
        if (fk - 1) * (fg - 1) > 0:
            for i, (q, nm) in enumerate(((fk, "bulk"), (fg, "shear"))):
                (rising if q > 1 else falling)(h[i], "Hashin-Shtrikman %s %s modulus with the second phase" % (b, nm))
    if Ki > 0:
        c = float(np.squeeze(call("EM.cripor_reuss", K, Ki, phic)))
        between(min(K, Ki), c, max(K, Ki), "critical-phase modulus")
    d = float(np.squeeze(call("EM.cripor_reuss", rho, rf, phic, True)))
    between(min(rho, rf), d, max(rho, rf), "critical-phase density")
    # aligned cracks
    C0 = np.asarray(call("utils.write_iso", K, G), float)
    kf = min(Kf, .9 * K)
    p = [x * 4 * np.pi / 3 * al * .1 for x in (0, .5, 1)]
    for k in (0.0, kf):
        a = [np.asarray(call("EM.Eshelby_Cheng", K, G, x, al, k, True), float) for x in p]
        # the shear and the 33 response; C11 is a recorded finding
        for i, nm in ((2, "C33"), (3, "C44"), (5, "C66")):
            falling([x[i, i] for x in a], "Eshelby-Cheng %s with porosity" % nm)
            between(0, [x[i, i] for x in a], C0[i, i], "Eshelby-Cheng %s" % nm)
    w = [np.asarray(call("EM.Eshelby_Cheng", K, G, p[2], al, k), float)[1] for k in (0.0, kf / 2, kf)]
    rising(w, "Eshelby-Cheng C33 with the fluid's modulus")


@Rel(P, "C28.patches", dict({k: v for k, v in WB.items() if k != "x"}, seed=SEED), n_a=60, n_b=10)
def _(seed, **b):
    if b["eta2"] > 30 * b["eta1"] or b["eta2"] < b["eta1"] / 3:
        raise Skip()
    d = b_white(dict(b, x=1.0))
    if d["phi"] < .02 or d["sg"] > .85:
        raise Skip()
    fr = d["freq"] * 10.0 ** (2 * ticks(-1, 2, seed, 25))
    order = ("Kdry", "Gdry", "K0", "phi", "rho0", "rhofl1", "rhofl2", "Kfl1", "Kfl2", "eta1", "eta2", "kapa", "a", "sg")
    v, aw, ks = [np.asarray(x) for x in call("Fluid.White_Dutta_Ode", *[d[k] for k in order], fr)]
    Kd, G, K0, phi, s = d["Kdry"], d["Gdry"], d["K0"], d["phi"], d["sg"]
    sat = lambda k: call("Fluid.Gassmann", Kd, G, K0, k, phi)[0]
    ka, kb = sat(d["Kfl1"]), sat(d["Kfl2"])
    rho = (1 - phi) * d["rho0"] + phi * (s * d["rhofl1"] + (1 - s) * d["rhofl2"])
    top = np.sqrt((max(ka, kb) + 4 * G / 3) / rho)
    low = np.sqrt((min(ka, kb) + 4 * G / 3) / rho)
    between(low, v / (1e3 if v.max() > 50 * top else 1.0), top, "velocity in a patchy rock between the fully saturated ones", 1e-3)
    require((aw >= -1e-6 * np.abs(fr)).all(), "waves amplified in a patchy rock")


@Rel(P, "C28.substitution", dict(K0=R(10, 150, (37,)), fk=R(.05, .9, (.5,)), r=R(.7, 4), x=R(.05, .95), seed=SEED, lay=LAYO, kf=R(.01, 3, (2.2,), log=True), rf=R(.1, 1.1), rho=R(2, 3)), n_a=80, n_b=12)
def _(K0, fk, r, x, seed, lay, kf, rf, rho):
    Kd, G = fk * K0, fk * K0 / r
    phi = x * (1 - fk)
    if phi < .005:
        raise Skip()
    ks = call("Fluid.Gassmann", Kd, G, K0, kf, phi)[0]
    d = (1 - phi) * rho + phi * rf
    v = call("utils.V", ks, G, d)
    v = [q / (1000.0 if q > 100 else 1.0) for q in v]
    k2 = ticks(.001, 4, seed)
    w = along(lambda q: call("Fluid.Gassmann_vels", v[0], v[1], d, rf, kf, rf, q, K0, phi), k2, lay)
    rising(w[0], "substituted P velocity with the fluid's modulus", 1e-8)
    between(.999999 * v[1], np.asarray(w[1]) * np.ones(k2.size), 1.000001 * v[1], "S velocity with the fluid's modulus")
    up, dn = call("Fluid.Gassmann_vels", v[0], v[1], d, rf, kf, rf, 2 * kf, K0, phi), call("Fluid.Gassmann_vels", v[0], v[1], d, rf, kf, rf, kf / 2, K0, phi)
    between(dn[0], v[0], up[0], "P velocity before and after substitution", 1e-8)
    w = along(lambda q: call("Fluid.Gassmann_vels", v[0], v[1], d, rf, kf, q, kf, K0, phi), ticks(0, 1.2, seed), lay)
    falling(w[0], "substituted P velocity with the fluid's density", 1e-9)
    falling(w[1], "substituted S velocity with the fluid's density", 1e-9)
    M, M0 = ks + 4 * G / 3, K0 + 4 * K0 / r / 3
    if M / (M0 - M) - kf / (phi * (M0 - kf)) > 0:          # else the approximation itself has a pole
        m = along(lambda q: call("Fluid.Gassmann_approx", M, M0, kf, phi, q), k2, lay)
        rising(m, "approximately substituted modulus with the fluid's", 1e-8)
        between(0, m, M0, "approximately substituted modulus", 1e-9)
    K, g = call("utils.M_from_V", d, v[0] * 1000, v[1] * 1000)
    between(.999999 * ks, K, 1.000001 * ks, "bulk modulus from velocities")


@Rel(P, "C28.gases_and_gassy_oil", dict(T=R(20, 150, (50,)), P_=R(3, 60, (20,)), G=R(.56, 1.2, (.6,)), den=R(.78, .9), seed=SEED, lay=LAYO, Rg=R(0, 150, (0,))), n_a=60, n_b=10)
def _(T, P_, G, den, seed, lay, Rg):
    ps, ts = ticks(3, 60, seed), ticks(20, 150, seed + 1)
    for nm, F in (("gas", lambda p, t: call("BW.rho_K_gas", p, t, G)), ("CO2", lambda p, t: call("BW.rho_K_co2", p, t, 1.5349))):
        r = along(lambda p: F(p, T), ps, lay)[0]
        if nm == "gas":
            rising(r, "gas density with pressure", 1e-6)
            falling(along(lambda t: F(P_, t), ts, lay)[0], "gas density with temperature", 1e-6)
            require((np.asarray(r) < .75).all() and (np.asarray(r) > 0).all(), "gas as heavy as a liquid")
        require((np.asarray(r) > 0).all(), nm + " density not positive")
    Ta, pr, tr = call("BW.pseudo_p_t", P_, T, G)
    require(Ta > T and pr > 0 and tr > 0, "pseudo-reduced conditions")
    rising(along(lambda p: call("BW.pseudo_p_t", p, T, G)[1], ps, "scalar"), "pseudo-reduced pressure with pressure")
    rising(along(lambda t: call("BW.pseudo_p_t", P_, t, G)[2], ts, "scalar"), "pseudo-reduced temperature with temperature")
    gs = ticks(0, 150, seed + 2)
    d, k = along(lambda g: call("BW.rho_K_go", P_, T, den, G, g), gs, "scalar")
    falling(d, "oil density with dissolved gas", 1e-6)
    falling(k, "oil modulus with dissolved gas", 1e-6)
    require((d > .3).all() and (k > 0).all(), "oil with gas without density or modulus")
    v = along(lambda s: call("BW.v_brine", T if T < 120 else 60., P_, s), ticks(0, .3, seed), lay)
    rising(v, "brine velocity with salinity")
    w = along(lambda p: call("BW.v_water", T if T < 120 else 60., p), ps, lay)
    rising(w, "water velocity with pressure")
    between(1350, w, 1900, "water velocity")


@Rel(P, "C28.templates", dict(SCB, seed=SEED), n_a=50, n_b=8, n_sc=8)
def _(seed, **b):
    a = b_sc(b)
    if not _sc_ok(**a):
        raise Skip()
    for k in ("D", "K", "G"):
        lo, hi = min(a[k + "sh"], a[k + "qz"]), max(a[k + "sh"], a[k + "qz"])
        c = a[k + "c"]
        p0 = np.linspace(1e-6, a["phi_c"], 15)
        p0 = p0[1 - a["phi_c"] - a["vsh"] >= 0] if 1 - a["phi_c"] - a["vsh"] >= 0 else p0[:0]
        if p0.size:
            x = np.ravel(call("QI.den_matrix" if k == "D" else "QI.matrix_modulus", a["vsh"], a["phi_c"], p0, a[k + "sh"], a[k + "qz"], c))
            between(min(lo, c), x, max(hi, c), "matrix between its minerals")
    phi, p1, p2, p3, s1, s2, s3 = call("QI.screening", *[a[k] for k in SCO])
    K0, G0 = [float(np.squeeze(call("EM.VRH", np.array([a["vsh"], 1 - a["vsh"]]), np.array([a[k + "sh"], a[k + "qz"]]))[2])) for k in "KG"]
    pk = call("GM.hertzmindlin", K0, G0, a["phi_c"], a["Cn"], a["sigma"], a["f"])
    cm = call("GM.contactcement", K0, G0, a["Kc"], a["Gc"], a["phib_p"], a["phi_c"], a["Cn"], a["scheme"])
    D0 = a["vsh"] * a["Dsh"] + (1 - a["vsh"]) * a["Dqz"]
    if not (0 < pk[0] < K0 and 0 < pk[1] < G0 and 0 < cm[0] < K0 and 0 < cm[1] < G0 and a["Kb"] < K0):
        raise Skip()
    ok = np.isfinite(p2)
    sb = call("GM.softsand", K0, G0, a["phib_p"], a["phi_c"], a["Cn"], a["sigma"], a["f"])
    if cm[0] > sb[0] and cm[1] > sb[1]:
        between(0, p1[ok], p2[ok], "lower bound above the cement curve (P)", 1e-6)
        between(0, s1[ok], s2[ok], "lower bound above the cement curve (S)", 1e-6)
    for v in (p1, p2[ok]):
        require((v > 0).all(), "velocity not positive")
    if a["Db"] < D0:
        # the shear modulus falls along each curve; with density the velocity may still rise, the modulus may not
        rho = D0 * (1 - phi) + a["Db"] * phi
        for v, w in ((s1, "lower"), (s2, "upper")):
            g = (rho * v ** 2)[np.isfinite(v)]
            falling(g, "shear modulus along the %s curve" % w, 1e-9)
        for v, u, w in ((p1, s1, "lower"), (p2, s2, "upper")):
            k = (rho * (v ** 2 - 4 * u ** 2 / 3))[np.isfinite(v)]
            falling(k, "saturated modulus along the %s curve" % w, 1e-7)


@Rel(P, "C28.constant_cement_lines", dict(CCB, Ksh=R(5, 30), Gsh=R(3, 20), vsh=R(0, .4, (0,)), Kb=R(.5, 3), Db=R(.9, 1.1), seed=SEED), n_a=50, n_b=10)
def _(K0, G0, Kc, Gc, x, phic, y, Cn, scheme, Ksh, Gsh, vsh, Kb, Db, seed):
    args = lambda pb, phi: (2.65, K0, G0, 2.6, Ksh, Gsh, 2.65, Kc, Gc, Db, Kb, pb, phic, vsh, phi, scheme)
    km = float(np.squeeze(call("EM.VRH", np.array([vsh, 1 - vsh]), np.array([Ksh, K0]))[2]))
    gm = float(np.squeeze(call("EM.VRH", np.array([vsh, 1 - vsh]), np.array([Gsh, G0]))[2]))
    pb = (.8 + .19 * x) * phic
    c = call("GM.contactcement", km, gm, Kc, Gc, pb, phic, call("Empirical.Cp", phic), scheme)
    if not (Kb < c[0] < km and 0 < c[1] < gm):
        raise Skip()
    phi = ticks(.01 * pb, pb, seed)
    v = [np.asarray(q) for q in call("QI.cal_v_const", *args(pb, phi))]
    rho = (1 - phi) * (2.6 * vsh + 2.65 * (1 - vsh)) + phi * Db
    falling(rho * v[1] ** 2, "shear modulus along a constant-cement line", 1e-9)
    falling(rho * (v[0] ** 2 - 4 * v[1] ** 2 / 3), "saturated modulus along a constant-cement line", 1e-7)
    D = call("GM.ThomasStieber", phic, .2, ticks(0, 1, seed))
    require((np.asarray(D[0]) <= np.asarray(D[1]) + 1e-12).all() if phic >= .2 else True, "dispersed clay leaves more porosity than laminated clay")
    falling(np.asarray(D[1]), "porosity of a laminated sand with clay")


@Rel(P, "C28.angles", dict(a=R(1.5, 6), d=R(1.5, 3), r=R(.3, .6), q=R(.97, 1.03), e=R(-.03, .03), seed=SEED), n_a=80, n_b=12)
def _(a, d, r, q, e, seed):
    t = (a, a * q, r * a, r * a * q * (1 + e), d, d * (1 + e))
    th = ticks(0, 40, seed, 21)
    pp, ps, r0, g = [np.asarray(z, float) for z in call("AVO.Aki_Richards", th, *t)]
    Z = t[1] * t[5] - t[0] * t[4]
    require(np.ravel(r0)[0] * Z >= -1e-9, "sign of the intercept")
    require(abs(np.ravel(ps)[0]) < 1e-12, "conversion at normal incidence")
    # gradient: the more the S velocity grows, the more negative
    gs = along(lambda w: call("AVO.Aki_Richards", 20.0, t[0], t[1], t[2], w, t[4], t[5])[3], ticks(.97 * t[2], 1.03 * t[2], seed), "scalar")
    falling(gs, "gradient with the lower S velocity", 1e-9)
    A = np.array(along(lambda w: call("AVO.AVO_abe", t[0], t[2], t[4], w, t[3], t[5])[0], ticks(.9 * t[0], 1.1 * t[0], seed), "scalar"))
    rising(A, "intercept with the lower P velocity", 1e-9)
    C1 = np.asarray(call("utils.write_iso", d * (a ** 2 - 4 / 3 * (r * a) ** 2), d * (r * a) ** 2), float)
    C2 = C1 * q
    R_ = np.asarray(call("AVO.AVO_HTI", d, d, C1, C2, np.array([0.0, 10.0]), np.array([0.0, 60.0])), float)
    require((R_[:, 0] * (q - 1) >= -1e-15).all() and np.ptp(R_[:, 0]) < 1e-12, "normal reflection of a fractured medium")
