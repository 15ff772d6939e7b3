"""C18 isotropic reflectivity and elastic impedance, C19 anisotropic reflectivity."""
import numpy as np

from .engine import (MISSING, Cat, I, R, Rel, Skip, Spec, Vec, Violation, agree, call, note_known, require,
                     require_agree)

VP = R(1000, 8000, (2000, 2500, 4400))
RV = R(.05, .7, (.5,))
RHO = R(500, 5000, (2200, 2500))
TH = R(-85, 85, (0, 10, 30, 45, 60))
rad = np.deg2rad

# ----------------------------------------------------------------- C18
LAY = dict(vp1=VP, r1=RV, d1=RHO, vp2=R(1000, 8000, (3000, 2500), eq=("vp1",)), r2=R(.05, .7, (.5,), eq=("r1",)), d2=R(500, 5000, (2300,), eq=("d1",)))


def solve_zoep(vp1, vs1, rho1, vp2, vs2, rho2, theta):
    """Exact PP and PS reflection from the boundary conditions: continuity of displacement and traction, plane by plane."""
    th = np.atleast_1d(np.asarray(theta, float))
    out = np.empty((2, th.size))
    vp1, vs1, rho1, vp2, vs2, rho2 = [np.broadcast_to(np.asarray(x, float), th.shape).ravel() for x in (vp1, vs1, rho1, vp2, vs2, rho2)]
    for k, t in enumerate(th.ravel()):
        p = np.sin(rad(t)) / vp1[k]
        with np.errstate(all="ignore"):
            qa1, qb1, qa2, qb2 = [np.sqrt(1 / v ** 2 - p * p) for v in (vp1[k], vs1[k], vp2[k], vs2[k])]
        if not np.isfinite([qa1, qb1, qa2, qb2]).all():
            out[:, k] = np.nan
            continue

        def mode(rho, vs, px, pz, ux, uz, lam2mu):
            mu = rho * vs * vs
            lam = lam2mu - 2 * mu
            return [ux, uz, mu * (ux * pz + uz * px), lam * (ux * px + uz * pz) + 2 * mu * uz * pz]
        m1, m2 = rho1[k] * vp1[k] ** 2, rho2[k] * vp2[k] ** 2
        inc = mode(rho1[k], vs1[k], p, qa1, vp1[k] * p, vp1[k] * qa1, m1)
        rp = mode(rho1[k], vs1[k], p, -qa1, vp1[k] * p, -vp1[k] * qa1, m1)
        rs = mode(rho1[k], vs1[k], p, -qb1, vs1[k] * qb1, vs1[k] * p, m1)
        tp = mode(rho2[k], vs2[k], p, qa2, vp2[k] * p, vp2[k] * qa2, m2)
        ts = mode(rho2[k], vs2[k], p, qb2, vs2[k] * qb2, -vs2[k] * p, m2)
        A = np.array([rp, rs, [-x for x in tp], [-x for x in ts]]).T
        s = np.array([1, 1, 1e-6, 1e-6])
        x = np.linalg.solve(A * s[:, None], -np.array(inc) * s)
        out[:, k] = x[0], x[1]
    shp = np.shape(theta)
    return out[0].reshape(shp), out[1].reshape(shp)


def zoep_f11(vp1, vs1, rho1, vp2, vs2, rho2, theta):
    """What the code computes today (recorded defect F11)."""
    theta = np.asarray(theta, float)
    p = np.sin(theta) / vp1
    c = lambda v: np.cos(np.arcsin(p * v))
    i1, i2, j1, j2 = np.cos(rad(theta)) / vp1, c(vp2) / vp2, c(vs1) / vs1, c(vs2) / vs2
    s1, s2 = (p * vs1) ** 2, (p * vs2) ** 2
    a = rho2 * (1 - 2 * s2) - rho1 * (1 - 2 * s1)
    b = rho2 * (1 - 2 * s2) + 2 * rho1 * s1
    cc = rho1 * (1 - 2 * s1) + 2 * rho2 * s2
    d = 2 * (rho2 * vs2 ** 2 - rho1 * vs1 ** 2)
    H = a - d * i2 * j2
    E, F, G = b * i1 + cc * i2, b * j1 + cc * j2, a - d * i1 * j2
    D = E * F + G * H * p ** 2
    return ((b * i1 - cc * i2) * F - (a + d * i1 * j2) * H * p ** 2) / D, -2 * i1 * (a * b + cc * d * i2 * j2) * p * vp1 / (vs1 * D)


def zoep_ok(vp1, vs1, rho1, vp2, vs2, rho2, theta):
    s = np.abs(np.sin(rad(theta))) / vp1
    w = np.abs(np.sin(np.asarray(theta, float))) / vp1
    ok = (s * vp2 < .99) & (s * vs2 < .99)
    for v in (vp2, vs1, vs2):
        ok = ok & (np.abs(w * v - 1) > 1e-5)
    return ok


ZO = ("vp1", "vs1", "rho1", "vp2", "vs2", "rho2", "theta")
Spec("C18", "AVO.zoeppritz", dict(LAY, theta=TH), solve_zoep, alt=("F11", zoep_f11),
     build=lambda b: dict(vp1=b["vp1"], vs1=b["r1"] * b["vp1"], rho1=b["d1"], vp2=b["vp2"], vs2=b["r2"] * b["vp2"], rho2=b["d2"], theta=b["theta"]),
     vec=("theta",), lists=("theta",), valid=zoep_ok, rtol=1e-7, floor=1e-9, csens=1e-1, n_a=200, n_b=60, n_pts=40, no=("nan",))


def _aki(theta, vp1, vp2, vs1, vs2, den1, den2):
    t = rad(theta)
    a, b, r = (vp1 + vp2) / 2, (vs1 + vs2) / 2, (den1 + den2) / 2
    da, db, dr = (vp2 - vp1) / a, (vs2 - vs1) / b, (den2 - den1) / r
    g = (b / a) ** 2
    pp = .5 * (1 - 4 * g * np.sin(t) ** 2) * dr + da / (2 * np.cos(t) ** 2) - 4 * g * np.sin(t) ** 2 * db
    p = np.sin(t) / vp1
    cj = np.sqrt(1 - (p * vs1) ** 2)
    x = b * np.cos(t) / a * cj
    ps = -p * a / (2 * cj) * ((1 - 2 * (b * p) ** 2 + 2 * x) * dr - 4 * ((b * p) ** 2 - x) * db)
    z = 0 * pp
    return pp, ps, (dr + da) / 2 + z, da / 2 - 4 * g * db - 2 * g * dr + z


def b_aki(b):
    return dict(theta=b["theta"], vp1=b["vp1"], vp2=b["vp2"], vs1=b["r1"] * b["vp1"], vs2=b["r2"] * b["vp2"], den1=b["d1"], den2=b["d2"])


AK = dict(LAY, theta=R(-85, 85, (0, 10, 30, 45, 60)))
Spec("C18", "AVO.Aki_Richards", AK, _aki, build=b_aki, vec=("theta",), lists=("theta",), rtol=1e-8, floor=1e-11, n_a=200, n_b=50, n_pts=60, ints=("theta",), no=("nan",))
Spec("C18", "AVO.AVO_abe", LAY,
     lambda vp1, vs1, d1, vp2, vs2, d2: _abe(vp1, vs1, d1, vp2, vs2, d2),
     build=lambda b: dict(vp1=b["vp1"], vs1=b["r1"] * b["vp1"], d1=b["d1"], vp2=b["vp2"], vs2=b["r2"] * b["vp2"], d2=b["d2"]),
     vec=("vp1", "vs1", "d1", "vp2", "vs2", "d2"), rtol=1e-7, floor=1e-10, csens=1e-2, n_b=60)


def _abe(vp1, vs1, d1, vp2, vs2, d2):
    a, b, r = (vp1 + vp2) / 2, (vs1 + vs2) / 2, (d1 + d2) / 2
    da, db, dr = (vp2 - vp1) / a, (vs2 - vs1) / b, (d2 - d1) / r
    nu = lambda p, s: (p * p - 2 * s * s) / (2 * (p * p - s * s))
    n1, n2 = nu(vp1, vs1), nu(vp2, vs2)
    n = (n1 + n2) / 2
    A = (da + dr) / 2
    B1 = da / 2 - (dr + 2 * da) * (1 - 2 * n) / (1 - n) + (n2 - n1) / (1 - n) ** 2
    k = b / a
    return (A, B1, da / 2 - 2 * k * k * (dr + 2 * db), -dr / 2 - k * (dr + 2 * db) + k ** 3 * (dr / 2 + db), -2 * vs1 / vp1 * (dr * (.5 + .25 / k) + db))


@Rel("C18", "C18.layer_arrays", dict(LAY, n=I(1, 5), m=I(1, 5), seed=I(0, 10 ** 6), sc=Cat(False, True)), n_a=80)
def _(vp1, r1, d1, vp2, r2, d2, n, m, seed, sc):
    rng = np.random.default_rng(seed)
    cols = [np.array([x] * n) * rng.uniform(.8, 1.2, n) for x in (vp1, vp2, r1 * vp1, r2 * vp2, d1, d2)]
    th = 20.0 if sc else rng.uniform(0, 50, m)
    got = call("AVO.Aki_Richards", th, *[c.copy() for c in cols])
    for i in range(n):
        w = _aki(th, *[float(c[i]) for c in cols])
        for j in (0, 1):
            require_agree(np.asarray(got[j]).reshape(n, -1)[i], np.atleast_1d(w[j]), "layer %d of %d, output %d" % (i, n, j), rtol=1e-8, scale=1e-3)
        for j in (2, 3):
            require_agree(np.asarray(got[j]).ravel()[i], np.atleast_1d(w[j])[0], "layer %d of %d, output %d" % (i, n, j), rtol=1e-8, scale=1e-3)


@Rel("C18", "C18.consistency", dict(LAY, theta=R(0, 40, (0, 20)), eps=R(-1, 1), eps2=R(-1, 1), eps3=R(-1, 1)))
def _(vp1, r1, d1, vp2, r2, d2, theta, eps, eps2, eps3):
    vs1, vs2 = r1 * vp1, r2 * vp2
    A, B1, B2, E1, E2 = call("AVO.AVO_abe", vp1, vs1, d1, vp2, vs2, d2)
    pp, ps, R0, grad = call("AVO.Aki_Richards", theta, vp1, vp2, vs1, vs2, d1, d2)
    require_agree(A, R0, "intercepts differ", rtol=1e-9, scale=1e-2)
    require_agree(B2, grad, "Castagna gradient differs from Aki-Richards", rtol=1e-9, scale=1e-2)
    n = call("AVO.Aki_Richards", theta, vp1, vp1, vs1, vs1, d1, d1)
    require(np.allclose([float(x) for x in n], 0, atol=1e-12), "reflection without contrast")
    z = call("AVO.zoeppritz", vp1, vs1, d1, vp2, vs2, d2, 0.0)
    require_agree(z[0], (vp2 * d2 - vp1 * d1) / (vp2 * d2 + vp1 * d1), "normal incidence", rtol=1e-9, scale=1e-2)
    require(abs(z[1]) < 1e-12, "converted wave at normal incidence")
    # small contrasts: half the logarithmic change of elastic impedance is the reflectivity
    h = 1e-4
    q = [(vp1, vp1 * (1 + h * eps)), (vs1, vs1 * (1 + h * eps2)), (d1, d1 * (1 + h * eps3))]
    Vp, Vs, D = [np.array(x) for x in q]
    ei = call("AVO.EI_ref", Vp, Vs, D, np.array([theta]), r1, True)[0]
    ref = call("AVO.Aki_Richards", theta, Vp[0], Vp[1], Vs[0], Vs[1], D[0], D[1])[0]
    require_agree(.5 * np.log(ei[1, 0] / ei[0, 0]), ref, "elastic impedance contrast is not the reflectivity", rtol=1e-2, scale=h * 1e-1)
    # linearised slope of the converted wave, up to the choice of background
    sl = call("AVO.Aki_Richards", .01, Vp[0], Vp[1], Vs[0], Vs[1], D[0], D[1])[1] / np.sin(rad(.01))
    require_agree(sl, call("AVO.AVO_abe", Vp[0], Vs[0], D[0], Vp[1], Vs[1], D[1])[4], "converted-wave slope", rtol=1e-2, scale=h * 1e-1)


def _ei(Vp, Vs, rho, theta, SP, norm=True):
    """Rows: samples, columns: angles."""
    Vp, Vs, rho = [np.atleast_1d(np.asarray(x, float))[:, None] for x in (Vp, Vs, rho)]
    t = rad(np.atleast_1d(np.asarray(theta, float)))[None, :]
    s = np.sin(t)
    js = np.arcsin(s * Vs / Vp)
    z, w = np.sin(js), np.cos(js)
    if norm:
        ip, iS = Vp.mean() * rho.mean(), Vs.mean() * rho.mean()
        Vp, Vs, rho = Vp / Vp.mean(), Vs / Vs.mean(), rho / rho.mean()
    else:
        ip = iS = 1.0
    la, lb, lr = np.log(Vp), np.log(Vs), np.log(rho)
    e = lambda i, A, B, C: i * np.exp(A * la + B * lb + C * lr)
    k = SP * SP
    c1 = np.sqrt(1 - k * s * s)
    c2 = np.sqrt(1 - z * z / k)
    return (e(ip, 1 / np.cos(t) ** 2, -8 * k * s ** 2, 1 - 4 * k * s ** 2),
            e(ip, 0, 4 * s * (k * s * s / c1 - SP * np.cos(t)), -s * ((1 - 2 * k * s * s) / c1 + 2 * SP * np.cos(t))),
            e(iS, 0, 4 * z * (z * z / c2 - SP * w), -z * ((1 - 2 * z * z) / c2 + 2 * SP * w)),
            e(iS, 0, 8 * z * z - 1 / w ** 2, 4 * z * z - 1), e(iS, 0, np.tan(js) ** 2 - 1, -1))


@Rel("C18", "C18.impedance_of_long_logs", dict(seed=I(0, 10 ** 9), n=I(1, 400), m=I(1, 60), SP=R(.4, .9, (.5,)), norm=Cat(True, False)), n_a=60, n_b=12)
def _(seed, n, m, SP, norm):
    rng = np.random.default_rng(seed)
    vp, d, th = rng.uniform(1500, 6500, n), rng.uniform(1.5, 3, n), rng.uniform(0, 40, m)
    vs = vp * rng.uniform(.3, .6, n)
    if .6 * .65 > .95 * SP:
        raise Skip()
    got = call("AVO.EI_ref", vp, vs, d, th, SP, norm)
    for i, (g, w) in enumerate(zip(got, _ei(vp, vs, d, th, SP, norm))):
        require(np.shape(g) == w.shape, "impedance %d: shape %s for %d samples and %d angles" % (i, np.shape(g), n, m))
        require_agree(g, w, "impedance %d (pp, psv, svp, svsv, shsh) of a log" % i, rtol=1e-8)


@Rel("C18", "C18.elastic_impedance", dict(vp=Vec(VP, (1, 6)), r=Vec(R(.2, .7), 6), d=Vec(R(.8, 6), 6), th=Vec(R(-50, 55, (0, 30, 45)), (1, 5)), SP=R(.4, .9, (.5,)), norm=Cat(True, False, MISSING), kind=Cat("arr", "arr", "scalar", "th0", "list", "int", "named"), km=Cat(False, False, True)), n_a=250, n_b=30)
def _(vp, r, d, th, SP, norm, kind, km):
    vp = np.array(vp) / (1000 if km else 1)
    n = vp.size
    vs, d = vp * np.array(r[:n]), np.array(d[:n])
    if kind == "int":
        vp, vs, d, th = [np.maximum(1, np.rint(x)).astype(int) for x in (vp * (1000 if km else 1), vs * (1000 if km else 1), d)] + [[int(round(t)) for t in th]]
    if np.any(vs / vp * np.sin(rad(max(abs(t) for t in th))) > .95 * SP):
        raise Skip()
    a = () if norm == MISSING else (norm,)
    nn = norm if norm != MISSING else True
    if kind in ("arr", "list", "int"):
        got = call("AVO.EI_ref", vp, vs, d, th if kind == "list" else np.array(th), SP, *a)
        want = _ei(vp, vs, d, th, SP, nn)
        for g, w in zip(got, want):
            require(np.shape(g) == w.shape, "shape %s for %d samples and %d angles" % (np.shape(g), n, len(th)))
    elif kind == "named":
        got = call("AVO.EI_ref", Vp=vp, Vs=vs, rho=d, theta=np.array(th), SP=SP, norm=nn)
        want = _ei(vp, vs, d, th, SP, nn)
    elif kind == "th0":
        got = call("AVO.EI_ref", vp, vs, d, th[0], SP, *a)
        want = _ei(vp, vs, d, th[0], SP, nn)
    else:
        got = call("AVO.EI_ref", float(vp[0]), float(vs[0]), float(d[0]), np.array(th), SP, *a)
        want = _ei(vp[0], vs[0], d[0], th, SP, nn)
    require(len(got) == 5, "five impedances")
    for i, (g, w) in enumerate(zip(got, want)):
        require_agree(np.asarray(g).ravel(), w.ravel(), "impedance %d (pp, psv, svp, svsv, shsh)" % i, rtol=1e-8)
    z = call("AVO.EI_ref", vp, vs, d, np.array([0.0]), SP, True)
    require_agree(np.asarray(z[0]).ravel(), vp * d, "normalised impedance at normal incidence is not rho*Vp", rtol=1e-9)


# ----------------------------------------------------------------- C19
OB = dict(a1=R(2, 6, (3,)), r1=RV, e11=R(-.3, .3, (0,)), d11=R(-.3, .3, (0,)), e12=R(-.3, .3, (0,)), d12=R(-.3, .3, (0,)), g1=R(-.2, .3, (0,)), rho1=R(1.5, 3, (2.2,)),
          a2=R(2, 6, (3,), eq=("a1",)), r2=RV, e21=R(-.3, .3, (0,)), d21=R(-.3, .3, (0,)), e22=R(-.3, .3, (0,)), d22=R(-.3, .3, (0,)), g2=R(-.2, .3, (0,)), rho2=R(1.5, 3, (2.2,), eq=("rho1",)),
          the=R(0, 60, (0, 30)))


def b_or(b):
    o = {}
    for k, v in b.items():
        if k in ("r1", "r2"):
            o["b" + k[1]] = v * b["a" + k[1]]
        else:
            o[k] = v
    return o


def _ortho(a1, b1, e11, d11, e12, d12, g1, rho1, a2, b2, e21, d21, e22, d22, g2, rho2, the):
    t = rad(the)
    s2 = np.sin(t) ** 2
    st = s2 * np.tan(t) ** 2
    z1, z2 = rho1 * a1, rho2 * a2
    m1, m2 = rho1 * b1 ** 2, rho2 * b2 ** 2
    k = 4 * ((b1 + b2) / (a1 + a2)) ** 2
    va = 2 * (a2 - a1) / (a1 + a2)
    iso = (z2 - z1) / (z2 + z1) + .5 * va * (s2 + st) - k * (m2 - m1) / (m1 + m2) * s2
    return iso + (.5 * (d22 - d12) + k * (g2 - g1)) * s2 + .5 * (e22 - e12) * st, iso + .5 * (d21 - d11) * s2 + .5 * (e21 - e11) * st


Spec("C19", "AVO.AVO_ortho", OB, _ortho, build=b_or, vec=tuple(b_or({k: 1. for k in OB})), rtol=1e-8, floor=1e-11, n_b=80, ints=("the",), n_a=250)


def hti(a, r, eps, dl, gam, rho):
    """HTI stiffness (symmetry axis x1) with given vertical velocities and anisotropy."""
    c33 = rho * a * a
    c44 = rho * (r * a) ** 2
    c55 = c44 / (1 + 2 * gam)
    c11 = c33 * (1 + 2 * eps)
    c13 = np.sqrt(2 * dl * c33 * (c33 - c55) + (c33 - c55) ** 2) - c55
    C = np.zeros((6, 6))
    C[0, 0], C[1, 1], C[2, 2] = c11, c33, c33
    C[0, 1] = C[1, 0] = C[0, 2] = C[2, 0] = c13
    C[1, 2] = C[2, 1] = c33 - 2 * c44
    C[3, 3], C[4, 4], C[5, 5] = c44, c55, c55
    return C


def dv(C):
    return ((C[0, 2] + C[4, 4]) ** 2 - (C[2, 2] - C[4, 4]) ** 2) / (2 * C[2, 2] * (C[2, 2] - C[4, 4]))


HB = dict(a1=R(2, 6), r1=R(.3, .6), e1=R(-.3, .3, (0,)), d1=R(-.2, .3, (0,)), g1=R(-.15, .3, (0,)), rho1=R(1.5, 3), a2=R(2, 6, eq=("a1",)), r2=R(.3, .6, eq=("r1",)), e2=R(-.3, .3, (0,)), d2=R(-.2, .3, (0,)),
          g2=R(-.15, .3, (0,)), rho2=R(1.5, 3, eq=("rho1",)))


def hti_ref(a1, r1, e1, d1, g1, rho1, a2, r2, e2, d2, g2, rho2, th, az):
    t, f = rad(np.asarray(th, float))[None, :], rad(np.asarray(az, float))[:, None]
    C2f, S2f = np.cos(f) ** 2, np.sin(f) ** 2
    z1, z2 = rho1 * a1, rho2 * a2
    m1, m2 = rho1 * (r1 * a1) ** 2, rho2 * (r2 * a2) ** 2
    k = 4 * ((r1 * a1 + r2 * a2) / (a1 + a2)) ** 2
    va = 2 * (a2 - a1) / (a1 + a2)
    s2 = np.sin(t) ** 2
    return ((z2 - z1) / (z2 + z1) + .5 * (va - 2 * k * (m2 - m1) / (m1 + m2) + (d2 - d1 + 2 * k * (g2 - g1)) * C2f) * s2
            + .5 * (va + (e2 - e1) * C2f ** 2 + (d2 - d1) * S2f * C2f) * s2 * np.tan(t) ** 2)


@Rel("C19", "C19.AVO_HTI", dict(HB, th=Vec(R(-60, 80, (0, 20, 45)), (1, 5)), az=Vec(R(-360, 540, (0, 90, 45, 180)), (1, 5)), kind=Cat("arr", "arr", "list", "scalar", "long", "int"), u=Cat(1, 1, 1000, 1e-3)), n_a=300, n_b=40)
def _(a1, r1, e1, d1, g1, rho1, a2, r2, e2, d2, g2, rho2, th, az, kind, u):
    rho1, rho2 = rho1 * u, rho2 * u
    if kind == "long":
        th, az = np.linspace(min(th), max(th) + 1, 70).tolist(), (az * 30)[:110]
    elif kind == "int":
        th, az = [int(round(t)) for t in th], [int(round(t)) for t in az]
    C1, C2 = hti(a1, r1, e1, d1, g1, rho1), hti(a2, r2, e2, d2, g2, rho2)
    want = hti_ref(a1, r1, e1, d1, g1, rho1, a2, r2, e2, d2, g2, rho2, th, az)
    if not np.isfinite(C1).all() or not np.isfinite(C2).all() or abs(dv(C1) - d1) > 1e-9 or abs(dv(C2) - d2) > 1e-9:
        raise Skip()
    if kind == "scalar":
        got = call("AVO.AVO_HTI", rho1, rho2, C1, C2, th[0], az[0])
        want = want[:1, :1]
    else:
        mk = list if kind == "list" else np.array
        got = call("AVO.AVO_HTI", rho1, rho2, C1, C2, mk(th), mk(az))
    require(np.shape(got) == want.shape, "shape %s for %d azimuths and %d angles" % (np.shape(got), len(az), len(th)))
    require_agree(got, want, "azimuthal reflectivity", rtol=1e-8, scale=1e-2)


@Rel("C19", "C19.symmetry_planes", dict(HB, th=R(0, 55, (0, 20)), az=R(0, 90), h=Cat(1e-4)), n_a=150)
def _(a1, r1, e1, d1, g1, rho1, a2, r2, e2, d2, g2, rho2, th, az, h):
    C1, C2 = hti(a1, r1, e1, d1, g1, rho1), hti(a2, r2, e2, d2, g2, rho2)
    if not np.isfinite(C1).all() or not np.isfinite(C2).all() or abs(dv(C1) - d1) > 1e-9 or abs(dv(C2) - d2) > 1e-9:
        raise Skip()
    f = lambda z: float(np.ravel(call("AVO.AVO_HTI", rho1, rho2, C1, C2, np.array([th]), np.array([z])))[0])
    ra, rb = call("AVO.AVO_ortho", a1, r1 * a1, 0., 0., e1, d1, g1, rho1, a2, r2 * a2, 0., 0., e2, d2, g2, rho2, th)
    require_agree((f(0.), f(90.)), (ra, rb), "HTI in its symmetry planes differs from the orthorhombic formula", rtol=1e-8, scale=1e-2)
    for z in (-az, 180 - az, 180 + az):
        require_agree(f(z), f(az), "azimuths %r and %r are equivalent in HTI" % (z, az), rtol=1e-9, scale=1e-2)
    same = call("AVO.AVO_HTI", rho1, rho1, C1, C1, np.array([th]), np.array([az]))
    require(abs(float(np.ravel(same)[0])) < 1e-12, "reflection without contrast")
    n = f(az) if th == 0 else float(np.ravel(call("AVO.AVO_HTI", rho1, rho2, C1, C2, np.array([0.0]), np.array([az])))[0])
    require_agree(n, (a2 * rho2 - a1 * rho1) / (a2 * rho2 + a1 * rho1), "normal incidence", rtol=1e-9, scale=1e-2)
    # isotropic media, small contrast: Aki-Richards
    b = a1 * (1 + h * e2), r1 * a1 * (1 + h * d2), rho1 * (1 + h * g2)
    iso = call("AVO.AVO_ortho", a1, r1 * a1, 0, 0, 0, 0, 0, rho1, b[0], b[1], 0, 0, 0, 0, 0, b[2], th)
    ak = call("AVO.Aki_Richards", th, a1, b[0], r1 * a1, b[1], rho1, b[2])[0]
    require_agree(iso, (ak, ak), "isotropic small-contrast limit is not Aki-Richards", rtol=1e-2, scale=h * .1)
