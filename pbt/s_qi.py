"""C22 quantitative-interpretation bounds and velocities, C23 cement estimation and the data shown in the plots."""
import numpy as np

from . import boot
from .engine import (MISSING, Cat, I, R, Rel, Skip, Spec, Vec, Violation, agree, call, note_known, require,
                     require_agree)
from .s_fluid import gass
from .s_gm import cc, hm, mix

PC = R(.25, .48, (.36, .4))
VSH = R(0, .5, (0, .1, .3))


def hill(fr, M):
    v = sum(f * m for f, m in zip(fr, M))
    return .5 * (v + 1 / sum(f / m for f, m in zip(fr, M)))


# ----------------------------------------------------------------- C22
def parts(vsh, phi_c, phi_0):
    s = 1 - np.asarray(phi_0, float)
    return vsh / s, (1 - phi_c - vsh) / s, (phi_c - np.asarray(phi_0, float)) / s


def _mm(vsh, phi_c, phi_0, M_sh, M_g, M_c):
    return hill(parts(vsh, phi_c, phi_0), (M_sh, M_g, M_c))


def _dm(vsh, phi_c, phi_0, den_sh, den_g, den_c):
    a, b, c = parts(vsh, phi_c, phi_0)
    return a * den_sh + b * den_g + c * den_c


def b_mat(names):
    def f(b):
        return dict(zip(names, (b["vsh"], b["phi_c"], b["x"] * b["phi_c"], b["sh"], b["g"], b["c"])))
    return f


MM = dict(vsh=VSH, phi_c=PC, x=R(0, 1, (0, 1, .5)), sh=R(3, 30, (15,)), g=R(10, 100, (36.6, 37)), c=R(10, 100, (36.6, 77)))
Spec("C22", "QI.matrix_modulus", MM, _mm, build=b_mat(("vsh", "phi_c", "phi_0", "M_sh", "M_g", "M_c")), vec=("phi_0",), no=("two_d", "broadcast"), rtol=1e-9, n_b=50)
Spec("C22", "QI.den_matrix", dict(MM, sh=R(2, 3, (2.6,)), g=R(2, 4, (2.65,)), c=R(2, 4, (2.65, 2.7))), _dm, build=b_mat(("vsh", "phi_c", "phi_0", "den_sh", "den_g", "den_c")), vec=("phi_0",),
     no=("two_d", "broadcast"), rtol=1e-9, n_b=50)

EL = dict(Dqz=R(2, 3.5, (2.65,)), Kqz=R(15, 80, (36, 36.6)), Gqz=R(15, 60, (45,)), Dsh=R(2, 3, (2.6,)), Ksh=R(3, 30, (21,)), Gsh=R(2, 20, (7,)), Dc=R(2, 3.5, (2.65,), eq=("Dqz",)), Kc=R(20, 80, (36.6,), eq=("Kqz",)),
          Gc=R(15, 50, (45,), eq=("Gqz",)), Db=R(.1, 1.2, (1, 1.05)), Kb=R(.05, 3, (2.2, 2.5)))


def mineral(vsh, Ksh, Kqz):
    return hill((vsh, 1 - vsh), (Ksh, Kqz))


def vel(K, G, rho):
    return 1000 * np.sqrt((K + 4 * G / 3) / rho), 1000 * np.sqrt(G / rho)


def _screen(Dqz, Kqz, Gqz, Dsh, Ksh, Gsh, Dc, Kc, Gc, Db, Kb, phib_p, phi_c, sigma, vsh, scheme, f, Cn):
    K0, G0 = mineral(vsh, Ksh, Kqz), mineral(vsh, Gsh, Gqz)
    D0 = vsh * Dsh + (1 - vsh) * Dqz
    phi = np.linspace(1e-7, phi_c, 100)
    rho = (1 - phi) * D0 + phi * Db
    Kp, Gp = hm(K0, G0, phi_c, Cn, sigma, f)
    k1, g1 = mix(phi / phi_c, Kp, Gp, K0, G0, Kp, Gp)
    v1 = vel(gass(k1, K0, Kb, phi), g1, rho)
    k3, g3 = cc(K0, G0, Kc, Gc, phi, phi_c, Cn, scheme)
    v3 = vel(gass(k3, _mm(vsh, phi_c, phi, Ksh, Kqz, Kc), Kb, phi), g3, (1 - phi) * _dm(vsh, phi_c, phi, Dsh, Dqz, Dc) + phi * Db)
    kb, gb = cc(K0, G0, Kc, Gc, phib_p, phi_c, Cn, scheme)
    k2, g2 = mix(phi / phib_p, kb, gb, K0, G0, K0, G0)
    v2 = vel(gass(k2, K0, Kb, phi), g2, rho)
    lo, hi = phi < phib_p, phi > phib_p
    n = lambda v, m: np.where(m, np.nan, v)
    return phi, v1[0], n(v2[0], hi), n(v3[0], lo), v1[1], n(v2[1], hi), n(v3[1], lo)


SCO = ("Dqz", "Kqz", "Gqz", "Dsh", "Ksh", "Gsh", "Dc", "Kc", "Gc", "Db", "Kb", "phib_p", "phi_c", "sigma", "vsh", "scheme", "f", "Cn")
SCB = dict(EL, y=R(.5, .98, (.75, 1)), phi_c=PC, sigma=R(.1, 200, (10, 20, 60)), vsh=VSH, scheme=Cat(1, 2), f=R(0, 1, (0, .5, 1)), Cn=R(4, 14, (8.6,)))


def b_sc(b):
    b = dict(b)
    b["phib_p"] = b.pop("y") * b["phi_c"]
    return {k: b[k] for k in SCO}


def _sc_ok(**k):
    """Edge of the masked interval not in the rounding neighbourhood of a grid point (the last one, phib_p = phi_c, is exact)."""
    phi = np.linspace(1e-7, k["phi_c"], 100)
    return bool(k["phib_p"] == k["phi_c"] or np.min(np.abs(phi - k["phib_p"])) > 1e-9)


Spec("C22", "QI.screening", SCB, _screen, build=b_sc, rtol=1e-7, csens=1e-1, floor=1e-7, valid=_sc_ok, n_a=200, n_b=30, ints=("sigma", "Kqz", "Gqz"))


def _cst(phi_b, K0, D0, G0, phi, phi_c, Cn, Kc, Gc, Db, Kb, scheme, vsh, Dsh, Dqz, Dc):
    phi = np.asarray(phi, float)
    kb, gb = cc(K0, G0, Kc, Gc, phi_b, phi_c, Cn, scheme)
    k, g = mix(phi / phi_b, kb, gb, K0, G0, kb, gb)
    D = _dm(vsh, phi_c, phi_b, Dsh, Dqz, Dc)
    v = vel(gass(k, K0, Kb, phi), g, (1 - phi) * D + phi * Db)
    return np.where(phi > phi_b, np.nan, v[0]), np.where(phi > phi_b, np.nan, v[1])


CSB = dict(y=R(.5, .99, (.75,)), K0=R(20, 80, (36.6,)), D0=R(2, 3.5), G0=R(15, 60, (45,)), x=R(.01, 1, (.5,), eq=("y",)), phi_c=PC, Cn=R(4, 14, (8.6,)), Kc=R(20, 80, eq=("K0",)), Gc=R(15, 50, eq=("G0",)), Db=EL["Db"],
           Kb=EL["Kb"], scheme=Cat(1, 2), vsh=VSH, Dsh=EL["Dsh"], Dqz=EL["Dqz"], Dc=EL["Dc"])


def b_cst(b):
    b = dict(b)
    y, x = b.pop("y"), b.pop("x")
    o = {"phi_b": y * b["phi_c"]}
    for k, v in b.items():
        if k == "phi_c":
            o["phi"] = x * b["phi_c"]
        o[k] = v
    return o


Spec("C22", "QI.cst_vels", CSB, _cst, build=b_cst, vec=("phi",), nonscalar=True, no=("zero_d", "npscalar", "scalar", "pyint", "nan", "series"), rtol=1e-7, csens=1e-2, n_b=120, n_pts=60,
     valid=lambda phi_b, phi, **k: (np.abs(phi - phi_b) > 1e-9) | (phi == phi_b))


def _cvc(Dqz, Kqz, Gqz, Dsh, Ksh, Gsh, Dc, Kc, Gc, Db, Kb, phi_b, phi_c, vsh, phi, scheme):
    K0, G0 = mineral(vsh, Ksh, Kqz), mineral(vsh, Gsh, Gqz)
    D0 = vsh * Dsh + (1 - vsh) * Dqz
    Cn = 20 - 34 * phi_c + 14 * phi_c ** 2
    kb, gb = cc(K0, G0, Kc, Gc, phi_b, phi_c, Cn, scheme)
    k, g = mix(phi / phi_b, kb, gb, K0, G0, kb, gb)
    return vel(gass(k, K0, Kb, phi), g, (1 - phi) * D0 + phi * Db)


CVO = ("Dqz", "Kqz", "Gqz", "Dsh", "Ksh", "Gsh", "Dc", "Kc", "Gc", "Db", "Kb", "phi_b", "phi_c", "vsh", "phi", "scheme")
CVB = dict(EL, y=R(.5, .99, (.75,)), phi_c=PC, vsh=VSH, x=R(.01, 1, (.5,)), scheme=Cat(1, 2))


def b_cv(b):
    b = dict(b)
    b["phi_b"], b["phi"] = b.pop("y") * b["phi_c"], b.pop("x") * b["phi_c"]
    return {k: b[k] for k in CVO}


Spec("C22", "QI.cal_v_const", CVB, _cvc, build=b_cv, vec=("phi",), rtol=1e-7, csens=1e-2, n_b=60, n_pts=80, ints=("Kqz", "Gqz"))


@Rel("C22", "C22.screening_laws", dict(SCB), n_a=60, n_b=8, n_sc=8)
def _(**b):
    a = b_sc(b)
    if not _sc_ok(**a):
        raise Skip()
    phi, p1, p2, p3, s1, s2, s3 = call("QI.screening", *[a[k] for k in SCO])
    require(all(np.shape(x) == (100,) for x in (phi, p1, p2, p3, s1, s2, s3)), "curves do not share the porosity axis")
    pb = a["phib_p"]
    for v in (p2, s2):
        require(np.isnan(v[phi > pb]).all() and np.isfinite(v[phi < pb]).all(), "increasing-cement curve not confined below its limit")
    for v in (p3, s3):
        require(np.isnan(v[phi < pb]).all(), "contact-cement curve shown below its limit")
    require(np.isfinite(p1).all() and np.isfinite(s1).all(), "lower bound undefined")
    K0, G0 = mineral(a["vsh"], a["Ksh"], a["Kqz"]), mineral(a["vsh"], a["Gsh"], a["Gqz"])
    D0 = a["vsh"] * a["Dsh"] + (1 - a["vsh"]) * a["Dqz"]
    want = vel(K0, G0, D0)
    require_agree((p1[0], s1[0], p2[0], s2[0]), want + want, "curves do not end at the mineral", rtol=1e-4)
    # matrix fractions: without cement the matrix holds shale and grains only
    m = call("QI.matrix_modulus", a["vsh"], a["phi_c"], a["phi_c"], a["Ksh"], a["Kqz"], a["Kc"])
    s = a["vsh"] / (1 - a["phi_c"])
    require_agree(np.ravel(m)[0], hill((s, 1 - s), (a["Ksh"], a["Kqz"])), "matrix before cementation", rtol=1e-9)


# ----------------------------------------------------------------- C23
def seeds_of(base, steps):
    return np.round(base + np.cumsum(steps), 6)


EB = dict(EL, phi_c=PC, vsh=VSH, scheme=Cat(1, 2), base=R(.0, .02, (.001,)), steps=Vec(R(.003, .03), (2, 5)), x=Vec(R(.1, .95), 12), t=Vec(R(-.2, 1.2, (0, 1)), 12), n=I(1, 12), kind=Cat("array", "series"), sd=Cat("list", "array"))


@Rel("C23", "C23.estimate_cem", EB, n_a=120, n_b=20, n_sc=10, weight=2)
def _(phi_c, vsh, scheme, base, steps, x, t, n, kind, sd, **el):
    seeds = seeds_of(base, [0] + steps)
    if phi_c - seeds[-1] < .05:
        raise Skip()
    top = phi_c - seeds[-1]
    phi = np.array(x[:n]) * top
    cur = np.array([_cvc(phi_b=phi_c - s, phi_c=phi_c, vsh=vsh, phi=phi, scheme=scheme, **el)[0] for s in seeds])
    ok = np.isfinite(cur).all(0) & (np.diff(cur, axis=0) > .5).all(0)
    if not ok.any():
        raise Skip()
    lo, hi = np.nan_to_num(cur[0], nan=2000.), np.nan_to_num(cur[-1], nan=4000.)
    Vp = lo + np.array(t[:n]) * (hi - lo)
    QI = boot.classes()["QI"]
    import pandas as pd
    if kind == "series":
        q = QI(pd.Series(Vp, index=np.arange(n) + 3), pd.Series(phi, index=np.arange(n) + 3))
    else:
        q = QI(Vp, phi)
    Cn = 20 - 34 * phi_c + 14 * phi_c ** 2
    arg = [float(s) for s in seeds] if sd == "list" else seeds
    rest = (el["Kqz"], el["Gqz"], el["Ksh"], el["Gsh"], phi_c, Cn, el["Kc"], el["Gc"], el["Db"], el["Kb"], scheme, vsh, el["Dsh"], el["Dqz"], el["Dc"])
    got = np.asarray(call("QI.estimate_cem", q, arg, *rest), float)
    require(got.shape == (n,), "%d estimates for %d samples" % (got.size, n))
    for i in range(n):
        if not ok[i] or abs(Vp[i] - cur[0, i]) < 1e-6 * Vp[i]:
            continue
        w = 0.0 if Vp[i] <= cur[0, i] else float(np.interp(Vp[i], cur[:, i], seeds))
        require_agree(got[i], w, "cement of sample %d (phi=%r, Vp=%r)" % (i, phi[i], Vp[i]), rtol=1e-6, scale=1e-3)
    # a rock exactly on a constant-cement line gets that line's cement
    k = 1 + int(n) % (len(seeds) - 1)
    v = np.asarray(call("QI.cal_v_const", el["Dqz"], el["Kqz"], el["Gqz"], el["Dsh"], el["Ksh"], el["Gsh"], el["Dc"], el["Kc"], el["Gc"], el["Db"], el["Kb"], phi_c - float(seeds[k]), phi_c, vsh, phi, scheme)[0])
    on = np.asarray(call("QI.estimate_cem", QI(v, phi), arg, *rest), float)
    require_agree(on[ok], np.full(int(ok.sum()), seeds[k]), "rocks on the line of cement %r" % seeds[k], rtol=1e-6, scale=1e-3)


def figure(path, *a, **k):
    import matplotlib.pyplot as plt
    before = set(plt.get_fignums())
    r = call(path, *a, **k)
    fig = r[0] if isinstance(r, tuple) else r
    return r, fig, before


def closefigs():
    import matplotlib.pyplot as plt
    plt.close("all")


def curves(ax):
    return [np.array(l.get_xydata(), float) for l in ax.lines]


def has_curve(cs, x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    for c in cs:
        if c.shape == (x.size, 2) and np.allclose(c[:, 0], x, rtol=1e-9, atol=1e-12) and np.allclose(c[:, 1], y, rtol=1e-7, equal_nan=True):
            return True
    return False


def scatter_of(fig):
    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if type(c).__name__ == "PathCollection" and len(c.get_offsets()):
                out.append((c, np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan), None if c.get_array() is None else np.ma.filled(np.ma.asarray(c.get_array(), float), np.nan)))
    return out


def has_points(fig, x, y, col=None):
    """The scatter collection showing these points (and colours), or None; a point without a colour value need not be placed."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    m = np.ones(len(x), bool) if col is None else ~np.isnan(col)
    for c, off, arr in scatter_of(fig):
        if off.shape == (len(x), 2) and np.allclose(off[m, 0], x[m], equal_nan=True) and np.allclose(off[m, 1], y[m], equal_nan=True):
            if col is None or (arr is not None and arr.shape == (len(x),) and np.allclose(arr, col, equal_nan=True)):
                return c
    return None


def colour_scale(c, lo, hi, what):
    require(c.norm.vmin == lo and c.norm.vmax == hi, "%s: colour scale %r to %r instead of %r to %r" % (what, c.norm.vmin, c.norm.vmax, lo, hi))


def shows(ax, x0, x1, y0, y1, what):
    (a, b), (c, d) = ax.get_xlim(), ax.get_ylim()
    require(a <= x0 and b >= x1 and c <= y0 and d >= y1, "%s: the axes (%r to %r, %r to %r) hide part of the data range" % (what, a, b, c, d))


def labels(ax, x, y, what):
    require(x.lower() in ax.get_xlabel().lower() and y.lower() in ax.get_ylabel().lower(), "%s: axes labelled %r and %r" % (what, ax.get_xlabel(), ax.get_ylabel()))


def cmap_arg(i):
    """Colour maps a caller may pass, as (argument, name)."""
    from matplotlib.colors import ListedColormap
    return ((None, None), ("viridis", "viridis"), ("plasma", "plasma"), (ListedColormap(["r", "g", "b"], name="rgb3"), "rgb3"))[i]


PLB = dict(SCB, seed=I(0, 10 ** 6), n=I(2, 25), cm=I(0, 3), nl=I(1, 3), la=Cat("list", "array", "tuple"), big=Cat(0, 1), nan=Cat(0, 1))


@Rel("C23", "C23.screening_plots", PLB, n_a=18, n_b=2, n_sc=4, weight=3)
def _(seed, n, cm, nl, la, big, nan, **b):
    a = b_sc(b)
    if not _sc_ok(**a):
        raise Skip()
    rng = np.random.default_rng(seed)
    phi_d, Vp_d, Vsh_d = rng.uniform(.05, .35, n), rng.uniform(2000, 5000, n), rng.uniform(0, 1, n)
    q = boot.classes()["QI"](Vp_d, phi_d, Vsh=Vsh_d)
    r = call("QI.screening", *[a[k] for k in SCO])
    try:
        cmap, name = cmap_arg(cm)
        _, fig, _b = figure("QI.screening_plot", q, *r[:4], **({} if cmap is None else {"cmap": cmap}))
        cs = curves(fig.axes[0])
        for i, nm in ((1, "friable sand"), (2, "increasing cement"), (3, "contact cement")):
            require(has_curve(cs, r[0], r[i]), "screening plot lacks the %s curve" % nm)
        pts = has_points(fig, phi_d, Vp_d, 1 - Vsh_d)
        require(pts is not None, "screening plot does not show the samples coloured by sand fraction")
        colour_scale(pts, 0, 1, "sand fraction")
        if name is not None:
            require(pts.get_cmap().name == name, "screening plot ignores the colour map %r" % name)
        labels(fig.axes[0], "porosity", "vp", "screening plot")
        shows(fig.axes[0], phi_d.min(), phi_d.max(), Vp_d.min(), Vp_d.max(), "screening plot")
        # constant-cement lines
        lines = sorted(a["phi_c"] * rng.uniform(.5, .95, nl))
        lines = {"list": [float(p) for p in lines], "array": np.array(lines), "tuple": tuple(lines)}[la]
        f2 = call("QI.cst_plot", *[a[k] for k in SCO[:11]], a["phib_p"], lines, a["phi_c"], a["sigma"], a["vsh"], a["Cn"], a["scheme"], a["f"])
        cs = curves(f2[1])
        require(has_curve(cs, r[0], r[1]) and has_curve(cs, r[0], r[3]), "constant-cement plot lacks the bounds")
        labels(f2[1], "porosity", "vp", "constant-cement plot")
        K0, G0 = mineral(a["vsh"], a["Ksh"], a["Kqz"]), mineral(a["vsh"], a["Gsh"], a["Gqz"])
        for p in lines:
            w = _cst(p, K0, 0, G0, r[0], a["phi_c"], a["Cn"], a["Kc"], a["Gc"], a["Db"], a["Kb"], a["scheme"], a["vsh"], a["Dsh"], a["Dqz"], a["Dc"])[0]
            if np.min(np.abs(r[0] - p)) > 1e-9:
                require(has_curve(cs, r[0], w), "constant-cement plot lacks the line for porosity %r" % p)
        vc = rng.uniform(0, .3 if big else .1, n)
        if nan:
            vc[int(rng.integers(n))] = np.nan
        keep = vc.copy()
        f3 = call("QI.cement_diag_plot", q, vc, *[a[k] for k in SCO[:11]], a["phib_p"], lines, a["phi_c"], a["sigma"], a["vsh"], a["Cn"], a["scheme"], a["f"])
        pts = has_points(f3, phi_d, Vp_d, keep)
        require(pts is not None, "cement plot does not show the samples coloured by cement")
        colour_scale(pts, 0, .1, "cement")
        labels(f3.axes[0], "porosity", "vp", "cement plot")
        shows(f3.axes[0], 0, .5, 1500, 6500, "cement plot")
        require(has_curve(curves(f3.axes[0]), r[0], r[1]), "cement plot lacks the lower bound")
    finally:
        closefigs()


@Rel("C23", "C23.normalize", dict(v=Vec(R(0, 50), (1, 30)), k=R(1e-12, 1e6, (1e-9, 1e-6, 1e-3, 1, 1e3), log=True)), n_a=60, n_b=5)
def _(v, k):
    v = np.array(v)
    if v.max() <= 0:
        raise Skip()
    keep = v.copy()
    got = np.asarray(call("QI.normalize", v))
    require_agree(got, keep / keep.max(), "normalised density", rtol=1e-9, scale=1e-3)
    require_agree(np.asarray(call("QI.normalize", keep * k)), got, "normalised density depends on the scale", rtol=1e-9, scale=1e-3)


@Rel("C23", "C23.kde_plot", dict(seed=I(0, 10 ** 6), n=I(30, 120), vels=Cat("Vp", "Vs"), grid=Cat(16, 32, 64, 0), cm=I(0, 3)), n_a=16, n_b=2, n_sc=3, weight=3)
def _(seed, n, vels, grid, cm):
    from kde_diffusion import kde2d
    rng = np.random.default_rng(seed)
    phi = rng.uniform(.05, .35, n)
    Vp = 5500 - 6000 * phi + rng.normal(0, 150, n)
    Vs = Vp / 1.8 + rng.normal(0, 80, n)
    try:
        d, g, _bw = kde2d(phi, Vp if vels == "Vp" else Vs, n=grid or 64, limits=None)  # 64 is the documented default
    except Exception:  # noqa: BLE001
        raise Skip()
    d = d / d.max()
    x = np.linspace(0, .4, 20)
    y = [5000 - 6000 * x, 5500 - 6000 * x, 5800 - 6000 * x]
    q = boot.classes()["QI"](Vp.copy(), phi.copy(), Vs=Vs.copy())
    try:
        cmap, name = cmap_arg(cm)
        fig = call("QI.kde_plot", q, x, y[0], y[1], y[2], vels=vels, **({"n": grid} if grid else {}), **({} if cmap is None else {"cmap": cmap}))
        cs = curves(fig.axes[0])
        for k in y:
            require(has_curve(cs, x, k), "density plot lacks a bound")
        ms = [c for c in fig.axes[0].collections if type(c).__name__ == "QuadMesh"]
        require(len(ms) >= 1, "no density shown")
        arr = np.ma.filled(np.ma.asarray(ms[0].get_array(), float), np.nan).ravel()
        w = np.where(d < 1e-4, 0, d).T.ravel()
        require(arr.size == w.size, "density grid")
        m = np.abs(d.T.ravel() - 1e-4) > 1e-8
        require_agree(arr[m], w[m], "density shown is not the normalised density of (porosity, %s)" % vels, rtol=1e-6, scale=1e-3)
        co = ms[0].get_coordinates()
        require(abs(co[..., 0].min() - g[0].min()) < .2 * np.ptp(g[0]) and abs(co[..., 1].max() - g[1].max()) < .2 * np.ptp(g[1]), "density axes")
        if name is not None:
            require(ms[0].get_cmap().name == name, "density plot ignores the colour map %r" % name)
        labels(fig.axes[0], "porosity", vels, "density plot")
        require(fig.axes[0].get_xlim()[0] <= 0 and fig.axes[0].get_xlim()[1] >= .4, "density plot hides porosities")
        # contour lines lie at their level of the density shown
        from scipy.interpolate import RegularGridInterpolator
        itp = RegularGridInterpolator((g[0][:, 0], g[1][0]) if np.ndim(g[0]) == 2 else (g[0], g[1]), np.where(d < 1e-4, 0, d), bounds_error=False)
        sets = [c for c in fig.axes[0].collections if hasattr(c, "levels")]
        require(len(sets) >= 1, "density plot without contour lines")
        for c in sets:
            for lev, segs in zip(c.levels, c.allsegs):
                for sg in segs:
                    if lev > 0 and len(sg):
                        e = np.abs(itp(np.asarray(sg, float)) - lev)
                        require(np.nanmax(e) < 1e-6, "contour of level %r passes where the density is off by %r" % (lev, float(np.nanmax(e))))
    finally:
        closefigs()


@Rel("C23", "C23.plot_rpt", dict(K0=R(20, 60), D0=R(2, 3), Kb=R(1.5, 3), Db=R(.9, 1.2), Khc=R(.02, 1.2), Dhc=R(.05, .9), phi=Vec(R(.05, .4), (2, 6)), sw=Vec(R(0, 1, (0, 1)), (2, 6)), a=R(.2, .9), g=R(.2, .9)), n_a=25, n_b=2, n_sc=4, weight=3)
def _(K0, D0, Kb, Db, Khc, Dhc, phi, sw, a, g):
    phi, sw = np.array(phi), np.array(sw)
    Kd, Gd = a * K0 * (1 - phi / .45), g * K0 * (1 - phi / .45)
    try:
        fig = call("QI.plot_rpt", Kd.copy(), Gd.copy(), K0, D0, Kb, Db, Khc, Dhc, phi.copy(), sw.copy())
        cs = curves(fig.axes[0])
        IP, PS = np.empty((phi.size, sw.size)), np.empty((phi.size, sw.size))
        for j, s in enumerate(sw):
            kf, df = 1 / (s / Kb + (1 - s) / Khc), s * Db + (1 - s) * Dhc
            rho = (1 - phi) * D0 + phi * df
            vp, vs = vel(gass(Kd, K0, kf, phi), Gd, rho)
            IP[:, j], PS[:, j] = vp * rho, vp / vs
        for i in range(phi.size):
            require(has_curve(cs, IP[i], PS[i]), "template lacks the saturation line of porosity %r" % phi[i])
        require(has_curve(cs, IP[:, -1], PS[:, -1]), "template lacks the porosity line of the last saturation")
        labels(fig.axes[0], "impedance", "vp/vs", "template")
    finally:
        closefigs()
