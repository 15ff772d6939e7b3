"""C20 empirical velocity and porosity trends, C21 permeability models."""
import numpy as np

from .engine import (MISSING, Cat, I, R, Rel, Skip, Spec, Vec, Violation, agree, call, note_known, require,
                     require_agree)

Z_ = R(0, 8000, (0, 100, 1000, 2500, 2630, 1393, 2000, 3500, 5000))
PHI = R(.001, .9, (.1, .2, .3, .5))
C = "C20"

# ----------------------------------------------------------------- C20
Spec(C, "Empirical.krief", dict(phi=R(0, .9, (0, .2)), Kg=R(5, 100, (36,)), Gg=R(2, 80, (45,))),
     lambda phi, Kg, Gg: (lambda m: (m * (Kg - 2 * Gg / 3), m * Gg, m * Kg))(np.exp(3 * np.log1p(-phi) / (1 - phi))), vec=("phi", "Kg", "Gg"), rtol=1e-8, floor=1e-13)


def _vs(Vp, vsh):
    a, b = .80416 * Vp - 855.88, .76969 * Vp - 867.35
    m = a + vsh * (b - a)
    return .5 * (m + a * b / (b + vsh * (a - b)))


Spec(C, "Empirical.esti_VS", dict(Vp=R(1300, 8000, (1500, 2000, 3000)), vsh=R(0, 1, (0, 1, .5))), _vs, vec=("Vp", "vsh"), ints=("Vp",), rtol=1e-9)
Spec(C, "Empirical.han", dict(phi=R(0, .6, (0, .2, .4)), C=R(0, 1, (0, .2, .5))), lambda phi, C: (5590 - 6930 * phi - 2810 * C, 3520 - 4910 * phi - 1890 * C), vec=("phi", "C"), rtol=1e-9)
Spec(C, "Empirical.ehrenberg", dict(Z=Z_), lambda Z: .4802422 - 9.2200747e-5 * Z, vec=("Z",), ints=("Z",), rtol=1e-9, floor=1e-12)
Spec(C, "Empirical.yu_segment_trend", dict(Z=Z_), lambda Z: np.where(np.asarray(Z) <= 2630, 1707.998 + .66 * np.asarray(Z), 1200.84 + .853 * np.asarray(Z)), vec=("Z",), lists=("Z",), ints=("Z",), rtol=1e-9, csens=0)
Spec(C, "Empirical.ramm_porosity", dict(Z=Z_, HB=Cat(True, False, MISSING)), lambda Z, HB=True: (.464 - 8.5e-5 * Z) if HB else (.427 - 6.9e-5 * Z), vec=("Z",), ints=("Z",), rtol=1e-9, floor=1e-12)
Spec(C, "Empirical.ramm_porosity_segment", dict(Z=Z_), lambda Z: np.where(45 * np.exp(-np.asarray(Z) / 4000.) < 57.5 - .013 * np.asarray(Z), 45 * np.exp(-np.asarray(Z) / 4000.), 57.5 - .013 * np.asarray(Z)),
     vec=("Z",), ints=("Z",), rtol=1e-9, floor=1e-10)


def _stp(Pe, sample=1):
    t = {1: ((4210, 187, 746, 24), (2580, 160, 781, 20)), 2: ((4550, 298, 800, 19), (2830, 195, 741, 16))}[sample]
    return tuple(a + b * Pe - c * np.exp(-d * Pe) for a, b, c, d in t)


Spec(C, "Empirical.empirical_StPeter", dict(Pe=R(0, 5, (0, .1, 1)), sample=Cat(1, 2, MISSING)), _stp, vec=("Pe",), rtol=1e-9)
Spec(C, "Empirical.Scherbaum", dict(Z=Z_), lambda Z: 2325 + .51 * Z, vec=("Z",), ints=("Z",), rtol=1e-9)
Spec(C, "Empirical.Sclater", dict(phi=R(.001, 1, (.49, .2))), lambda phi: 3.7 * (np.log(.49) - np.log(phi)), vec=("phi",), rtol=1e-9, floor=1e-12)
Spec(C, "Empirical.Storvoll", dict(Z=Z_), lambda Z: 2600 + Z / 1.76, vec=("Z",), ints=("Z",), rtol=1e-9)
Spec(C, "Empirical.Hillis", dict(Z=R(0, 5500, (0, 1000, 2000))), lambda Z: 304800. / (135.9 - .02022 * Z), vec=("Z",), ints=("Z",), rtol=1e-9)


def _jap(Z):
    Z = np.asarray(Z, float)
    V = np.full(Z.shape, np.nan)
    for lo, hi, a, b in ((-np.inf, 1393, 1550, .6), (1393, 2000, -400, 2), (2000, 3500, 2600, .5), (3500, 5300, 3475, .25)):
        m = (Z >= lo) & (Z < hi)
        V = np.where(m, a + b * Z, V)
    return V


Spec(C, "Empirical.Japsen", dict(Z=R(0, 5299, (0, 1392, 1393, 2000, 3500, 1999.9, 3499))), _jap, vec=("Z",), lists=("Z",), ints=("Z",), rtol=1e-9, csens=0)
Spec(C, "Empirical.hjelstuen", dict(Z=R(0, 8000, (0, 1000))), lambda Z: 1870 + .55 * Z, vec=("Z",), ints=("Z",), rtol=1e-9)
Spec(C, "Empirical.Cp", dict(phi=R(0, .7, (0, .4, .36))), lambda phi: 20 - phi * (34 - 14 * phi), vec=("phi",), rtol=1e-9)


@Rel(C, "C20.trend_laws", dict(z=R(0, 5000, (0,)), dz=R(.1, 300), vp=R(1600, 6000), vsh=R(0, 1, (0, 1)), K=R(10, 80), G=R(5, 60), phi=R(.001, .6), dp=R(.001, .2), Pe=R(0, 1)))
def _(z, dz, vp, vsh, K, G, phi, dp, Pe):
    for f in ("yu_segment_trend", "Scherbaum", "Storvoll", "Hillis", "Japsen", "hjelstuen"):
        hi = min(z + dz, 5299)
        a, b = call("Empirical." + f, z), call("Empirical." + f, hi)
        require(b >= a * (1 - 2e-3) - 1e-9, "%s: velocity drops from depth %r to %r" % (f, z, hi))
    for f in ("ehrenberg", "ramm_porosity", "ramm_porosity_segment"):
        a, b = call("Empirical." + f, z), call("Empirical." + f, z + dz)
        require(b <= a, "%s: porosity grows with depth" % f)
    l0 = call("Empirical.krief", phi, K, G)
    require_agree(call("Empirical.krief", 0.0, K, G), (K - 2 * G / 3, G, K), "krief without porosity", rtol=1e-10)
    require_agree(l0[0] + 2 * l0[1] / 3, l0[2], "krief: K != lambda + 2G/3", rtol=1e-9, scale=K * 1e-6)
    l1 = call("Empirical.krief", phi + dp, K, G)
    require(l1[1] < l0[1] and l1[2] < l0[2], "krief frame stiffens with porosity")
    v = call("Empirical.esti_VS", vp, vsh)
    a, b = call("Empirical.esti_VS", vp, 0), call("Empirical.esti_VS", vp, 1)
    require(min(a, b) * (1 - 1e-9) <= v <= max(a, b) * (1 + 1e-9), "shear velocity outside the pure lithologies")
    for s in (1, 2):
        p, q = call("Empirical.empirical_StPeter", Pe, s), call("Empirical.empirical_StPeter", Pe + dp, s)
        require(q[0] > p[0] and q[1] > p[1] and p[0] > p[1], "St Peter velocities with pressure")
    # porosity-depth inverse of the exponential curve
    require_agree(.49 * np.exp(-call("Empirical.Sclater", phi) / 3.7), phi, "Sclater depth inverts to the porosity", rtol=1e-9)


# ----------------------------------------------------------------- C21
D = "C21"
DD = R(.1, 2000, (250, 100), log=True)
Spec(D, "Permeability.Kozeny_Carman", dict(phi=R(0, .9, (0, .2)), d=R(1e-6, 1000, (250, 1e-4), log=True)), lambda phi, d: (d * phi / (1 - phi)) ** 2 * phi / 180, vec=("phi", "d"), ints=("d",))
Spec(D, "Permeability.Kozeny_Carman_Percolation", dict(phi=R(.0, .9, (.2,)), phic=R(0, .2, (0, .02)), d=R(1e-6, 1000, (250,), log=True), B=R(.001, 20, (5, 15))),
     lambda phi, phic, d, B: B * (phi - phic) * (d * (phi - phic) / (1 - (phi - phic))) ** 2, vec=("phi", "phic", "d", "B"), ints=("d", "B"), csens=1e-2, floor=1e-25)
SWI = R(.005, 1, (.1, .3, 1))
Spec(D, "Permeability.Owolabi", dict(phi=PHI, Swi=SWI), lambda phi, Swi: (307 + phi ** 2 * (26552 - 34540 * Swi ** 2), 30.7 + phi ** 2 * (2655 - 3454 * Swi ** 2)), vec=("phi", "Swi"), rtol=1e-9, floor=1e-9)
Spec(D, "Permeability.Perm_logs", dict(phi=PHI, Swi=SWI),
     lambda phi, Swi: ((250 * phi ** 3 / Swi) ** 2, (100 * np.power(phi, 2.25) / Swi) ** 2, (100 * phi ** 2 * (1 / Swi - 1)) ** 2, 352 * (phi / Swi) ** 4), vec=("phi", "Swi"), rtol=1e-9, csens=1e-2, floor=1e-18)
Spec(D, "Permeability.Panda_Lake", dict(d=DD, C=R(0, 3, (0, .5, 1)), S=R(-3, 4, (0, 1)), tau=R(1, 10, (2, 2.5)), phi=R(0, .9, (0, .2))),
     lambda d, C, S, tau, phi: phi / (72 * tau) * (d * phi * (1 + C * C * (3 + C * S)) / ((1 - phi) * (1 + C * C))) ** 2, vec=("d", "C", "S", "tau", "phi"), ints=("d",), rtol=1e-9, csens=1e-2, floor=1e-14)
Spec(D, "Permeability.Panda_Lake_cem", dict(phi=R(0, .9, (0, .2)), d=DD), lambda phi, d: 3.34 * phi * (d * phi / (1 - phi)) ** 2, vec=("phi", "d"), ints=("d",))
Spec(D, "Permeability.Revil", dict(phi=R(0, .9, (0, .2)), d=DD), lambda phi, d: 1e3 / 24 * d * d * np.power(phi, 4.5), vec=("phi", "d"), ints=("d",))
Spec(D, "Permeability.Fredrich", dict(phi=R(.001, .9, (.1, .2)), d=DD, b=R(1, 5, (2, 3))), lambda phi, d, b: phi ** 3 * d * d / (2.5 * b * 36 * (1 - phi) ** 2), vec=("phi", "d", "b"), ints=("d", "b"), rtol=1e-9)
Spec(D, "Permeability.Bloch", dict(S=R(.8, 6, (1, 2)), C=R(0, 100, (0, 1, 50)), D=R(.01, 3, (.2, 1))),
     lambda S, C, D: (9.8 / S + .17 * C - 6.1, np.exp(np.log(10) * (1.34 * D + 4.08 / S + .0342 * C - 4.67))), vec=("S", "C", "D"), ints=("C", "S"), rtol=1e-8, floor=1e-12)
Spec(D, "Permeability.Bernabe", dict(phi=PHI, crf=R(0, 1, (0, 1, .3)), w=R(.001, 500, (1,), log=True), r=R(.001, 1000, (10,), log=True, eq=("w",))),
     lambda phi, crf, w, r: phi * (crf * w * w / 30 + (1 - crf) * r * r / 20), vec=("phi", "crf", "w", "r"), ints=("w", "r"), rtol=1e-9)


@Rel(D, "C21.consistency", dict(phi=R(.05, .5), dp=R(.001, .2), d=R(1, 500, log=True), k=R(.2, 5), Swi=R(.05, .9), ds=R(.01, .1), b=R(2, 3), crf=R(0, 1), w=R(.1, 10), r=R(.1, 10), C=R(0, 1.5), S=R(0, 2)))
def _(phi, dp, d, k, Swi, ds, b, crf, w, r, C, S):
    P = "Permeability."
    kc = call(P + "Kozeny_Carman", phi, d)
    require_agree(call(P + "Panda_Lake", d, 0.0, S, 2.5, phi), kc, "uniform grains: Panda-Lake is not Kozeny-Carman", rtol=1e-10)
    require_agree(call(P + "Kozeny_Carman_Percolation", phi, 0.0, d, 1 / 180.), kc, "no percolation threshold: not Kozeny-Carman", rtol=1e-10)
    require_agree(call(P + "Kozeny_Carman_Percolation", phi, phi, d, 5.), 0.0, "permeability at the percolation threshold", atol=1e-15)
    for n, f in (("Kozeny_Carman", lambda p, d: call(P + "Kozeny_Carman", p, d)), ("Panda_Lake", lambda p, d: call(P + "Panda_Lake", d, C, S, 2.5, p)),
                 ("Panda_Lake_cem", lambda p, d: call(P + "Panda_Lake_cem", p, d)), ("Revil", lambda p, d: call(P + "Revil", p, d)), ("Fredrich", lambda p, d: call(P + "Fredrich", p, d, b)),
                 ("Percolation", lambda p, d: call(P + "Kozeny_Carman_Percolation", p, .02, d, 5.)), ("Bernabe", lambda p, d: call(P + "Bernabe", p, crf, w * d, r * d))):
        require_agree(f(phi, k * d), k * k * f(phi, d), n + ": permeability does not scale with the square of size", rtol=1e-9)
        require(f(phi + dp, d) > f(phi, d), n + ": permeability drops with porosity")
    a, c = call(P + "Perm_logs", phi, Swi), call(P + "Perm_logs", phi, Swi + ds)
    e = call(P + "Perm_logs", phi + dp, Swi)
    for i in range(4):
        require(c[i] < a[i] and e[i] > a[i], "log permeability %d is not monotone" % i)
