"""C13 hydrocarbon and CO2 properties, C14 water, brine and CO2-brine mixtures (Batzle & Wang, Xu)."""
import warnings

import numpy as np

from .engine import (MISSING, Cat, I, R, Rel, Skip, Spec, Vec, Violation, agree, call, note_known, require,
                     require_agree)

P_ = R(.05, 200, (.1, 10, 20, 50, 100), log=True)
T_ = R(0, 350, (0, 20, 25, 60, 100, 150))
G_ = R(.5, 2, (.6, 1, 1.5349))
DEN = R(.5, 1.05, (.7, .88, .9, 1))


# ----------------------------------------------------------------- C13
def zfac(p, t):
    """Compressibility factor of Batzle & Wang (1992) eq. 10b/10c as a function of reduced pressure and temperature."""
    b = -(.45 + 8 * (.56 - t ** -1) ** 2) / t
    return p * (.03 + .00527 * (3.5 - t) ** 3) + .642 * t - .007 * t ** 4 - .52 + .109 * (3.85 - t) ** 2 * np.exp(b * p ** 1.2)


def dz(p, t):
    """Complex-step derivative of Z with respect to reduced pressure: independent of any analytic formula."""
    h = 1e-30
    p = np.asarray(p, float)
    return np.imag(zfac(p + 1j * h * np.ones_like(p), t)) / h


Spec("C13", "BW.dz_dp", dict(P_pr=R(1e-3, 25, (1, 2), log=True), T_pr=R(1.0, 3.5, (1, 1.5, 2, 3.5))), lambda P_pr, T_pr: dz(P_pr, T_pr),
     vec=("P_pr", "T_pr"), rtol=1e-9, csens=1e-2, floor=1e-13)
Spec("C13", "BW.pseudo_p_t", dict(P=P_, T=T_, G=G_), lambda P, T, G: (T + 273.15 + 0 * P, P / (4.892 - .4048 * G) + 0 * T, (T + 273.15) / (94.72 + 170.75 * G) + 0 * P),
     vec=("P", "T", "G"), ints=("P", "T"))


def gasprop(P, Ta, p, t, G):
    Z = zfac(p, t)
    rho = 28.8 * G * P / (Z * 8.3145 * Ta)
    g0 = .85 + 5.6 / (p + 2) + 27.1 * (p + 3.5) ** -2 - 8.7 * np.exp(-.65 * (p + 1))
    return rho, P * g0 / (1 - p * dz(p, t) / Z) / 1000


def _gas(P, T, G):
    Ta = T + 273.15
    return gasprop(P, Ta, P / (4.892 - .4048 * G), Ta / (94.72 + 170.75 * G), G)


def _co2(P, T, G, t0=273.15):
    Ta = T + 273.15
    return gasprop(P, Ta, P / 7.4, Ta / (31.1 + t0), G)


def _fin(f):
    def ok(P, T, G):
        r = f(P, T, G)
        return np.isfinite(r[0]) & np.isfinite(r[1]) & (r[0] > 0) & (r[1] > 0) & (r[1] < 5)
    return ok


GB = dict(P=P_, T=T_, G=G_)
Spec("C13", "BW.rho_K_gas", GB, _gas, vec=("P", "T", "G"), ints=("P", "T"), rtol=1e-8, csens=1e-2, valid=_fin(_gas), n_b=50)
Spec("C13", "BW.rho_K_co2", GB, _co2, vec=("P", "T", "G"), ints=("P", "T"), rtol=1e-8, csens=1e-3,
     alt=("F9", lambda P, T, G: _co2(P, T, G, 273.5)), valid=_fin(_co2), n_b=50)


def _oilv(d, P, T):
    return 2096 * np.sqrt(d / (2.6 - d)) - 3.7 * T + 4.64 * P + .0115 * (4.12 * np.sqrt(1.08 / d - 1) - 1) * T * P


def _oil(P, T, den):
    rp = den + (.00277 * P - 1.71e-7 * P ** 3) * (den - 1.15) ** 2 + 3.49e-4 * P
    rho = rp / (.972 + 3.81e-4 * (T + 17.78) ** 1.175)
    return rho, rho * _oilv(den, P, T) ** 2 / 1e6


Spec("C13", "BW.rho_K_oil", dict(P=P_, T=T_, den=DEN), _oil, vec=("P", "T", "den"), ints=("P", "T"), rtol=1e-9, n_b=50)


def _go(P, T, den, G, Rg):
    if Rg is None:
        Rg = .02123 * G * (P * np.exp(4.072 / den - .00377 * T)) ** 1.205
    B = .972 + .00038 * (2.4 * Rg * np.sqrt(G / den) + T + 17.8) ** 1.175
    rho = (den + .0012 * G * Rg) / B
    return rho, rho * _oilv(den / B / (1 + .001 * Rg), P, T) ** 2 / 1e6


GO = dict(P=P_, T=T_, den=DEN, G=R(.5, 2, (.6, 1)), Rg=R(0, 800, (0, 85, 160)))
Spec("C13", "BW.rho_K_go", GO, _go, vec=("P", "T", "den", "G"), ints=("P", "T", "Rg"), rtol=1e-9, csens=1e-2, n_b=50)
Spec("C13", "BW.rho_K_go", dict(GO, Rg=Cat(None)), _go, vec=("P", "T", "den", "G"), ints=("P", "T"), rtol=1e-9, csens=1e-2, n_b=40, name="rho_K_go_saturated")


@Rel("C13", "C13.gas_laws", dict(T=T_, G=G_, P=R(1, 80, log=True), den=DEN))
def _(T, G, P, den):
    # ideal gas at low pressure
    rho, K = call("BW.rho_K_gas", 1e-5, T, G)
    t = (T + 273.15) / (94.72 + 170.75 * G)
    if t > 1.1 and t < 3.4:
        require_agree(rho, 28.8 * G * 1e-5 / (8.3145 * (T + 273.15)) / zfac(0.0, t), "density does not approach the gas law at low pressure", rtol=1e-3)
    # live oil without gas is lighter with gas in it
    Rg = .02123 * G * (P * np.exp(4.072 / den - .00377 * T)) ** 1.205
    require_agree(call("BW.rho_K_go", P, T, den, G, None), call("BW.rho_K_go", P, T, den, G, Rg), "saturated oil differs from oil with the saturating gas-oil ratio", rtol=1e-9)
    a = call("BW.rho_K_go", P, T, den, G, 0)
    require_agree(a[0], den / (.972 + .00038 * (T + 17.8) ** 1.175), "gas-free live oil density", rtol=1e-9)
    # derivative is consistent with a finite difference of Z recovered from the density
    Ta, pp, tp = call("BW.pseudo_p_t", P, T, G)
    z = lambda p: 28.8 * G * p / (call("BW.rho_K_gas", p, T, G)[0] * 8.3145 * Ta)
    h = 1e-4 * P
    fd = (z(P + h) - z(P - h)) / (2 * h) * (P / pp)
    require_agree(call("BW.dz_dp", pp, tp), fd, "dZ/dp differs from the slope of the compressibility factor implied by the densities", rtol=1e-4, scale=1e-2)


# ----------------------------------------------------------------- C14
W = np.array([[1402.85, 4.871, -.04783, 1.487e-4, -2.197e-7], [1.524, -.0111, 2.747e-4, -6.503e-7, 7.987e-10],
              [3.437e-3, 1.739e-4, -2.135e-6, -1.455e-8, 5.230e-11], [-1.197e-5, -1.628e-6, 1.237e-8, 1.327e-10, -4.614e-13]])
PW = R(.05, 200, (.1, 10, 20, 50, 100), log=True)
TW = R(0, 350, (0, 20, 25, 60, 100))
SW = R(0, .4, (0, .035, .1, .24))


def _vw(T, P):
    v = 0.0 * T * P
    for row in W[::-1]:
        v = v * P + (row[0] + T * (row[1] + T * (row[2] + T * (row[3] + T * row[4]))))
    return v


def _rw(T, P):
    return 1 + 1e-6 * (T * (-80 + T * (-3.3 + .00175 * T)) + P * (489 + T * (-2 + T * (.016 - 1.3e-5 * T))) - P * P * (.333 + .002 * T))


def _vb(T, P, S):
    return _vw(T, P) + S * (1170 - 9.6 * T + .055 * T ** 2 - 8.5e-5 * T ** 3 + 2.6 * P - .0029 * T * P - .0476 * P ** 2) + np.power(S, 1.5) * (780 - 10 * P + .16 * P ** 2) - 820 * S * S


def _rb(T, P, S):
    return _rw(T, P) + S * (.668 + .44 * S + 1e-6 * (300 * P - 2400 * P * S + T * (80 + 3 * T - 3300 * S - 13 * P + 47 * P * S)))


def _brine(T, P, S):
    r = _rb(T, P, S)
    return r, r * _vb(T, P, S) ** 2 * 1e-6


Spec("C14", "BW.v_water", dict(T=TW, P=PW), _vw, vec=("T", "P"), ints=("T", "P"), rtol=1e-9, n_b=50)
Spec("C14", "BW.rho_K_water", dict(T=TW, P=PW), lambda T, P: (_rw(T, P), _rw(T, P) * _vw(T, P) ** 2 * 1e-6), vec=("T", "P"), ints=("T", "P"), rtol=1e-9, n_b=50)
Spec("C14", "BW.v_brine", dict(T=TW, P=PW, S=SW), _vb, vec=("T", "P", "S"), ints=("T", "P"), rtol=1e-9, n_b=50)
Spec("C14", "BW.rho_K_brine", dict(T=TW, P=PW, S=SW), _brine, vec=("T", "P", "S"), ints=("T", "P"), rtol=1e-9, n_b=50)


def _cb(t0):
    def f(temperature, pressure, salinity, Sco2, brie_component=None, bw=False):
        g = _gas(pressure, temperature, 1.5349) if bw is True else _co2(pressure, temperature, 1.5349, t0)
        rb, kb = _brine(temperature, pressure, salinity)
        rho = rb + Sco2 * (g[0] - rb)
        if brie_component is None:
            return rho, kb * g[1] / (g[1] + Sco2 * (kb - g[1]))
        return rho, g[1] + (kb - g[1]) * np.power(1 - Sco2, float(brie_component))
    return f


def _cb_ok(temperature, pressure, salinity, Sco2, brie_component=None, bw=False):
    f = _gas if bw is True else _co2
    r = f(pressure, temperature, 1.5349)
    return np.isfinite(r[0]) & np.isfinite(r[1]) & (r[0] > 0) & (r[1] > 0) & (r[1] < 5)


CB = dict(temperature=R(5, 250, (31.1, 40, 60)), pressure=R(.1, 150, (7.4, 10, 20, 50, 100), log=True), salinity=SW, Sco2=R(0, 1, (0, 1, .5)),
          brie_component=Cat(None, 1, 2, 3, 5, 40, 1.5, 0, .25, MISSING), bw=Cat(False, True))


def b_cb(b):
    if b["brie_component"] == MISSING:
        b["bw"] = MISSING
    return b


Spec("C14", "BW.co2_brine", CB, _cb(273.15), build=b_cb, vec=("temperature", "pressure", "salinity", "Sco2"), ints=("temperature", "pressure"), rtol=1e-8, csens=1e-3,
     alt=("F9b", _cb(273.5)), valid=_cb_ok, n_b=80)


@Rel("C14", "C14.brine_laws", dict(T=TW, P=PW, S=SW, x=R(0, 1, (0, 1)), e=Cat(1, 3, 5, 40), bw=Cat(True, False)))
def _(T, P, S, x, e, bw):
    require_agree(call("BW.v_brine", T, P, 0.0), call("BW.v_water", T, P), "brine without salt is not water (velocity)", rtol=1e-10)
    require_agree(call("BW.rho_K_brine", T, P, 0.0), call("BW.rho_K_water", T, P), "brine without salt is not water", rtol=1e-10)
    r, k = call("BW.rho_K_brine", T, P, S)
    require_agree(k, r * call("BW.v_brine", T, P, S) ** 2 * 1e-6, "K != rho v^2", rtol=1e-10)
    r, k = call("BW.rho_K_water", T, P)
    require_agree(k, r * call("BW.v_water", T, P) ** 2 * 1e-6, "K != rho v^2", rtol=1e-10)
    g = call("BW.rho_K_gas" if bw else "BW.rho_K_co2", P, T, 1.5349)
    if not (np.isfinite(g[1]) and 0 < g[1] < 2 and g[0] > 0):
        raise Skip()
    b = call("BW.rho_K_brine", T, P, S)
    for c in (None, e):
        require_agree(call("BW.co2_brine", T, P, S, 0, c, bw), b, "no CO2: mixture is not brine", rtol=1e-9)
        require_agree(call("BW.co2_brine", T, P, S, 1, c, bw), g, "no brine: mixture is not CO2", rtol=1e-9)
    w = call("BW.co2_brine", T, P, S, x, None, bw)
    p = call("BW.co2_brine", T, P, S, x, e, bw)
    require_agree(w[0], p[0], "density depends on the mixing law", rtol=1e-10)
    require_agree(p[1], call("Fluid.Brie", b[1], g[1], 1 - x, e), "patchy mixture is not Brie's", rtol=1e-10)
    lo, hi = min(b[1], g[1]), max(b[1], g[1])
    require(lo * (1 - 1e-9) <= w[1] <= hi * (1 + 1e-9), "mixture modulus outside its components")
    v = call("BW.co2_brine", T, P, S, x, 1, bw)[1]
    require(w[1] <= v * (1 + 1e-9), "uniform mixture stiffer than the arithmetic average")


@Rel("C14", "C14.pressure_warning", dict(fn=Cat("v_water", "rho_K_water", "v_brine", "rho_K_brine"), T=TW, ps=Vec(R(1, 200, (100, 99.9, 100.1)), (1, 6)), arr=Cat(True, False)))
def _(fn, T, ps, arr):
    P = np.array(ps) if arr else ps[0]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        a = (T, P, .1) if "brine" in fn else (T, P)
        call("BW." + fn, *a)
    msg = [x for x in w if "100" in str(x.message)]
    require(bool(msg) == bool(np.any(np.asarray(P) > 100)), "warning of inaccurate pressures %s for P=%r" % ("missing" if not msg else "raised", P))
