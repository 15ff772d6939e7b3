"""C29: results change continuously with every continuous input, except across the switches the models document.

For one function the output is sampled along a line through its inputs (one input alone, or all of them together); the steps
that look least like their neighbours, and the immediate neighbourhood of special values, are then bisected, always into the
half that keeps the larger difference.  Over a continuous curve the difference dies away with the width; across a jump it
persists down to the spacing of the numbers."""
import math

import numpy as np

from . import engine, props, tensor as T
from .engine import Cat, I, MISSING, R, Skip, Vec, Violation, call, jsonable, new_stats, rand_base, _round12
from .s_avo import HB as AVOHB, hti as avo_hti
from .s_aniso import C21, KIND, sym6
from .s_cross import finish, hyp
from .s_fluid import BKB, aniso_S, sq_build

PARTS = 16
# published depth segments that do not meet: a jump is allowed where, and as large as, the published relation has it
# (Biot: the faster root is the fast wave, so the two attenuations change places where the velocities cross)
PUBLISHED_JUMPS = ("Empirical.yu_segment_trend", "Empirical.Japsen", "Fluid.Biot", "Biot_frame_arrays")


def given(d):
    return {k: v for k, v in d.items() if not (isinstance(v, str) and v == MISSING)}


class SpecSys:
    """A function with a reference model: its generator, domain and conditioning come from the Spec."""

    def __init__(self, spec):
        self.spec, self.name, self.base = spec, spec.name, spec.base
        self.m = 24 if spec.n_pts >= 200 else 12

    def at(self, b):
        s = self.spec
        a = s.args_of(dict(b))
        if s.valid is not None:
            try:
                if not np.all(s.valid(**given(a))):
                    return None
            except (ArithmeticError, ValueError):
                return None
        if s.nonscalar:
            a = {k: (np.array([v]) if k in s.vec and isinstance(v, float) else v) for k, v in a.items()}
        try:
            r = s.invoke(a)
        except Violation:      # whether it may fail there is decided by the function's own property
            return None
        return numbers(s.path, r)

    def tol(self, b, o):
        s = self.spec
        try:
            want, tols = s.expected(s.args_of(dict(b)))
        except (Skip, ArithmeticError, ValueError):
            return None
        sizes = np.cumsum([np.size(w) for w in want])
        k = min(int(np.searchsorted(sizes, o, side="right")), len(tols) - 1)
        return 10 * float(np.max(np.nan_to_num(np.asarray(tols[k], float), nan=0.0, posinf=0.0, neginf=0.0), initial=0.0))

    def published(self, b0, b1, o):
        s = self.spec
        if s.name not in PUBLISHED_JUMPS:
            return 0.0
        with np.errstate(all="ignore"):
            y0, y1 = [np.concatenate([np.ravel(x) for x in s.ref_eval(s.args_of(dict(b)))]) for b in (b0, b1)]
        return abs(float(y1[o] - y0[o]))


class FnSys:
    """A function checked through relations elsewhere; rtol is its own numerical accuracy, relative to the largest output."""
    m = 14

    def __init__(self, path, base, fn, rtol=1e-8):
        self.name = self.path = path
        self.base, self.fn, self.rtol = base, fn, rtol

    def at(self, b):
        try:
            with np.errstate(all="ignore"):
                r = self.fn(**b)
        except (Violation, Skip, ArithmeticError, np.linalg.LinAlgError):
            return None
        return numbers(self.path, r)

    def tol(self, b, o):
        y = self.at(b)
        return 10 * self.rtol * max([float(np.max(np.abs(v[np.isfinite(v)]), initial=0)) for v in y] + [0])

    def published(self, b0, b1, o):
        return 0.0


def numbers(path, r):
    r = tuple(engine.plain(g) for g in r) if isinstance(r, (tuple, list)) else engine.plain(r)
    try:
        return [np.ravel(o) for o in engine.flat(r)]
    except (TypeError, ValueError) as e:
        raise Violation("%s returned something that is not numbers: %s" % (path, e))


FNS = []


def fn(path, rtol=1e-8, **base):
    def deco(f):
        FNS.append(FnSys(path, base, f, rtol))
        return f
    return deco


STIFF = dict(C33=R(5, 100), f11=R(.7, 3), f44=R(.05, .5), f66=R(.05, .5), f13=R(.05, .9))


def stiff(mk, C33, f11, f44, f66, f13):
    return np.asarray(mk(f11 * C33, C33, f13 * min(C33, f11 * C33) * .8, f44 * C33, f66 * C33))


@fn("Anisotropy.Bond_trans", v=C21, kind=KIND, theta=R(-360, 360, (0, 45, 90, 180, -90)), axis=Cat(1, 2, 3))
def _(v, kind, theta, axis):
    return call("Anisotropy.Bond_trans", sym6(v, kind), theta, axis)


@fn("Anisotropy.vel_azi_HTI", den=R(1, 5), az=R(-180, 360, (0, 45, 90, 180)), **STIFF)
def _(den, az, **k):
    return call("Anisotropy.vel_azi_HTI", stiff(T.hti, **k), den, az)


@fn("Anisotropy.vel_azi_VTI", den=R(1, 5), az=R(-180, 360, (0, 45, 90, 180)), **STIFF)
def _(den, az, **k):
    return call("Anisotropy.vel_azi_VTI", stiff(T.vti, **k), den, az)


@fn("Anisotropy.Backus", V=Vec(R(.05, 1), 3), l1=R(0, 80, (0, 10)), G1=R(.1, 60), l2=R(0, 80, (0, 10)), G2=R(.1, 60), l3=R(0, 80), G3=R(.1, 60), dv=R(0, .9, (0, .5)))
def _(V, l1, G1, l2, G2, l3, G3, dv):
    V = np.array(V) / sum(V) * (1 - dv)
    V[0] += dv
    return call("Anisotropy.Backus", V, np.array([l1, l2, l3]), np.array([G1, G2, G3]))


@fn("Anisotropy.Backus_log", Vp=Vec(R(2, 5), 6), r=R(.3, .65, (.5,)), d0=R(1.5, 3), d1=R(1.5, 3), z=R(.1, 50, (1, 10)), v=R(1.5, 6))
def _(Vp, r, d0, d1, z, v):
    Vp = np.array(Vp)
    Vp[2] = v
    return call("Anisotropy.Backus_log", Vp, Vp * r, np.array([d0, d1] * 3), np.array([0, 1, 2.5, 3, 4, 5.0, 7.0]) * z)


@fn("EM.VRH", f=R(0, 1, (0, 1, .5)), g=R(0, 1, (0, 1, .5)), M1=R(.5, 100), M2=R(.5, 100), M3=R(.5, 100))
def _(f, g, M1, M2, M3):
    return call("EM.VRH", np.array([f, (1 - f) * g, (1 - f) * (1 - g)]), np.array([M1, M2, M3]))


@fn("EM.hudson_ortho", K=R(10, 80), G=R(8, 60), Ki=R(0, 5, (0, 2.2)), Gi=R(0, 3, (0,)), a1=R(.001, .2, log=True), a2=R(.001, .2, log=True), a3=R(.001, .2, log=True),
    c1=R(0, .1, (0,)), c2=R(0, .1, (0,)), c3=R(0, .1, (0,)))
def _(K, G, Ki, Gi, a1, a2, a3, c1, c2, c3):
    return call("EM.hudson_ortho", K, G, Ki, Gi, [a1, a2, a3], [c1, c2, c3])


@fn("EM.OConnell_Budiansky_fl", 1e-6, K=R(10, 80), G=R(8, 60), Kf=R(0, 3, (0, 2.2)), cr=R(0, .1, (0, .05)), a0=R(.001, .1, log=True))
def _(K, G, Kf, cr, a0):
    return call("EM.OConnell_Budiansky_fl", K, G, Kf, cr, a0)


@fn("EM.Berryman_sc", 1e-5, K1=R(20, 80), G1=R(15, 60), K2=R(5, 60), G2=R(4, 50), f=R(0, 1, (0, .5, 1)), al1=R(.1, .98), al2=R(.1, .98))
def _(K1, G1, K2, G2, f, al1, al2):
    return call("EM.Berryman_sc", np.array([K1, K2]), np.array([G1, G2]), np.array([1 - f, f]), np.array([al1, al2]))


@fn("EM.Berryman_sc_pores", 1e-5, K=R(20, 80), G=R(15, 60), Kf=R(0, 3, (0, 2.2)), al=R(.2, .98), phi=R(.001, .12))
def _(K, G, Kf, al, phi):
    return call("EM.Berryman_sc", np.array([K, Kf]), np.array([G, 0.0]), np.array([1 - phi, phi]), np.array([.3, al]))


@fn("EM.Berryman_DEM", 1e-5, Km=R(10, 100, (37,)), Gm=R(8, 80, (45,)), Ki=R(0, 100, (0, 2.2)), Gi=R(0, 80, (0,)), al=R(.03, .98, (.1, .5), log=True), phi=Cat(.1, .3, .5))
def _(Km, Gm, Ki, Gi, al, phi):
    return call("EM.Berryman_DEM", Km, Gm, Ki, Gi, al, phi)


BK = {k: v for k, v in BKB.items() if k not in ("Kf", "phi", "K0")}


@fn("Fluid.Brown_Korringa_dry2sat", K0=R(40, 100), Kf=R(.001, 30, (2.2,), log=True), phi=R(.01, .9, (.1,)), **BK)
def _(K0, G0, B, kind, Kf, phi):
    return call("Fluid.Brown_Korringa_dry2sat", aniso_S(K0, G0, B, kind)[1], K0, G0, Kf, phi)


@fn("Fluid.Brown_Korringa_sat2dry", 1e-6, K0=R(40, 100), Kf=R(.1, 30, (2.2,), log=True), phi=R(.01, .9, (.1,)), **BK)
def _(K0, G0, B, kind, Kf, phi):
    S = np.asarray(call("Fluid.Brown_Korringa_dry2sat", aniso_S(K0, G0, B, kind)[1], K0, G0, Kf, phi))
    return call("Fluid.Brown_Korringa_sat2dry", S, K0, G0, Kf, phi)


@fn("Fluid.Brown_Korringa_sub", 1e-5, K0=R(40, 100), Kf=R(.1, 30, (2.2,), log=True), Kf2=R(.1, 4, (1,)), phi=R(.01, .9, (.1,)), **BK)
def _(K0, G0, B, kind, Kf, Kf2, phi):
    S = np.asarray(call("Fluid.Brown_Korringa_dry2sat", aniso_S(K0, G0, B, kind)[1], K0, G0, Kf, phi))
    if np.linalg.cond(S) > 1e5:
        raise Skip()
    return call("Fluid.Brown_Korringa_sub", np.linalg.inv(S), K0, G0, Kf, Kf2, phi)


@fn("Fluid.Squirt_anisotropic", E=R(.5, 300), nu=R(.05, .35), x1=R(0, 1), x2=R(0, 1), x3=R(0, 1), x4=R(0, 1), x5=R(0, 1))
def _(E, nu, **x):
    Sd, Sh = sq_build(E, nu, list(x.values()))[:2]
    return call("Fluid.Squirt_anisotropic", list(Sd), list(Sh))


@fn("AVO.AVO_HTI", th=R(-60, 70, (0, 20, 45)), az=R(-180, 360, (0, 45, 90, 180)), **AVOHB)
def _(a1, r1, e1, d1, g1, rho1, a2, r2, e2, d2, g2, rho2, th, az):
    return call("AVO.AVO_HTI", rho1, rho2, np.asarray(avo_hti(a1, r1, e1, d1, g1, rho1)), np.asarray(avo_hti(a2, r2, e2, d2, g2, rho2)), np.array([th, 30.0]), np.array([az, 10.0]))


@fn("AVO.EI_ref", 1e-7, vp=R(1500, 6000), r=R(.3, .6, (.5,)), d=R(1500, 3000), th=R(0, 45, (0, 30)), SP=R(.3, .65), v2=R(1500, 6000), norm=Cat(True, False))
def _(vp, r, d, th, SP, v2, norm):
    Vp = np.array([vp, v2, 3000.0])
    return call("AVO.EI_ref", Vp, Vp * r, np.array([d, 2200.0, 2400.0]), np.array([th, 10.0]), SP, norm)


SYS = {}


def systems():
    if not SYS:
        for s in engine.SPECS.values():
            if any(not d.cat for d in s.base.values()) and s.name != "QI.screening":       # screening returns a mask
                SYS[s.name] = SpecSys(s)
        for f in FNS:
            SYS[f.name] = f
    return list(SYS.values())


def gap(p, q):
    if p is None or q is None or [x.shape for x in p] != [x.shape for x in q]:
        return None
    with np.errstate(all="ignore"):
        return np.concatenate([np.abs(x - y) for x, y in zip(p, q)])


class Line:
    def __init__(self, sysm, b0, b1, keys):
        self.sysm, self.b0, self.b1, self.keys, self.n = sysm, b0, b1, keys, 0
        d = sysm.base
        self.log = {k: d[k].log and min(b0[k], b1[k]) > 0 for k in keys}
        self.single = keys[0] if len(keys) == 1 else None

    def b(self, t):
        out = dict(self.b0)
        if self.single is not None:
            out[self.single] = float(t)
            return out
        for k in self.keys:
            p, q = self.b0[k], self.b1[k]
            out[k] = p * (q / p) ** float(t) if self.log[k] else p + (q - p) * float(t)
        return out

    def at(self, t):
        y = self.sysm.at(self.b(t))
        self.n += y is not None
        return y


def cont_case(name, seed, stats):
    systems()
    sysm = SYS[name]
    rng = np.random.default_rng(seed)
    base = sysm.base
    cols = rand_base(rng, base, 2)
    b0, b1 = [{k: (v if base[k].cat else _round12(v[i])) for k, v in cols.items()} for i in (0, 1)]
    keys = [k for k, d in base.items() if not d.cat and d.hi > d.lo]
    marks = []
    if len(keys) > 1 and rng.random() < .2:              # all inputs together
        for k in keys:                                   # ends in the interior: rounding must not decide about a boundary
            for b in (b0, b1):
                if b[k] in base[k].special or b[k] in [b[e] for e in keys if e != k] or b0[k] == b1[k]:
                    b[k] = base[k].lo + rng.uniform(.02, .98) * (base[k].hi - base[k].lo)
        line = Line(sysm, b0, b1, keys)
        ts = np.concatenate([[0, 1], rng.uniform(0, 1, sysm.m)])
    else:
        key = keys[int(rng.integers(len(keys)))]
        d = base[key]
        lo, hi = d.lo, d.hi
        if rng.random() < .5:                            # part of the range
            u = np.sort(rng.uniform(0, 1, 2))
            if d.log and d.lo > 0:
                lo, hi = d.lo * (d.hi / d.lo) ** u[0], d.lo * (d.hi / d.lo) ** u[1]
            else:
                lo, hi = lo + u[0] * (hi - lo), lo + u[1] * (hi - lo)
        if hi - lo < 1e-9 * max(abs(lo), abs(hi)):
            raise Skip()
        line = Line(sysm, b0, dict(b0, **{key: hi}), [key])
        t = np.concatenate([[0, 1], rng.uniform(0, 1, sysm.m)])
        marks = [s for s in d.special if lo <= s <= hi] + [b0[k] for k in d.eq if k in b0 and lo < b0[k] < hi]
        marks += [s for s in (.5, 1.0, round(lo + rng.random() * (hi - lo), 1), round(lo + rng.random() * (hi - lo))) if lo < s < hi]
        ladder = [s + e * (hi - lo) * 10.0 ** -k for s in sorted(set(marks)) for e in (-1, 1) for k in rng.uniform(1, 5, 2)]
        ts = np.concatenate([lo * (hi / lo) ** t if d.log and lo > 0 else lo + t * (hi - lo), marks, [x for x in ladder if lo < x < hi]])
    ts = np.unique(ts)
    ys = [line.at(t) for t in ts]
    steps = [(i, g) for i in range(len(ts) - 1) if (g := gap(ys[i], ys[i + 1])) is not None and g.size and np.isfinite(g).all()]
    if len(steps) < 3 or len({g.size for _, g in steps}) != 1:
        raise Skip()
    G = np.array([g for _, g in steps])
    typ = np.median(G, 0) + 1e-12 * np.max(G, 0) + 1e-300
    slope = G / np.diff(ts)[[i for i, _ in steps]][:, None]
    styp = np.median(slope, 0) + 1e-12 * np.max(slope, 0) + 1e-300
    near = np.maximum(np.vstack([slope[:1] * np.inf if len(slope) < 2 else slope[1:2], slope[:-1]]), np.vstack([slope[1:], slope[-2:-1]]))
    odd = slope / (near + 1e-9 * np.max(slope, 0) + 1e-300)       # steeper than both neighbours
    cand = {(int(np.argmax((G / typ).max(1))), None), (int(np.argmax((slope / styp).max(1))), None), (int(rng.integers(len(steps))), None)}
    cand |= {(int(i), int(np.argmax(odd[i]))) for i in np.argsort(odd.max(1))[-3:]}
    done = 0
    todo = set()
    for ci, oo in cand:
        g = steps[ci][1]
        todo |= {(ci, o) for o in ((oo,) if oo is not None else (int(np.argmax(g / typ)), int(np.argmax(g / np.maximum(np.abs(np.concatenate(ys[steps[ci][0]])), 1e-12)))))}
    for ci, o in sorted(todo):
        i = steps[ci][0]
        bisect(line, o, ts[i], ys[i], ts[i + 1], ys[i + 1])
        done += 1
    for s in sorted(set(marks)):                          # the immediate neighbourhood of special values
        y = line.at(s)
        if y is None or rng.random() < .4:
            continue
        for sg in (-1, 1):
            t = s + sg * 1e-5 * max(abs(s), 1e-3 * (ts[-1] - ts[0]))
            if not ts[0] <= t <= ts[-1]:
                continue
            y2 = line.at(t)
            g = gap(y, y2)
            if g is None or not np.isfinite(g).all() or not g.max() > 0:
                continue
            o = int(np.argmax(g / typ))
            bisect(line, o, s, y, t, y2)
            done += 1
    stats["evaluations"] += line.n
    h = hash((name, seed))
    if h not in stats["hashes"] and G.max() > 0:
        stats["hashes"].add(h)
        stats["nontrivial"] += done
    if len(stats["samples"]) < 2:
        stats["samples"].append({"function": sysm.name, "varied": line.keys, "from": jsonable(line.b(ts[0])), "to": jsonable(line.b(ts[-1]))})


def bisect(line, o, x0, y0, x1, y1):
    cat = np.concatenate
    f0, f1 = cat(y0)[o], cat(y1)[o]
    hist = [abs(f1 - f0)]
    for _ in range(60):
        xm = .5 * (x0 + x1)
        if xm in (x0, x1) or abs(x1 - x0) < 1e-12 * max(abs(x0), abs(x1)):
            break
        ym = line.at(xm)
        if ym is None or cat(ym).size <= o:
            return
        fm = cat(ym)[o]
        if not np.isfinite(fm):
            return
        if abs(fm - f0) >= abs(f1 - fm):
            x1, f1 = xm, fm
        else:
            x0, f0 = xm, fm
        hist.append(abs(f1 - f0))
        if hist[-1] <= 1e-8 * max(abs(f0), abs(f1)):
            return
    if len(hist) < 17:
        return
    last = hist[-1]
    if last > 3 * hist[0]:            # a pole, not a jump
        return
    if last <= .5 * hist[-13] or last <= 1e-7 * max(abs(f0), abs(f1)):
        return
    s = line.sysm
    tol = s.tol(line.b(x0), o)        # what rounding can do here
    if tol is None or abs(last - s.published(line.b(x0), line.b(x1), o)) <= tol:
        return
    w = cat(s.at(line.b(x0)))[o]      # nor what the last digit of the other inputs does
    for k in line.b0:
        if isinstance(line.b0[k], float) and k not in line.keys:
            for e in (-4e-16, 4e-16):
                y = s.at(dict(line.b(x0), **{k: line.b0[k] * (1 + e)}))
                if y is not None and cat(y).size > o and abs(cat(y)[o] - w) > .2 * last:
                    return
    what = "as %s goes from %r to %r, everything else fixed" % (line.single, float(x0), float(x1)) if line.single else "as the inputs move from %s by less than 1e-12 of their range" % {
        k: float("%.9g" % v) for k, v in line.b(x0).items() if k in line.keys}
    raise Violation("%s: %s, output number %d jumps from %r to %r" % (s.name, what, o, f0.item(), f1.item()))


def run_cont(part, seed, scale, sink, payload):
    from hypothesis import strategies as st
    if payload is not None:
        try:
            cont_case(payload["spec"], payload["seed"], new_stats())
        except Skip:
            pass
        return
    out, stats = sink
    for sysm in systems()[part % PARTS::PARTS]:
        def body(s, sysm=sysm):
            try:
                cont_case(sysm.name, s, stats)
            except Violation as v:
                v.payload = {"kind": "extra", "name": "C29.continuity", "spec": sysm.name, "seed": s}
                raise
        hyp("C29" + sysm.name, seed, max(6, int(60 * scale)), body, (st.integers(0, 2 ** 31 - 1),), out, stats)
        if out["violation"]:
            return


props.EXTRA["C29.continuity"] = ("C29", finish(run_cont, "C29.continuity", "x"), PARTS)
