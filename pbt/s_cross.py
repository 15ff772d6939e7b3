"""C24 arrays are evaluated element by element, C25 calls are pure: arguments untouched, results independent of history.

Both run over the functions of all the other properties, whose generators they reuse."""
import copy
import os
import pickle
import random
import sys
import time
import traceback
import warnings

import numpy as np

from . import boot, engine, props
from .s_avo import HB as AVOHB, hti as avo_hti
from .s_qi import EB, seeds_of
from .engine import Cat, I, MISSING, R, Rel, Skip, Vec, Violation, call, flat, jsonable, new_stats, rand_base, require, _round12

PARTS = 16


# ----------------------------------------------------------------- C24
LAYS = ("one_d", "subset", "two_d", "strided", "readonly", "sorted", "const", "series", "int_arr", "size1", "broadcast", "perm", "concat", "perm", "concat", "list", "long")


def elem_specs():
    return [s for s in engine.SPECS.values() if s.vec]


def pick(args, shape, j):
    """Arguments of element j as plain scalars."""
    el = {}
    for k, v in args.items():
        el[k] = float(np.broadcast_to(v, shape).ravel()[j]) if isinstance(v, np.ndarray) else v
    return el


def fit(g, shape):
    g = np.asarray(g)
    if g.shape != shape:
        if g.size == int(np.prod(shape)):
            return g.reshape(shape)
        return np.broadcast_to(g, shape)
    return g


def outputs(spec, a):
    try:
        g = spec.invoke(a)
        g = tuple(engine.plain(x) for x in g) if isinstance(g, tuple) else engine.plain(g)
        return flat(g)
    except (TypeError, ValueError) as e:
        raise Violation("%s returned something that is not numbers: %s" % (spec.path, e))


def cmp_rows(spec, big, small, shape, j, tols, what):
    if len(big) != len(small):
        raise Violation("%s: %d outputs for an array, %d for one element" % (spec.path, len(big), len(small)))
    for i, (b, s) in enumerate(zip(big, small)):
        try:
            B = fit(b, shape).ravel()[j]
        except ValueError:
            raise Violation("%s: output %d has shape %s for arguments of shape %s" % (spec.path, i, np.shape(b), shape))
        s = np.ravel(s)
        if s.size != 1:
            raise Violation("%s: output %d has shape %s for one element" % (spec.path, i, np.shape(s)))
        t = 2 * np.max(np.broadcast_to(tols[i], np.shape(tols[i])).ravel()[0]) + 1e-9 * abs(s[0])
        if not bool(engine.close(np.asarray(B), np.asarray(s[0]), t)):
            raise Violation("%s: output %d, element %d is %r in %s but %r on its own" % (spec.path, i, j, B.item(), what, s[0].item()))


def elem_case(name, seed, layout, stats):
    spec = engine.SPECS[name]
    if layout in spec.no or layout in ("perm", "concat", "long") and "one_d" in spec.no:
        raise Skip()
    rng = np.random.default_rng(seed)
    n = int(rng.integers(2, 15))
    if layout == "two_d":
        n = 7 * int(rng.integers(1, 5))
    elif layout == "long" or layout in ("perm", "concat", "one_d", "strided", "sorted") and rng.random() < .25:
        n = int(rng.integers(100, 6000)) if spec.n_pts >= 200 else int(rng.integers(20, 60))
    cols = rand_base(rng, spec.base, n)
    for k, d in spec.base.items():
        if not d.cat:
            cols[k] = np.array([_round12(x) for x in cols[k]])
    args = spec.args_of(cols)
    lay = engine._layout(spec, "one_d" if layout in ("perm", "concat", "long") else layout, args, n, rng)
    if lay is None:
        raise Skip()
    a, vec, shape = lay
    ra = engine.plain_args(spec, a)
    given = lambda d: {k: v for k, v in d.items() if not (isinstance(v, str) and v == MISSING)}
    if spec.valid is not None:
        m = np.array(np.broadcast_to(spec.valid(**given(ra)), shape))
        if not m.all():
            if len(shape) != 1 or layout == "series" or not m.any():
                raise Skip()
            for k in vec:
                if np.shape(a[k]) == shape:
                    a[k] = a[k][m] if isinstance(a[k], np.ndarray) else type(a[k])(x for x, ok in zip(a[k], m) if ok)
            ra = engine.plain_args(spec, a)
            shape = (int(m.sum()),)
    big = outputs(spec, a)
    N = int(np.prod(shape))
    what = "an array (%s)" % layout
    if layout == "perm":
        p = rng.permutation(N)
        b = {k: (v[p] if isinstance(v, np.ndarray) and v.shape == shape else v) for k, v in a.items()}
        g2 = outputs(spec, b)
        for i, (x, y) in enumerate(zip(big, g2)):
            X, Y = fit(x, shape)[p], fit(y, shape)
            tol = 2 * spec.rtol * np.abs(X) + 1e-9 * np.abs(X) + spec.floor + (1e-6 * np.max(np.abs(X[np.isfinite(X)]), initial=0) if spec.tolf is not None else 0)
            if not engine.close(X, Y, tol).all():
                raise Violation("%s: output %d changes when the elements are reordered" % (spec.path, i))
    elif layout == "concat" and N >= 2:
        k0 = int(rng.integers(1, N))
        halves = []
        for sl in (slice(0, k0), slice(k0, N)):
            halves.append((sl, outputs(spec, {k: (v[sl] if isinstance(v, np.ndarray) and v.shape == shape else v) for k, v in a.items()})))
        for sl, g2 in halves:
            for i, (x, y) in enumerate(zip(big, g2)):
                X = fit(x, shape)[sl]
                Y = fit(y, X.shape)
                tol = 2 * spec.rtol * np.abs(X) + 1e-9 * np.abs(X) + spec.floor + (1e-6 * np.max(np.abs(X[np.isfinite(X)]), initial=0) if spec.tolf is not None else 0)
                if not engine.close(X, Y, tol).all():
                    raise Violation("%s: output %d differs between the whole array and its parts" % (spec.path, i))
    else:
        for j in (range(N) if N <= 16 else [0, N - 1] + list(rng.choice(N, 14, replace=False))):
            el = pick(ra, shape, int(j))
            try:
                want, tols = spec.expected(el)
            except (Skip, ArithmeticError):
                continue
            if not all(np.isfinite(w).all() for w in want):
                continue          # mixing the rows left the domain
            call_el = el
            if spec.nonscalar:
                call_el = {k: (np.array([v]) if k in vec else v) for k, v in el.items()}
            cmp_rows(spec, big, outputs(spec, call_el), shape, int(j), tols, what)
    stats["evaluations"] += N
    h = hash((name, seed, layout))
    if N > 1 and h not in stats["hashes"]:
        stats["hashes"].add(h)
        stats["nontrivial"] += N if layout in ("perm", "concat") else min(N, 16)
    stats["layouts"][layout] = stats["layouts"].get(layout, 0) + 1
    if len(stats["samples"]) < 2:
        stats["samples"].append({"function": spec.path, "layout": layout, "seed": int(seed), "args": jsonable(pick(ra, shape, 0))})


def hyp(name, seed, n_ex, body, strategies, out, stats, shrink=False):
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    from hypothesis import strategies as st
    from hypothesis.errors import Flaky
    last = {}

    def guarded(a):
        engine.arm()
        try:
            body(*a)
        except Skip:
            stats["skipped"] += 1
        except Violation as v:
            last["v"] = v
            raise
    sett = settings(max_examples=n_ex, deadline=None, database=None, phases=(Phase.generate, Phase.shrink) if shrink else (Phase.generate,),
                    report_multiple_bugs=False, suppress_health_check=list(HealthCheck), print_blob=False)
    t = hseed(engine._seed_of(name, seed))(sett(given(st.tuples(*strategies))(guarded)))
    try:
        t()
    except Violation as v:
        out["violation"] = {"msg": v.msg, "payload": v.payload}
    except Flaky:
        v = last.get("v")
        if v is None:
            raise
        out["violation"] = {"msg": v.msg + " (depends on call history)", "payload": v.payload}
    except engine.Hang as e:
        out["violation"] = {"msg": "%s: %s" % (name, e), "payload": {"kind": "extra", "name": name}}
    finally:
        engine.arm(False)


def finish(fn, name, mode):
    def run(task):
        if task[0] == "replay":
            return fn(None, None, None, None, task[1])
        _, nm, k, seed, scale = task
        stats = new_stats()
        out = {"name": nm, "mode": k, "violation": None, "error": None}
        t0 = time.time()
        try:
            fn(int(k), seed, scale, (out, stats), None)
        except BaseException:  # noqa: BLE001
            out["error"] = traceback.format_exc()[-3000:]
        stats.pop("hashes")
        out["stats"] = stats
        out["wall"] = time.time() - t0
        return out
    return run


def run_elem(part, seed, scale, sink, payload):
    from hypothesis import strategies as st
    if payload is not None:
        try:
            elem_case(payload["spec"], payload["seed"], payload["layout"], new_stats())
        except Skip:
            pass
        return
    out, stats = sink
    for spec in elem_specs()[part % PARTS::PARTS]:
        lays = [x for x in LAYS if x not in spec.no]

        def body(s, lay, spec=spec):
            try:
                elem_case(spec.name, s, lay, stats)
            except Violation as v:
                v.payload = {"kind": "extra", "name": "C24.elementwise", "spec": spec.name, "seed": s, "layout": lay}
                raise
        hyp("C24" + spec.name, seed, max(6, int(60 * scale)), body, (st.integers(0, 2 ** 31 - 1), st.sampled_from(lays)), out, stats)
        if out["violation"]:
            return


props.EXTRA["C24.elementwise"] = ("C24", finish(run_elem, "C24.elementwise", "x"), PARTS)


def rows(path, big, one, j, what, rtol=1e-9, scale=None):
    """Element j of every output of a vectorised call against a call for that element."""
    B, O = flat(big), flat(one)
    require(len(B) == len(O), "%s: %d outputs for an array, %d for one element" % (path, len(B), len(O)))
    for i, (b, o) in enumerate(zip(B, O)):
        if np.size(o) != 1:
            raise Violation("%s: output %d has %d elements for %s alone" % (path, i, np.size(o), what))
        engine.require_agree(b[j], np.ravel(o)[0], "%s: output %d for %s in an array and alone" % (path, i, what), rtol=rtol, scale=scale)


AZ = Vec(R(-360, 720, (0, 45, 90, 180)), (1, 12))


@Rel("C24", "C24.azimuths", dict(C33=R(5, 100), f11=R(.7, 3), f44=R(.05, .5), f66=R(.05, .5), f13=R(.05, .9), den=R(1, 5), az=AZ, kind=Cat("HTI", "VTI"), form=Cat("array", "list", "two_d")))
def _(C33, f11, f44, f66, f13, den, az, kind, form):
    from . import tensor as T
    mk = T.hti if kind == "HTI" else T.vti
    C = np.asarray(mk(f11 * C33, C33, f13 * min(C33, f11 * C33) * .8, f44 * C33, f66 * C33))
    A = np.array(az)
    arg = az if form == "list" else A if form == "array" else np.stack([A, A[::-1]])
    big = call("Anisotropy.vel_azi_" + kind, C, den, arg)
    for x in flat(big):
        require(np.shape(x) == np.shape(arg), "%d azimuths give an output of shape %s" % (len(az), np.shape(x)))
    for j in range(len(az)):
        one = call("Anisotropy.vel_azi_" + kind, C, den, az[j])
        rows("vel_azi_" + kind, big, one, (0, j) if form == "two_d" else j, "azimuth %r" % az[j], 1e-7)
        if form == "two_d":
            rows("vel_azi_" + kind, big, one, (1, len(az) - 1 - j), "azimuth %r" % az[j], 1e-7)


@Rel("C24", "C24.impedance_logs", dict(vp=Vec(R(1500, 6000), (1, 12)), r=Vec(R(.3, .6), 12), d=Vec(R(1500, 3000), 12), th=Vec(R(0, 45, (0, 30)), (1, 5)), SP=R(.5, .65), norm=Cat(True, False)))
def _(vp, r, d, th, SP, norm):
    n = len(vp)
    vp, d, th = np.array(vp), np.array(d[:n]), np.array(th)
    vs = vp * np.array(r[:n])
    big = flat(call("AVO.EI_ref", vp, vs, d, th, SP, norm))
    for x in big:
        require(x.shape == (n, len(th)), "impedance of %d samples at %d angles has shape %s" % (n, len(th), x.shape))
    for k in range(len(th)):          # every angle stands alone
        one = flat(call("AVO.EI_ref", vp, vs, d, th[k:k + 1], SP, norm))
        for i in range(len(big)):
            engine.require_agree(big[i][:, k], one[i][:, 0], "EI_ref: output %d at angle %r with and without the other angles" % (i, th[k]), rtol=1e-9)
    if not norm:
        for j in range(n):            # and, without normalisation, every sample
            one = flat(call("AVO.EI_ref", float(vp[j]), float(vs[j]), float(d[j]), th, SP, False))
            for i in range(len(big)):
                engine.require_agree(big[i][j], np.ravel(one[i]), "EI_ref: output %d of sample %d in the log and alone" % (i, j), rtol=1e-9)
    p = np.argsort(d)
    perm = flat(call("AVO.EI_ref", vp[p], vs[p], d[p], th, SP, norm))
    for i in range(len(big)):
        engine.require_agree(perm[i], big[i][p], "EI_ref: output %d of the reordered log" % i, rtol=1e-9)


@Rel("C24", "C24.reflectivity_grid", dict(AVOHB, th=Vec(R(0, 60, (0, 20)), (1, 6)), az=Vec(R(-180, 360, (0, 90)), (1, 6))))
def _(a1, r1, e1, d1, g1, rho1, a2, r2, e2, d2, g2, rho2, th, az):
    C1, C2 = np.asarray(avo_hti(a1, r1, e1, d1, g1, rho1)), np.asarray(avo_hti(a2, r2, e2, d2, g2, rho2))
    big = np.asarray(call("AVO.AVO_HTI", rho1, rho2, C1, C2, np.array(th), np.array(az)))
    require(big.shape == (len(az), len(th)), "%d angles and %d azimuths give shape %s" % (len(th), len(az), big.shape))
    for i, z in enumerate(az):
        for j, t in enumerate(th):
            one = np.ravel(call("AVO.AVO_HTI", rho1, rho2, C1, C2, t, z))
            require(one.size == 1, "one direction gives %d reflectivities" % one.size)
            engine.require_agree(big[i, j], one[0], "AVO_HTI at angle %r, azimuth %r in a grid and alone" % (t, z), rtol=1e-9, scale=1e-3)


@Rel("C24", "C24.tables", dict(Ks=Vec(R(5, 120), (1, 6)), Gs=Vec(R(3, 90), 6), phi=Vec(R(0, .5, (0, .1)), (1, 6)), square=Cat(True, False), r=Vec(R(.2, .65), 12), d=Vec(R(1.5, 3), 12),
                               th=Vec(R(-60, 60, (0, 30)), (1, 6))), n_a=80)
def _(Ks, Gs, phi, square, r, d, th):
    """Solids by porosities, interfaces by angles: every entry is what its row and column give on their own."""
    n = len(Ks)
    if square:
        phi, th = (phi * 6)[:n], (th * 6)[:n]
    big = flat(call("EM.Swiss_cheese", np.array(Ks), np.array(Gs[:n]), np.array(phi)))
    for x in big:
        require(x.shape == (n, len(phi)), "%d solids and %d porosities give shape %s" % (n, len(phi), x.shape))
    for i in range(n):
        for j in range(len(phi)):
            one = flat(call("EM.Swiss_cheese", Ks[i], Gs[i], phi[j]))
            for b, o in zip(big, one):
                engine.require_agree(b[i, j], np.ravel(o)[0], "Swiss_cheese of solid %d at porosity %r in a table and alone" % (i, phi[j]), rtol=1e-9)
    v1, v2 = np.array(Ks) * 50, np.array(Gs[:n]) * 60
    s1, s2, d1, d2 = v1 * np.array(r[:n]), v2 * np.array(r[6:6 + n]), np.array(d[:n]), np.array(d[6:6 + n])
    if np.any(np.abs(np.sin(np.deg2rad(th))).max() * s1 / v1 > .99):
        raise Skip()
    big = flat(call("AVO.Aki_Richards", np.array(th), v1, v2, s1, s2, d1, d2))
    for k in (0, 1):
        require(big[k].shape == (n, len(th)), "%d interfaces and %d angles give shape %s" % (n, len(th), big[k].shape))
    for k in (2, 3):
        require(big[k].shape == (n, 1), "%d interfaces give intercepts of shape %s" % (n, big[k].shape))
    for i in range(n):
        for j in range(len(th)):
            one = flat(call("AVO.Aki_Richards", th[j], *[float(x[i]) for x in (v1, v2, s1, s2, d1, d2)]))
            for k in range(4):
                engine.require_agree(big[k][i, j if k < 2 else 0], np.ravel(one[k])[0], "Aki_Richards output %d of interface %d at angle %r in a table and alone" % (k, i, th[j]), rtol=1e-9, scale=1e-3)


@Rel("C24", "C24.compositions", dict(f=Vec(R(0, 1, (0, 1)), (1, 24)), M=Vec(R(.5, 200, log=True), 3), K=R(10, 80), G=R(8, 60), Ki=Vec(R(0, 60, (0, 2.2)), 8), Gi=Vec(R(0, 40, (0,)), 8), al=Vec(R(.01, 10, (1,), log=True), (1, 8))))
def _(f, M, K, G, Ki, Gi, al):
    rows_ = np.array([[x, (1 - x) * y, (1 - x) * (1 - y)] for x, y in zip(f, f[::-1])])
    big = call("EM.VRH", rows_, np.array(M))
    for j in range(len(rows_)):
        rows("EM.VRH", big, call("EM.VRH", rows_[j], np.array(M)), j, "composition %s" % engine.fmt(rows_[j]))
    n = len(al)
    Ki, Gi, al = np.array(Ki[:n]), np.array(Gi[:n]), np.array(al)
    big = call("EM.PQ_vectorize", K, G, Ki, Gi, al)
    for j in range(n):
        rows("EM.PQ_vectorize", big, call("EM.PQ_vectorize", K, G, Ki[j:j + 1], Gi[j:j + 1], al[j:j + 1]), j, "inclusion %d" % j, 1e-7)
        if al[j] > .98:      # prolate: recorded as F2; nearly spherical: ill-conditioned
            continue
        rows("EM.PQ_vectorize and EM.PQ", big, call("EM.PQ", K, G, float(Ki[j]), float(Gi[j]), float(al[j])), j, "inclusion %d" % j, 1e-6)


@Rel("C24", "C24.cement_samples", dict(EB), n_a=40, n_b=6, n_sc=8)
def _(phi_c, vsh, scheme, base, steps, x, t, n, kind, sd, **el):
    seeds = seeds_of(base, [0] + steps)
    top = phi_c - seeds[-1]
    if top < .05:
        raise Skip()
    phi = np.array(x[:n]) * top
    Vp = 1500 + 4000 * np.abs(np.array(t[:n]))
    QI = boot.classes()["QI"]
    rest = (el["Kqz"], el["Gqz"], el["Ksh"], el["Gsh"], phi_c, 20 - 34 * phi_c + 14 * phi_c ** 2, el["Kc"], el["Gc"], el["Db"], el["Kb"], scheme, vsh, el["Dsh"], el["Dqz"], el["Dc"])
    big = np.asarray(call("QI.estimate_cem", QI(Vp, phi), [float(s) for s in seeds], *rest), float)
    require(big.shape == (n,), "%d estimates for %d samples" % (big.size, n))
    p = np.argsort(Vp)
    engine.require_agree(np.asarray(call("QI.estimate_cem", QI(Vp[p], phi[p]), [float(s) for s in seeds], *rest), float), big[p], "cement of the reordered log", rtol=1e-8, scale=1e-3)
    for j in range(n):
        one = np.asarray(call("QI.estimate_cem", QI(Vp[j:j + 1], phi[j:j + 1]), [float(s) for s in seeds], *rest), float)
        require(one.shape == (1,), "one sample gives %d estimates" % one.size)
        engine.require_agree(big[j], one[0], "cement of sample %d in the log and alone" % j, rtol=1e-8, scale=1e-3)


# ----------------------------------------------------------------- C25
def _quiet(*a):
    pass


def world():
    """Settings of the process that a computation has no business changing."""
    import matplotlib
    import pandas as pd
    w = {"the warning filters": tuple(warnings.filters), "the environment": dict(os.environ), "the working directory": os.getcwd(),
         "numpy's print options": {k: v for k, v in np.get_printoptions().items()},
         "matplotlib's defaults": {k: copy.copy(v) for k, v in dict.items(matplotlib.rcParams) if not k.startswith("backend")},
         "the module search path": tuple(sys.path), "the recursion limit": sys.getrecursionlimit()}
    try:
        w["pandas' options"] = {k: pd.get_option(k) for k in ("mode.chained_assignment", "display.precision", "display.max_rows", "display.max_columns", "display.float_format")}
    except Exception:  # noqa: BLE001
        pass
    return w


def diff_of(a, b):
    if isinstance(a, dict):
        ks = [k for k in set(a) | set(b) if k not in a or k not in b or a[k] != b[k]]
        return ", ".join("%s %r -> %r" % (k, a.get(k), b.get(k)) for k in sorted(ks)[:3])
    return "%s -> %s" % (str(a)[:80], str(b)[:80])


class Recorder:
    """Stands in for the lookup of the code under test: every call is checked
    for side effects and kept with private copies of its arguments and result."""

    def __init__(self):
        self.trace = []
        self.real = boot.target
        self.depth = 0

    def target(self, path):
        f = self.real(path)

        def g(*a, **k):
            if self.depth:
                return f(*a, **k)
            self.depth += 1
            try:
                return self.observe(path, f, a, k)
            finally:
                self.depth -= 1
        return g

    def observe(self, path, f, a, k):
        before = copy.deepcopy((a, k))
        rs, wd = (np.random.get_state(), random.getstate()), world()
        writable = [x.flags.writeable for x in a if isinstance(x, np.ndarray)]
        # a state no library would choose, so that choosing another one shows
        with np.errstate(call=_quiet, all="call"):
            es = np.geterr()
            try:
                r = f(*a, **k)
            except Exception as e:  # noqa: BLE001
                self.effects(path, before, (a, k), rs, (es, np.geterr(), wd), writable)
                self.trace.append((path, before, ("raised", type(e).__name__)))
                raise
            self.effects(path, before, (a, k), rs, (es, np.geterr(), wd), writable)
        self.trace.append((path, before, snap(r)))
        return r

    def effects(self, path, before, after, rs, es, writable):
        if not same(before, after, 0.0):
            raise Impure("%s changed its arguments: %s -> %s" % (path, engine.fmt(str(jsonable(before[0]))[:300]), str(jsonable(after[0]))[:300]))
        if not np.array_equal(np.random.get_state()[1], rs[0][1]) or np.random.get_state()[2] != rs[0][2] or random.getstate() != rs[1]:
            raise Impure("%s draws from or reseeds the global random generator" % path)
        if [x.flags.writeable for x in after[0] if isinstance(x, np.ndarray)] != writable:
            raise Impure("%s changes whether its arguments can be written to" % path)
        if es[0] != es[1]:
            raise Impure("%s changes the global floating-point error handling" % path)
        now = world()
        for k, v in es[2].items():
            if now[k] != v:
                raise Impure("%s changes %s: %s" % (path, k, diff_of(v, now[k])))


class Impure(BaseException):      # must pass the handlers for ordinary errors of the code under test
    pass


def is_fig(x):
    return type(x).__module__.startswith("matplotlib")


def snap(r):
    if isinstance(r, (tuple, list)):
        return tuple(snap(x) for x in r)
    if is_fig(r):
        return "figure"
    return copy.deepcopy(r)


def same(x, y, tol=1e-12):
    if isinstance(x, (tuple, list)):
        return isinstance(y, (tuple, list)) and len(x) == len(y) and all(same(p, q, tol) for p, q in zip(x, y))
    if isinstance(x, dict):
        return isinstance(y, dict) and list(x) == list(y) and all(same(x[k], y[k], tol) for k in x)
    if hasattr(x, "to_numpy"):
        return hasattr(y, "to_numpy") and list(x.index) == list(y.index) and same(x.to_numpy(), y.to_numpy(), tol)
    if x is None or isinstance(x, (str, bool)):
        return x == y
    if hasattr(x, "__dict__") and not isinstance(x, np.generic) and not callable(x) and not hasattr(x, "dtype"):
        return same(vars(x), vars(y), tol)
    try:
        a, b = np.asarray(x), np.asarray(y)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "OUS":
            return bool(np.all(a == b)) if a.dtype.kind != "O" else all(same(p, q, tol) for p, q in zip(a.ravel(), b.ravel()))
        with np.errstate(all="ignore"):
            return bool(engine.close(np.asarray(a, complex if a.dtype.kind == "c" else float), np.asarray(b, complex if b.dtype.kind == "c" else float),
                                     tol * (np.abs(a) + np.abs(b))).all())
    except Exception:  # noqa: BLE001
        return True


def in_child(fn):
    """Run fn in a forked process, so nothing it leaves behind is seen here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            engine.arm()
            try:
                res = ("ok", fn())
            except Impure as e:
                res = ("impure", str(e))
            except engine.Hang:
                res = ("hang", "")
            except BaseException:  # noqa: BLE001
                res = ("error", traceback.format_exc()[-2000:])
            with os.fdopen(w, "wb") as fh:
                pickle.dump(res, fh)
        except BaseException:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        return ("error", "child died")
    return pickle.loads(data)


def names():
    return [("spec", n) for n in sorted(engine.SPECS)] + [("rel", n) for n in sorted(engine.RELS)]


def play(history):
    """Run the steps through the recorder; what each step's own property says about the values is not judged here."""
    rec = Recorder()
    boot.target = rec.target
    try:
        for kind, name, seed in history:
            rng = np.random.default_rng(seed)
            st = new_stats()
            engine.CURRENT["stats"] = st
            try:
                if kind == "spec":
                    spec = engine.SPECS[name]
                    lays = [x for x in ("one_d", "one_d", "subset", "two_d", "scalar", "strided", "int_arr") if x not in spec.no]
                    engine.run_bulk_case(spec, seed, lays[seed % len(lays)], 3 + seed % 12, st) if not (spec.nonscalar and not spec.vec) else None
                else:
                    rel = engine.RELS[name]
                    b = {}
                    for k, d in rel.base.items():
                        b[k] = d.rand1(rng) if d.cat else _round12(d.rand(rng, 1, {q: np.array([v]) for q, v in b.items() if isinstance(v, float)})[0])
                    rel.f(**b)
            except (Violation, Skip, TypeError, ValueError, IndexError, AttributeError, KeyError, ArithmeticError, np.linalg.LinAlgError):
                pass
    finally:
        boot.target = rec.real
    return rec.trace


def invoke(path, a, k):
    try:
        with np.errstate(all="ignore"):
            return snap(boot.target(path)(*copy.deepcopy(a), **copy.deepcopy(k)))
    except Exception as e:  # noqa: BLE001
        return ("raised", type(e).__name__)


def scribble(x):
    if isinstance(x, (tuple, list)):
        for v in x:
            scribble(v)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fcib":
        x[...] = 77


def rerun(trace, order, dirty):
    """Repeat the recorded calls in another order; optionally overwrite every result before the next call."""
    out = {}
    for i in order:
        path, (a, k), _ = trace[i]
        if dirty:
            try:
                with np.errstate(all="ignore"):
                    scribble(boot.target(path)(*copy.deepcopy(a), **copy.deepcopy(k)))
            except Exception:  # noqa: BLE001
                pass
        out[i] = invoke(path, a, k)
    import matplotlib.pyplot as plt
    plt.close("all")
    return out


def history_case(history, stats):
    kind, trace = in_child(lambda: play(history))
    pay = {"kind": "extra", "name": "C25.histories", "history": [list(h) for h in history]}
    if kind == "impure":
        raise Violation(trace, pay)
    if kind == "hang":
        raise Skip()
    if kind == "error":
        raise RuntimeError(trace)
    if not trace:
        raise Skip()
    seed = history[0][2]
    rng = np.random.default_rng(seed)
    idx = np.arange(len(trace))
    if len(idx) > 150:
        idx = np.sort(rng.choice(idx, 150, replace=False))
    runs = [("in reverse order", lambda: rerun(trace, list(idx[::-1]), False)),
            ("in shuffled order after overwriting earlier results", lambda: rerun(trace, list(rng.permutation(idx)), True))]
    for i in rng.choice(idx, min(len(idx), 6), replace=False):
        runs.append(("alone in a fresh process", lambda i=i: rerun(trace, [i], False)))
    for what, fn in runs:
        kind, res = in_child(fn)
        if kind == "hang":
            raise Skip()
        if kind != "ok":
            raise RuntimeError(res)
        for i, r in res.items():
            if not same(trace[i][2], r):
                raise Violation("%s(%s) gave %s within the history and %s when repeated %s" % (
                    trace[i][0], ", ".join(engine.fmt(x) for x in trace[i][1][0])[:300], str(jsonable(trace[i][2]))[:200], str(jsonable(r))[:200], what), pay)
    stats["evaluations"] += len(trace)
    stats["nontrivial"] += len(trace)
    stats["layouts"]["histories"] = stats["layouts"].get("histories", 0) + 1
    if len(stats["samples"]) < 2:
        stats["samples"].append({"history": [list(h) for h in history], "calls": [t[0] for t in trace][:20]})


def reduce_history(h, v):
    """Drop steps while the history still fails."""
    i = 0
    while i < len(h) and len(h) > 1:
        t = h[:i] + h[i + 1:]
        try:
            history_case(t, new_stats())
            i += 1
        except Violation as w:
            h, v = t, w
        except Skip:
            i += 1
    return v


def run_hist(part, seed, scale, sink, payload):
    from hypothesis import strategies as st
    if payload is not None:
        try:
            history_case([tuple(h) for h in payload["history"]], new_stats())
        except Skip:
            pass
        return
    out, stats = sink
    nm = names()
    mine = nm[part % PARTS::PARTS]
    memo = {}

    def body(steps):
        # each history also visits the next function not yet covered by this part, twice in a row
        # (repeat and near-repeat), so that every function is exercised in every run
        k = mine[memo.setdefault(repr(steps), len(memo)) % len(mine)]
        h = [(x[0], x[1], s) for x, s in steps]
        h = [(k[0], k[1], h[0][2]), (k[0], k[1], h[0][2] + 1)] + h + [(k[0], k[1], h[0][2])]
        try:
            history_case(h, stats)
        except Violation as v:
            raise reduce_history(h, v)
    n_ex = max(len(mine), int(len(mine) * 1.5 * scale))
    hyp("C25%d" % part, seed, n_ex, body, (st.lists(st.tuples(st.sampled_from(nm), st.integers(0, 10 ** 6)), min_size=1, max_size=6),), out, stats)


props.EXTRA["C25.histories"] = ("C25", finish(run_hist, "C25.histories", "x"), PARTS)
