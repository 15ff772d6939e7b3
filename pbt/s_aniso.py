"""C02 rotation, C03 phase velocities / anisotropy parameters, C04 layer averaging."""
import numpy as np

from . import tensor as T
from .engine import (MISSING, Cat, I, R, Rel, Skip, Spec, Vec, Violation, agree, call, note_known, require,
                     require_agree)

# ----------------------------------------------------------------- C02
C21 = Vec(R(-30, 30, (0, 1, -1, 10)), 21)
ANG = R(-720, 720, tuple(range(-360, 361, 15)), ps=.4)
KIND = Cat("general", "general", "ortho", "vti", "hti", "iso", "int")


def sym6(v, kind):
    v = [float(x) for x in v]
    if kind == "int":
        v = [round(x) for x in v]
    C = np.zeros((6, 6))
    iu = np.triu_indices(6)
    C[iu] = v
    C = C + np.triu(C, 1).T
    if kind == "ortho":
        C[:3, 3:] = 0
        C[3:, :3] = 0
        C[3:, 3:] = np.diag(np.diag(C)[3:])
    elif kind == "vti":
        C = T.vti(v[0], v[1], v[2], v[3], v[4])
    elif kind == "hti":
        C = T.hti(v[0], v[1], v[2], v[3], v[4])
    elif kind == "iso":
        C = T.to6(T.iso(v[0], v[1]))
    if kind == "int":
        C = C.astype(int)
    return C


def rotm(theta, axis):
    t = np.deg2rad(theta)
    c, s = np.cos(t), np.sin(t)
    if axis == 3:
        return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.0]])
    return np.array([[1.0, 0, 0], [0, c, -s], [0, s, c]])


def bond(Rm):
    """Bond matrix of a rotation, from the action on symmetric stress tensors."""
    M = np.zeros((6, 6))
    for J, (k, l) in enumerate(T.PAIR):
        s = np.zeros((3, 3))
        s[k, l] = s[l, k] = 1.0
        r = Rm @ s @ Rm.T
        M[:, J] = [r[i, j] for i, j in T.PAIR]
    return M


def bond_defect(C, theta, axis):
    """The recorded defect: the shear-to-normal block of the Bond matrix lacks its factor 2."""
    M = bond(rotm(theta, axis))
    M[:3, 3:] /= 2
    return M @ C @ M.T


def bond_call(C, theta, axis, what):
    """Calls the code, accepts the true rotation (True) or the recorded defect (False)."""
    sc = max(np.abs(C).max(), 1e-300)
    got = call("Anisotropy.Bond_trans", C, theta) if axis == 0 else call("Anisotropy.Bond_trans", C, theta, axis)
    want = T.rotate(C, rotm(theta, axis or 3))
    ok, why = agree(got, want, 1e-10, scale=sc)
    if ok:
        return np.asarray(got), True
    ok2, _ = agree(got, bond_defect(C, theta, axis or 3), 1e-10, scale=sc)
    if not ok2:
        raise Violation("%s (theta=%r, axis=%r) is not the rotated stiffness: %s" % (what, theta, axis or "default", why))
    note_known("F1")
    return np.asarray(got), False


@Rel("C02", "C02.equals_tensor_rotation", dict(v=C21, kind=KIND, theta=ANG, axis=Cat(1, 3, 0), lay=Cat(0, 1, 2, 3), sc=Cat(1, 1, 1, 1e-3, 20, 1000, 1e9)), n_a=250, n_b=30, n_sc=20)
def _(v, kind, theta, axis, lay, sc):
    C = sym6(v, kind)
    C = C * (int(sc) if kind == "int" and sc >= 1 else sc)
    if lay == 1:
        C = np.asfortranarray(C)
        C.setflags(write=False)
    elif lay == 2 and float(theta).is_integer():
        theta = int(theta)
    elif lay == 3 and axis:
        m = max(np.abs(C).max(), 1e-300)
        require_agree(call("Anisotropy.Bond_trans", C, np.float64(theta), axis=axis), call("Anisotropy.Bond_trans", C, theta, axis), "axis given by name", rtol=1e-10, scale=m)
        require_agree(call("Anisotropy.Bond_trans", C=C, theta=theta), call("Anisotropy.Bond_trans", C, theta, 3), "default axis is not 3", rtol=1e-10, scale=m)
    bond_call(C, theta, axis, "Bond_trans")
    # components the recorded defect does not touch are those of the true rotation whatever the code does
    got = np.asarray(call("Anisotropy.Bond_trans", C, theta, axis or 3))
    ax = axis or 3
    fixed = [0] if ax == 1 else [2]
    want = T.rotate(C, rotm(theta, ax))
    for i in fixed:
        require_agree(got[i, i], want[i, i], "stiffness along the rotation axis changes", rtol=1e-10, scale=max(np.abs(C).max(), 1e-300))
    require_agree(got, got.T, "rotated matrix not symmetric", rtol=1e-10, scale=np.abs(C).max())


@Rel("C02", "C02.group_laws", dict(v=C21, kind=KIND, t1=ANG, t2=ANG, axis=Cat(1, 3)), n_a=150, n_b=20, n_sc=20)
def _(v, kind, t1, t2, axis):
    C = sym6(v, kind)
    sc = max(np.abs(C).max(), 1e-300)
    B = lambda c, t: bond_call(c, t, axis, "Bond_trans")
    require_agree(B(C, 0)[0], C, "zero rotation changes the matrix", rtol=1e-10, scale=sc)
    A, true = B(C, t1)
    require_agree(B(C, 360 + t1)[0], A, "not periodic in 360 degrees", rtol=1e-9, scale=sc)
    if kind in ("ortho", "vti", "hti", "iso"):
        require_agree(B(C, 180 + t1)[0], A, "half turn of an orthorhombic medium", rtol=1e-9, scale=sc)
    A2, t2_true = B(A, t2)
    A3, t3_true = B(A, -t1)
    A4, t4_true = B(C, t1 + t2)
    if true and t2_true and t4_true:
        require_agree(A2, A4, "two rotations do not compose", rtol=1e-9, scale=sc)
    if true and t3_true:
        require_agree(A3, C, "rotating back does not restore the matrix", rtol=1e-9, scale=sc)
    if true:
        c0, c1 = T.to4(C), T.to4(A)
        for nm, pat in (("c_iikk", "iikk"), ("c_ikik", "ikik")):
            require_agree(np.einsum(pat, c0), np.einsum(pat, c1), "linear invariant %s changes" % nm, rtol=1e-9, scale=sc)
        require_agree(np.sum(c0 ** 2), np.sum(c1 ** 2), "quadratic invariant changes", rtol=1e-9)
        if kind == "iso" or (kind == "vti" and axis == 3) or (kind == "hti" and axis == 1):
            require_agree(A, C, "symmetric medium not invariant", rtol=1e-10, scale=sc)


# ----------------------------------------------------------------- C03
def ti(b):
    """A strongly elliptic TI stiffness from dimensionless shape factors."""
    C33 = b["C33"]
    C11, C44, C66 = C33 * b["f11"], C33 * b["f44"], C33 * b["f66"]
    C13 = -C44 + b["f13"] * np.sqrt((C11 - C44) * (C33 - C44))
    return C11, C33, C13, C44, C66


TI = dict(C33=R(1, 300, log=True), f11=R(.7, 3, (1,)), f44=R(.02, .6, (.1,)), f66=R(.02, .6, (.1,), eq=("f44",)),
          f13=R(-.95, 0.999, (.5, 0)))
AZ = Vec(R(-360, 360, (0, 30, 45, 60, 90, 180, -90, 270), ps=.4), (1, 6))


def _vels(C, den, th, kind):
    """Christoffel: in-plane fast/slow modes and the out-of-plane mode."""
    out = []
    for t in np.atleast_1d(np.deg2rad(th)):
        n = np.array([np.cos(t), np.sin(t), 0]) if kind == "hti" else np.array([np.sin(t), 0, np.cos(t)])
        G = np.einsum("ijkl,j,l->ik", T.to4(C), n, n)
        o = 2 if kind == "hti" else 1
        ii = [i for i in range(3) if i != o]
        w = np.linalg.eigvalsh(G[np.ix_(ii, ii)])
        ip, op = w, G[o, o]
        if kind == "hti":
            out.append((ip[1], ip[0], op))       # VP, VSH (in the horizontal plane), VSV
        else:
            out.append((ip[1], op, ip[0]))       # VP, VSH (horizontal), VSV
    return np.sqrt(np.array(out).T / den)


def _angles(az, sc, C):
    """Layout of the angles (and of the matrix) for one call; returns (angle argument, matrix, flat angles)."""
    if sc == 0:
        return az[0], C, az[:1]
    if sc == 1:
        return np.array(az), C, az
    if sc == 2:
        return list(az), C, az
    if sc == 3:
        return int(round(az[0])), C, [round(az[0])]
    if sc == 4:
        x = np.array(az + az[::-1]).reshape(2, -1)
        return x, C, x.ravel()
    if sc == 5:
        x = np.rint(az).astype(int)
        return x, C, x
    if sc == 6:
        C = np.asfortranarray(C)
        C.setflags(write=False)
        return np.float64(az[0]), C, az[:1]
    return np.array(az), C * 1e9, az


def _int_ti(C):
    """The nearest integer TI matrix, when it is one a rock can have."""
    D = np.rint(C).astype(int)
    return D if np.linalg.eigvalsh(D).min() > .1 and D[0, 0] > D[3, 3] and D[2, 2] > D[4, 4] and D[2, 2] > D[3, 3] and D[0, 0] > D[4, 4] and D[0, 0] > D[5, 5] else C


SC_AZ = Cat(0, 1, 2, 3, 4, 5, 6, 7)


def _azi(kind, C, den, az, sc, integer):
    if integer:
        C = _int_ti(C)
    a, C, fl = _angles(az, sc, C)
    f = "Anisotropy.vel_azi_%s" % kind.upper()
    got = call(f, C, den, a)
    want = _vels(C, den, fl, kind)
    for g, w, nm in zip(got, want, ("VP", "VSH", "VSV")):
        require(np.size(g) == np.size(a) and (np.ndim(a) < 2 or np.shape(g) == np.shape(a)), "%s has shape %s for angles of shape %s" % (nm, np.shape(g), np.shape(a)))
        require_agree(np.ravel(g), w, "%s phase velocity %s" % (kind.upper(), nm), rtol=1e-7)
    if np.ndim(a) == 1 and not isinstance(a, list):
        dens = den * np.linspace(1, 2, len(a))
        got = call(f, C, dens, a)
        require_agree(tuple(got), tuple(w * np.sqrt(den / dens) for w in want), "velocities with one density per angle", rtol=1e-7)


@Rel("C03", "C03.vel_azi_HTI_is_christoffel", dict(TI, den=R(.3, 10, (1,)), az=AZ, sc=SC_AZ, integer=Cat(False, False, True)), n_a=250, n_b=40, n_sc=20)
def _(den, az, sc, integer, **b):
    C11, C33, C13, C44, C66 = ti(b)          # symmetry axis x1: C33 is along it
    _azi("hti", T.hti(C33, C11, C13, C66, C44), den, az, sc, integer)


@Rel("C03", "C03.vel_azi_VTI_is_christoffel", dict(TI, den=R(.3, 10, (1,)), az=AZ, sc=SC_AZ, integer=Cat(False, False, True)), n_a=250, n_b=40, n_sc=20)
def _(den, az, sc, integer, **b):
    _azi("vti", T.vti(*ti(b)), den, az, sc, integer)


@Rel("C03", "C03.velocities_many_angles", dict(TI, den=R(.3, 10), n=I(1, 2000), lo=R(-200, 0), hi=R(1, 400), kind=Cat("hti", "vti")),
     n_a=20, n_b=4, n_sc=5)
def _(den, n, lo, hi, kind, **b):
    c = ti(b)
    C = T.vti(*c) if kind == "vti" else T.hti(c[1], c[0], c[2], c[4], c[3])
    a = np.linspace(lo, hi, n)
    f = "Anisotropy.vel_azi_%s" % kind.upper()
    got = call(f, C, den, a)
    for i in (0, n // 3, n - 1):
        require_agree(tuple(np.asarray(g)[i] for g in got), tuple(_vels(C, den, a[i], kind)[:, 0]), "element %d of %d angles" % (i, n), rtol=1e-7)
    # angle symmetry and scaling with density / stiffness
    require_agree(call(f, C, den, -a), got, "not even in the angle", rtol=1e-8)
    require_agree(call(f, C, den, 180 - a), got, "not symmetric about 90 degrees", rtol=1e-6)
    require_agree(call(f, 4 * C, den, a), tuple(2 * np.asarray(g) for g in got), "velocity does not scale with sqrt(C)", rtol=1e-8)
    require_agree(call(f, C, 4 * den, a), tuple(np.asarray(g) / 2 for g in got), "velocity does not scale with 1/sqrt(rho)", rtol=1e-8)


def _thomsen(C11, C33, C13, C44, C66, den, theta):
    th = np.deg2rad(theta)
    s2 = np.sin(th) ** 2
    e, g = (C11 / C33 - 1) / 2, (C66 / C44 - 1) / 2
    d = ((C13 + C44) ** 2 - (C33 - C44) ** 2) / (2 * C33 * (C33 - C44))
    vp0, vs0 = np.sqrt(C33 / den), np.sqrt(C44 / den)
    return (1e3 * vp0 * (1 + d * s2 * (1 - s2) + e * s2 * s2),
            1e3 * vs0 * (1 + (C33 / C44) * (e - d) * s2 * (1 - s2)),
            1e3 * vs0 * (1 + g * s2), e, g, d)


def _tiargs(b):
    C11, C33, C13, C44, C66 = ti(b)
    return dict(C11=C11, C33=C33, C13=C13, C44=C44, C66=C66, den=b["den"], theta=b["theta"])


Spec("C03", "Anisotropy.Thomsen", dict(TI, f11=R(.5, 3, (1,), ps=.2), f13=R(-.3, 1.6, (1,)), f44=R(.02, .6), den=R(.3, 10, (1, 2.5)),
                                       theta=R(-360, 360, (0, 30, 45, 90, -90), ps=.25)),
     _thomsen, build=_tiargs, vec=("C11", "C33", "C13", "C44", "C66", "den", "theta"), lists=("theta",), floor=1e-10,
     valid=lambda C11, C33, C13, C44, C66, den, theta: (C11 > C44) & np.isfinite(C13 + 0 * C11) | np.isnan(C11 + C33 + C13 + C44 + C66))

_N9 = ("C11", "C22", "C33", "C12", "C13", "C23", "C44", "C55", "C66")


def _tsv(C11, C22, C33, C12, C13, C23, C44, C55, C66):
    d = lambda cij, g, c: ((cij + g) ** 2 - (c - g) ** 2) / (2 * c * (c - g))
    return ((C22 / C33 - 1) / 2, d(C23, C44, C33), (C66 / C55 - 1) / 2,
            (C11 / C33 - 1) / 2, d(C13, C55, C33), (C66 / C44 - 1) / 2, d(C12, C66, C11))


Spec("C03", "Anisotropy.Thomsen_Tsvankin",
     dict(C11=R(30, 100, (50,)), C22=R(30, 100, (50,), eq=("C11",)), C33=R(30, 100, (50,), eq=("C11",)),
          C12=R(-5, 40, (0,)), C13=R(-5, 40, (0,), eq=("C12",)), C23=R(-5, 40, (0,), eq=("C13",)),
          C44=R(1, 25, (10,)), C55=R(1, 25, (10,), eq=("C44",)), C66=R(1, 25, (10,), eq=("C44",))),
     _tsv, vec=_N9, ints=_N9, floor=1e-12)


@Rel("C03", "C03.tsvankin_reduces_to_thomsen", dict(TI))
def _(**b):
    C11, C33, C13, C44, C66 = ti(b)
    C12 = C11 - 2 * C66
    e1, d1, g1, e2, d2, g2, d3 = call("Anisotropy.Thomsen_Tsvankin", C11, C11, C33, C12, C13, C13, C44, C44, C66)
    e, g, d = call("Anisotropy.Thomsen", C11, C33, C13, C44, C66, 2.0, 0.0)[3:]
    require_agree((e1, d1, g1, e2, d2, g2), (e, d, g, e, d, g), "Tsvankin parameters of a VTI medium", rtol=1e-8, atol=1e-12)
    if C11 > C66 * 1.05:
        require_agree(d3, 0.0, "delta3 of a medium isotropic in the horizontal plane", atol=1e-9)


@Rel("C03", "C03.thomsen_is_weak_limit_of_christoffel",
     dict(C33=R(5, 100), vr=R(.2, .6), e=R(-1, 1), d=R(-1, 1), g=R(-1, 1), theta=R(0, 90, (0, 30, 45, 90)), den=R(1, 4)))
def _(C33, vr, e, d, g, theta, den):
    err = []
    for s in (4e-3, 2e-3):
        C44 = C33 * vr ** 2
        C11, C66 = C33 * (1 + 2 * s * e), C44 * (1 + 2 * s * g)
        C13 = np.sqrt(2 * s * d * C33 * (C33 - C44) + (C33 - C44) ** 2) - C44
        got = call("Anisotropy.Thomsen", C11, C33, C13, C44, C66, den, theta)[:3]
        vp, vsh, vsv = 1e3 * _vels(T.vti(C11, C33, C13, C44, C66), den, theta, "vti")[:, 0]
        ex = np.array([vp, vsv, vsh])
        err.append(np.max(np.abs(np.array(got) - ex) / ex))
    bound = 4e-3 ** 2 * 6 / vr ** 4
    require(err[0] <= bound, "weak-anisotropy velocities differ from the exact ones at first order: %r > %r" % (err[0], bound))


# ----------------------------------------------------------------- C04
def sm_average(V, lam, G):
    """Layer average by continuity of traction and in-plane strain (block form)."""
    V = np.asarray(V, float)
    V = V / V.sum()
    N, P = [2, 3, 4], [0, 1, 5]
    inn, itn, itt = np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 3))
    for v, l, g in zip(V, np.atleast_1d(lam), np.atleast_1d(G)):
        C = T.to6(T.iso(l + 2 * g / 3, g))
        nn = np.linalg.inv(C[np.ix_(N, N)])
        tn = C[np.ix_(P, N)]
        inn += v * nn
        itn += v * tn @ nn
        itt += v * (C[np.ix_(P, P)] - tn @ nn @ tn.T)
    cnn = np.linalg.inv(inn)
    ctn = itn @ cnn
    ctt = itt + itn @ cnn @ itn.T
    return ctt[0, 0], cnn[0, 0], ctn[0, 0], cnn[1, 1], ctt[2, 2]


def big_stack(seed, n, zero):
    """A long stack from a seed: thicknesses (some zero, some repeated), moduli, densities."""
    rng = np.random.default_rng(seed)
    th = rng.choice([.15, .5, 1.0], n) if seed % 3 == 0 else rng.uniform(.01, 5, n)
    if zero and n > 1:
        th[rng.random(n) < .2] = 0.0
        th[0] = 1.0
    G = rng.uniform(.5, 60, n) if seed % 2 else rng.choice([2.0, 10.0, 30.0], n)
    return th, G * rng.uniform(-.5, 3, n), G, rng.uniform(1.5, 3, n)


@Rel("C04", "C04.many_layers", dict(seed=I(0, 10 ** 9), n=I(1, 400), zero=Cat(False, True), up=Cat(False, False, True), unit=Cat(1, 1000.0), top=R(-50, 8000, (0,)), whole=Cat(False, False, True)), n_a=60, n_b=10, n_sc=8)
def _(seed, n, zero, up, unit, top, whole):
    th, L, G, den = big_stack(seed, n, zero)
    got = call("Anisotropy.Backus", th, L, G)
    require_agree(got, sm_average(th, L, G), "Backus average of %d layers" % n, rtol=1e-7, scale=1e-3 * G.max())
    if whole:
        th = np.ceil(th).astype(int)
        top = int(top)
    depth = top + np.concatenate([[0], np.cumsum(th)])
    th = np.diff(depth)
    vs, vp = np.sqrt(G / den) * unit, np.sqrt((L + 2 * G) / den) * unit
    if up:                                   # logged upwards: depth falls from sample to sample
        depth = -depth if seed % 2 else depth.max() + top - depth
    got = call("Anisotropy.Backus_log", vp, vs, den, depth)
    want = sm_average(th, L, G)
    require_agree(got, tuple(w * unit ** 2 for w in want) + ((th * den).sum() / th.sum(),), "Backus_log of %d samples" % n, rtol=1e-5, scale=1e-3 * G.max())


LAYERS = dict(v=Vec(R(0.001, 10, (1, .5, 5)), (1, 8)), g=Vec(R(.05, 120, (1, 10, 44)), 8), q=Vec(R(-.6, 5, (0, 1)), 8))


def _layers(v, g, q):
    n = len(v)
    G = np.array(g[:n])
    return np.array(v), G * np.array(q[:n]), G


@Rel("C04", "C04.Backus_is_layer_average", dict(LAYERS, kind=Cat("array", "list", "pct", "int")), n_a=250, n_b=30, n_sc=20)
def _(v, g, q, kind):
    V, L, G = _layers(v, g, q)
    if kind == "list":
        a = (V.tolist(), L.tolist(), G.tolist())
    elif kind == "pct":
        a = (V / V.sum() * 100, L, G)
    elif kind == "int":
        a = (np.maximum(1, np.rint(V)).astype(int), np.maximum(0, np.rint(L)).astype(int), np.maximum(1, np.rint(G)).astype(int))
        V, L, G = [x.astype(float) for x in a]
    else:
        a = (V / V.sum(), L, G)
    got = call("Anisotropy.Backus", *a)
    want = sm_average(V, L, G)
    require_agree(got, want, "Backus(C11,C33,C13,C44,C66) of %d layers" % len(V), rtol=1e-8, scale=1e-3 * G.max())


@Rel("C04", "C04.Backus_invariances", dict(LAYERS, perm=I(0, 10 ** 6), k=R(.01, 100), f=R(.01, .99), j=I(0, 7)))
def _(v, g, q, perm, k, f, j):
    V, L, G = _layers(v, g, q)
    n = len(V)
    sc = G.max()
    base = call("Anisotropy.Backus", V, L, G)
    p = np.random.default_rng(perm).permutation(n)
    require_agree(call("Anisotropy.Backus", V[p], L[p], G[p]), base, "depends on layer order", rtol=1e-9, scale=sc)
    require_agree(call("Anisotropy.Backus", V * k, L, G), base, "depends on the units of thickness", rtol=1e-9, scale=sc)
    j = j % n
    V2, L2, G2 = np.append(V, V[j] * (1 - f)), np.append(L, L[j]), np.append(G, G[j])
    V2[j] *= f
    require_agree(call("Anisotropy.Backus", V2, L2, G2), base, "splitting a layer changes the result", rtol=1e-9, scale=sc)
    C11, C33, C13, C44, C66 = base
    require(C44 <= C66 * (1 + 1e-12), "C44 %r > C66 %r" % (C44, C66))
    one = call("Anisotropy.Backus", V, np.full(n, L[0]), np.full(n, G[0]))
    P = L[0] + 2 * G[0]
    require_agree(one, (P, P, L[0], G[0], G[0]), "identical layers do not return the layer", rtol=1e-9, scale=P)


@Rel("C04", "C04.Backus_log", dict(v=Vec(R(0.01, 30, (1, .5)), (1, 8)), vs=Vec(R(.2, 4), 8), r=Vec(R(1.2, 4, (2,)), 8),
                                   den=Vec(R(.8, 5, (2.5,)), 8), top=R(-100, 6000, (0,)), kind=Cat("array", "list", "series")), n_a=200)
def _(v, vs, r, den, top, kind):
    n = len(v)
    v, vs, den = np.array(v), np.array(vs[:n]), np.array(den[:n])
    vp = vs * np.array(r[:n])
    depth = top + np.concatenate([[0], np.cumsum(v)])
    th = np.diff(depth)
    a = (vp, vs, den, depth)
    if kind == "list":
        a = tuple(x.tolist() for x in a)
    elif kind == "series":
        import pandas as pd
        a = tuple(pd.Series(x) for x in a)
    got = call("Anisotropy.Backus_log", *a)
    G = den * vs ** 2
    want = sm_average(th, den * vp ** 2 - 2 * G, G) + (np.sum(th * den) / np.sum(th),)
    require_agree(got, want, "Backus_log of %d layers" % n, rtol=1e-6, scale=1e-3 * G.max())
    require_agree(call("Anisotropy.Backus_log", vp, vs, den, depth * 1.0), got, "list/array input differ", rtol=1e-9)
