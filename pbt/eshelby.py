"""Eshelby tensor of a spheroid (Tandon & Weng / Mura closed form) in Mandel form,
vectorised over leading axes; the independent oracle for inclusion models."""
import numpy as np

J = np.zeros((6, 6))
J[:3, :3] = 1 / 3.0
KD = np.eye(6) - J


def iso_m(K, G):
    K, G = np.asarray(K, float)[..., None, None], np.asarray(G, float)[..., None, None]
    return 3 * K * J + 2 * G * KD


def g_true(a):
    a = np.asarray(a, float)
    o = np.where(a < 1, a, .5)
    p = np.where(a > 1, a, 2.)
    ob = o / (1 - o * o) ** 1.5 * (np.arccos(o) - o * np.sqrt(1 - o * o))
    pr = p / (p * p - 1) ** 1.5 * (p * np.sqrt(p * p - 1) - np.arccosh(p))
    return np.where(a < 1, ob, np.where(a > 1, pr, 2 / 3.0))


def g_defect(a):
    """Recorded defect F2: prolate branch with 1/cosh in place of arccosh."""
    a = np.asarray(a, float)
    p = np.where(a > 1, a, 2.)
    return np.where(a > 1, p / (p * p - 1) ** 1.5 * (p * np.sqrt(p * p - 1) - 1 / np.cosh(p)), g_true(a))


def S_mandel(a, nu, g=None):
    a, nu = np.broadcast_arrays(np.asarray(a, float), np.asarray(nu, float))
    g = g_true(a) if g is None else g
    one = a == 1
    a = np.where(one, .5, a)
    a2 = a * a
    d = a2 - 1
    n, m = 1 - nu, 1 - 2 * nu
    M = np.zeros(a.shape + (6, 6))
    s11 = 3 / (8 * n) * a2 / d + (m - 9 / (4 * d)) * g / (4 * n)
    s33 = (m + (3 * a2 - 1) / d - (m + 3 * a2 / d) * g) / (2 * n)
    s12 = (a2 / (2 * d) - (m + 3 / (4 * d)) * g) / (4 * n)
    s13 = -a2 / d / (2 * n) + (3 * a2 / d - m) * g / (4 * n)
    s31 = -(m + 1 / d) / (2 * n) + (m + 3 / (2 * d)) * g / (2 * n)
    s66 = (a2 / (2 * d) + (m - 3 / (4 * d)) * g) / (4 * n)
    s44 = (m - (a2 + 1) / d - .5 * (m - 3 * (a2 + 1) / d) * g) / (4 * n)
    # sphere
    q11, q12, q44 = (7 - 5 * nu) / (15 * n), (5 * nu - 1) / (15 * n), (4 - 5 * nu) / (15 * n)
    W = lambda x, y: np.where(one, y, x)
    M[..., 0, 0] = M[..., 1, 1] = W(s11, q11)
    M[..., 2, 2] = W(s33, q11)
    M[..., 0, 1] = M[..., 1, 0] = W(s12, q12)
    M[..., 0, 2] = M[..., 1, 2] = W(s13, q12)
    M[..., 2, 0] = M[..., 2, 1] = W(s31, q12)
    M[..., 3, 3] = M[..., 4, 4] = 2 * W(s44, q44)
    M[..., 5, 5] = 2 * W(s66, q44)
    return M


def conc(Km, Gm, Ki, Gi, a, g=None):
    """Strain concentration tensor of the inclusion, Mandel 6x6."""
    Km, Gm, Ki, Gi, a = np.broadcast_arrays(*[np.asarray(x, float) for x in (Km, Gm, Ki, Gi, a)])
    nu = (3 * Km - 2 * Gm) / (6 * Km + 2 * Gm)
    # C0^-1 (Ci - C0), isotropic, written out
    X = (Ki / Km - 1)[..., None, None] * J + (Gi / Gm - 1)[..., None, None] * KD
    A = np.eye(6) + S_mandel(a, nu, None if g is None else g(a)) @ X
    bad = ~np.isfinite(A).all((-1, -2))
    A = np.where(bad[..., None, None], np.eye(6), A)
    t = np.linalg.inv(A)
    return np.where(bad[..., None, None], np.nan, t)


def PQ(Km, Gm, Ki, Gi, a, g=None):
    t = conc(Km, Gm, Ki, Gi, a, g)
    P = t[..., :3, :3].sum((-1, -2)) / 3
    Q = (np.trace(t, axis1=-2, axis2=-1) - P) / 5
    return P, Q
