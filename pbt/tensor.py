"""Small independent elasticity kit: Voigt <-> rank-4 tensors, rotation, Christoffel."""
import numpy as np

PAIR = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
IDX = np.zeros((3, 3), int)
for _I, (_i, _j) in enumerate(PAIR):
    IDX[_i, _j] = IDX[_j, _i] = _I


def to4(C):
    """6x6 stiffness -> c_ijkl."""
    C = np.asarray(C, float)
    c = np.empty((3, 3, 3, 3))
    for i in range(3):
        for j in range(3):
            for k in range(3):
                for l in range(3):
                    c[i, j, k, l] = C[IDX[i, j], IDX[k, l]]
    return c


def to6(c):
    C = np.empty((6, 6))
    for I, (i, j) in enumerate(PAIR):
        for J, (k, l) in enumerate(PAIR):
            C[I, J] = c[i, j, k, l]
    return C


def comp_to4(S):
    """6x6 compliance (engineering shear) -> s_ijkl."""
    S = np.asarray(S, float)
    f = np.array([1, 1, 1, 2, 2, 2.0])
    return to4(S / np.outer(f, f))


def comp_to6(s):
    f = np.array([1, 1, 1, 2, 2, 2.0])
    return to6(s) * np.outer(f, f)


def rotate(C, Rm):
    """Stiffness in a frame whose axes are the rows of Rm."""
    c = to4(C)
    return to6(np.einsum("ip,jq,kr,ls,pqrs->ijkl", Rm, Rm, Rm, Rm, c))


def iso(K, G):
    d = np.eye(3)
    lam = K - 2.0 * G / 3.0
    c = lam * np.einsum("ij,kl->ijkl", d, d) + G * (
        np.einsum("ik,jl->ijkl", d, d) + np.einsum("il,jk->ijkl", d, d))
    return c


def christoffel(C, n):
    """Eigenvalues (rho v^2), ascending, and eigenvectors for direction n."""
    c = to4(C)
    G = np.einsum("ijkl,j,l->ik", c, n, n)
    return np.linalg.eigh(G)


def vti(C11, C33, C13, C44, C66):
    C = np.zeros((6, 6))
    C[0, 0] = C[1, 1] = C11
    C[2, 2] = C33
    C[0, 1] = C[1, 0] = C11 - 2 * C66
    C[0, 2] = C[2, 0] = C[1, 2] = C[2, 1] = C13
    C[3, 3] = C[4, 4] = C44
    C[5, 5] = C66
    return C


# permutation of axes 1<->3 turns a VTI matrix into HTI (symmetry axis x1)
SWAP13 = np.array([[0, 0, 1.0], [0, 1.0, 0], [1.0, 0, 0]])


def hti(C11, C33, C13, C44, C55):
    """Symmetry axis x1: C11 along it, C33 across, C44 in the isotropy plane."""
    return rotate(vti(C33, C11, C13, C55, C44), SWAP13)


MAND = np.array([1, 1, 1, np.sqrt(2), np.sqrt(2), np.sqrt(2)])


def mandel(c):
    return to6(c) * np.outer(MAND, MAND)


def from_mandel(M):
    return to4(M / np.outer(MAND, MAND))
