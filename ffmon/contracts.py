"""Contracts of the public functions.

contract(ctx, a, r) -> None   precondition false (not judged)
                       True   judged, holds
                       str    judged, violated

`a` are the arguments as they were before the call.  All reference values come
from ffmon.oracles.
"""

import math

import numpy as np

from . import oracles as O
from .core import close


def eq(got, want, what="value", rtol=1e-7, atol=1e-8):
    ok, why = close(got, want, rtol, atol, "K " + what)
    return True if ok else f"{what} wrong: {why}"


def both(*vs):
    for v in vs:
        if v is not True:
            return v
    return True


def isnum(x):
    return isinstance(x, (int, float, complex, np.number)) and not isinstance(x, bool)


def posint(n):
    return isinstance(n, (int, np.integer)) and not isinstance(n, bool) and n > 0


def arr2(x):
    return isinstance(x, np.ndarray) and x.ndim == 2 and x.dtype.kind in "iufcb"


def finite(x):
    return bool(np.all(np.isfinite(np.asarray(x, dtype=complex))))


# ---------------------------------------------------------------- operators
def permutation_to_matrix(ctx, a, r):
    p = [int(x) for x in a.permutation]
    n = len(p)
    if any(not 0 <= x < n for x in p):
        return True if r is None else "an out-of-range entry did not give None"
    w = np.zeros((n, n))
    for i, x in enumerate(p):
        w[x, i] = 1
    return eq(r, w, "permutation matrix", 0, 0)


def pauli_matrices(ctx, a, r):
    X = np.array([[0, 1], [1, 0]])
    Y = np.array([[0, -1j], [1j, 0]])
    Z = np.diag([1, -1])
    if len(r) != 3:
        return "not three matrices"
    return both(*(eq(g, w, "Pauli matrix", 0, 0) for g, w in zip(r, (X, Y, Z))))


def generate_pauli_group(ctx, a, r):
    if not posint(a.n) or a.n > 6:
        return None
    n = int(a.n)
    if len(r) != 4**n:
        return f"{len(r)} elements instead of {4 ** n}"
    for i, g in enumerate(r):
        w, s = O.pauli(n, i)
        v = eq(g, w, f"element {i} ({s})", 1e-12, 1e-12)
        if v is not True:
            return v
    return True


def _ops(r, want, what):
    if not isinstance(r, list) or len(r) != len(want):
        return f"{what}: not a list of {len(want)} operators"
    for i, (g, w) in enumerate(zip(r, want)):
        v = eq(g, w, f"{what} operator {i}", 1e-12, 1e-12)
        if v is not True:
            return v
    return True


def jordan_wigner_lowering(ctx, a, r):
    if not posint(a.n_sites) or a.n_sites > 10:
        return None
    return _ops(r, O.lowering(int(a.n_sites)), "annihilation")


def jordan_wigner_alphas(ctx, a, r):
    if not posint(a.n_sites) or a.n_sites > 10:
        return None
    return _ops(r, O.alphas(int(a.n_sites)), "ladder")


def jordan_wigner_majoranas(ctx, a, r):
    if not posint(a.n_sites) or a.n_sites > 10:
        return None
    return _ops(r, O.majoranas(int(a.n_sites)), "Majorana")


def rotate_operators(ctx, a, r):
    C, al = a.C, a.alphas
    if isinstance(C, list):
        C, al = al, C
    if not isinstance(al, list) or not arr2(np.asarray(C)) or not al:
        return None
    C = np.asarray(C)
    n = len(al)
    if C.shape != (n, n) or not finite(C):
        return None
    ops = np.array(al)
    if ops.dtype.kind not in "fc" or (C.dtype.kind == "c" and ops.dtype.kind != "c"):
        return None
    ab = np.abs(C)
    if np.any((ab > 0) & (ab < 2e-9)):
        # such coefficients may be dropped; they are below the accuracy claimed
        slack = 2e-9 * n * float(np.max(np.abs(ops)))
    else:
        slack = 0
    M = C.conj().T if a.Left is True else C
    want = np.tensordot(M, ops, axes=([1], [0]))
    if len(r) != n:
        return f"{len(r)} operators instead of {n}"
    sc = float(np.max(np.abs(C))) * float(np.max(np.abs(ops)))
    return eq(np.array(r), want, "rotated operators", 0, 1e-12 * (1 + n) * sc + slack)


def build_op(ctx, a, r):
    R, al, n = a.R, a.alphas, a.n_sites
    if not arr2(R) or R.shape != (2 * n, 2 * n) or len(al) != 2 * n or not finite(R):
        return None
    ops = np.array(al)
    if ops.ndim != 3 or ops.dtype.kind not in "fc" or (R.dtype.kind == "c" and ops.dtype.kind != "c"):
        return None
    ab = np.abs(R)
    mx = float(np.max(np.abs(ops))) ** 2 * ops.shape[1] ** 0.5
    slack = 2e-10 * R.size * mx if np.any((ab > 0) & (ab < 2e-10)) else 0
    want = O.lift(R, al, direct=bool(a.direct))
    sc = float(np.max(ab)) * mx
    return eq(r, want, "lifted operator", 0, 2e-13 * R.size * sc + slack)


def compute_algebra_S(ctx, a, r):
    al = a.alphas
    if len(al) % 2:
        return None
    ops = np.array(al, dtype=complex)
    n = len(al)
    want = np.zeros((n, n), dtype=complex)
    d = ops.shape[1]
    for i in range(n):
        for j in range(n):
            ac = ops[i] @ ops[j] + ops[j] @ ops[i]
            if not np.allclose(ac, ac[0, 0] * np.eye(d), atol=1e-8):
                return None  # not a c-number algebra: outside the claim
            want[i, j] = ac[0, 0]
    return eq(r, want, "S matrix", 0, 1e-11 * max(1.0, float(np.max(np.abs(ops))) ** 2 * d))


# ------------------------------------------------------- coefficient matrices
def build_V(ctx, a, r):
    n, A = a.n_sites, a.A
    Z = np.zeros_like(A) if a.Z is None else a.Z
    if not arr2(A) or A.shape != (n, n) or np.asarray(Z).shape != (n, n):
        return None
    return eq(r, O.V_matrix(A, Z), "V", 1e-14, 0)


def build_H(ctx, a, r):
    n, A = a.n_sites, a.A
    B = np.zeros_like(A) if a.B is None else a.B
    if not arr2(A) or A.shape != (n, n) or np.asarray(B).shape != (n, n):
        return None
    return eq(r, O.H_matrix(A, B), "H", 1e-14, 0)


def kitaev_chain(ctx, a, r):
    n = a.n_sites
    if not posint(n):
        return None
    A = np.zeros((n, n), dtype=complex)
    B = np.zeros((n, n), dtype=complex)
    for i in range(n):
        A[i, i] = -a.mu
        if i + 1 < n:
            A[i, i + 1] = A[i + 1, i] = -a.t
            B[i, i + 1], B[i + 1, i] = a.delta, -a.delta
    return eq(r, O.H_matrix(A, B), "Kitaev chain", 1e-13, 0)


def build_Omega(ctx, a, r):
    return eq(r, O.omega(a.N), "Omega", 1e-13, 0) if posint(a.N) else None


def build_reordering_xx_to_xp(ctx, a, r):
    n = a.n_sites
    if not posint(n):
        return None
    x = np.arange(2 * n)
    want = np.empty(2 * n)
    want[0::2], want[1::2] = np.arange(n), np.arange(n, 2 * n)
    v = eq(np.asarray(r).T @ x, want, "reordering", 0, 1e-12)
    return both(v, eq(np.sort(np.asarray(r), axis=1)[:, :-1], np.zeros((2 * n, 2 * n - 1)), "0/1", 0, 0))


def build_K(ctx, a, r):
    n = a.n_sites
    if not posint(n):
        return None
    K = np.asarray(r)
    v = eq(K @ K.conj().T, np.eye(2 * n), "K unitarity", 0, 1e-12)
    if v is not True:
        return v
    # canonical blocks [[0, l],[-l, 0]] -> standard diag(-l, l) up to the fixed
    # sign convention, through U = Omega^dag O Omega K^dag
    lam = 1.0 + np.arange(n)
    L = np.zeros((2 * n, 2 * n))
    for k in range(n):
        L[2 * k, 2 * k + 1], L[2 * k + 1, 2 * k] = lam[k], -lam[k]
    W = O.omega(n)
    Hc = W.conj().T @ (-1j * L) @ W
    D = K @ Hc @ K.conj().T
    want = np.diag(np.concatenate([np.diag(D)[:n].real, -np.diag(D)[:n].real]))
    return both(
        eq(D, want, "canonical to standard structure", 0, 1e-10),
        eq(np.abs(np.diag(D)[:n].real), lam, "pairing of canonical blocks", 0, 1e-10),
        eq(symp_defect(K), 0.0, "K symplectic", 0, 1e-10),
    )


def symp_defect(U):
    n = U.shape[0] // 2
    S = O.s_matrix(n)
    return float(np.max(np.abs(U @ S @ U.T - S)))


# ------------------------------------------------------------- predicates
def is_symp(ctx, a, r):
    U = a.U
    if not arr2(U) or not U.size:
        return None
    if U.shape[0] != U.shape[1] or U.shape[0] % 2:
        return True if bool(r) is False else "accepted although not square of even size"
    if U.dtype.kind == "i":
        U = U.astype(float)
    n = U.shape[0] // 2
    S = O.s_matrix(n)
    d = np.abs(U @ S @ U.T - S)
    lim = 1e-8 + 1e-5 * np.abs(S)
    if np.all(d < 0.5 * lim):
        return True if bool(r) is True else "a symplectic matrix was refused"
    if np.any(d > 2 * lim):
        return True if bool(r) is False else "a non-symplectic matrix was accepted"
    return None


def check_canonical_form(ctx, a, r):
    L = a.L
    if not arr2(L):
        return None
    if L.shape[0] % 2 or L.shape[0] != L.shape[1]:
        return True if bool(r) is False else "accepted although not square of even size"
    m = L.shape[0]
    W = np.zeros((m, m))
    for k in range(m // 2):
        v = (L[2 * k, 2 * k + 1] - L[2 * k + 1, 2 * k]) / 2
        W[2 * k, 2 * k + 1], W[2 * k + 1, 2 * k] = np.real(v), -np.real(v)
    d = np.abs(L - W)
    lim = 1e-8 + 1e-5 * np.abs(W)
    if np.all(d < 0.1 * lim):
        return True if bool(r) is True else "a canonical matrix was refused"
    if np.any(d > 5 * lim):
        return True if bool(r) is False else "a non-canonical matrix was accepted"
    return None


def is_matchgate(ctx, a, r):
    M = a.M
    if M.shape != (4, 4):
        return True if bool(r) is False else "wrong shape accepted"
    x = M[1, 1] * M[2, 2] - M[1, 2] * M[2, 1]
    y = M[0, 0] * M[3, 3] - M[0, 3] * M[3, 0]
    sc = max(1.0, float(np.max(np.abs(M))) ** 2)
    d, lim = abs(x - y), 1e-8 + 1e-5 * abs(y)
    if d < 0.5 * lim - 1e-13 * sc:
        return True if bool(r) is True else "a matchgate was refused"
    if d > 2 * lim + 1e-13 * sc:
        return True if bool(r) is False else "a non-matchgate was accepted"
    return None


# --------------------------------------------------------- diagonalisation
def _good_H(H, lim=2e3):
    if not arr2(H) or H.shape[0] != H.shape[1] or H.shape[0] % 2 or not H.size or not finite(H):
        return None
    n = H.shape[0] // 2
    A, B = H[n:, n:], H[:n, n:]
    sc = max(1.0, float(np.max(np.abs(H))))
    if sc > lim or float(np.max(np.abs(H))) > 0 and float(np.max(np.abs(H))) < 1e-4:
        return None
    t = 1e-12 * sc
    if np.max(np.abs(A - A.conj().T)) > t or np.max(np.abs(B + B.T)) > t:
        return None
    if np.max(np.abs(H - O.H_matrix(A, B))) > t:
        return None
    return sc


def _phase_noise(U):
    """Rounding of the phases that make the diagonal of U positive: eps divided by the smallest such entry."""
    d = np.abs(np.diag(U))
    d = d[d > 5e-10]
    return min(1e-5, 2e-15 * len(U) / d.min()) if len(d) else 0.0


def _symp_unitary(U, n):
    t = 1e-8 + _phase_noise(U)
    return both(
        eq(U.conj().T @ U, np.eye(2 * n), "eigenvectors not orthonormal", 0, 1e-10),
        eq(U[n:, n:], U[:n, :n].conj(), "eigenvectors lack the block form [[s, t*], [t, s*]]", 0, t),
        eq(U[n:, :n], U[:n, n:].conj(), "eigenvectors lack the block form [[s, t*], [t, s*]]", 0, t),
        eq(symp_defect(U), 0.0, "eigenvectors not symplectic", 0, t),
    )


def _spectrum_pm(H, n):
    w = np.linalg.eigvalsh((H + H.conj().T) / 2)
    return np.sort(w)


def eigh_sp(ctx, a, r):
    sc = _good_H(a.H)
    if sc is None:
        return None
    n = a.H.shape[0] // 2
    L, U = np.asarray(r[0]), np.asarray(r[1])
    t = 2e-12 * sc * (2 * n) + 3e-10
    if L.shape != (2 * n, 2 * n) or U.shape != (2 * n, 2 * n):
        return "wrong shapes"
    d = np.diag(L)
    return both(
        eq(L, np.diag(d), "eigenvalue matrix not diagonal", 0, t),
        eq(d.imag, np.zeros(2 * n), "eigenvalues not real", 0, t),
        eq(d[:n], -d[n:], "not of the form diag(-Sigma, Sigma)", 0, t),
        eq(np.sort(d.real), _spectrum_pm(a.H, n), "spectrum", 0, t),
        _symp_unitary(U, n),
        eq(U.conj().T @ a.H @ U, L, "U does not diagonalise H", 0, t),
        eq(U @ np.diag(d) @ U.conj().T, a.H, "H not reconstructed", 0, t),
    )


def eigv_sp(ctx, a, r):
    V = a.V
    if not arr2(V) or V.shape[0] % 2:
        return None
    n = V.shape[0] // 2
    S = O.s_matrix(n)
    H = S @ V
    sc = _good_H(H)
    if sc is None:
        return None
    L, U = np.asarray(r[0]), np.asarray(r[1])
    if L.shape != (2 * n, 2 * n) or U.shape != (2 * n, 2 * n):
        return "wrong shapes"
    t = 2e-12 * sc * (2 * n) + 3e-10
    sig = np.diag(L[n:, :n]) * -1
    Y = np.zeros((2 * n, 2 * n), dtype=complex)
    Y[:n, n:] = np.diag(np.diag(L[:n, n:]))
    Y[n:, :n] = np.diag(np.diag(L[n:, :n]))
    return both(
        eq(L, Y, "eigenvalues not in Y form", 0, t),
        eq(L[:n, n:], -L[n:, :n], "Y form not antisymmetric", 0, t),
        eq(np.sort(np.concatenate([sig.real, -sig.real])), _spectrum_pm(H, n), "spectrum", 0, t),
        _symp_unitary(U, n),
        eq(U.T @ V @ U, L, "U^T V U differs from the eigenvalue matrix", 0, t + sc * _phase_noise(U)),
    )


def _good_G(G):
    if not arr2(G) or G.shape[0] % 2 or not G.size or G.shape[0] != G.shape[1]:
        return None
    n = G.shape[0] // 2
    W = O.omega(n)
    H = W.conj().T @ G @ W
    sc = _good_H(H)
    if sc is None:
        return None
    if np.max(np.abs(G.real)) > 1e-12 * sc:
        return None
    return sc


def _pair_spec(G):
    return np.sort(np.abs(np.linalg.eigvalsh((G + G.conj().T) / 2)))


def eigm_sp(ctx, a, r):
    G = a.G
    sc = _good_G(G)
    if sc is None:
        return None
    n = G.shape[0] // 2
    L, Q = np.asarray(r[0]), np.asarray(r[1])
    t = 2e-12 * sc * 2 * n + 3e-10
    if L.shape != (2 * n, 2 * n) or Q.shape != (2 * n, 2 * n):
        return "wrong shapes"
    Y = np.zeros_like(L)
    Y[:n, n:] = np.diag(np.diag(L[:n, n:]))
    Y[n:, :n] = np.diag(np.diag(L[n:, :n]))
    lam = np.diag(L[:n, n:])
    W = O.omega(n)
    z = _phase_noise(W.conj().T @ Q @ W)
    t += sc * z
    return both(
        eq(Q.imag, np.zeros((2 * n, 2 * n)), "transform not real", 0, 1e-8 + z),
        eq(Q.T @ Q, np.eye(2 * n), "transform not orthogonal", 0, 1e-9 + z),
        eq(Q.T @ G @ Q, L, "O^T G O differs from the eigenvalue matrix", 0, t),
        eq(L, Y, "eigenvalues not in Y form", 0, t),
        eq(L[:n, n:], -L[n:, :n], "Y form not antisymmetric", 0, t),
        eq(np.sort(np.abs(np.concatenate([lam, lam]))), _pair_spec(G), "spectrum", 0, t),
    )


def eigm_sp_can(ctx, a, r):
    G = a.G
    sc = _good_G(G)
    if sc is None:
        return None
    n = G.shape[0] // 2
    L, Q = np.asarray(r[0]), np.asarray(r[1])
    t = 2e-12 * sc * 2 * n + 3e-10
    if L.shape != (2 * n, 2 * n) or Q.shape != (2 * n, 2 * n):
        return "wrong shapes"
    C = np.zeros_like(L)
    lam = np.array([L[2 * k, 2 * k + 1] for k in range(n)])
    for k in range(n):
        C[2 * k, 2 * k + 1], C[2 * k + 1, 2 * k] = lam[k], -lam[k]
    return both(
        eq(np.imag(Q), np.zeros((2 * n, 2 * n)), "transform not real", 0, 1e-8),
        eq(Q.T @ Q, np.eye(2 * n), "transform not orthogonal", 0, 1e-9),
        eq(Q.T @ G @ Q, L, "O^T G O differs from the eigenvalue matrix", 0, t),
        eq(L, C, "eigenvalues not in canonical 2x2 blocks", 0, t),
        eq(np.sort(np.abs(np.concatenate([lam, lam]))), _pair_spec(G), "spectrum", 0, t),
    )


# ----------------------------------------------------- states, correlations
def generate_gaussian_state(ctx, a, r):
    n, H = a.n_sites, a.H
    if not posint(n) or not arr2(H) or n > 9 or not finite(H) or H.shape[0] != H.shape[1]:
        return None
    ops = O.alphas(n) if a.alphas is None else a.alphas
    if H.shape[0] == 2 * n:
        if len(ops) != 2 * n:
            return None
        K = O.lift(H, ops)
    elif H.shape[0] == 2**n:
        K = np.asarray(H, dtype=complex)
    else:
        return None
    if np.max(np.abs(K - K.conj().T)) > 1e-10 * max(1, np.max(np.abs(K))):
        return None
    w = np.linalg.eigvalsh((K + K.conj().T) / 2)
    if max(abs(w[0]), abs(w[-1])) > 250:
        return None
    m = np.abs(H) if H.shape[0] == 2 * n else np.zeros(1)
    cut = float(np.sum(m[m < 1e-10]))  # build_op leaves out coefficients below 1e-10
    return eq(r, O.thermal(K), "thermal state", 0, (2e-13 if max(abs(w[0]), abs(w[-1])) < 1 else 1e-11) + 2 * cut)


def compute_cov_matrix(ctx, a, r):
    rho = a.rho
    if not arr2(rho) or rho.shape[0] != rho.shape[1]:
        return None
    n = int(round(math.log2(rho.shape[0]))) if a.n_sites is None else a.n_sites
    ops = O.alphas(n) if a.alphas is None else a.alphas
    if len(ops) != 2 * n or ops[0].shape != rho.shape:
        return None
    G = O.corr(rho, ops)
    sc = max(1e-300, float(np.max(np.abs(rho))) * float(np.max(np.abs(np.array(ops)))) ** 2 * rho.shape[0])
    return eq(r, G - G.T, "covariance matrix", 0, 1e-12 * sc)


def compute_2corr_matrix(ctx, a, r):
    rho, n = a.rho, a.n_sites
    if not arr2(rho) or rho.shape[0] != rho.shape[1]:
        return None
    ops = O.alphas(n) if a.alphas is None else a.alphas
    if len(ops) != 2 * n or ops[0].shape != rho.shape:
        return None
    c = a.conjugation
    if c is None:
        m = 0
    elif c is True or c > 0:
        m = 1
    elif c < 0 and int(c) < 0:
        m = -1
    else:
        return None
    sc = max(1e-300, float(np.max(np.abs(rho))) * float(np.max(np.abs(np.array(ops)))) ** 2 * rho.shape[0])
    return eq(r, O.corr(rho, ops, m), "two-point matrix", 0, 1e-12 * sc)


def correlation_matrix(ctx, a, r):
    rho = a.rho
    if not arr2(rho) or rho.shape[0] != rho.shape[1] or rho.shape[0] < 2:
        return None
    n = int(round(math.log2(rho.shape[0])))
    if 2**n != rho.shape[0]:
        return None
    sc = max(1e-300, float(np.max(np.abs(rho))) * rho.shape[0])
    return eq(r, O.corr(rho, O.alphas(n)), "correlation matrix", 0, 1e-12 * sc)


# ------------------------------------------------------------ combinatorics
def _square(A):
    try:
        A = np.asarray(A)
    except ValueError:
        return None
    if A.ndim != 2 or A.shape[0] != A.shape[1] or A.dtype.kind not in "iufcb":
        return None
    if A.dtype.kind != "b" and not finite(A):
        return None
    return A


def _exact_list(A):
    if A.dtype.kind in "iub":
        return [[int(x) for x in row] for row in A.tolist()], True
    return [[complex(x) if A.dtype.kind == "c" else float(x) for x in row] for row in A.tolist()], False


def _comb(ctx, A, r, ref, what, abs_ref):
    A = _square(A)
    if A is None or A.shape[0] > 10:
        return None
    M, exact = _exact_list(A)
    want = ref(M)
    if r is None or not np.isscalar(r) and np.ndim(r) != 0:
        return f"{what}: not a scalar"
    got = complex(r) if not isinstance(r, int) else r
    if exact:
        # integers: the value is an integer (or half integers for pf/hf)
        if what in ("permanent", "determinant") and isinstance(r, (int, np.integer)) and not isinstance(r, bool):
            return True if int(r) == want else f"{what}: got {r}, exact value {want}"
        # a value handed back as a float may be rounded once
        lim = (1e-15 if what in ("permanent", "determinant") and abs(want) > 1e6 else 1e-9) * max(1.0, abs(want))
        return True if abs(got - want) <= lim else f"{what}: got {r}, exact value {want}"
    sc = abs_ref([[abs(x) for x in row] for row in M])
    eps = 1e-12 if A.dtype.itemsize >= (16 if A.dtype.kind == "c" else 8) else 2e-4
    if A.dtype == np.float16:
        eps = 2e-1
    lim = eps * max(abs(sc), 1e-300) * 10
    return True if abs(got - want) <= lim else f"{what}: got {r}, expected {want} (limit {lim:.3g})"


def pf(ctx, a, r):
    return _comb(ctx, a.A, r, O.pf_literal, "pfaffian", O.hf_literal)


def hf(ctx, a, r):
    return _comb(ctx, a.A, r, O.hf_literal, "hafnian", O.hf_literal)


def pt(ctx, a, r):
    return _comb(ctx, a.A, r, O.permanent, "permanent", O.permanent)


def dt(ctx, a, r):
    return _comb(ctx, a.A, r, O.determinant, "determinant", O.permanent)


def dt_eigen(ctx, a, r):
    A = a.A
    if not isinstance(A, np.ndarray) or A.ndim != 2 or A.dtype.kind not in "iufc":
        return None
    if A.shape[0] != A.shape[1]:
        return True if r is None else "non-square input did not give None"
    if not A.size or A.shape[0] > 40 or not finite(A):
        return None
    A = A.astype(complex)
    rows = np.linalg.norm(A, axis=1)
    had = float(np.prod(np.where(rows == 0, 1, rows)))
    if A.shape[0] <= 7:
        want = complex(O.determinant([[complex(x) for x in row] for row in A.tolist()]))
    else:
        s, ld = np.linalg.slogdet(A)
        want = complex(s * np.exp(ld)) if np.isfinite(ld) else 0
    if r is None:
        return "no value"
    # eigenvalues of defective matrices carry eps^(1/n) errors; the product
    # is backward stable w.r.t. ||A||_F^n
    nf = float(np.linalg.norm(A))
    lim = 1e-9 * max(had, abs(want)) + 1e-13 * nf ** A.shape[0]
    return True if abs(complex(r) - want) <= lim else f"determinant: got {r}, expected {want} (limit {lim:.3g})"


def sgn(ctx, a, r):
    p = [int(x) for x in a.permutation]
    if len(set(p)) != len(p):
        return None
    return True if r == O.perm_sign(p) else f"sign {r} for {p}"


# ------------------------------------------------------------------- graphs
def simple(G):
    import networkx as nx

    return isinstance(G, nx.Graph) and not G.is_directed() and not G.is_multigraph() and nx.number_of_selfloops(G) == 0


def _wts(G):
    return {(u, v): d.get("weight", 1) for u, v, d in G.edges(data=True)}


def _pos_weights(G):
    return all(isinstance(w, (int, float, np.number)) and w > 0 for w in _wts(G).values())


NOISE = 4e-15  # relative to the largest singular value and the order


def det_noise(G):
    """Rounding error of the determinant of the oriented weighted adjacency matrix:
    every eigenvalue of a normal matrix is off by a few units of its norm at most."""
    s = np.linalg.svd(O.kasteleyn(G), compute_uv=False)
    if not len(s) or not s[0]:
        return 0.0
    d = NOISE * len(s) * s[0]
    return float(np.prod(s + d) - np.prod(s[s > d]) * (len(s[s > d]) == len(s)))


def count_tol(G, want):
    if not want:
        return 1e-9
    e = det_noise(G)
    lim = min(math.sqrt(e), e / want)
    return lim + 1e-9 * max(1.0, want)


def _count_close(r, want, lim=None):
    if r is None or np.ndim(r) != 0:
        return "count is not a scalar"
    g = complex(r)
    if g != g or abs(g) == float("inf"):
        return f"count is {r}"
    if abs(g.imag) > 1e-9 or g.real < 0:
        return f"count is {r}"
    if lim is None:
        lim = 1e-6 * max(1.0, want) if want else 2e-3
    return True if abs(g.real - want) <= lim else f"count {r}, true value {want}"


def count_perfect_matchings_planar(ctx, a, r):
    import networkx as nx

    G = a.graph
    if not simple(G) or not len(G) or len(G) > 64 or not _pos_weights(G) or not nx.is_planar(G):
        return None
    want = O.matchings_weight(G.nodes, _wts(G))
    return _count_close(r, want, count_tol(G, want))


def count_perfect_matchings(ctx, a, r):
    import networkx as nx

    G = a.graph
    if not simple(G) or not len(G):
        return None
    if nx.is_planar(G):
        return count_perfect_matchings_planar(ctx, a, r)
    if len(G) > 20:
        return None
    want = O.matchings_weight(G.nodes, {e: 1 for e in G.edges})
    if len(G) >= 16 and want and complex(r) == 0:
        ctx.findings.append(
            {"mechanism": "brute-force-limit", "what": "non-planar graph with 16 or more vertices counted as 0", "case": ctx.case}
        )
        return True
    return _count_close(r, want)


def find_perfect_matchings_brute(ctx, a, r):
    G = a.graph
    if not simple(G) or len(G) > 20 or not len(G):
        return None
    if len(G) >= 16:
        if r == [] and O.matchings_weight(G.nodes, {e: 1 for e in G.edges}):
            ctx.findings.append(
                {"mechanism": "brute-force-limit", "what": "graph with 16 or more vertices reported without matchings", "case": ctx.case}
            )
            return True
        if r == []:
            return True
    want = O.matchings_list(G.nodes, G.edges)
    got = []
    E = {frozenset(e) for e in G.edges}
    for m in r:
        s = frozenset(frozenset(e) for e in m)
        if len(s) != len(m) or not s <= E:
            return f"reported matching {m} uses edges that are not in the graph, or repeats one"
        got.append(s)
    if len(set(got)) != len(got):
        return "a perfect matching is reported twice"
    if set(got) != want:
        return f"{len(set(got))} perfect matchings reported, {len(want)} exist"
    return True


def pfo_algorithm(ctx, a, r):
    import networkx as nx

    G = a.graph
    if not simple(G) or not len(G) or not nx.is_planar(G) or len(G) > 64:
        return None
    n = len(G)
    P = np.asarray(r)
    if P.shape != (n, n):
        return f"shape {P.shape} for {n} nodes"
    if np.iscomplexobj(P) and np.max(np.abs(P.imag)) > 0:
        return "orientation has imaginary entries (unassigned edges)"
    P = P.real.astype(float)
    Adj = nx.to_numpy_array(G, weight=None)
    v = both(
        eq(np.abs(P), (Adj != 0).astype(float), "oriented edges are not exactly the edges of the graph (+-1)", 0, 0),
        eq(P, -P.T, "orientation not skew-symmetric", 0, 0),
    )
    if v is not True or n % 2:
        return v
    ix = {x: i for i, x in enumerate(G.nodes)}
    # generic positive weights: |Pf| is the weighted count only if every perfect
    # matching contributes with the same sign
    rng = np.random.default_rng(12345)
    for unit in (True, False):
        w, K = {}, np.zeros((n, n))
        for u, x in G.edges:
            t = 1.0 if unit else float(rng.uniform(0.5, 2.0))
            w[(u, x)] = t
            i, j = ix[u], ix[x]
            K[i, j], K[j, i] = P[i, j] * t, P[j, i] * t
        want = O.matchings_weight(G.nodes, w)
        got = abs(O.pfaffian(K))
        if abs(got - want) > 1e-8 * max(1.0, want):
            return f"|pfaffian| of the oriented matrix is {got}, matchings weigh {want}: not a Pfaffian orientation"
    return True


def faces(ctx, a, r):
    import networkx as nx

    G = a.graph
    if not simple(G) or not G.number_of_edges() or not nx.is_connected(G) or not nx.is_planar(G):
        return None
    if not isinstance(r, list):
        return "no list of faces"
    darts = [e for f in r for e in f]
    want = sorted([(u, v) for u, v in G.edges] + [(v, u) for u, v in G.edges], key=repr)
    if sorted([tuple(e) for e in darts], key=repr) != want:
        return "faces do not use every edge exactly once in each direction"
    for f in r:
        for k, (u, v) in enumerate(f):
            if f[(k + 1) % len(f)][0] != v:
                return "a face is not a closed walk"
    if len(r) != G.number_of_edges() - len(G) + 2:
        return f"{len(r)} faces violate Euler's formula"
    return True


def compute_tree_depth(ctx, a, r):
    import networkx as nx

    G = a.graph
    if not simple(G) or not len(G) or not nx.is_tree(G):
        return None
    root = next(iter(G.nodes))
    depth, layer, seen = 0, [root], {root}
    while True:
        layer = [x for v in layer for x in G[v] if x not in seen]
        if not layer:
            break
        seen.update(layer)
        depth += 1
    return True if r == depth else f"depth {r}, actual {depth}"


# ---------------------------------------------------------------- utilities
def kron_plus(ctx, a, r):
    A, B = np.asarray(a.a), np.asarray(a.b)
    if A.ndim != 2 or B.ndim != 2:
        return None
    w = np.zeros((A.shape[0] + B.shape[0], A.shape[1] + B.shape[1]), dtype=complex)
    w[: A.shape[0], : A.shape[1]] = A
    w[A.shape[0] :, A.shape[1] :] = B
    return eq(r, w, "direct sum", 0, 0)


def _ptrace(keep_first):
    def contract(ctx, a, r):
        AB, d = np.asarray(a.AB), a.d
        if AB.ndim != 2 or AB.shape[0] != AB.shape[1] or not posint(d) or AB.shape[0] % d:
            return None
        e = AB.shape[0] // d
        if keep_first:
            w = np.einsum("ikjk->ij", AB.reshape(d, e, d, e))
        else:
            w = np.einsum("kikj->ij", AB.reshape(e, d, e, d))
        sc = float(np.max(np.abs(AB))) if AB.size else 1
        # results may be cast to real when all imaginary parts are negligible
        slack = 2e-8 if keep_first and np.max(np.abs(w.imag)) < 2e-8 else 0
        return eq(r, w, "reduced matrix", 0, 1e-12 * sc * e + slack)

    return contract


partial_trace_blockTr = _ptrace(True)
partial_trace_diagblocksum = _ptrace(False)


def generate_random_bitstring(ctx, a, r):
    n, k = a.n, a.k
    if k < 0 or k > n:
        return True if r is None else "impossible Hamming weight did not give None"
    r = np.asarray(r)
    if r.shape != (n,):
        return f"shape {r.shape}"
    if not np.all((r == 0) | (r == 1)):
        return "entries other than 0 and 1"
    return True if int(r.sum()) == k else f"weight {int(r.sum())} instead of {k}"


def cast_to_density_matrix(ctx, a, r):
    w = O.density(a.rho)
    if w is None or not O.is_density(w, 1e-12):
        return None
    return eq(r, w, "density matrix", 0, 1e-12)


def cast_to_pdf(ctx, a, r):
    w = O.pdf_of(a.rho)
    if w is None or not O.is_density(O.density(a.rho), 1e-12):
        return None
    r = np.asarray(r)
    return both(
        eq(r, w, "distribution", 0, 1e-11),
        True if r.dtype.kind == "f" else f"distribution has dtype {r.dtype}",
        True if np.all(r.real >= 0) else f"negative probability {r.real.min()}",
    )


def _states(*xs):
    out = []
    for x in xs:
        d = O.density(x)
        if d is None or not O.is_density(d, 1e-12):
            return None
        out.append(d)
    return out


def _qubits(d):
    n = int(round(math.log2(d.shape[0])))
    return n if 2**n == d.shape[0] and n >= 1 else None


def _real(r, what):
    if np.ndim(r) != 0:
        return f"{what}: not a scalar"
    if abs(complex(r).imag) > 1e-12:
        return f"{what}: complex value {r}"
    if complex(r).real != complex(r).real:
        return f"{what}: nan"
    return True


def stabilizer_distribution(ctx, a, r):
    d = _states(a.rho)
    if d is None or _qubits(d[0]) is None:
        return None
    rho = d[0]
    e = O.pauli_expectations(rho)
    want = np.abs(e) ** 2 / (rho.shape[0] * np.trace(rho @ rho).real)
    r = np.asarray(r)
    return both(
        eq(r, want, "stabilizer distribution", 0, 1e-12),
        True if np.min(r) >= 0 else "negative probability",
        eq(np.sqrt(np.abs(r)), np.sqrt(want), "stabilizer distribution (small weights)", 0, 1e-7),
        eq(np.sum(r), 1.0, "normalisation", 0, 1e-11),
    )


def SRE(ctx, a, r):
    d = _states(a.rho)
    if d is None or _qubits(d[0]) is None:
        return None
    rho = d[0]
    al = a.a
    if not isnum(al) or al < 0 or (al != 1 and abs(al - 1) < 1e-4) or (al == 0):
        return None
    e = O.pauli_expectations(rho)
    xi = np.abs(e) ** 2 / (rho.shape[0] * np.trace(rho @ rho).real)
    v = _real(r, "SRE")
    if v is not True:
        return v
    if xi[0] > 1 - 1e-12:
        return eq(r, 0.0, "SRE of the maximally mixed state", 0, 1e-9)
    if xi[0] > 1 - 1e-4:
        return None
    xi = np.where(xi < 1e-30, 0, xi) if al >= 1 else xi
    if al < 1:
        # rounding noise of vanishing expectations: only claim if it is immaterial
        lo = O.renyi(np.where(xi < 1e-25, 0, xi) / np.sum(np.where(xi < 1e-25, 0, xi)), al)
        return eq(r, lo - np.log(rho.shape[0]), "SRE", 1e-8, 1e-7 + xi.size * (1e-32) ** al / (1 - al))
    return eq(r, O.renyi(xi / xi.sum(), al) - np.log(rho.shape[0]), "SRE", 1e-10, 1e-9)


def renyi_entropy(ctx, a, r):
    d = _states(a.p)
    al = a.a
    if d is None or not isnum(al) or al < 0 or al != al:
        return None
    raw = np.diag(d[0]).real
    if np.any((raw != 0) & (np.abs(raw) < 1e-13)) and al < 1:
        return None  # rounding noise decides the support
    p = np.clip(raw, 0, None)
    sc = 2e-14 / abs(al - 1) if al != 1 else 0
    v = _real(r, "entropy")
    return both(v, eq(r, O.renyi(p / p.sum(), al), "Renyi entropy", 1e-11, 1e-11 + sc))


def linear_entropy(ctx, a, r):
    d = _states(a.p)
    if d is None or math.isqrt(d[0].shape[0]) ** 2 != d[0].shape[0]:
        return None
    p = np.diag(d[0]).real
    return both(_real(r, "entropy"), eq(r, 1 - float(np.sum(p * p)), "linear entropy", 0, 1e-13))


def _explicit(x):
    """A distribution given as such: its entries reach the function without arithmetic."""
    x = np.asarray(x)
    if x.dtype.kind not in "iuf" or np.any(x < 0):
        return False
    if x.ndim == 1 or min(x.shape) == 1:
        return abs(np.linalg.norm(x) - 1) > 1e-3
    return x.ndim == 2 and x.shape[0] == x.shape[1] and np.count_nonzero(x) == np.count_nonzero(np.diagonal(x))


def _pair(fn, what, lim=None):
    def contract(ctx, a, r):
        d = _states(a.p, a.q)
        if d is None or d[0].shape != d[1].shape:
            return None
        p, q = (np.clip(np.diag(x).real, 0, None) for x in d)
        sure = _explicit(a.p) and _explicit(a.q)
        if what == "relative entropy" and not sure and np.any((p > 0) & (q > 0) & ((p < 1e-13) | (q < 1e-13))):
            return None
        if what == "relative entropy" and not sure and np.any((p > 0) & (p < 1e-13) & (q == 0)):
            return None
        p, q = p / p.sum(), q / q.sum()
        return both(_real(r, what), eq(r, fn(p, q), what, 1e-11, 1e-11 if lim is None else lim))

    return contract


total_variation_distance = _pair(O.tvd, "total variation distance")
relative_entropy = _pair(O.kl, "relative entropy")
jensen_shannon_divergence = _pair(O.js, "Jensen-Shannon divergence")
bhattacharyya_coeff = _pair(lambda p, q: float(np.sum(np.sqrt(p) * np.sqrt(q))), "Bhattacharyya coefficient", 1e-9)


def trace_distance(ctx, a, r):
    d = _states(a.A, a.B)
    if d is None or d[0].shape != d[1].shape:
        return None
    return both(_real(r, "trace distance"), eq(r, O.trace_dist(*d), "trace distance", 0, 1e-11))


def cov_distribution(ctx, a, r):
    d = _states(a.rho)
    if d is None or _qubits(d[0]) is None:
        return None
    n = _qubits(d[0])
    M = O.cov_majorana(d[0], n)
    sv = np.sort(np.linalg.svd(M, compute_uv=False))[::-1][::2] ** 2  # pairs
    got = np.sort(np.asarray(r, dtype=float).reshape(-1))[::-1]
    if got.size > 2 * n:
        return f"{got.size} values for {n} modes"
    # values below the cut may be absent or present; compare padded
    m = max(got.size, n)
    g, w = np.zeros(m), np.zeros(m)
    g[: got.size] = got
    w[:n] = sv
    # the values themselves, so that a nearly vanishing pair cannot be missing
    values = eq(np.sqrt(np.maximum(g, 0)), np.sqrt(w), "covariance eigenvalues (one per pair)", 0, 1e-9)
    return both(eq(g, w, "squared covariance eigenvalues (one per pair)", 0, 1e-11), values)


def FAF(ctx, a, r):
    d = _states(a.rho)
    k = a.k
    if d is None or _qubits(d[0]) is None or not isinstance(k, (int, float, np.integer, np.floating)) or k < 0.2 or k > 12:
        return None
    n = _qubits(d[0])
    M = O.cov_majorana(d[0], n)
    if k == int(k):
        want = n - 0.5 * np.trace(np.linalg.matrix_power(M.T @ M, int(k)))
    else:
        s = np.linalg.svd(M, compute_uv=False)
        s, unsure = s[s > 1e-9], s[(s <= 1e-9) & (s > 1e-13)]  # the function leaves out what is below 1e-10
        want = n - 0.5 * float(np.sum(s ** (2 * k)))
        slack = np.sum(unsure ** (2 * k)) + (2 * k * np.sum(s ** (2 * k - 1)) * 1e-13 if k < 1 else 0)
        return both(_real(r, "FAF"), eq(r, want, "FAF", 0, 1e-10 + slack))
    return both(_real(r, "FAF"), eq(r, want, "FAF", 0, 1e-10))


def get_orthogonal_vectors(ctx, a, r):
    v = np.asarray(a.v)
    if v.ndim == 1:
        v = v.reshape(-1, 1)
    if v.ndim != 2 or v.shape[1] != 1 or v.shape[0] < 2 or v.dtype.kind not in "iufc" or not finite(v):
        return None
    v = v.astype(complex)
    n = v.shape[0]
    Q = np.asarray(r)
    if Q.shape != (n, n):
        return f"shape {Q.shape}"
    nv = np.linalg.norm(v)
    u = eq(Q.conj().T @ Q, np.eye(n), "columns not orthonormal", 0, 1e-11)
    if nv < 1e-7:
        return u if nv == 0 else None
    return both(u, eq(Q[:, :1], v / nv, "first column is not the normalised input", 0, 1e-12))


ALL = {
    k: v
    for k, v in list(globals().items())
    if callable(v) and k in __import__("ffmon.core", fromlist=["SIG"]).SIG
}


def pick(*names):
    return {n: ALL[n] for n in names}
