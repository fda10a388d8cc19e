"""Symplectic diagonalisation in H form and V form."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C05"
CONTRACTS = contracts.pick("eigh_sp", "eigv_sp")
RULE = (
    "coefficient matrices of 1..40 sites over the product of 20 Hermitian and 11 skew block classes (degenerate, zero "
    "modes, low rank, near-degenerate, mixed scales, one entry, chains at and off criticality, real/imaginary), plus "
    "matrices of prescribed spectrum rotated by a random symplectic unitary and embeddings with decoupled sites; each "
    "result judged for ordering form, block form, orthonormality, symplecticity and reconstruction, and for n<=5 the "
    "many-body spectrum. Distinct = distinct input digests."
)
FLOORS = {"eigh_sp": 300, "eigv_sp": 60, "many-body spectrum": 40, "quasiparticle algebra": 40}
ASSUMPTIONS = ["largest entry between 1e-4 and 2e3 (the routine's own consistency checks use absolute tolerances)"]


def cases(tier, seed):
    r = crng(tier, seed, 5)
    out = []
    # every pair of block classes, sizes cycling
    k = 0
    for a in gen.HERM_MODES:
        for b in gen.SKEW_MODES:
            for _ in range(scale(tier, 2, 16)):
                n = int(r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8]))
                out.append({"kind": "blocks", "n": n, "a": a, "b": b, "k": k})
                k += 1
    for k in range(scale(tier, 160, 2500)):
        out.append({"kind": "prescribed", "n": int(r.integers(1, 8)), "spec": pick(r, SPECS), "k": k})
    for k in range(scale(tier, 60, 900)):
        out.append({"kind": "decoupled", "n": int(r.integers(2, 8)), "k": k})
    for k in range(scale(tier, 80, 1000)):
        out.append({"kind": "kitaev", "n": int(r.integers(1, 11)), "k": k})
    for k in range(scale(tier, 8, 80)):
        out.append({"kind": "blocks", "n": int(r.integers(9, 17)), "a": pick(r, gen.HERM_MODES), "b": pick(r, gen.SKEW_MODES), "k": k, "cost": 500})
    for k in range(scale(tier, 4, 40)):
        out.append({"kind": "blocks", "n": int(r.integers(17, 41)), "a": pick(r, gen.HERM_MODES), "b": pick(r, gen.SKEW_MODES), "k": k, "cost": 900})
    return out + scenarios.specs(["chain", "diag"], scale(tier, 6, 60))


SPECS = ("distinct", "allequal", "pairs", "onezero", "manyzero", "allzero", "neardeg", "tinygap", "wide", "unit")


def spectrum(rng, n, mode):
    if mode == "distinct":
        s = rng.uniform(0.2, 3, n)
    elif mode == "allequal":
        s = np.full(n, 1.3)
    elif mode == "pairs":
        s = rng.choice([0.7, 1.9], n)
    elif mode == "onezero":
        s = rng.uniform(0.2, 3, n)
        s[int(rng.integers(n))] = 0
    elif mode == "manyzero":
        s = rng.uniform(0.2, 3, n) * (rng.random(n) < 0.4)
    elif mode == "allzero":
        s = np.zeros(n)
    elif mode == "neardeg":
        s = 1 + 1e-6 * rng.standard_normal(n)
    elif mode == "tinygap":
        s = rng.uniform(0.5, 2, n)
        s[0] = 10.0 ** rng.uniform(-6, -3)
    elif mode == "wide":
        s = 10.0 ** rng.uniform(-3, 2, n)
    else:
        s = np.ones(n)
    return s


def herm_form(H, n):
    """Project on the exact block form (removes rounding of the construction)."""
    A = (H[n:, n:] + H[n:, n:].conj().T) / 2
    B = (H[:n, n:] - H[:n, n:].T) / 2
    return O.H_matrix(A, B)


def make(rng, spec):
    n, kind = spec["n"], spec["kind"]
    if kind == "blocks":
        return O.H_matrix(*gen.herm_skew(rng, n, spec["a"], spec["b"]))
    if kind == "prescribed":
        s = spectrum(rng, n, spec["spec"])
        U = gen.symplectic(rng, n, det=pick(rng, [1, -1]))
        return herm_form(U @ np.diag(np.concatenate([-s, s])) @ U.conj().T, n)
    if kind == "decoupled":
        # interacting part on a subset of sites, other sites idle or diagonal
        m = int(rng.integers(1, n))
        sites = rng.permutation(n)[:m]
        A0, B0 = gen.herm_skew(rng, m, pick(rng, gen.HERM_MODES), pick(rng, gen.SKEW_MODES))
        A, B = np.zeros((n, n), dtype=complex), np.zeros((n, n), dtype=complex)
        A[np.ix_(sites, sites)], B[np.ix_(sites, sites)] = A0, B0
        if rng.random() < 0.5:
            for i in set(range(n)) - set(sites.tolist()):
                A[i, i] = float(rng.choice([0.5, -1.0, 2.0, 1.0]))
        return O.H_matrix(A, B)
    mu, t, d = (float(pick(rng, [0, 1, -1, 2, 0.5, rng.normal()])) for _ in range(3))
    A = np.zeros((n, n))
    B = np.zeros((n, n))
    for i in range(n):
        A[i, i] = -mu
        if i + 1 < n:
            A[i, i + 1] = A[i + 1, i] = -t
            B[i, i + 1], B[i + 1, i] = d, -d
    return O.H_matrix(A, B)


def run(ctx, spec, rng):
    if spec["kind"] == "scenario":
        return scenarios.run(ctx, spec, rng)
    n = spec["n"]
    H = make(rng, spec)
    if np.abs(H).max() > 0 and not 1e-4 <= np.abs(H).max() <= 2e3:
        H = H / np.abs(H).max()
    form = rng.integers(3)
    if form == 1 and not np.any(H.imag):
        H = H.real.copy()
    elif form == 2:
        H = np.asfortranarray(H)
    L, U = ctx.call("eigh_sp", H)
    S = O.s_matrix(n)
    sc = max(1.0, np.abs(H).max())
    if n <= 8:
        V = S @ H
        if rng.random() < 0.6:
            ctx.call("eigv_sp", V)
    sig = np.diag(np.asarray(L))[n:].real
    if n <= 5:
        # many-body spectrum of sum H_ij a_i^dag a_j is {sum +-sigma_k}
        K = O.lift(H, O.alphas(n))
        got = np.linalg.eigvalsh((K + K.conj().T) / 2)
        signs = np.array([[1 if x >> k & 1 else -1 for k in range(n)] for x in range(2**n)])
        ctx.close(np.sort(signs @ sig), got, "many-body spectrum", 0, 1e-11 * sc * n + 1e-9)
    if n <= 4:
        # b_i = sum_j conj(U_ji) a_j diagonalises: K = sum_k L_kk b_k^dag b_k, and b is a ladder set
        z = contracts._phase_noise(np.asarray(U))
        b = np.tensordot(np.asarray(U).conj().T, np.array(O.alphas(n)), 1)
        ac = np.einsum("iab,jbc->ijac", b, b) + np.einsum("jab,ibc->ijac", b, b)
        want = S[:, :, None, None] * np.eye(2**n)[None, None]
        ctx.close(ac, want, "quasiparticle algebra", 0, 1e-8 + 4 * z)
        ctx.close(O.lift(np.diag(np.diag(np.asarray(L))), b), K, "operator in quasiparticle form", 0, (1e-8 + 4 * z) * sc * n)
    ctx.sample({"n": n, "spec": {k: v for k, v in spec.items() if k != "k"}})
