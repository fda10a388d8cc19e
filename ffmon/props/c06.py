"""Diagonalisation of Majorana coefficient matrices by real orthogonal transforms."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from . import c05
from .util import crng, pick, scale

ID = "C06"
CONTRACTS = contracts.pick("eigm_sp", "eigm_sp_can")
RULE = (
    "Majorana coefficient matrices of the same classes as the ladder-operator ones (all Hermitian x skew block classes, "
    "prescribed spectra with degeneracies and zero modes, decoupled sites, chains), n = 1..40, both output forms. "
    "Distinct = distinct input digests."
)
FLOORS = {"eigm_sp": 250, "eigm_sp_can": 250, "many-body spectrum": 60}
ASSUMPTIONS = c05.ASSUMPTIONS


def cases(tier, seed):
    r = crng(tier, seed, 6)
    out, k = [], 0
    for a in gen.HERM_MODES:
        for b in gen.SKEW_MODES:
            for _ in range(scale(tier, 2, 16)):
                out.append({"kind": "blocks", "n": int(r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])), "a": a, "b": b, "k": k})
                k += 1
    for k in range(scale(tier, 160, 2500)):
        out.append({"kind": "prescribed", "n": int(r.integers(1, 8)), "spec": pick(r, c05.SPECS), "k": k})
    for k in range(scale(tier, 80, 1000)):
        out.append({"kind": "decoupled", "n": int(r.integers(2, 8)), "k": k})
    for k in range(scale(tier, 60, 800)):
        out.append({"kind": "kitaev", "n": int(r.integers(1, 10)), "k": k})
    for k in range(scale(tier, 60, 800)):
        out.append({"kind": "majorana", "n": int(r.integers(1, 7)), "k": k})
    for k in range(scale(tier, 6, 60)):
        out.append({"kind": "blocks", "n": int(r.integers(8, 15)), "a": pick(r, gen.HERM_MODES), "b": pick(r, gen.SKEW_MODES), "k": k, "cost": 500})
    for k in range(scale(tier, 4, 40)):
        out.append({"kind": "blocks", "n": int(r.integers(17, 41)), "a": pick(r, gen.HERM_MODES), "b": pick(r, gen.SKEW_MODES), "k": k, "cost": 900})
    return out + scenarios.specs(["diag"], scale(tier, 6, 60))


def run(ctx, spec, rng):
    if spec["kind"] == "scenario":
        return scenarios.run(ctx, spec, rng)
    n = spec["n"]
    W = O.omega(n)
    if spec["kind"] == "majorana":
        # i times any real skew-symmetric matrix of even size is a valid input
        m = 2 * n
        X = rng.standard_normal((m, m)) * (rng.random((m, m)) < rng.choice([0.2, 0.5, 1.0]))
        G = 1j * (X - X.T)
    else:
        H = c05.make(rng, spec)
        if np.abs(H).max() > 0 and not 1e-4 <= np.abs(H).max() <= 2e3:
            H = H / np.abs(H).max()
        G = W @ H @ W.conj().T
    # the exact form: i times real skew
    G = 1j * (G.imag - G.imag.T) / 2
    if rng.random() < 0.3:
        G = np.asfortranarray(G)
    L, Q = ctx.call("eigm_sp", G)
    Lc, Qc = ctx.call("eigm_sp_can", G)
    L, Lc = np.asarray(L), np.asarray(Lc)
    lam = np.abs(np.array([L[k, n + k] for k in range(n)]))
    lamc = np.abs(np.array([Lc[2 * k, 2 * k + 1] for k in range(n)]))
    sc = max(1.0, np.abs(G).max())
    ctx.close(np.sort(lam), np.sort(lamc), "both forms have the same eigenvalues", 0, 1e-11 * sc * n + 1e-9)
    if n <= 5:
        K = O.lift(G, [g.astype(complex) for g in O.majoranas(n)])
        got = np.linalg.eigvalsh((K + K.conj().T) / 2)
        signs = np.array([[1 if x >> k & 1 else -1 for k in range(n)] for x in range(2**n)])
        ctx.close(np.sort(signs @ lam), got, "many-body spectrum", 0, 1e-11 * sc * n + 1e-9)
    ctx.sample({"n": n, "spec": spec})
