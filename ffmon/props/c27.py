"""Covariance distribution and fermionic anti-flatness."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C27"
CONTRACTS = contracts.pick("cov_distribution", "FAF")
RULE = (
    "17 density-matrix and 5 wavefunction classes on 1..7 qubits, pure Gaussian states with and without a unique filling, "
    "thermal Gaussian states, degenerate and vanishing covariance, Gaussian-unitary orbits, products of even states, "
    "orders 1/4..8, also fractional. Distinct = argument digests."
)
FLOORS = {"cov_distribution": 300, "FAF": 300, "gaussian": 100, "invariance": 80, "additive": 40, "range": 250}


def cases(tier, seed):
    r = crng(tier, seed, 27)
    out = []
    for m in gen.STATE_MODES:
        for k in range(scale(tier, 12, 130)):
            out.append({"kind": "state", "m": m, "n": int(r.choice([1, 2, 3, 3, 4, 5])), "k": k})
    for k in range(scale(tier, 90, 900)):
        out.append({"kind": "wf", "m": pick(r, gen.WF_MODES), "n": int(r.integers(1, 6)), "k": k})
        out.append({"kind": "gauss", "n": int(r.integers(1, 6)), "k": k})
        out.append({"kind": "orbit", "n": int(r.integers(1, 5)), "k": k})
    for k in range(scale(tier, 60, 600)):
        out.append({"kind": "prod", "k": k})
    for k in range(scale(tier, 4, 30)):
        out.append({"kind": "state", "m": pick(r, gen.STATE_MODES), "n": 6 + k % 2, "k": k, "cost": 50})
        out.append({"kind": "gauss", "n": 6, "k": k, "cost": 50})
    return out + scenarios.specs(["random", "chain"], scale(tier, 3, 30))


def gauss_unitary(rng, n):
    A, B = gen.herm_skew(rng, n, "generic", pick(rng, ["generic", "zero", "real"]))
    return O.unitary_exp(O.lift(O.H_matrix(A, B), O.alphas(n)))


def even(rng, n):
    """A state commuting with the fermion parity."""
    r = gen.state(rng, n, pick(rng, ["mixed", "pure", "rank2", "real"]))
    P = np.diag(O.parity_diag(n))
    return (r + P @ r @ P) / 2


def norm(r):
    r = (r + r.conj().T) / 2
    return r / np.trace(r).real


def run(ctx, spec, rng):
    k = spec["kind"]
    if k == "scenario":
        return scenarios.run(ctx, spec, rng)
    n = spec.get("n", 1)
    d = 2**n
    kk = pick(rng, [1, 2, 2, 3, 4, 8, 1.5, 2.5, 3.0, 0.5, 0.25])
    if k in ("state", "wf"):
        if k == "state":
            x = r = gen.state(rng, n, spec["m"])
            x = pick(rng, [r, r, r.tolist(), np.asfortranarray(r)])
        else:
            v = gen.wavefunction(rng, d, spec["m"])
            x = pick(rng, [v, v.reshape(-1, 1), v.tolist()])
        p = np.asarray(ctx.call("cov_distribution", x), float)
        ctx.expect(p.ndim == 1 and p.size <= 2 * n and (not p.size or (p.min() >= 0 and p.max() <= 1 + 1e-8)), "range: squared eigenvalues in [0, 1]", p=p)
        f, f2 = ctx.call("FAF", x, kk), ctx.call("FAF", x)
        ctx.expect(-1e-7 <= f <= n + 1e-7, "range: FAF outside [0, n]", f=f, k=kk)
        ctx.close(f2, n - np.sum(p**2), "range: default order is two", 0, 1e-10)
        ctx.close(f, n - np.sum(p**kk), "range: FAF is n minus the power sum", 0, 1e-10)
        ctx.expect(ctx.call("FAF", x, kk + 1) >= f - 1e-8, "range: FAF decreases with the order")
        ctx.sample({"state": spec["m"], "n": n, "k": kk, "FAF": f})
    elif k == "gauss":
        U = gauss_unitary(rng, n)
        z = np.zeros(d, dtype=complex)
        z[int(rng.integers(d))] = 1
        v = U @ z
        v /= np.linalg.norm(v)
        x = pick(rng, [v, np.outer(v, v.conj())])
        ctx.close(ctx.call("FAF", x, kk), 0, "gaussian: FAF vanishes on pure Gaussian states", 0, 1e-10)
        p = np.sort(np.asarray(ctx.call("cov_distribution", x), float))[::-1]
        ctx.close(p[:n], np.ones(n), "gaussian: all pairs are saturated", 0, 1e-10)
        lam = rng.uniform(0.1, 2, n) if rng.random() < 0.5 else 10.0 ** rng.uniform(-8, 0.6, n)
        K = U @ np.diag(sum(l * np.diag(a.T @ a) for l, a in zip(lam, O.lowering(n)))) @ U.conj().T
        t = O.thermal(K)
        want = np.tanh(lam / 2) ** 2
        q = np.sqrt(np.sort(np.asarray(ctx.call("cov_distribution", t), float))[::-1])
        want2 = np.sort(np.sqrt(want))[::-1]
        ctx.expect(np.sum(want2 > 1e-9) <= q.size <= 2 * n, "gaussian: one entry per mode that is not half filled", got=q, want=want2)
        m = max(n, q.size)
        ctx.close(np.pad(q, (0, m - q.size)), np.pad(want2, (0, m - n)), "gaussian: covariance values of known mode energies", 0, 1e-9)
        ctx.close(ctx.call("FAF", t, kk), n - np.sum(want**kk), "gaussian: thermal state with known mode energies", 0, 1e-10)
    elif k == "orbit":
        U = gauss_unitary(rng, n)
        r = gen.state(rng, n, pick(rng, ["mixed", "pure", "rank2", "ghz", "w", "superposed_parity"]))
        q = norm(U @ r @ U.conj().T)
        ctx.close(ctx.call("FAF", q, kk), ctx.call("FAF", r, kk), "invariance: FAF changes under a Gaussian unitary", 0, 1e-10)
        m = O.majoranas(n)[int(rng.integers(2 * n))] * np.sqrt(2)
        ctx.close(ctx.call("FAF", norm(m @ r @ m), kk), ctx.call("FAF", r, kk), "invariance: FAF changes under a Majorana reflection", 0, 1e-10)
    else:
        n1, n2 = int(rng.integers(1, 3)), int(rng.integers(1, 4))
        a, b = norm(even(rng, n1)), norm(even(rng, n2))
        ctx.close(ctx.call("FAF", np.kron(a, b), kk), ctx.call("FAF", a, kk) + ctx.call("FAF", b, kk), "additive: FAF of a product of even states", 0, 1e-10)
