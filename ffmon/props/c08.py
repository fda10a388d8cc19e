"""Thermal Gaussian states."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C08"
CONTRACTS = contracts.pick("generate_gaussian_state")
RULE = (
    "coefficient matrices of every block class at inverse temperatures 0.01..20 for 1..8 sites, the same Hamiltonian "
    "passed as many-body operator (3..6 sites), with default, passed and rotated ladder operators; result compared with "
    "a shifted eigendecomposition and with the closed form of the two-point function. Distinct = argument digests."
)
FLOORS = {"generate_gaussian_state": 250, "closed form": 150, "many-body input": 40, "shift": 30, "commutes": 100}
ASSUMPTIONS = ["spectral norm of the many-body operator at most 250 (no overflow of the exponential)"]


def cases(tier, seed):
    r = crng(tier, seed, 8)
    out = []
    for k in range(scale(tier, 330, 5000)):
        out.append(
            {
                "kind": "thermal",
                "n": int(r.choice([1, 2, 2, 3, 3, 4, 5])),
                "a": pick(r, gen.HERM_MODES),
                "b": pick(r, gen.SKEW_MODES),
                "beta": float(10.0 ** r.uniform(-2, 1.3)),
                "ops": pick(r, ["default", "default", "passed", "rotated", "keyword", "permuted", "signs", "realrot"]),
                "k": k,
            }
        )
    for k in range(scale(tier, 40, 500)):  # nearly infinite temperature
        out.append({"kind": "thermal", "n": int(r.integers(1, 6)), "a": pick(r, gen.HERM_MODES), "b": pick(r, gen.SKEW_MODES), "beta": float(10.0 ** r.uniform(-6, -2)), "ops": pick(r, ["default", "passed"]), "k": k})
    for k in range(scale(tier, 60, 800)):
        out.append({"kind": "manybody", "n": int(r.choice([3, 3, 4, 5])), "k": k})
    for k in range(scale(tier, 2, 12)):
        out.append({"kind": "thermal", "n": 7, "a": "generic", "b": "generic", "beta": 0.3, "ops": "default", "k": k, "cost": 300})
    for k in range(scale(tier, 1, 4)):
        out.append({"kind": "thermal", "n": 8, "a": "generic", "b": "generic", "beta": 0.2, "ops": "default", "k": k, "cost": 900})
    return out + scenarios.specs(["chain", "diag"], scale(tier, 4, 40))


def run(ctx, spec, rng):
    if spec["kind"] == "scenario":
        return scenarios.run(ctx, spec, rng)
    n = spec["n"]
    if spec["kind"] == "manybody":
        A, B = gen.herm_skew(rng, n, pick(rng, gen.HERM_MODES), pick(rng, gen.SKEW_MODES))
        H = O.H_matrix(A, B)
        K = O.lift(H, O.alphas(n))
        nrm = max(np.abs(np.linalg.eigvalsh((K + K.conj().T) / 2)).max(), 1e-9)
        f = min(1.0, 30 / nrm)
        H, K = H * f, K * f
        r1 = ctx.call("generate_gaussian_state", n, K)
        r2 = ctx.call("generate_gaussian_state", n, H)
        ctx.close(r1, r2, "many-body input", 0, 1e-11)
        c = float(rng.uniform(-40, 40))
        ctx.close(ctx.call("generate_gaussian_state", n, K + c * np.eye(2**n)), r1, "shift", 0, 1e-11)
        return
    A, B = gen.herm_skew(rng, n, spec["a"], spec["b"])
    H = O.H_matrix(A, B) * spec["beta"]
    al = O.alphas(n)
    ops = [x.astype(complex) for x in al]
    if spec["ops"] == "rotated":
        C = gen.symplectic(rng, n)
        ops = list(np.tensordot(C, np.array(al), 1))
    elif spec["ops"] == "permuted":  # the same modes listed in another order
        p = [int(x) for x in rng.permutation(n)]
        ops = [ops[i] for i in p] + [ops[n + i] for i in p]
    elif spec["ops"] == "signs":  # exchanged roles and signs: still canonical
        s = rng.choice([-1.0, 1.0], n)
        ops = [s[i] * ops[i] for i in range(n)] + [s[i] * ops[n + i] for i in range(n)]
        if rng.random() < 0.5:
            ops = ops[n:] + ops[:n]
    elif spec["ops"] == "realrot":  # real Bogoliubov transformation
        Q, _ = np.linalg.qr(rng.standard_normal((n, n)))
        R, _ = np.linalg.qr(rng.standard_normal((n, n)))
        U, V = (Q + R) / 2, (Q - R) / 2
        C = np.block([[U, V], [V, U]])
        ops = list(np.tensordot(C, np.array(al, dtype=complex), 1))
    K = O.lift(H, ops)
    nrm = np.abs(np.linalg.eigvalsh((K + K.conj().T) / 2)).max()
    if nrm > 120:
        H, K = H * (120 / nrm), K * (120 / nrm)
    if spec["ops"] == "default":
        rho = ctx.call("generate_gaussian_state", n, H)
    elif spec["ops"] == "keyword":
        rho = ctx.call("generate_gaussian_state", n_sites=n, H=H, alphas=ops)
    else:
        rho = ctx.call("generate_gaussian_state", n, H, ops)
    rho = np.asarray(rho)
    ctx.expect(rho.shape == (2**n, 2**n), "state shape")
    ctx.close(np.trace(rho), 1.0, "unit trace", 0, 1e-11)
    ctx.close(rho, rho.conj().T, "Hermitian", 0, 1e-11)
    ctx.expect(np.linalg.eigvalsh((rho + rho.conj().T) / 2).min() > -1e-9, "positive")
    sc = max(1.0, np.abs(K).max())
    ctx.close(rho @ K, K @ rho, "commutes with its Hamiltonian", 0, 1e-10 * sc)
    ctx.checks["commutes"] += 1
    # <a a^dag> = 1/(1 + exp(-2H)) in the operators used
    w, U = np.linalg.eigh((H + H.conj().T) / 2)
    f = np.where(w >= 0, 1 / (1 + np.exp(-2 * np.abs(w))), np.exp(-2 * np.abs(w)) / (1 + np.exp(-2 * np.abs(w))))
    cut = float(np.sum(np.abs(H)[np.abs(H) < 1e-10]))  # build_op leaves out coefficients below 1e-10
    ctx.close(O.corr(rho, ops, 1), (U * f) @ U.conj().T, "closed form of the two-point function", 0, 1e-11 + 4 * cut)
    ctx.checks["closed form"] += 1
    P = O.parity_diag(n)
    own = spec["ops"] in ("rotated", "realrot")
    if not own:
        ctx.close(rho * P[:, None], rho * P[None, :], "definite parity sectors", 0, 1e-11)
    if not np.any(B) and not own:
        N = O.number_op(n)
        ctx.close(rho @ N, N @ rho, "conserves particle number", 0, 1e-11 * n)
    if rng.random() < 0.2:
        ctx.close(ctx.call("generate_gaussian_state", n, np.zeros((2 * n, 2 * n))), np.eye(2**n) / 2**n, "infinite temperature", 0, 1e-12)
    ctx.sample({k: v for k, v in spec.items()})
