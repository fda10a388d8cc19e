"""Two-point and covariance matrices."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C09"
CONTRACTS = contracts.pick("compute_2corr_matrix", "correlation_matrix", "compute_cov_matrix")
RULE = (
    "17 classes of density matrices (entangled, product, parity-superposed, thermal, pure, diagonal), non-Hermitian "
    "operators, default/ladder/Majorana/rotated/generic operator lists and lists over part of the modes, every conjugation mode (None, True, 1, 2, -1, "
    "-2), every optional argument omitted or given, 1..7 sites; judged entrywise and by sum rules. Distinct = argument "
    "digests."
)
FLOORS = {"compute_2corr_matrix": 300, "correlation_matrix": 100, "compute_cov_matrix": 200, "sum rules": 150, "partial operator lists": 20, "bounds": 100}
CONJ = (None, True, 1, 2, -1, -2, 1.0, -1.0)


def cases(tier, seed):
    r = crng(tier, seed, 9)
    out = []
    for k in range(scale(tier, 330, 5000)):
        out.append(
            {
                "kind": "state",
                "n": int(r.choice([1, 1, 2, 2, 3, 3, 4, 5])),
                "s": pick(r, gen.STATE_MODES),
                "ops": pick(r, ["default", "ladder", "majorana", "rotated", "generic"]),
                "c": int(r.integers(len(CONJ))),
                "k": k,
            }
        )
    for k in range(scale(tier, 100, 1500)):
        out.append({"kind": "operator", "n": int(r.integers(1, 5)), "c": int(r.integers(len(CONJ))), "k": k})
    for k in range(scale(tier, 4, 40)):
        out.append({"kind": "state", "n": 6 + k % 2, "s": pick(r, gen.STATE_MODES), "ops": pick(r, ["default", "ladder", "majorana"]), "c": int(r.integers(len(CONJ))), "k": k, "cost": 50})
    for k in range(scale(tier, 60, 800)):
        out.append({"kind": "subset", "n": int(r.integers(2, 6)), "s": pick(r, gen.STATE_MODES), "c": int(r.integers(len(CONJ))), "k": k})
    return out + scenarios.specs(["chain", "random"], scale(tier, 4, 40))


def run(ctx, spec, rng):
    if spec["kind"] == "scenario":
        return scenarios.run(ctx, spec, rng)
    n = spec["n"]
    c = CONJ[spec["c"]]
    if spec["kind"] == "operator":
        rho = gen.cplx(rng, 2**n, 2**n)
        ops = [x.astype(complex) for x in (O.alphas(n) if rng.random() < 0.5 else O.majoranas(n))]
        ctx.call("compute_2corr_matrix", rho, n, ops, c)
        ctx.call("correlation_matrix", rho)
        ctx.call("compute_cov_matrix", rho, n, ops)
        return
    if spec["kind"] == "subset":  # a list over some of the modes of the state, in any order
        rho = gen.state(rng, n, spec["s"])
        m = int(rng.integers(1, n + 1))
        pool = [x.astype(complex) for x in (O.alphas(n) if rng.random() < 0.5 else O.majoranas(n))]
        if rng.random() < 0.7:
            modes = rng.permutation(n)[:m]
            ops = [pool[i] for i in modes] + [pool[n + i] for i in modes]
        else:
            ops = [pool[i] for i in rng.integers(0, 2 * n, 2 * m)]
        G = ctx.call("compute_2corr_matrix", rho, m, ops, c)
        K = ctx.call("compute_cov_matrix", rho, m, ops)
        ctx.expect(np.shape(G) == np.shape(K) == (2 * m, 2 * m), "one row per operator of the list")
        ctx.checks["partial operator lists"] += 1
        return
    rho = gen.state(rng, n, spec["s"])
    al = [x.astype(complex) for x in O.alphas(n)]
    ops = None
    if spec["ops"] == "ladder":
        ops = al
    elif spec["ops"] == "majorana":
        ops = [x.astype(complex) for x in O.majoranas(n)]
    elif spec["ops"] == "rotated":
        ops = list(np.tensordot(gen.symplectic(rng, n), np.array(al), 1))
    elif spec["ops"] == "generic":
        ops = [gen.cplx(rng, 2**n, 2**n) for _ in range(2 * n)]
    if not np.any(rho.imag) and rng.random() < 0.5:
        rho = rho.real.copy()
    form = int(rng.integers(3))
    if form == 0:
        G = ctx.call("compute_2corr_matrix", rho, n, ops, c)
    elif form == 1:
        G = ctx.call("compute_2corr_matrix", rho, n, alphas=ops, conjugation=c)
    else:
        G = ctx.call("compute_2corr_matrix", rho=rho, n_sites=n, alphas=ops, conjugation=c)
    if c is None and ops is not None:  # the default list right after a call with another one
        ctx.call("compute_2corr_matrix", rho, n)
        ctx.call("compute_2corr_matrix", rho, n, conjugation=True)
    if ops is None or rng.random() < 0.3:
        K = ctx.call("compute_cov_matrix", rho)
        ctx.close(K, ctx.call("compute_cov_matrix", rho, n), "default site count", 0, 1e-12)
    else:
        K = ctx.call("compute_cov_matrix", rho, n, ops) if rng.random() < 0.7 else ctx.call("compute_cov_matrix", rho, alphas=ops)
    ctx.close(K, -K.T, "covariance antisymmetric", 0, 1e-11)
    g0 = ctx.call("correlation_matrix", rho)
    ctx.close(g0, ctx.call("compute_2corr_matrix", rho, n), "correlation matrix is the unconjugated two-point matrix", 0, 1e-12)
    S = O.s_matrix(n)
    ctx.close(g0 + g0.T, S, "anticommutator sum rule", 0, 1e-11)
    P = ctx.call("compute_2corr_matrix", rho, n, conjugation=True)
    eta = ctx.call("compute_2corr_matrix", rho, n, conjugation=-1)
    ctx.close(P, g0 @ S, "conjugated second operator is the partner column", 0, 1e-11)
    ctx.close(eta, S @ g0, "conjugated first operator is the partner row", 0, 1e-11)
    N = O.number_op(n)
    ctx.close(np.trace(P[:n, :n]), np.trace(rho @ N), "occupations sum to the particle number", 0, 1e-11)
    ctx.close(P + eta.T, np.eye(2 * n), "completeness", 0, 1e-11)
    ctx.checks["sum rules"] += 1
    if spec["ops"] in ("default", "ladder", "rotated") and c in (True, 1, 2, 1.0):
        w = np.linalg.eigvalsh((G + G.conj().T) / 2)
        ctx.expect(w.min() > -1e-9 and w.max() < 1 + 1e-9, "bounds: occupation eigenvalues outside [0,1]", w=w)
        ctx.close(G, G.conj().T, "bounds", 0, 1e-11)
    M = ctx.call("compute_cov_matrix", rho, n, [x.astype(complex) for x in O.majoranas(n)])
    m = (-1j * np.asarray(M))
    ctx.close(m.imag, 0 * m.imag, "Majorana covariance is i times real", 0, 1e-11)
    ctx.expect(np.linalg.norm(m.real, 2) < 1 + 1e-8, "bounds: Majorana covariance exceeds 1")
    ctx.sample(spec)
