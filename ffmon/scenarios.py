"""End-to-end pipelines in the style of the documentation examples.

They add reach, not oracles: while they run, the contracts of the property under
test judge every call, including those the library makes to itself.
"""

import numpy as np

from . import gen, oracles as O


def _chain(ctx, rng):
    n = int(rng.integers(2, 5))
    H = ctx.call("kitaev_chain", n, float(rng.normal()), float(rng.normal()), float(rng.normal()))
    ev, U = ctx.call("eigh_sp", H)
    al = ctx.call("jordan_wigner_alphas", n)
    rho = ctx.call("generate_gaussian_state", n, H, al)
    g = ctx.call("compute_2corr_matrix", rho, n, al)
    ctx.call("compute_cov_matrix", rho, n, al)
    ctx.call("rotate_operators", U, al)
    ctx.call("is_symp", U)
    ctx.call("clean", g)
    ctx.call("SRE", rho)
    ctx.call("FAF", rho)


def _random(ctx, rng):
    n = int(rng.integers(1, 4))
    s = int(rng.integers(0, 1000))
    psi = ctx.call("random_FF_state", n, seed=s, pure=True)
    rho = ctx.call("random_FF_state", n, seed=s)
    ctx.call("random_FF_state", n, fixedN=True, seed=s)
    ctx.call("random_FF_pure_state_W0", n, seed=s)
    ctx.call("random_FF_pure_state_WN", n, seed=s)
    ctx.call("random_FF_pure_state_CN", n, seed=s)
    ctx.call("random_FF_state_rotPDF", n, seed=s)
    ctx.call("random_FF_state_randH", n, seed=s)
    phi = ctx.call("random_qubit_pure_state", n, seed=s)
    ctx.call("random_CHP_state", n)
    ctx.call("stabilizer_distribution", psi)
    ctx.call("trace_distance", rho, phi)
    ctx.call("total_variation_distance", psi, phi)
    ctx.call("jensen_shannon_divergence", psi, rho)
    ctx.call("bhattacharyya_coeff", psi, phi)
    ctx.call("relative_entropy", phi, rho)
    xi = ctx.call("stabilizer_distribution", rho)
    ctx.call("renyi_entropy", xi, 2)
    ctx.call("linear_entropy", xi)
    ctx.call("correlation_matrix", rho)
    p = ctx.call("build_unitary_path", psi, phi)
    mid = p(0.5)
    ctx.call("FAF", mid)
    q = ctx.call("build_linear_path", psi, phi)
    ctx.call("SRE", q(0.3))
    ctx.call("cast_to_pdf", mid)
    if n > 1:
        ctx.call("partial_trace_over_1", rho, 2)
        ctx.call("partial_trace_over_2", rho, 2)


def _graph(ctx, rng):
    G = gen.planar(rng, str(rng.choice(gen.PLANAR_KINDS)), int(rng.integers(3, 10)))
    ctx.call("count_perfect_matchings", G)
    P = ctx.call("pfo_algorithm", G)
    if len(G) <= 6:
        ctx.call("pf", np.triu(P) - np.triu(P).T)
        ctx.call("hf", np.abs(P))
    ctx.call("find_perfect_matchings_brute", G) if G.number_of_edges() < 14 else None
    ctx.call("count_perfect_matchings", gen.nonplanar(rng, str(rng.choice(["k5", "k33", "k6"]))))
    n = int(rng.integers(1, 6))
    ctx.call("pt", rng.standard_normal((n, n)))
    ctx.call("dt", rng.standard_normal((n, n)))
    T = gen.planar(rng, "rtree", 6)
    ctx.call("compute_tree_depth", T)


def _diag(ctx, rng):
    n = int(rng.integers(1, 5))
    A, B = gen.herm_skew(rng, n, "generic", "generic")
    H = ctx.call("build_H", n, A, B)
    V = ctx.call("build_V", n, A, B)
    ctx.call("eigh_sp", H)
    ctx.call("eigv_sp", V)
    W = ctx.call("build_Omega", n)
    G = W @ H @ W.conj().T
    ctx.call("eigm_sp", G)
    ctx.call("eigm_sp_can", G)
    K = ctx.call("build_op", n, H, ctx.call("jordan_wigner_alphas", n))
    D = ctx.call("build_op", n, V, ctx.call("jordan_wigner_alphas", n), direct=True)
    ctx.call("compute_algebra_S", ctx.call("jordan_wigner_majoranas", n))
    if n >= 3:
        ctx.call("generate_gaussian_state", n, K / 10)
    ctx.call("kron_plus", A, np.asarray(D))


ALL = {"chain": _chain, "random": _random, "graph": _graph, "diag": _diag}


def run(ctx, spec, rng):
    ALL[spec["scenario"]](ctx, rng)


def specs(names, count):
    return [{"kind": "scenario", "scenario": s, "k": k} for s in names for k in range(count)]


_ = O
