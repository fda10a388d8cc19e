"""Valid calls of every public function, used by the properties about the whole
surface (no side effects, input representation, concurrency).

An entry is (name, maker, flags); maker(rng) returns fresh (args, kwargs).
Flags: R draws from the ambient generators, S is given a seed, P plots,
O prints, I changes its first argument by design, A may return its argument,
N has randomness of its own (not replayable), D result has gauge freedom (eigenvectors), L slow, B large arguments, Z keeps text state
(numpy print options) for the duration of the call.
Dtype flags per argument position live in DTYPES: positions whose arrays may be
given as real, complex or integer data of the same value.
"""

import networkx as nx
import numpy as np

from . import gen, oracles as O


def _n(rng, a=1, b=4):
    return int(rng.integers(a, b + 1))


def _pick(rng, xs):
    xs = list(xs)
    return xs[int(rng.integers(len(xs)))]


def _H(rng, n):
    return O.H_matrix(*gen.herm_skew(rng, n, _pick(rng, ["generic", "real", "integer"]), _pick(rng, ["generic", "real", "integer"])))


def _smooth(rng, n):
    return O.H_matrix(*gen.herm_skew(rng, n, "generic", "generic"))


def _rho(rng, n=None):
    n = n or _n(rng, 1, 3)
    return gen.state(rng, n, _pick(rng, gen.STATE_MODES))


def _full(rng, n):
    return gen.state(rng, n, "mixed")


def _wf(rng, n=None):
    n = n or _n(rng, 1, 3)
    return gen.wavefunction(rng, 2**n, _pick(rng, gen.WF_MODES))


def _pdf(rng, d=None):
    return gen.pdf(rng, d or _n(rng, 2, 8), _pick(rng, [m for m in gen.PDF_MODES if m != "delta"]))


def _stateish(rng, n=None):
    n = n or _n(rng, 1, 3)
    k = rng.integers(3)
    return _rho(rng, n) if k == 0 else _wf(rng, n) if k == 1 else _pdf(rng, 2**n)


def _planar(rng, lo=3, hi=9):
    G = gen.planar(rng, _pick(rng, gen.PLANAR_KINDS), _n(rng, lo, hi))
    return gen.weighted(rng, gen.relabel(rng, G, _pick(rng, gen.LABELS)), _pick(rng, ["unit", "int", "float"]))


def _conn(rng, lo=4, hi=9):
    return gen.planar(rng, _pick(rng, ["cycle", "grid", "wheel", "delaunay", "theta", "nested", "apollonian"]), _n(rng, lo, hi))


def _dual(rng):
    G = gen.relabel(rng, _conn(rng), _pick(rng, ["range", "shuffled", "strings"]))
    emb = nx.check_planarity(G)[1]
    seen, F = set(), []
    for u, v in emb.edges():
        if (u, v) not in seen:
            F.append(emb.traverse_face(u, v, mark_half_edges=seen))
    F = [[(a, b) for a, b in zip(f, f[1:] + f[:1])] for f in F]
    return (G, F, nx.minimum_spanning_tree(G)), {}


def _face(rng):
    n = _n(rng, 3, 6)
    P = np.zeros((n, n), dtype=complex)
    for i in range(n):
        s = float(rng.choice([-1, 1]))
        P[i, (i + 1) % n], P[(i + 1) % n, i] = s, -s
    j = int(rng.integers(n))
    P[j, (j + 1) % n] = P[(j + 1) % n, j] = 99j
    return (P, [(i, (i + 1) % n) for i in range(n)]), {}


def _faces(rng):
    G = gen.relabel(rng, _conn(rng), _pick(rng, gen.LABELS))
    return ((G,), {}) if rng.random() < 0.5 else ((G, nx.check_planarity(G)[1]), {})


def _adjacency(rng, n):
    A = np.triu(rng.integers(0, 2, (n, n)), 1)
    return A + A.T + np.diag(rng.integers(0, 2, n))


def _real_skew(rng, n):
    R = rng.standard_normal((n, n))
    return R - R.T


def _square(rng, lo=1, hi=5):
    n = _n(rng, lo, hi)
    k = rng.integers(3)
    A = rng.standard_normal((n, n))
    return A if k == 0 else gen.cplx(rng, n, n) if k == 1 else rng.integers(-4, 5, (n, n))


def _even(rng, sign):
    n = 2 * _n(rng, 1, 3)
    k = rng.integers(3)
    A = rng.standard_normal((n, n)) if k == 0 else gen.cplx(rng, n, n) if k == 1 else rng.integers(-4, 5, (n, n))
    return A + sign * A.T


def _G(rng):
    n = _n(rng, 1, 4)
    return 1j * _real_skew(rng, 2 * n)


def _tree(rng):
    return gen.relabel(rng, gen.planar(rng, _pick(rng, ["rtree", "path", "star"]), _n(rng, 2, 14)), _pick(rng, gen.LABELS))


def _adj(rng):
    n = _n(rng, 2, 5)
    A = rng.standard_normal((n, n)) * (rng.random((n, n)) < 0.7)
    return A + A.T if rng.random() < 0.6 else A


def _pairs(rng, n=None):
    d = 2 ** (n or _n(rng, 1, 3))
    return gen.wavefunction(rng, d, "generic"), gen.wavefunction(rng, d, "generic")


def _ptr(rng):
    d1, d2 = _n(rng, 1, 4), _n(rng, 1, 4)
    return gen.cplx(rng, d1 * d2, d1 * d2) if rng.random() < 0.6 else rng.standard_normal((d1 * d2, d1 * d2)), int(_pick(rng, [d1, d2]))


def _alphas(rng):
    n = _n(rng, 1, 3)
    return n, [a.astype(complex) for a in O.alphas(n)]


def _two_pdfs(rng):
    d = _n(rng, 2, 8)
    p = gen.pdf(rng, d, "dirichlet")
    q = gen.pdf(rng, d, "dirichlet")
    return (p, q), {}


def _fresh_ops(rng, n):
    return [a.astype(complex) for a in (O.alphas(n) if rng.random() < 0.6 else O.majoranas(n))]


def _rot(rng):
    n = _n(rng, 1, 3)
    kw = {"Left": bool(rng.integers(2))} if rng.random() < 0.5 else {}
    return (gen.symplectic(rng, n), [a.astype(complex) for a in O.alphas(n)]), kw


def _gauss(rng):
    n = _n(rng, 1, 4)
    H = _H(rng, n) * 0.3
    k = rng.integers(2)
    return ((n, H), {}) if k else ((n, H, [a.astype(complex) for a in O.alphas(n)]), {})


def _cov(rng):
    n = _n(rng, 1, 3)
    k = rng.integers(3)
    r = _rho(rng, n)
    return ((r,), {}) if k == 0 else ((r, n), {}) if k == 1 else ((r, n, [a.astype(complex) for a in (O.alphas(n) if rng.random() < 0.4 else O.majoranas(n))]), {})


def _corr2(rng):
    n = _n(rng, 1, 3)
    kw = {} if rng.random() < 0.4 else {"conjugation": _pick(rng, [True, None, -1])}
    if rng.random() < 0.5:
        kw["alphas"] = [a.astype(complex) for a in (O.alphas(n) if rng.random() < 0.4 else O.majoranas(n))]
    return (_rho(rng, n), n), kw


def _clean(rng):
    k = rng.integers(7)
    A = rng.standard_normal((3, 3)) * 10.0 ** rng.integers(-8, 3, (3, 3))
    x = [A, A + 1j * A.T, A.tolist(), float(A[0, 0]), complex(A[0, 0], A[1, 1]), "1.23456789", A[0]][k]
    kw = {} if rng.random() < 0.5 else {"threshold": _pick(rng, [3, 6, 1e-3, 1e-5])}
    return (x,), kw


def _seeded(maker):
    def make(rng):
        a, k = maker(rng)
        return a, dict(k, seed=int(rng.integers(2**31)))

    return make


def _state_opts(rng):
    kw = {}
    for o in ("fixedN", "pure", "returnH"):
        if rng.random() < 0.4:
            kw[o] = True
    return (_n(rng, 1, 3),), kw


def _rot_opts(rng):
    kw = {}
    if rng.random() < 0.6:
        kw[_pick(rng, ["returnH", "returnOrb"])] = True
    return (_n(rng, 1, 3),), kw


def _only(f):
    return lambda rng: ((f(rng),), {})


CAT = [
    ("permutation_to_matrix", lambda rng: (([int(x) for x in rng.permutation(_n(rng, 1, 6))],), {}), ""),
    ("pauli_matrices", lambda rng: ((), {}), ""),
    ("generate_pauli_group", lambda rng: ((_n(rng, 1, 3),), {}), ""),
    ("jordan_wigner_lowering", _only(lambda r: _n(r, 1, 5)), ""),
    ("jordan_wigner_alphas", _only(lambda r: _n(r, 1, 5)), ""),
    ("jordan_wigner_majoranas", _only(lambda r: _n(r, 1, 5)), ""),
    ("rotate_operators", _rot, ""),
    ("build_V", lambda rng: ((3, *gen.herm_skew(rng, 3, "generic", "generic")), {}), ""),
    ("build_H", lambda rng: ((3, *gen.herm_skew(rng, 3, "generic", "generic")), {}), ""),
    ("build_H", lambda rng: ((2, gen.herm_skew(rng, 2, "real", "zero")[0]), {}), ""),
    ("build_H", lambda rng: ((4, _adjacency(rng, 4)), {}), ""),
    ("build_V", lambda rng: ((4, _adjacency(rng, 4)), {}), ""),
    ("generate_gaussian_state", lambda rng: ((3, _adjacency(rng, 8)), {}), ""),
    ("kitaev_chain", lambda rng: ((_n(rng, 1, 6), float(rng.normal()), float(rng.normal()), float(rng.normal())), {}), ""),
    ("build_Omega", _only(lambda r: _n(r, 1, 5)), ""),
    ("build_reordering_xx_to_xp", _only(lambda r: _n(r, 1, 5)), ""),
    ("build_K", _only(lambda r: _n(r, 1, 5)), ""),
    ("is_symp", _only(lambda r: gen.symplectic(r, _n(r, 1, 4)) if r.random() < 0.6 else gen.unitary(r, 4)), ""),
    ("check_canonical_form", _only(lambda r: np.kron(np.diag(r.uniform(0.1, 3, 3)), np.array([[0, 1], [-1, 0]]))), ""),
    ("generate_gaussian_state", _gauss, ""),
    ("build_op", lambda rng: ((2, _H(rng, 2), [a.astype(complex) for a in O.alphas(2)]), {"direct": bool(rng.integers(2))}), ""),
    ("compute_cov_matrix", _cov, ""),
    ("correlation_matrix", _only(lambda r: _rho(r)), ""),
    ("compute_2corr_matrix", _corr2, ""),
    ("compute_algebra_S", lambda rng: ((_fresh_ops(rng, _n(rng, 1, 3)),), {}), ""),
    ("is_matchgate", _only(lambda r: gen.unitary(r, 4) if r.random() < 0.4 else np.diag(np.exp(1j * r.uniform(0, 6, 4)))), ""),
    ("eigh_sp", _only(lambda r: _smooth(r, _n(r, 1, 5))), "D"),
    ("eigv_sp", _only(lambda r: (lambda n: O.s_matrix(n) @ _smooth(r, n))(_n(r, 1, 4))), "D"),
    ("eigm_sp", _only(_G), "D"),
    ("eigm_sp_can", _only(_G), "D"),
    ("sgn", lambda rng: (([int(x) for x in rng.permutation(_n(rng, 1, 7))],), {}), ""),
    ("pf", _only(lambda r: _even(r, -1)), ""),
    ("hf", _only(lambda r: _even(r, 1)), ""),
    ("pt", _only(_square), ""),
    ("dt", _only(_square), ""),
    ("dt_eigen", _only(_square), ""),
    ("plot_graph_with_edge_weights", _only(_adj), "PL"),
    ("plot_planar_embedding", _only(lambda r: _conn(r)), "PL"),
    ("analyze_pdf", lambda rng: ((_stateish(rng),), {"name": "x", "stem": bool(rng.integers(2))}), "PL"),
    ("dual_graph_H", _dual, ""),
    ("faces", _faces, ""),
    ("complete_face", _face, "IA"),
    ("count_perfect_matchings", _only(lambda r: _planar(r) if r.random() < 0.7 else gen.nonplanar(r, _pick(r, ["k5", "k33", "k6"]))), ""),
    ("count_perfect_matchings_planar", _only(_planar), ""),
    ("find_perfect_matchings_brute", _only(lambda r: _planar(r, 3, 6)), ""),
    ("pfo_algorithm", _only(_planar), ""),
    ("compute_tree_depth", _only(_tree), ""),
    ("print_custom", lambda rng: ((_clean(rng)[0][0],), {"k": _n(rng, 2, 9)}), "OZ"),
    ("clean", _clean, ""),
    ("formatted_output", lambda rng: ((_pick(rng, [1.5, 2 + 3j, 7, "abc", np.arange(3.0)]),), {"precision": _n(rng, 1, 8)}), ""),
    ("kron_plus", lambda rng: ((_square(rng), rng.standard_normal((2, 3))), {}), ""),
    ("cast_to_pdf", _only(_stateish), ""),
    ("cast_to_density_matrix", _only(_stateish), "A"),
    ("ff_utils.partial_trace_diagblocksum", lambda rng: (_ptr(rng), {}), ""),
    ("ff_utils.partial_trace_blockTr", lambda rng: (_ptr(rng), {}), ""),
    ("partial_trace_over_1", lambda rng: (_ptr(rng), {}), ""),
    ("partial_trace_over_2", lambda rng: (_ptr(rng), {}), ""),
    ("stabilizer_distribution", _only(lambda r: _rho(r)), ""),
    ("SRE", lambda rng: ((_full(rng, 2) if rng.random() < 0.5 else _wf(rng),), {"a": _pick(rng, [2, 3, 0.5])}), ""),
    ("renyi_entropy", lambda rng: ((_pdf(rng), _pick(rng, [1, 2, 0.5, 3])), {}), ""),
    ("linear_entropy", lambda rng: ((_pdf(rng, 4 ** _n(rng, 1, 2)),), {}), ""),
    ("cov_distribution", _only(lambda r: _rho(r)), ""),
    ("total_variation_distance", _two_pdfs, ""),
    ("trace_distance", lambda rng: ((_stateish(rng, 2), _rho(rng, 2)), {}), ""),
    ("relative_entropy", _two_pdfs, ""),
    ("bhattacharyya_coeff", _two_pdfs, ""),
    ("jensen_shannon_divergence", _two_pdfs, ""),
    ("FAF", lambda rng: ((_stateish(rng),), {"k": _pick(rng, [1, 2, 3])}), ""),
    ("get_orthogonal_vectors", _only(lambda r: gen.wavefunction(r, _n(r, 2, 6), "generic")), ""),
    ("build_unitary_path", lambda rng: (_pairs(rng), {}), ""),
    ("build_linear_path", lambda rng: (_pairs(rng), {}), ""),
    ("generate_random_bitstring", lambda rng: ((6, _n(rng, 0, 6)), {}), "R"),
    ("random_CHP_state", _only(lambda r: _n(r, 1, 3)), "RN"),
]
_GENS = [
    ("random_FF_rotation", _rot_opts),
    ("random_FF_state", _state_opts),
    ("random_H_generator", lambda rng: ((_n(rng, 1, 4),), {"fixedN": bool(rng.integers(2))})),
    ("generate_random_planar_graph", _only(lambda r: _n(r, 4, 8))),
    ("ff_random_states.random_qubit_state", _only(lambda r: _n(r, 1, 3))),
    ("random_qubit_pure_state", _only(lambda r: _n(r, 1, 3))),
    ("random_FF_state_randH", _only(lambda r: _n(r, 1, 3))),
    ("random_FF_state_rotPDF", lambda rng: ((_n(rng, 1, 3),), {"returnS": bool(rng.integers(2))})),
    ("random_FF_pure_state_W0", _only(lambda r: _n(r, 1, 3))),
    ("random_FF_pure_state_WN", lambda rng: ((3,), {"N": _n(rng, 0, 3)} if rng.random() < 0.6 else {})),
    ("random_FF_pure_state_CN", _only(lambda r: _n(r, 1, 3))),
]
CAT += [(f, m, "R") for f, m in _GENS] + [(f, _seeded(m), "S") for f, m in _GENS]

# ---- the same functions on arguments beyond the sizes small-case branches, tables
# ---- and buffers would cover (flag B)


def _big_states(rng, n):
    k = rng.integers(3)
    return gen.state(rng, n, "mixed") if k == 0 else gen.wavefunction(rng, 2**n, "generic") if k == 1 else gen.pdf(rng, 2**n, "dirichlet")


def _big_tree(rng):
    return gen.relabel(rng, gen.planar(rng, _pick(rng, ["path", "rtree", "path"]), _n(rng, 600, 1500)), _pick(rng, ["range", "shuffled"]))


def _big_planar(rng):
    G = gen.planar(rng, _pick(rng, ["grid", "delaunay", "wheel", "rtree", "apollonian"]), _n(rng, 26, 44))
    return gen.weighted(rng, gen.relabel(rng, G, _pick(rng, ["range", "shuffled", "strings"])), _pick(rng, ["unit", "float"]))


def _big_ptr(rng):
    d1, d2 = _pick(rng, [(9, 9), (2, 40), (40, 2), (10, 10), (16, 8)])
    return gen.cplx(rng, d1 * d2, d1 * d2), d1


def _big_pair(rng):
    d = _n(rng, 65, 300)
    return (gen.pdf(rng, d, "dirichlet"), gen.pdf(rng, d, "dirichlet")), {}


def _big_vectors(rng):
    d = _n(rng, 33, 90)
    return (gen.wavefunction(rng, d, "generic"), gen.wavefunction(rng, d, "generic")), {}


def _big_block(rng, n):
    return (n, *gen.herm_skew(rng, n, "generic", "generic")), {}


def _big_clean(rng):
    A = rng.standard_normal((_n(rng, 35, 60), 40)) * 10.0 ** rng.integers(-8, 3, 40)
    return A + 1j * A[::-1] if rng.random() < 0.3 else A


BIG = [
    ("permutation_to_matrix", lambda rng: (([int(x) for x in rng.permutation(_n(rng, 100, 300))],), {})),
    ("generate_pauli_group", _only(lambda r: 4)),
    ("jordan_wigner_lowering", _only(lambda r: _n(r, 6, 7))),
    ("jordan_wigner_alphas", _only(lambda r: _n(r, 6, 7))),
    ("jordan_wigner_majoranas", _only(lambda r: _n(r, 6, 8))),
    ("rotate_operators", lambda rng: ((gen.symplectic(rng, 5), [a.astype(complex) for a in O.alphas(5)]), {"Left": bool(rng.integers(2))})),
    ("build_V", lambda rng: _big_block(rng, _n(rng, 20, 60))),
    ("build_H", lambda rng: _big_block(rng, _n(rng, 20, 60))),
    ("kitaev_chain", lambda rng: ((_n(rng, 20, 80), float(rng.normal()), float(rng.normal()), float(rng.normal())), {})),
    ("build_Omega", _only(lambda r: _n(r, 20, 80))),
    ("build_reordering_xx_to_xp", _only(lambda r: _n(r, 20, 80))),
    ("build_K", _only(lambda r: _n(r, 20, 50))),
    ("is_symp", _only(lambda r: gen.symplectic(r, _n(r, 8, 30)))),
    ("check_canonical_form", _only(lambda r: np.kron(np.diag(r.uniform(0.1, 3, 40)), np.array([[0, 1], [-1, 0]])))),
    ("generate_gaussian_state", lambda rng: ((6, _smooth(rng, 6) * 0.2), {})),
    ("build_op", lambda rng: ((6, _smooth(rng, 6), _fresh_ops(rng, 6)), {"direct": bool(rng.integers(2))})),
    ("compute_cov_matrix", _only(lambda r: gen.state(r, 5, "mixed"))),
    ("correlation_matrix", _only(lambda r: gen.state(r, 5, "mixed"))),
    ("compute_2corr_matrix", lambda rng: ((gen.state(rng, 5, "mixed"), 5), {"conjugation": _pick(rng, [True, None, -1])})),
    ("compute_algebra_S", lambda rng: ((_fresh_ops(rng, 5),), {})),
    ("eigh_sp", _only(lambda r: _smooth(r, _n(r, 12, 25)))),
    ("eigv_sp", _only(lambda r: (lambda n: O.s_matrix(n) @ _smooth(r, n))(_n(r, 12, 20)))),
    ("eigm_sp", _only(lambda r: 1j * _real_skew(r, 2 * _n(r, 12, 25)))),
    ("eigm_sp_can", _only(lambda r: 1j * _real_skew(r, 2 * _n(r, 12, 25)))),
    ("sgn", lambda rng: (([int(x) for x in rng.permutation(_n(rng, 40, 200))],), {})),
    ("pf", _only(lambda r: _real_skew(r, 8))),
    ("pt", _only(lambda r: r.standard_normal((7, 7)))),
    ("dt_eigen", _only(lambda r: r.standard_normal((60, 60)) / 8)),
    ("faces", _only(_big_planar)),
    ("count_perfect_matchings", _only(_big_planar)),
    ("pfo_algorithm", _only(_big_planar)),
    ("compute_tree_depth", _only(_big_tree)),
    ("print_custom", _only(_big_clean)),
    ("clean", _only(_big_clean)),
    ("formatted_output", _only(lambda r: r.standard_normal(2000))),
    ("kron_plus", lambda rng: ((rng.standard_normal((40, 30)), gen.cplx(rng, 50, 45)), {})),
    ("cast_to_pdf", _only(lambda r: _big_states(r, _n(r, 6, 7)))),
    ("cast_to_density_matrix", _only(lambda r: _big_states(r, _n(r, 6, 7)))),
    ("ff_utils.partial_trace_diagblocksum", lambda rng: (_big_ptr(rng), {})),
    ("ff_utils.partial_trace_blockTr", lambda rng: (_big_ptr(rng), {})),
    ("stabilizer_distribution", _only(lambda r: _big_states(r, 4))),
    ("SRE", _only(lambda r: gen.wavefunction(r, 16, "generic"))),
    ("renyi_entropy", lambda rng: ((gen.pdf(rng, 256, "dirichlet"), _pick(rng, [1, 2, 0.5])), {})),
    ("linear_entropy", _only(lambda r: gen.pdf(r, 256, "dirichlet"))),
    ("cov_distribution", _only(lambda r: _big_states(r, 5))),
    ("FAF", _only(lambda r: _big_states(r, 5))),
    ("total_variation_distance", _big_pair),
    ("relative_entropy", _big_pair),
    ("bhattacharyya_coeff", _big_pair),
    ("jensen_shannon_divergence", _big_pair),
    ("trace_distance", lambda rng: ((_big_states(rng, 6), _big_states(rng, 6)), {})),
    ("get_orthogonal_vectors", _only(lambda r: gen.wavefunction(r, _n(r, 33, 90), "generic"))),
    ("build_unitary_path", _big_vectors),
    ("build_linear_path", _big_vectors),
    ("generate_random_bitstring", lambda rng: ((500, _n(rng, 0, 500)), {})),
    ("plot_graph_with_edge_weights", _only(lambda r: r.standard_normal((9, 9)))),
]
_BIG_GENS = [
    ("random_FF_rotation", lambda rng: ((_n(rng, 4, 5),), {"returnH": bool(rng.integers(2))})),
    ("random_FF_state", _only(lambda r: _n(r, 4, 5))),
    ("random_H_generator", _only(lambda r: _n(r, 12, 40))),
    ("generate_random_planar_graph", _only(lambda r: _n(r, 12, 14))),
    ("ff_random_states.random_qubit_state", _only(lambda r: _n(r, 5, 7))),
    ("random_qubit_pure_state", _only(lambda r: _n(r, 5, 7))),
    ("random_FF_state_randH", _only(lambda r: _n(r, 4, 6))),
    ("random_FF_state_rotPDF", _only(lambda r: _n(r, 4, 5))),
    ("random_FF_pure_state_W0", _only(lambda r: _n(r, 4, 5))),
    ("random_FF_pure_state_WN", _only(lambda r: _n(r, 4, 5))),
    ("random_FF_pure_state_CN", _only(lambda r: _n(r, 4, 5))),
]
_flag = {}
for _name, _m, _f in CAT:
    _flag[_name] = "".join(c for c in _f if c not in "RS" or _name == "generate_random_bitstring")
CAT += [(f, m, _flag[f] + "B") for f, m in BIG]
CAT += [(f, m, "RB") for f, m in _BIG_GENS] + [(f, _seeded(m), "SB") for f, m in _BIG_GENS]

# positions of arguments whose arrays may be given with another dtype of equal value
DTYPES = {
    "build_V": (1, 2), "build_H": (1, 2), "is_symp": (0,), "check_canonical_form": (0,), "generate_gaussian_state": (1,),
    "build_op": (1,), "compute_cov_matrix": (0,), "correlation_matrix": (0,), "compute_2corr_matrix": (0,),
    "rotate_operators": (0,), "is_matchgate": (0,), "eigh_sp": (0,), "eigv_sp": (0,), "pf": (0,), "hf": (0,), "pt": (0,),
    "dt": (0,), "dt_eigen": (0,), "clean": (0,), "kron_plus": (0, 1), "cast_to_pdf": (0,), "cast_to_density_matrix": (0,),
    "ff_utils.partial_trace_diagblocksum": (0,), "ff_utils.partial_trace_blockTr": (0,), "partial_trace_over_1": (0,),
    "partial_trace_over_2": (0,), "stabilizer_distribution": (0,), "SRE": (0,), "renyi_entropy": (0,), "linear_entropy": (0,),
    "cov_distribution": (0,), "total_variation_distance": (0, 1), "trace_distance": (0, 1), "relative_entropy": (0, 1),
    "bhattacharyya_coeff": (0, 1), "jensen_shannon_divergence": (0, 1), "FAF": (0,), "get_orthogonal_vectors": (0,),
    "build_unitary_path": (0, 1), "build_linear_path": (0, 1),
}


def value(name, r, depth=0):
    """Comparable value of a result: nested lists, arrays as complex, graphs as
    node/edge lists, paths sampled.  For eigen-decompositions only the gauge
    invariant part (eigenvalue matrix and the reassembled product)."""
    if callable(r) and not isinstance(r, (nx.Graph, np.ndarray)):
        return ["path", [value("", r(t)) for t in (0.0, 0.3, 1.0)]]
    if depth == 0 and name in ("eigh_sp", "eigm_sp", "eigm_sp_can", "eigv_sp"):
        L, U = np.asarray(r[0], dtype=complex), np.asarray(r[1], dtype=complex)
        M = U @ L @ (U.T if name == "eigm_sp_can" else np.linalg.inv(U))
        ev = np.linalg.eigvals(L)
        return ["eig", np.sort(ev.imag) + 0j if name == "eigm_sp_can" else np.sort(ev.real) + 0j, M]
    if isinstance(r, nx.Graph):
        return ["graph", r.is_directed(), sorted(map(repr, r.nodes)), sorted((sorted(map(repr, (u, v))) if not r.is_directed() else [repr(u), repr(v)]) + [repr(sorted(d.items()))] for u, v, d in r.edges(data=True))]
    if isinstance(r, dict):
        return ["dict", sorted((repr(k), repr(v)) for k, v in r.items())]
    if isinstance(r, (tuple, list)):
        return [value("", v, depth + 1) for v in r]
    if isinstance(r, np.ndarray):
        return np.array(r, dtype=complex) if r.dtype.kind in "biufc" else ["obj", repr(r.tolist())]
    if isinstance(r, (bool, int, float, complex, np.generic)):
        return np.array(complex(r))
    return r if r is None or isinstance(r, str) else ["repr", repr(r)]


def equal(a, b, tol=1e-9):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if not a.size:
            return True
        d = a - b
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        return bool(np.all(same | (np.abs(d) <= tol * max(1.0, float(np.max(np.abs(np.where(np.isfinite(a), a, 0))))))))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def poison(r, depth=0):
    """Overwrite everything mutable a caller got back."""
    if isinstance(r, np.ndarray):
        if r.flags.writeable and r.size and r.dtype.kind in "biufc":
            r[...] = 77
    elif isinstance(r, (tuple, list)):
        for v in r:
            poison(v, depth + 1)
        if isinstance(r, list):
            r.append("poison")
    elif isinstance(r, nx.Graph) and depth == 0:
        try:
            r.add_edge("p1", "p2", weight=77)
        except Exception:  # frozen or embedding
            pass
    elif isinstance(r, dict):
        r["poison"] = 77
    elif callable(r):
        for t in (0.0, 0.3, 1.0):
            poison(r(t))
