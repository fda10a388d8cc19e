"""Seeded input generators (numpy Generator only; no library code)."""

import itertools

import networkx as nx
import numpy as np

from . import oracles as O


def cplx(rng, *shape):
    return rng.standard_normal(shape) + 1j * rng.standard_normal(shape)


HERM_MODES = (
    "generic", "real", "imag", "diag", "degenerate", "identity", "zero", "integer",
    "rank1", "lowrank", "posdef", "negdef", "block", "small", "large", "chain",
    "near_degenerate", "onehot", "mixed_scale", "signed_pairs", "tiny_off", "log_mixed",
)
SKEW_MODES = (
    "zero", "generic", "real", "imag", "chain", "integer", "rank2", "small", "large", "onehot", "sparse",
    "tiny", "log_mixed",
)


def hermitian(rng, n, mode):
    G = cplx(rng, n, n)
    Hm = G + G.conj().T
    U = np.linalg.qr(G)[0]
    if mode == "generic":
        return Hm
    if mode == "real":
        R = rng.standard_normal((n, n))
        return (R + R.T).astype(complex)
    if mode == "imag":
        R = rng.standard_normal((n, n))
        return 1j * (R - R.T)
    if mode == "diag":
        return np.diag(rng.standard_normal(n)).astype(complex)
    if mode == "degenerate":
        ev = rng.choice([-1.0, 1.0, 2.0, 2.0], n)
        return U @ np.diag(ev) @ U.conj().T
    if mode == "identity":
        return float(rng.choice([-2, -1, 1, 0.5])) * np.eye(n, dtype=complex)
    if mode == "zero":
        return np.zeros((n, n), dtype=complex)
    if mode == "integer":
        R = rng.integers(-2, 3, (n, n))
        return (R + R.T).astype(complex)
    if mode == "rank1":
        return float(rng.choice([-1, 1])) * np.outer(U[:, 0], U[:, 0].conj())
    if mode == "lowrank":
        k = max(1, n // 2)
        ev = np.zeros(n)
        ev[:k] = rng.standard_normal(k)
        return U @ np.diag(ev) @ U.conj().T
    if mode == "posdef":
        return G @ G.conj().T + 0.1 * np.eye(n)
    if mode == "negdef":
        return -(G @ G.conj().T) - 0.1 * np.eye(n)
    if mode == "block":
        m = Hm.copy()
        k = n // 2
        m[:k, k:] = 0
        m[k:, :k] = 0
        return m
    if mode == "small":
        return Hm * 1e-3
    if mode == "large":
        return Hm * 50
    if mode == "chain":
        t = float(rng.choice([1.0, -1.0, 0.5]))
        m = np.diag(np.full(n, float(rng.choice([0, 0, 1, -1])))).astype(complex)
        for i in range(n - 1):
            m[i, i + 1] = m[i + 1, i] = -t
        return m
    if mode == "near_degenerate":
        ev = 1 + 1e-7 * rng.standard_normal(n)
        return U @ np.diag(ev) @ U.conj().T
    if mode == "onehot":
        m = np.zeros((n, n), dtype=complex)
        i, j = rng.integers(0, n, 2)
        v = float(rng.choice([1.0, -1.0])) if i == j else complex(rng.choice([1, -1, 1j, -1j]))
        m[i, j] += v
        if i != j:
            m[j, i] += np.conj(v)
        return m
    if mode == "mixed_scale":
        ev = 10.0 ** rng.uniform(-3, 1.5, n) * rng.choice([-1, 1], n)
        return U @ np.diag(ev) @ U.conj().T
    if mode == "signed_pairs":
        v = rng.standard_normal((n + 1) // 2)
        ev = np.concatenate([v, -v])[:n]
        return U @ np.diag(ev) @ U.conj().T
    if mode == "tiny_off":  # all but diagonal
        m = Hm * 10.0 ** rng.uniform(-6.5, -3)
        m[np.diag_indices(n)] = rng.standard_normal(n) if rng.random() < 0.7 else float(rng.normal())
        return m
    if mode == "log_mixed":
        m = np.exp(1j * np.angle(G)) * 10.0 ** rng.uniform(-7, 0.5, (n, n))
        return np.triu(m, 1) + np.triu(m, 1).conj().T + np.diag(np.diag(m).real)
    raise KeyError(mode)


def herm_clean(M):
    return (M + M.conj().T) / 2


def skew(rng, n, mode):
    G = cplx(rng, n, n)
    if mode == "zero" or n == 1:
        return np.zeros((n, n), dtype=complex)
    if mode == "generic":
        return G - G.T
    if mode == "real":
        return (G.real - G.real.T).astype(complex)
    if mode == "imag":
        return 1j * (G.imag - G.imag.T)
    if mode == "chain":
        d = complex(rng.choice([1, -1, 0.5, 1j]))
        m = np.zeros((n, n), dtype=complex)
        for i in range(n - 1):
            m[i, i + 1] = d
            m[i + 1, i] = -d
        return m
    if mode == "integer":
        R = rng.integers(-2, 3, (n, n))
        return (R - R.T).astype(complex)
    if mode == "rank2":
        u, v = cplx(rng, n), cplx(rng, n)
        return np.outer(u, v) - np.outer(v, u)
    if mode == "small":
        return 1e-3 * (G - G.T)
    if mode == "large":
        return 50 * (G - G.T)
    if mode == "onehot":
        m = np.zeros((n, n), dtype=complex)
        i, j = rng.choice(n, 2, replace=False)
        v = complex(rng.choice([1, -1, 1j]))
        m[i, j] = v
        m[j, i] = -v
        return m
    if mode == "tiny":
        return 10.0 ** rng.uniform(-7, -4) * (G - G.T)
    if mode == "log_mixed":
        m = np.triu(np.exp(1j * np.angle(G)) * 10.0 ** rng.uniform(-7, 0.5, (n, n)), 1)
        return m - m.T
    if mode == "sparse":
        M = G * (rng.random((n, n)) < 0.3)
        return M - M.T
    raise KeyError(mode)


def herm_skew(rng, n, a, b):
    A = herm_clean(hermitian(rng, n, a))
    B = skew(rng, n, b)
    return A, (B - B.T) / 2


def orthogonal(rng, m, det=None):
    Q, R = np.linalg.qr(rng.standard_normal((m, m)))
    Q = Q * np.sign(np.diag(R))
    if det is not None and np.linalg.det(Q) * det < 0:
        Q[:, 0] = -Q[:, 0]
    return Q


def unitary(rng, m):
    Q, R = np.linalg.qr(cplx(rng, m, m))
    d = np.diag(R)
    return Q * (d / np.abs(d))


def symplectic(rng, n, det=1):
    W = O.omega(n)
    return W.conj().T @ orthogonal(rng, 2 * n, det) @ W


STATE_MODES = (
    "mixed", "pure", "rank2", "diag", "product", "maxmixed", "real", "basis", "ghz", "w",
    "thermal_ff", "nearpure", "degenerate", "rotbasis", "superposed_parity", "halfmixed", "permuted", "admixed", "nearmixed",
)


def state(rng, n, mode):
    """Density matrix on n qubits."""
    d = 2**n
    if mode == "mixed":
        U = unitary(rng, d)
        p = rng.dirichlet(np.ones(d))
        r = (U * p) @ U.conj().T
    elif mode == "pure":
        v = wavefunction(rng, d, "generic")
        r = np.outer(v, v.conj())
    elif mode == "rank2":
        U = unitary(rng, d)
        p = np.zeros(d)
        p[:2] = [0.7, 0.3]
        r = (U * p) @ U.conj().T
    elif mode == "diag":
        r = np.diag(rng.dirichlet(np.ones(d))).astype(complex)
    elif mode == "product":
        r = np.ones((1, 1), dtype=complex)
        for _ in range(n):
            r = np.kron(r, state(rng, 1, str(rng.choice(["mixed", "pure", "diag"]))))
    elif mode == "maxmixed":
        r = np.eye(d, dtype=complex) / d
    elif mode == "real":
        Q = orthogonal(rng, d)
        r = ((Q * rng.dirichlet(np.ones(d))) @ Q.T).astype(complex)
    elif mode == "basis":
        r = np.zeros((d, d), dtype=complex)
        k = int(rng.integers(d))
        r[k, k] = 1
    elif mode == "ghz":
        v = np.zeros(d, dtype=complex)
        v[0] = 1
        v[-1] = complex(rng.choice([1, -1, 1j]))
        v /= np.linalg.norm(v)
        r = np.outer(v, v.conj())
    elif mode == "w":
        v = np.zeros(d, dtype=complex)
        for i in range(n):
            v[1 << i] = 1
        v /= np.linalg.norm(v)
        r = np.outer(v, v.conj())
    elif mode == "thermal_ff":
        A, B = herm_skew(rng, n, "generic", "generic")
        r = O.thermal(O.lift(O.H_matrix(A, B), O.alphas(n)) * float(rng.choice([0.05, 0.3, 1.0])))
    elif mode == "nearpure":
        U = unitary(rng, d)
        p = np.full(d, 1e-9)
        p[0] = 1 - 1e-9 * (d - 1)
        r = (U * p) @ U.conj().T
    elif mode == "degenerate":
        U = unitary(rng, d)
        k = max(1, d // 2)
        p = np.zeros(d)
        p[:k] = 1.0 / k
        r = (U * p) @ U.conj().T
    elif mode == "rotbasis":
        U = unitary(rng, 2)
        V = np.eye(1)
        for _ in range(n):
            V = np.kron(V, np.linalg.qr(U)[0])
        p = np.zeros(d)
        p[int(rng.integers(d))] = 1
        r = V.conj().T @ (V * p) @ V.conj().T @ V
    elif mode == "superposed_parity":
        v = np.zeros(d, dtype=complex)
        v[0], v[1] = 1, np.exp(1j * rng.uniform(0, 6.28))
        v /= np.linalg.norm(v)
        r = np.outer(v, v.conj())
    elif mode == "halfmixed":
        v = wavefunction(rng, d, "generic")
        r = 0.5 * np.outer(v, v.conj()) + 0.5 * np.eye(d) / d
    elif mode == "admixed":  # a special state with a trace of another one
        e = 10.0 ** rng.uniform(-11, -2)
        a = state(rng, n, str(rng.choice(["basis", "ghz", "thermal_ff", "maxmixed", "diag", "w"])))
        r = (1 - e) * a + e * state(rng, n, str(rng.choice(["basis", "basis", "diag", "pure", "mixed", "w"])))
    elif mode == "nearmixed":
        e = 10.0 ** rng.uniform(-9, -2)
        r = (1 - e) * np.eye(d) / d + e * state(rng, n, str(rng.choice(["basis", "pure", "diag", "thermal_ff"])))
    elif mode == "permuted":
        p = np.zeros(d)
        p[: max(1, d // 2)] = 1.0 / max(1, d // 2)
        r = np.diag(rng.permutation(p)).astype(complex)
    else:
        raise KeyError(mode)
    r = (r + r.conj().T) / 2
    return r / np.trace(r).real


def wavefunction(rng, d, mode="generic"):
    if mode == "generic":
        v = cplx(rng, d)
    elif mode == "real":
        v = rng.standard_normal(d).astype(complex)
    elif mode == "basis":
        v = np.zeros(d, dtype=complex)
        v[int(rng.integers(d))] = complex(rng.choice([1, -1, 1j]))
    elif mode == "sparse":
        v = cplx(rng, d) * (rng.random(d) < 0.4)
        v[int(rng.integers(d))] = 1
    elif mode == "uniform":
        v = np.exp(1j * rng.uniform(0, 6.28, d)) if rng.random() < 0.5 else np.ones(d, dtype=complex)
    elif mode == "sumone":  # entries add up to one, as those of a distribution do
        u = rng.standard_normal(d) if rng.random() < 0.6 else cplx(rng, d)
        u = u - u.mean()
        v = 1 / d + np.sqrt(1 - 1 / d) * u / np.linalg.norm(u) + 0j
    elif mode == "positive":  # amplitudes without phases
        v = np.abs(rng.standard_normal(d)) + 0.2 + 0j
    else:
        raise KeyError(mode)
    return v / np.linalg.norm(v)


WF_MODES = ("generic", "real", "basis", "sparse", "uniform", "sumone", "positive")

PDF_MODES = (
    "dirichlet", "uniform", "zeros", "geometric", "twopoint", "tiny", "halfuniform", "peaked", "dyadic", "delta", "neardelta",
)


def pdf(rng, d, mode):
    if mode == "dirichlet":
        p = rng.dirichlet(np.ones(d))
    elif mode == "uniform":
        p = np.ones(d) / d
    elif mode == "zeros":
        p = rng.dirichlet(np.ones(d)) * (rng.random(d) < 0.5)
        p[int(rng.integers(d))] += 0.3
    elif mode == "geometric":
        p = 0.5 ** np.arange(d)
        p = rng.permutation(p)
    elif mode == "twopoint":
        p = np.zeros(d)
        i = rng.choice(d, min(2, d), replace=False)
        p[i] = [0.3, 0.7][: len(i)]
    elif mode == "tiny":
        p = rng.dirichlet(np.ones(d))
        p[int(rng.integers(d))] = 1e-10
    elif mode == "halfuniform":
        p = np.zeros(d)
        p[rng.choice(d, max(1, d // 2), replace=False)] = 1
    elif mode == "peaked":
        p = np.full(d, 0.05 / d)
        p[int(rng.integers(d))] += 0.95
    elif mode == "dyadic":
        p = rng.integers(0, 4, d).astype(float)
        p[int(rng.integers(d))] += 1
    elif mode == "delta":
        p = np.zeros(d)
        p[int(rng.integers(d))] = 1
    elif mode == "neardelta":  # one outcome all but certain
        e = 10.0 ** rng.uniform(-9, -3.5)
        p = rng.dirichlet(np.ones(d)) * e
        p[int(rng.integers(d))] += 1 - e
    else:
        raise KeyError(mode)
    return p / p.sum()


# --------------------------------------------------------------------------
# graphs
# --------------------------------------------------------------------------
def _triangulated(rng, n):
    """Random planar 3-connected-ish graph: Delaunay triangulation."""
    from scipy.spatial import Delaunay

    if n < 4:
        return nx.complete_graph(n)
    pts = rng.random((n, 2))
    G = nx.Graph()
    G.add_nodes_from(range(n))
    for a, b, c in Delaunay(pts).simplices:
        G.add_edges_from([(int(a), int(b)), (int(b), int(c)), (int(a), int(c))])
    return G


def _apollonian(rng, n):
    """Stacked triangulation (maximal planar)."""
    G = nx.complete_graph(min(n, 3))
    tri = [(0, 1, 2)]
    for v in range(3, n):
        a, b, c = tri.pop(int(rng.integers(len(tri))))
        G.add_edges_from([(v, a), (v, b), (v, c)])
        tri += [(a, b, v), (b, c, v), (a, c, v)]
    return G


PLANAR_KINDS = (
    "path", "cycle", "grid", "ladder", "wheel", "star", "rtree", "k4", "delaunay", "delaunay_sub", "apollonian",
    "apollonian_sub", "cactus", "theta", "bridged", "twocomp", "isolated", "edgeless", "single", "edge",
    "outerplanar", "cycles_shared", "pendants", "prism", "nested", "k23", "octahedron", "cube", "hex", "emb_tree",
)


def planar(rng, kind, n):
    """A planar graph with roughly n vertices, integer labels."""
    n = max(int(n), 1)
    if kind == "path":
        return nx.path_graph(n)
    if kind == "cycle":
        return nx.cycle_graph(max(n, 3))
    if kind == "grid":
        r = int(rng.integers(2, 5))
        return nx.convert_node_labels_to_integers(nx.grid_2d_graph(r, max(2, n // r)))
    if kind == "ladder":
        return nx.ladder_graph(max(2, n // 2))
    if kind == "wheel":
        return nx.wheel_graph(max(n, 4))
    if kind == "star":
        return nx.star_graph(max(n - 1, 1))
    if kind == "rtree":
        G = nx.Graph()
        G.add_node(0)
        for v in range(1, n):
            G.add_edge(v, int(rng.integers(v)))
        return G
    if kind == "k4":
        return nx.complete_graph(4)
    if kind == "delaunay":
        return _triangulated(rng, n)
    if kind in ("delaunay_sub", "apollonian_sub"):
        G = _triangulated(rng, n) if kind == "delaunay_sub" else _apollonian(rng, n)
        es = list(G.edges)
        rng.shuffle(es)
        for u, v in es[: int(len(es) * rng.uniform(0.1, 0.5))]:
            G.remove_edge(int(u), int(v))
        return G
    if kind == "apollonian":
        return _apollonian(rng, n)
    if kind == "cactus":  # cycles glued at cut vertices
        G = nx.cycle_graph(int(rng.integers(3, 5)))
        while len(G) < n:
            k = int(rng.integers(2, 5))
            at = int(rng.integers(len(G)))
            m = len(G)
            nx.add_cycle(G, [at] + list(range(m, m + k)))
        return G
    if kind == "theta":
        G = nx.Graph()
        m = 2
        for _ in range(int(rng.integers(2, 5))):
            k = int(rng.integers(0, 4))
            nx.add_path(G, [0] + list(range(m, m + k)) + [1])
            m += k
        return nx.convert_node_labels_to_integers(G)
    if kind == "bridged":
        a = planar(rng, "cycle", max(3, n // 2))
        b = planar(rng, str(rng.choice(["cycle", "ladder", "k4"])), max(3, n // 2))
        G = nx.disjoint_union(a, b)
        G.add_edge(int(rng.integers(len(a))), len(a) + int(rng.integers(len(b))))
        return G
    if kind == "twocomp":
        a = planar(rng, str(rng.choice(["cycle", "grid", "path", "wheel"])), max(2, n // 2))
        b = planar(rng, str(rng.choice(["cycle", "edge", "k4", "rtree"])), max(2, n // 2))
        return nx.disjoint_union(a, b)
    if kind == "isolated":
        G = planar(rng, "cycle", max(3, n - 1))
        G.add_node(len(G))
        return G
    if kind == "edgeless":
        return nx.empty_graph(n)
    if kind == "single":
        return nx.empty_graph(1)
    if kind == "edge":
        return nx.path_graph(2)
    if kind == "outerplanar":
        G = nx.cycle_graph(max(n, 3))
        for i in range(2, len(G) - 1, int(rng.integers(1, 3))):
            G.add_edge(0, i)
        return G
    if kind == "cycles_shared":
        G = nx.cycle_graph(max(4, n))
        k = len(G)
        G.add_edge(0, k // 2)
        G.add_edge(0, k)
        G.add_edge(k, k // 2)
        return G
    if kind == "pendants":
        G = planar(rng, "cycle", max(3, n // 2))
        for v in list(G):
            if rng.random() < 0.6:
                G.add_edge(v, len(G))
        return G
    if kind == "prism":
        return nx.circular_ladder_graph(max(3, n // 2))
    if kind == "nested":  # cycle inside cycle joined by one edge (cut structure inside a face)
        a = nx.cycle_graph(int(rng.integers(3, 6)))
        G = nx.disjoint_union(a, nx.cycle_graph(int(rng.integers(3, 6))))
        G.add_edge(0, len(a))
        if rng.random() < 0.5:
            G.add_edge(1, len(a) + 1)
        return G
    if kind == "k23":
        return nx.complete_bipartite_graph(2, max(3, n - 2))
    if kind == "octahedron":
        return nx.octahedral_graph()
    if kind == "cube":
        return nx.cubical_graph()
    if kind == "hex":
        return nx.convert_node_labels_to_integers(nx.hexagonal_lattice_graph(1, max(1, n // 6)))
    if kind == "emb_tree":  # tree hanging inside a cycle
        G = nx.cycle_graph(max(4, n // 2))
        for _ in range(max(1, n // 3)):
            G.add_edge(int(rng.integers(len(G))), len(G))
        return G
    raise KeyError(kind)


NONPLANAR_KINDS = ("k5", "k33", "k6", "petersen", "k7", "k34", "k8", "k44", "mobius", "k5_pendant", "k33_sub")


def nonplanar(rng, kind):
    if kind == "k5_pendant":
        G = nx.complete_graph(5)
        G.add_edge(int(rng.integers(5)), 5)
        return G
    if kind == "k33_sub":
        G = nx.complete_bipartite_graph(3, 3)
        e = list(G.edges)[int(rng.integers(9))]
        G.remove_edge(*e)
        nx.add_path(G, [e[0], 6, 7, e[1]])
        return G
    return {
        "k5": lambda: nx.complete_graph(5),
        "k6": lambda: nx.complete_graph(6),
        "k7": lambda: nx.complete_graph(7),
        "k8": lambda: nx.complete_graph(8),
        "k33": lambda: nx.complete_bipartite_graph(3, 3),
        "k34": lambda: nx.complete_bipartite_graph(3, 4),
        "k44": lambda: nx.complete_bipartite_graph(4, 4),
        "petersen": nx.petersen_graph,
        "mobius": lambda: nx.circulant_graph(8, [1, 4]),
    }[kind]()


LABELS = ("range", "shuffled", "offset", "sparse_ints", "strings", "tuples", "reversed", "order", "negative", "edge_order")


def relabel(rng, G, how):
    """Same graph with other node labels / node order; returns a new graph."""
    nodes = list(G.nodes)
    n = len(nodes)
    if how == "range":
        return G.copy()
    if how == "shuffled":
        p = rng.permutation(n)
        m = {v: int(p[i]) for i, v in enumerate(nodes)}
    elif how == "offset":
        m = {v: i + 7 for i, v in enumerate(nodes)}
    elif how == "sparse_ints":
        p = rng.choice(10 * n + 5, n, replace=False)
        m = {v: int(p[i]) for i, v in enumerate(nodes)}
    elif how == "strings":
        p = rng.permutation(n)
        m = {v: "v%d" % p[i] for i, v in enumerate(nodes)}
    elif how == "tuples":
        p = rng.permutation(n)
        m = {v: (int(p[i]) // 3, int(p[i]) % 3) for i, v in enumerate(nodes)}
    elif how == "reversed":
        m = {v: n - 1 - i for i, v in enumerate(nodes)}
    elif how == "negative":
        m = {v: -i - 1 for i, v in enumerate(nodes)}
    else:
        m = {v: v for v in nodes}
    order = list(nodes)
    edges = list(G.edges(data=True))
    if how in ("shuffled", "order", "strings"):
        rng.shuffle(order)
        order = [x for x in order]
    if how in ("edge_order", "shuffled"):
        k = rng.permutation(len(edges))
        edges = [edges[i] for i in k]
    H = nx.Graph()
    for v in order:
        v = int(v) if isinstance(v, np.integer) else v
        H.add_node(m[v])
    for u, v, d in edges:
        if rng.random() < 0.5 and how != "range":
            u, v = v, u
        H.add_edge(m[u], m[v], **d)
    return H


def weighted(rng, G, how):
    H = G.copy()
    for u, v in H.edges:
        if how == "unit":
            continue
        w = {
            "int": int(rng.integers(1, 5)),
            "float": float(rng.uniform(0.2, 3.0)),
            "equal": 2,
            "mixed": float(10.0 ** rng.uniform(-1, 1)),
        }[how]
        H[u][v]["weight"] = w
    return H


def perms(n):
    return itertools.permutations(range(n))


def _pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def bad_state(rng, mode, n):
    d = 2**n
    eps = float(_pick(rng, [0.5, 0.1, 1e-2, 1e-3, 1e-4, 3.0]))
    sgn = _pick(rng, [1, -1]) if eps < 1 else 1
    if mode in ("vector_norm", "pdf_sum"):
        eps = max(eps, 1e-3)
    if mode == "vector_norm":
        # neither unit L2 nor unit L1 norm
        v = wavefunction(rng, d, _pick(rng, ["generic", "real", "uniform"])) * (1 + sgn * eps)
        if abs(np.abs(v).sum() - 1) < 1e-3 or abs(np.linalg.norm(v) - 1) < 5e-4:
            v = v * 1.7
            if abs(np.abs(v).sum() - 1) < 1e-3 or abs(np.linalg.norm(v) - 1) < 5e-4:
                v = v * 3.1
        return v if rng.random() < 0.5 else v.reshape(-1, 1)
    if mode == "zero_vector":
        return np.zeros(d) if rng.random() < 0.5 else np.zeros((d, 1), dtype=complex)
    if mode == "pdf_sum":
        p = pdf(rng, d, "dirichlet") * (1 + sgn * eps)
        return p * 1.9 if abs(np.linalg.norm(p) - 1) < 1e-3 else p
    if mode == "trace":
        return state(rng, n, _pick(rng, STATE_MODES)) * (1 + sgn * eps)
    if mode in ("nan", "inf"):  # not numbers at all, somewhere in an otherwise valid state
        x = float("nan") if mode == "nan" else _pick(rng, [1, -1]) * float("inf")
        x = _pick(rng, [x, complex(0, x), complex(x, x)])
        k = int(rng.integers(4))
        if k < 2:
            v = (wavefunction(rng, d, "generic") if k else pdf(rng, d, "dirichlet")).astype(complex)
            v[int(rng.integers(d))] = x
            return v if rng.random() < 0.5 else v.reshape(-1, 1)
        r = state(rng, n, _pick(rng, ["mixed", "diag", "maxmixed", "real", "pure"])).astype(complex)
        i, j = rng.integers(0, d, 2)
        r[i, j] = x
        if k == 3:
            r[j, i] = np.conj(x)
        return r
    r = state(rng, n, _pick(rng, ["mixed", "diag", "maxmixed", "real", "pure"]))
    if mode == "not_hermitian":
        i, j = rng.choice(d, 2, replace=False)
        r = r.astype(complex)
        if rng.random() < 0.4:  # magnitudes symmetric, phases not conjugate
            x = float(max(eps, 1e-3)) * _pick(rng, [1, 1j, 1 + 1j])
            r[i, j], r[j, i] = x, (-x if x == x.real else x if x == 1j * x.imag else x)
            return r
        r[i, j] += eps * _pick(rng, [1, -1, 1j, 1 + 1j])
        if abs(r[i, j] - r[j, i].conj()) < 1e-4:
            r[i, j] += 0.7
        return r
    if mode == "indefinite":
        # Hermitian, unit trace, one negative eigenvalue
        w = np.abs(rng.normal(size=d)) + 0.05
        w /= w.sum()
        neg = float(_pick(rng, [0.5, 0.05, 1e-3, 1e-6, 1e-9]))
        w[0] = -neg
        w[1:] *= (1 + neg) / w[1:].sum()
        U = unitary(rng, d)
        r = (U * w) @ U.conj().T if rng.random() < 0.7 else np.diag(w).astype(complex)
        return (r + r.conj().T) / 2
    if mode == "rectangular":
        return r[: d // 2 + 1, :] if d > 2 else np.ones((2, 3)) / 2
    if mode == "complex_pdf":  # probabilities with phases
        p = pdf(rng, d, "dirichlet")
        if np.linalg.norm(p) > 0.999:
            p = np.full(d, 1 / d)
        p = p * np.exp(1j * rng.uniform(0.1, 6.1, d))
        return p if rng.random() < 0.5 else p.reshape(-1, 1)
    if mode == "negative_pdf":
        # sums to one in absolute value, but has negative entries
        p = pdf(rng, d, "dirichlet")
        if rng.random() < 0.5:
            p[int(np.argmax(p))] *= -1
        else:
            b = rng.random(d) < 0.5
            b[int(rng.integers(d))] = True
            b &= p > 1e-3
            p = np.where(b, -p, p) if np.any(b) else -p
        if abs(np.linalg.norm(p) - 1) < 1e-3:
            p = np.full(d, 1.0 / d)
            p[0] *= -1
        return p if rng.random() < 0.7 else p.reshape(-1, 1)
    raise KeyError(mode)
