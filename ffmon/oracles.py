"""Independent reference implementations.  Nothing here imports the library."""

import functools
import itertools
import math

import numpy as np
from scipy.linalg import expm


# --------------------------------------------------------------------------
# Fermions: matrix elements from occupation bits (site 0 = most significant)
# --------------------------------------------------------------------------
@functools.lru_cache(maxsize=24)
def _lowering(n):
    dim = 2**n
    ops = []
    idx = np.arange(dim)
    for i in range(n):
        bit = (idx >> (n - 1 - i)) & 1
        left = idx >> (n - i)
        par = np.array([bin(x).count("1") & 1 for x in left.tolist()])
        a = np.zeros((dim, dim))
        src = idx[bit == 1]
        dst = src ^ (1 << (n - 1 - i))
        a[dst, src] = np.where(par[bit == 1] == 1, -1.0, 1.0)
        ops.append(a)
    return ops


def lowering(n):
    return [a.copy() for a in _lowering(n)]


def alphas(n):
    low = _lowering(n)
    return [a.T.copy() for a in low] + [a.copy() for a in low]


def majoranas(n):
    low = _lowering(n)
    r = np.sqrt(2)
    return [(a + a.T) / r for a in low] + [-1j * (a - a.T) / r for a in low]


def number_op(n):
    return sum(a.T @ a for a in _lowering(n))


def parity_diag(n):
    return np.array([(-1.0) ** bin(x).count("1") for x in range(2**n)])


def pauli(n, index):
    """index-th Pauli string in lexicographic IXYZ order."""
    digits = []
    for _ in range(n):
        digits.append(index % 4)
        index //= 4
    digits = digits[::-1]
    dim = 2**n
    out = np.zeros((dim, dim), dtype=complex)
    cols = np.arange(dim)
    rows = cols.copy()
    ph = np.ones(dim, dtype=complex)
    for q, d in enumerate(digits):
        b = (cols >> (n - 1 - q)) & 1
        if d in (1, 2):
            rows = rows ^ (1 << (n - 1 - q))
        if d == 2:
            ph = ph * np.where(b == 0, 1j, -1j)
        if d == 3:
            ph = ph * np.where(b == 0, 1, -1)
    out[rows, cols] = ph
    return out, "".join("IXYZ"[d] for d in digits)


def pauli_expectations(rho):
    """Tr[rho P] for all P, lexicographic order, without building the group."""
    n = int(round(math.log2(rho.shape[0])))
    t = np.asarray(rho, dtype=complex).reshape([2] * (2 * n))
    # per qubit basis change (r,c) -> (I,X,Y,Z): Tr[rho P] = sum rho_rc P_cr
    B = np.zeros((4, 2, 2), dtype=complex)
    B[0] = [[1, 0], [0, 1]]
    B[1] = [[0, 1], [1, 0]]
    B[2] = [[0, 1j], [-1j, 0]]  # transpose of Y
    B[3] = [[1, 0], [0, -1]]
    for q in range(n):
        # axes: q already-converted Pauli axes first, then remaining rows, cols
        m = n - q
        # row axis at position q, col axis at position q + m
        t = np.tensordot(B, t, axes=([1, 2], [q, q + m]))
        t = np.moveaxis(t, 0, q)
    return t.reshape(-1)


def H_matrix(A, B):
    return np.block([[-np.conj(A), B], [-np.conj(B), A]]).astype(complex)


def V_matrix(A, Z):
    return np.block([[-np.conj(Z), A], [-np.conj(A), Z]]).astype(complex)


def omega(n):
    i = np.eye(n)
    return np.block([[i, i], [1j * i, -1j * i]]) / np.sqrt(2)


def s_matrix(n):
    z, i = np.zeros((n, n)), np.eye(n)
    return np.block([[z, i], [i, z]])


def lift(R, ops, direct=False):
    """sum_ij R_ij a_i^dag a_j (or a_i a_j), via one big contraction."""
    ops = np.array(ops, dtype=complex)
    R = np.asarray(R, dtype=complex)
    right = np.tensordot(R, ops, axes=([1], [0]))  # i -> sum_j R_ij a_j
    left = ops if direct else np.conj(np.transpose(ops, (0, 2, 1)))
    return np.einsum("iab,ibc->ac", left, right, optimize=True)


def thermal(K):
    """expm(-K)/Tr, K Hermitian, via shifted eigendecomposition."""
    K = (K + K.conj().T) / 2
    w, v = np.linalg.eigh(K)
    p = np.exp(-(w - w.min()))
    p = p / p.sum()
    return (v * p) @ v.conj().T


def corr(rho, ops, mode=0):
    """<a_i a_j> (0), <a_i a_j^dag> (+1), <a_i^dag a_j> (-1)."""
    ops = np.array(ops, dtype=complex)
    dag = np.conj(np.transpose(ops, (0, 2, 1)))
    L = dag if mode < 0 else ops
    R = dag if mode > 0 else ops
    rl = np.einsum("ab,ibc->iac", rho, L, optimize=True)
    d = rho.shape[0]
    return rl.reshape(len(ops), d * d) @ np.transpose(R, (0, 2, 1)).reshape(len(ops), d * d).T


def pfaffian(A):
    """Pfaffian of a skew matrix (Parlett-Reid with pivoting)."""
    A = np.array(A, dtype=complex)
    n = A.shape[0]
    if n % 2:
        return 0.0
    res = 1.0 + 0j
    for k in range(0, n - 1, 2):
        p = k + 1 + int(np.argmax(np.abs(A[k + 1 :, k])))
        if p != k + 1:
            A[[k + 1, p], :] = A[[p, k + 1], :]
            A[:, [k + 1, p]] = A[:, [p, k + 1]]
            res = -res
        piv = A[k, k + 1]
        if piv == 0:
            return 0.0
        res *= piv
        tau = A[k, k + 2 :] / piv
        if k + 2 < n:
            A[k + 2 :, k + 2 :] += np.outer(tau, A[k + 2 :, k + 1]) - np.outer(A[k + 2 :, k + 1], tau)
    return res


def pf_literal(A):
    """1/(2^m m!) sum sgn prod: = sum over matchings of prod (A_ij - A_ji)/2."""
    return _match_sum(A, skew=True)


def hf_literal(A):
    return _match_sum(A, skew=False)


def _match_sum(A, skew):
    n = len(A)
    if n % 2:
        return 0
    if n == 0:
        return 1

    def rec(rest):
        if not rest:
            return 1
        i = rest[0]
        tot = 0
        for k in range(1, len(rest)):
            j = rest[k]
            w = (A[i][j] - A[j][i]) if skew else (A[i][j] + A[j][i])
            if w == 0:
                continue
            s = -1 if (skew and k % 2 == 0) else 1
            tot = tot + s * w * rec(rest[1:k] + rest[k + 1 :])
        return tot

    tot = rec(tuple(range(n)))
    return tot / 2 ** (n // 2)


def permanent(A):
    """Row expansion over column subsets; exact for Python integers."""
    n = len(A)
    cur = {0: 1}
    for i in range(n):
        nxt = {}
        for m, v in cur.items():
            for j in range(n):
                if not m >> j & 1:
                    nxt[m | 1 << j] = nxt.get(m | 1 << j, 0) + v * A[i][j]
        cur = nxt
    return cur.get((1 << n) - 1, 1) if n else 1


def determinant(A):
    """Laplace over column subsets; exact for Python integers."""
    n = len(A)
    cur = {0: 1}
    for i in range(n):
        nxt = {}
        for m, v in cur.items():
            for j in range(n):
                if not m >> j & 1:
                    inv = bin(m >> (j + 1)).count("1")
                    s = -1 if inv % 2 else 1
                    nxt[m | 1 << j] = nxt.get(m | 1 << j, 0) + s * v * A[i][j]
        cur = nxt
    return cur.get((1 << n) - 1, 1) if n else 1


def perm_sign(p):
    """Sign by cycle counting."""
    p = [int(x) for x in p]
    order = {v: i for i, v in enumerate(sorted(p))}
    q = [order[v] for v in p]
    seen, cyc = set(), 0
    for i in range(len(q)):
        if i not in seen:
            cyc += 1
            while i not in seen:
                seen.add(i)
                i = q[i]
    return 1 if (len(q) - cyc) % 2 == 0 else -1


# --------------------------------------------------------------------------
# Graphs
# --------------------------------------------------------------------------
def _layers(nodes, edges):
    """Breadth-first order from a far end of every component: few vertices are open at a time."""
    adj = {v: [] for v in nodes}
    for u, v in edges:
        if u != v:
            adj[u].append(v)
            adj[v].append(u)

    def bfs(s):
        order, seen = [s], {s}
        for u in order:
            for v in sorted(adj[u], key=lambda x: len(adj[x])):
                if v not in seen:
                    seen.add(v)
                    order.append(v)
        return order

    out, seen = [], set()
    for v in nodes:
        if v not in seen:
            comp = bfs(bfs(bfs(v)[-1])[-1])
            seen.update(comp)
            out += comp
    return out


def matchings_weight(nodes, wedges):
    """Weighted number of perfect matchings. wedges: {(u, v): w}."""
    n = len(nodes)
    if n % 2:
        return 0
    nodes = _layers(list(nodes), wedges)
    ix = {v: i for i, v in enumerate(nodes)}
    adj = [[] for _ in range(n)]
    for (u, v), w in wedges.items():
        if u == v:
            continue
        adj[ix[u]].append((ix[v], w))
        adj[ix[v]].append((ix[u], w))

    @functools.lru_cache(maxsize=None)
    def rec(mask):
        if not mask:
            return 1
        i = (mask & -mask).bit_length() - 1
        tot = 0
        for j, w in adj[i]:
            if mask >> j & 1:
                tot += w * rec(mask & ~(1 << i) & ~(1 << j))
        return tot

    return rec((1 << n) - 1)


def kasteleyn(G):
    """Skew weighted adjacency matrix of a planar graph, every face but one per
    component having an odd number of edges along its walk."""
    import networkx as nx

    ix = {v: i for i, v in enumerate(G.nodes)}
    K = np.zeros((len(G), len(G)))
    for comp in nx.connected_components(G):
        P = G.subgraph(comp)
        emb = nx.check_planarity(P)[1]
        seen, F, at = set(), [], {}
        for u, v in emb.edges():
            if (u, v) not in seen:
                f = emb.traverse_face(u, v, mark_half_edges=seen)
                f = list(zip(f, f[1:] + f[:1]))
                at.update((e, len(F)) for e in f)
                F.append(f)
        sign = {}
        for u, v in nx.minimum_spanning_edges(nx.Graph(P.edges), data=False):
            sign[u, v], sign[v, u] = 1, -1
        D = nx.MultiGraph()
        D.add_nodes_from(range(len(F)))
        for u, v in P.edges:
            if (u, v) not in sign:
                D.add_edge(at[u, v], at[v, u], e=(u, v))
        while D.number_of_edges():
            leaf = next(x for x in D if D.degree(x) == 1)
            ((_, _, e),) = D.edges(leaf, data="e")
            if e not in F[leaf]:
                e = e[::-1]
            odd = sum(sign.get(x, 0) == 1 for x in F[leaf]) % 2
            sign[e] = -1 if odd else 1
            sign[e[::-1]] = -sign[e]
            D.remove_node(leaf)
        for u, v, w in P.edges(data="weight", default=1):
            K[ix[u], ix[v]], K[ix[v], ix[u]] = sign[u, v] * w, sign[v, u] * w
    return K


def matchings_list(nodes, edges):
    nodes = list(nodes)
    if len(nodes) % 2:
        return set()
    adj = {v: set() for v in nodes}
    for u, v in edges:
        if u != v:
            adj[u].add(v)
            adj[v].add(u)
    out = set()

    def rec(rest, acc):
        if not rest:
            out.add(frozenset(acc))
            return
        v = rest[0]
        for u in adj[v]:
            if u in rest:
                rec([x for x in rest if x not in (u, v)], acc + [frozenset((u, v))])

    rec(nodes, [])
    return out


# --------------------------------------------------------------------------
# Distributions
# --------------------------------------------------------------------------
def shannon(p):
    p = np.asarray(p, dtype=float)
    p = p[p > 0]
    return float(-np.sum(p * np.log(p)))


def renyi(p, a):
    p = np.asarray(p, dtype=float)
    if a == 1:
        return shannon(p)
    if a == 0:
        return float(np.log(np.count_nonzero(p)))
    if a == np.inf:
        return float(-np.log(p.max()))
    q = p[p > 0]
    l = a * np.log(q)
    m = l.max()
    return float((m + np.log(np.sum(np.exp(l - m)))) / (1 - a))


def kl(p, q):
    p, q = np.asarray(p, float), np.asarray(q, float)
    if np.any((p > 0) & (q <= 0)):
        return np.inf
    m = p > 0
    return float(np.sum(p[m] * (np.log(p[m]) - np.log(q[m]))))


def js(p, q):
    m = 0.5 * (np.asarray(p, float) + np.asarray(q, float))
    return 0.5 * kl(p, m) + 0.5 * kl(q, m)


def tvd(p, q):
    d = np.asarray(p, float) - np.asarray(q, float)
    return float(np.sum(d[d > 0]))


def trace_dist(A, B):
    d = np.asarray(A, complex) - np.asarray(B, complex)
    return float(0.5 * np.sum(np.linalg.svd(d, compute_uv=False)))


def density(x):
    """Density matrix of a state given as matrix, wavefunction or distribution.

    Returns None where the documented casting rule is ambiguous or refuses."""
    x = np.asarray(x, dtype=complex)
    if x.ndim == 1 or (x.ndim == 2 and min(x.shape) == 1):
        f = x.reshape(-1)
        l2 = np.sqrt(np.sum(np.abs(f) ** 2))
        l1 = np.sum(np.abs(f))
        # the norm nearer to one decides; only nonnegative vectors can be distributions
        wave, dist = abs(l2 - 1), abs(l1 - 1)
        if np.all(np.abs(f - np.abs(f)) <= 1e-13) and dist < 9e-6:
            if dist < wave - 1e-14:
                return np.diag(f)
            if dist < wave + 1e-14:
                return None if np.abs(np.diag(f) - np.outer(f, f.conj())).max() > 1e-13 else np.diag(f)
        return np.outer(f, f.conj()) if wave < 9e-6 else None
    if x.ndim != 2 or x.shape[0] != x.shape[1]:
        return None
    return x


def pdf_of(x):
    r = density(x)
    if r is None:
        return None
    return np.clip(np.diag(r).real, 0, None)


def is_density(x, tol=1e-9):
    x = np.asarray(x)
    return (
        x.ndim == 2
        and x.shape[0] == x.shape[1]
        and abs(np.trace(x) - 1) < tol
        and np.max(np.abs(x - x.conj().T)) < tol
        and np.min(np.linalg.eigvalsh((x + x.conj().T) / 2)) > -tol
    )


def cov_majorana(rho, n):
    """Real antisymmetric M = -i(<g_a g_b> - <g_b g_a>), g^2 = 1/2."""
    G = corr(rho, majoranas(n))
    return (-1j * (G - G.T)).real


def unitary_exp(K):
    w, v = np.linalg.eigh((K + K.conj().T) / 2)
    return (v * np.exp(-1j * w)) @ v.conj().T


__all__ = [k for k in dir() if not k.startswith("_")]
_ = (itertools, expm)
