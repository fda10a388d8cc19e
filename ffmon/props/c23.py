"""Stabilizer distribution and stabilizer Renyi entropy."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C23"
CONTRACTS = contracts.pick("stabilizer_distribution", "SRE")
RULE = (
    "17 density-matrix and 5 wavefunction classes on 1..5 qubits in matrix, vector, column and list form, with orders "
    "0.5..infinity, judged by an independent tensor contraction; random Clifford circuits (stabilizer states, Clifford "
    "invariance), T states, tensor products, order monotonicity. Distinct = argument digests."
)
FLOORS = {"stabilizer_distribution": 300, "SRE": 300, "clifford": 80, "product": 60, "stabilizer state": 60, "order": 80}
ORDERS = (2, 2, 2.0, 1, 3, 0.5, 5, 1.5, np.inf, 10, 0.9, 50)


def cases(tier, seed):
    r = crng(tier, seed, 23)
    out = []
    for m in gen.STATE_MODES:
        for k in range(scale(tier, 12, 130)):
            out.append({"kind": "state", "m": m, "n": int(r.choice([1, 2, 2, 3, 3, 4])), "k": k})
    for k in range(scale(tier, 100, 1000)):
        out.append({"kind": "wf", "m": pick(r, gen.WF_MODES), "n": int(r.integers(1, 5)), "k": k})
        out.append({"kind": "clifford", "n": int(r.integers(1, 5)), "k": k})
    for k in range(scale(tier, 70, 700)):
        out.append({"kind": "product", "k": k})
        out.append({"kind": "magic", "n": int(r.integers(1, 5)), "k": k})
    for k in range(scale(tier, 4, 30)):
        out.append({"kind": "state", "m": pick(r, gen.STATE_MODES), "n": 5, "k": k, "cost": 50})
        out.append({"kind": "clifford", "n": 5, "k": k, "cost": 50})
    return out + scenarios.specs(["random", "chain"], scale(tier, 3, 30))


H1 = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
S1 = np.diag([1, 1j])
PAULIS = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]


def one(n, q, g):
    return np.kron(np.kron(np.eye(2**q), g), np.eye(2 ** (n - 1 - q)))


def cnot(n, c, t):
    d = 2**n
    U = np.zeros((d, d))
    for x in range(d):
        y = x ^ (1 << (n - 1 - t)) if x >> (n - 1 - c) & 1 else x
        U[y, x] = 1
    return U


def clifford(rng, n, depth=None):
    U = np.eye(2**n, dtype=complex)
    for _ in range(depth if depth is not None else int(rng.integers(1, 8 * n))):
        k = int(rng.integers(4))
        if k == 3 and n > 1:
            c, t = rng.choice(n, 2, replace=False)
            g = cnot(n, int(c), int(t))
        else:
            g = one(n, int(rng.integers(n)), [H1, S1, pick(rng, PAULIS)][k % 3])
        U = g @ U
    return U


def run(ctx, spec, rng):
    k = spec["kind"]
    if k == "scenario":
        return scenarios.run(ctx, spec, rng)
    n = spec.get("n", 1)
    d = 2**n
    if k == "state":
        r = gen.state(rng, n, spec["m"])
        x = pick(rng, [r, np.asfortranarray(r), r.tolist()])
        xi = np.asarray(ctx.call("stabilizer_distribution", x))
        a = pick(rng, ORDERS)
        ctx.call("SRE", x, a)
        v = ctx.call("SRE", x)
        if xi[0] < 1 - 1e-3:
            e = -np.log(np.sum(xi**2)) - np.log(d)
            ctx.close(v, e, "order: default order is two", 1e-10, 1e-10)
        als = sorted(float(t) for t in rng.choice([0.5, 1, 1.5, 2, 3, 7], 3, replace=False))
        vs = [ctx.call("SRE", r, t) for t in als]
        if np.all((xi > 1e-9) | (xi < 1e-20)):
            ctx.expect(all(vs[i] >= vs[i + 1] - 1e-6 for i in range(2)), "order: SRE increases with the order", orders=als, values=vs)
        ctx.sample({"state": spec["m"], "n": n, "SRE": v})
    elif k == "wf":
        v = gen.wavefunction(rng, d, spec["m"])
        if rng.random() < 0.3:  # next to a stabilizer state
            z = np.zeros(d, dtype=complex)
            z[0] = 1
            v = clifford(rng, n) @ z + 10.0 ** rng.uniform(-6, -2) * v
            v /= np.linalg.norm(v)
        x = pick(rng, [v, v.reshape(-1, 1), v.tolist(), v.reshape(1, -1)])
        xi = np.asarray(ctx.call("stabilizer_distribution", x))
        ctx.expect(abs(xi[0] - 1 / d) < 1e-9, "order: identity weight of a pure state is 1/d", xi0=xi[0])
        m = ctx.call("SRE", x, pick(rng, ORDERS))
        ctx.expect(m > -1e-9, "order: SRE of a pure state is non-negative", m=m)
        w = v * np.exp(1j * rng.uniform(0, 6.28))
        ctx.close(ctx.call("stabilizer_distribution", w), xi, "order: global phase drops out", 0, 1e-11)
    elif k == "clifford":
        U = clifford(rng, n)
        z = np.zeros(d, dtype=complex)
        z[int(rng.integers(d))] = 1
        s = U @ z
        xi = np.asarray(ctx.call("stabilizer_distribution", s))
        nz = xi[xi > 1e-6]
        ctx.expect(nz.size == d and np.allclose(nz, 1 / d, atol=1e-9), "stabilizer state: d equal weights", xi=xi)
        a = pick(rng, (2, 1, 3, np.inf, 10))
        ctx.close(ctx.call("SRE", s, a), 0.0, "stabilizer state: SRE vanishes", 0, 1e-10, a=a)
        r = gen.state(rng, n, pick(rng, ["mixed", "pure", "rank2", "real", "product"]))
        q = U @ r @ U.conj().T
        q = (q + q.conj().T) / 2
        q /= np.trace(q).real
        ctx.close(np.sort(ctx.call("stabilizer_distribution", q)), np.sort(ctx.call("stabilizer_distribution", r)), "clifford: weights are permuted", 0, 1e-11)
        ctx.close(ctx.call("SRE", q, a), ctx.call("SRE", r, a), "clifford: SRE is invariant", 1e-9, 1e-9)
        ctx.nontrivial(U, r)
    elif k == "product":
        n1, n2 = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        r1 = gen.state(rng, n1, pick(rng, ["mixed", "pure", "diag", "rank2"]))
        r2 = gen.state(rng, n2, pick(rng, ["mixed", "pure", "real", "ghz"]))
        x1, x2 = np.asarray(ctx.call("stabilizer_distribution", r1)), np.asarray(ctx.call("stabilizer_distribution", r2))
        r = np.kron(r1, r2)
        ctx.close(ctx.call("stabilizer_distribution", r), np.kron(x1, x2), "product: distributions multiply in Pauli order", 0, 1e-11)
        if max(x1[0], x2[0]) < 1 - 1e-3:
            a = pick(rng, (2, 1, 3, np.inf))
            ctx.close(ctx.call("SRE", r, a), ctx.call("SRE", r1, a) + ctx.call("SRE", r2, a), "product: SRE is additive", 1e-9, 1e-9)
    else:
        # T states rotated by Cliffords: log(4/3) per qubit at order two
        t = int(rng.integers(0, n + 1))
        v = np.ones(1, dtype=complex)
        for q in range(n):
            v = np.kron(v, np.array([1, np.exp(1j * np.pi / 4)]) / np.sqrt(2) if q < t else np.array([1, 0]))
        v = clifford(rng, n) @ v
        ctx.close(ctx.call("SRE", v), t * np.log(4 / 3), "stabilizer state: T states carry log(4/3)", 0, 1e-11)
        if n < 4:
            ctx.close(ctx.call("SRE", np.eye(d) / d, pick(rng, (1, 2, 3))), 0.0, "stabilizer state: maximally mixed state carries none", 0, 1e-11)
    _ = O
