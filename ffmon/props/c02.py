"""The Pauli operator basis."""

import numpy as np

from .. import contracts, oracles as O, scenarios
from .util import scale

ID = "C02"
CONTRACTS = contracts.pick("pauli_matrices", "generate_pauli_group")
RULE = (
    "1..6 qubits, verbose and quiet, keyword and positional, in random order and repeated; "
    "every one of the 4^n operators is compared with matrix elements computed from bits, the printed labels with the "
    "lexicographic order.  Distinct = distinct (function, arguments)."
)
FLOORS = {"labels": 5, "rejection": 5}


def cases(tier, seed):
    out = []
    for rep in range(scale(tier, 4, 10)):
        for n in range(1, 6):
            for verbose in (False, True):
                out.append({"kind": "group", "n": n, "verbose": verbose, "rep": rep, "cost": 16.0**n})
    if True:
        out.append({"kind": "group", "n": 6, "verbose": False, "rep": 0, "cost": 1e9})
    out += [{"kind": "reject", "k": k} for k in range(scale(tier, 3, 10))]
    return out + scenarios.specs(["chain", "random"], scale(tier, 3, 20))


def big_multiple(g):
    try:
        return np.array_equal(np.asarray(g) * 1000003, np.asarray(g, dtype=complex) * 1000003)
    except OverflowError:
        return False


def run(ctx, spec, rng):
    if spec["kind"] == "scenario":
        return scenarios.run(ctx, spec, rng)
    if spec["kind"] == "reject":
        for bad in (0, -1, -7):
            ctx.refuses(ValueError, "generate_pauli_group", bad)
        for bad in (2.0, 1.5, "2", None, [2], np.float64(3)):
            ctx.refuses(TypeError, "generate_pauli_group", bad)
        return
    n, verbose = spec["n"], spec["verbose"]
    X, Y, Z = ctx.call("pauli_matrices")
    for P in (X, Y, Z):
        ctx.close(P @ P, np.eye(2), "Pauli squares", 0, 0)
    ctx.close(X @ Y, 1j * Z, "Pauli product", 0, 0)
    if rng.random() < 0.5:
        G = ctx.call("generate_pauli_group", n, verbose)
    else:
        G = ctx.call("generate_pauli_group", n=n, verbose=verbose)
    text = ctx.out
    ctx.expect(isinstance(G, list) and len(G) == 4**n, "group size", n=n)
    if verbose:
        want = [O.pauli(n, i)[1] for i in range(4**n)]
        ctx.expect([ln.strip() for ln in text.splitlines() if ln.strip()] == want, "labels printed", n=n, text=text)
        ctx.checks["labels"] += 1
    else:
        ctx.expect(text.strip() == "", "quiet call prints nothing", text=text)
    for i in range(4**n) if n < 5 else rng.integers(0, 4**n, 100):
        ctx.expect(big_multiple(G[i]), "Pauli operators are ordinary numbers: large multiples are exact", n=n, i=i, dtype=G[i].dtype)
    for _ in range(20):
        i, j = rng.integers(0, 4**n, 2)
        t = np.trace(np.asarray(G[i]).conj().T @ G[j])
        ctx.close(t, float(2**n) if i == j else 0.0, "orthogonality of Pauli operators", 0, 1e-10, n=n, i=i, j=j)
        m = G[i] @ G[j] - (G[j] @ G[i])
        p = G[i] @ G[j] + (G[j] @ G[i])
        ctx.expect(min(np.abs(m).max(), np.abs(p).max()) < 1e-12, "Pauli operators commute or anticommute", n=n, i=i, j=j)
    ctx.sample({"n": n, "verbose": verbose, "elements": len(G)})
