"""Canonical anticommutation relations of the Jordan-Wigner operators."""

import numpy as np

from .. import contracts, oracles as O, scenarios
from .util import scale

ID = "C01"
CONTRACTS = contracts.pick("jordan_wigner_lowering", "jordan_wigner_alphas", "jordan_wigner_majoranas")
RULE = (
    "sizes 1..10 (quick) / 1..11 (thorough) in random order and repeated, so that every size is asked for after every "
    "other; each returned operator is compared entry by entry with matrix elements computed from occupation bits, and "
    "the algebra is evaluated on the returned matrices.  Distinct = distinct (function, size) pairs judged."
)
FLOORS = {"anticommutator": 200}


def cases(tier, seed):
    out = []
    for rep in range(scale(tier, 3, 8)):
        for n in range(1, 9 if tier == "quick" else 11):
            out.append({"kind": "algebra", "n": n, "rep": rep, "cost": 4.0**n})
    for n in (9, 10):
        out.append({"kind": "algebra", "n": n, "rep": 0, "cost": 4.0**n})
    if tier != "quick":
        out.append({"kind": "algebra", "n": 11, "rep": 0, "cost": 4.0**11})
    return out + scenarios.specs(["chain", "random", "diag"], scale(tier, 4, 30))


def run(ctx, spec, rng):
    if spec["kind"] == "scenario":
        return scenarios.run(ctx, spec, rng)
    n = spec["n"]
    order = list(rng.permutation(3))
    got = {}
    for k in order:
        name = ("jordan_wigner_lowering", "jordan_wigner_alphas", "jordan_wigner_majoranas")[k]
        got[k] = ctx.call(name, n) if rng.random() < 0.7 else ctx.call(name, n_sites=n)
    low, al, ma = got[0], got[1], got[2]
    ctx.expect(len(low) == n and len(al) == 2 * n and len(ma) == 2 * n, "number of operators", n=n)
    d = 2**n
    I = np.eye(d)
    vac = np.zeros(d)
    vac[0] = 1
    for a in low:
        ctx.expect(np.max(np.abs(a @ vac)) == 0, "vacuum is annihilated", n=n)
    pairs = [(i, j) for i in range(2 * n) for j in range(i, 2 * n)]
    k = len(pairs) if n <= 5 else 12
    for t in rng.choice(len(pairs), min(k, len(pairs)), replace=False):
        i, j = pairs[t]
        want = 1.0 if j == i + n else 0.0
        ctx.close(al[i] @ al[j] + al[j] @ al[i], want * I, "anticommutator of ladder operators", 0, 1e-12, n=n, i=i, j=j)
        g = ma[i] @ ma[j] + ma[j] @ ma[i]
        ctx.close(g, (1.0 if i == j else 0.0) * I, "anticommutator of Majorana operators", 0, 1e-12, n=n, i=i, j=j)
    for i in range(n):
        ctx.close(al[i], np.asarray(al[i + n]).conj().T, "creation is the adjoint of annihilation", 0, 0, n=n, i=i)
        ctx.close(al[i + n], low[i], "ladder list order", 0, 0, n=n, i=i)
    for g in ma:
        ctx.close(g, np.asarray(g).conj().T, "Majorana operators are Hermitian", 0, 0, n=n)
    ctx.checks["anticommutator"] += min(k, len(pairs))
    ctx.nontrivial("algebra", n)
    ctx.sample({"n": n, "pairs_checked": min(k, len(pairs)), "order": [int(x) for x in order]})
    _ = O
