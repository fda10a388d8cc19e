"""Trace distance."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C26"
CONTRACTS = contracts.pick("trace_distance")
RULE = (
    "pairs and triples of 17 density-matrix classes and 5 wavefunction classes (dimension 2..200, also non-powers of two), "
    "matrix, vector and distribution containers mixed, equal, nearly equal, orthogonal, commuting; metric axioms, unitary "
    "invariance, contraction under partial trace and dephasing, pure-state formula. Distinct = argument digests."
)
FLOORS = {"trace_distance": 600, "metric": 300, "unitary": 100, "contraction": 150, "pure": 60}


def cases(tier, seed):
    r = crng(tier, seed, 26)
    out = []
    for k in range(scale(tier, 420, 5000)):
        out.append({"kind": "dm", "a": pick(r, gen.STATE_MODES), "b": pick(r, gen.STATE_MODES), "n": int(r.integers(1, 5)), "rel": pick(r, ["indep", "indep", "indep", "equal", "near", "orth", "commute"]), "k": k})
    for k in range(scale(tier, 120, 1200)):
        out.append({"kind": "wf", "d": int(r.integers(2, 33)), "a": pick(r, gen.WF_MODES), "b": pick(r, gen.WF_MODES), "k": k})
        out.append({"kind": "pdf", "d": int(r.integers(2, 20)), "k": k})
    for k in range(scale(tier, 16, 160)):
        out.append({"kind": "dm", "a": pick(r, gen.STATE_MODES), "b": pick(r, gen.STATE_MODES), "n": int(r.integers(5, 8)), "rel": pick(r, ["indep", "near", "orth", "commute"]), "k": k, "cost": 5})
        out.append({"kind": "wf", "d": int(r.integers(33, 200)), "a": pick(r, gen.WF_MODES), "b": pick(r, gen.WF_MODES), "k": k})
    return out + scenarios.specs(["random"], scale(tier, 3, 30))


def norm(r):
    r = (r + r.conj().T) / 2
    return r / np.trace(r).real


def run(ctx, spec, rng):
    k = spec["kind"]
    if k == "scenario":
        return scenarios.run(ctx, spec, rng)
    D = lambda x, y: float(np.real(ctx.call("trace_distance", x, y)))  # noqa: E731
    if k == "wf":
        d = spec["d"]
        u, v = gen.wavefunction(rng, d, spec["a"]), gen.wavefunction(rng, d, spec["b"])
        x, y = pick(rng, [u, u.reshape(-1, 1), np.outer(u, u.conj()), u.tolist()]), pick(rng, [v, v.reshape(-1, 1), np.outer(v, v.conj())])
        t = D(x, y)
        ctx.close(t, np.sqrt(max(0.0, 1 - abs(np.vdot(u, v)) ** 2)), "pure: distance of pure states", 0, 2e-7)
        ctx.close(D(u, u * np.exp(1j * rng.uniform(0, 6))), 0, "pure: a global phase is invisible", 0, 1e-11)
        return
    if k == "pdf":
        d = spec["d"]
        p, q = (gen.pdf(rng, d, pick(rng, ["dirichlet", "uniform", "geometric", "halfuniform", "dyadic"])) for _ in "ab")
        if min(abs(np.linalg.norm(z) - 1) for z in (p, q)) > 1e-4:
            ctx.close(D(p, q), O.tvd(p, q), "contraction: on distributions it is the total variation distance", 0, 1e-11)
        return
    n = spec["n"]
    d = 2**n
    a, b = gen.state(rng, n, spec["a"]), gen.state(rng, n, spec["b"])
    rel = spec["rel"]
    if rel == "equal":
        b = a.copy()
    elif rel == "near":
        b = norm((1 - 1e-6) * a + 1e-6 * b)
    elif rel == "orth":
        U = gen.unitary(rng, d)
        p, q = np.zeros(d), np.zeros(d)
        p[: d // 2], q[d // 2 :] = rng.dirichlet(np.ones(d // 2)), rng.dirichlet(np.ones(d - d // 2))
        a, b = norm((U * p) @ U.conj().T), norm((U * q) @ U.conj().T)
    elif rel == "commute":
        U = gen.unitary(rng, d)
        a, b = (norm((U * rng.dirichlet(np.ones(d))) @ U.conj().T) for _ in "ab")
    c = gen.state(rng, n, pick(rng, gen.STATE_MODES))
    t = D(a, b)
    ctx.expect(-1e-9 <= t <= 1 + 1e-9, "metric: range", t=t)
    ctx.close(D(b, a), t, "metric: symmetry", 0, 1e-11)
    ctx.expect(t <= D(a, c) + D(c, b) + 1e-8, "metric: triangle inequality", a=a, b=b, c=c)
    ctx.close(D(a, a), 0, "metric: zero for equal states", 0, 1e-11)
    if rel == "orth":
        ctx.close(t, 1, "metric: one for orthogonal supports", 0, 1e-11)
    U = gen.unitary(rng, d)
    ctx.close(D(norm(U @ a @ U.conj().T), norm(U @ b @ U.conj().T)), t, "unitary: invariance", 0, 1e-11)
    ctx.close(D(a.conj(), b.conj()), t, "unitary: transposition", 0, 1e-11)
    s = float(rng.uniform())
    ctx.close(D(a, norm(s * a + (1 - s) * b)), (1 - s) * t, "metric: linear along segments", 0, 1e-11)
    ctx.expect(D(norm(s * a + (1 - s) * c), norm(s * b + (1 - s) * c)) <= s * t + 1e-8, "contraction: mixing", s=s)
    p, q = (np.diag(np.clip(np.diag(z).real, 0, None) / np.clip(np.diag(z).real, 0, None).sum()) for z in (a, b))
    ctx.expect(D(p, q) <= t + 1e-8, "contraction: dephasing", a=a, b=b)
    if n > 1:
        m = 2 ** int(rng.integers(1, n))
        ra, rb = (norm(np.einsum("ikjk->ij", z.reshape(m, d // m, m, d // m))) for z in (a, b))
        ctx.expect(D(ra, rb) <= t + 1e-8, "contraction: partial trace", a=a, b=b)
    ctx.sample({"a": spec["a"], "b": spec["b"], "relation": rel, "distance": t})
