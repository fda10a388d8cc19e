"""Divergences between outcome distributions."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C25"
NAMES = ("total_variation_distance", "relative_entropy", "jensen_shannon_divergence", "bhattacharyya_coeff")
CONTRACTS = contracts.pick(*NAMES)
RULE = (
    "pairs and triples over 11 distribution classes (with zeros, disjoint or nested supports, tiny entries, equal, "
    "permuted), wavefunctions and density matrices, in mixed containers, dimension 2..256; metric axioms, ranges, "
    "symmetry, data processing, Pinsker and Fuchs-van de Graaf type inequalities. Distinct = argument digests."
)
FLOORS = {n: 300 for n in NAMES} | {"inequality": 300, "symmetry": 300, "range": 300, "data processing": 150, "self": 100}


def cases(tier, seed):
    r = crng(tier, seed, 25)
    out = []
    for k in range(scale(tier, 700, 8000)):
        out.append({"kind": "pair", "a": pick(r, gen.PDF_MODES), "b": pick(r, gen.PDF_MODES), "d": int(r.choice([2, 3, 4, 5, 8, 16, 64])), "rel": pick(r, ["indep", "indep", "equal", "perm", "near", "disjoint", "nested", "swap", "faint"]), "k": k})
    for k in range(scale(tier, 120, 1200)):
        out.append({"kind": "quantum", "n": int(r.integers(1, 4)), "a": pick(r, gen.STATE_MODES), "b": pick(r, gen.STATE_MODES), "k": k})
    for k in range(scale(tier, 16, 200)):
        out.append({"kind": "pair", "a": pick(r, gen.PDF_MODES), "b": pick(r, gen.PDF_MODES), "d": int(r.choice([100, 128, 256])), "rel": pick(r, ["indep", "indep", "equal", "perm", "near", "disjoint", "nested", "swap"]), "k": k})
    return out + scenarios.specs(["random"], scale(tier, 3, 30))


def form(rng, p):
    if abs(np.linalg.norm(p) - 1) < 1e-4:
        if np.count_nonzero(p) == 1 and p.max() == 1:
            return pick(rng, [p, np.diag(p), p.tolist()])
        return np.diag(p)
    j = int(rng.integers(6))
    if j == 0:
        return p.tolist()
    if j == 1:
        return p.reshape(-1, 1)
    if j == 2:
        return np.diag(p)
    if j == 3:  # a wavefunction with these Born probabilities
        return np.sqrt(p) * np.exp(1j * rng.uniform(0, 6.28, len(p)))
    return p.copy()


def run(ctx, spec, rng):
    if spec["kind"] == "scenario":
        return scenarios.run(ctx, spec, rng)
    if spec["kind"] == "quantum":
        x, y = gen.state(rng, spec["n"], spec["a"]), gen.state(rng, spec["n"], spec["b"])
        p, q = (np.clip(np.diag(z).real, 0, None) for z in (x, y))
    else:
        d, rel = spec["d"], spec["rel"]
        p, q = gen.pdf(rng, d, spec["a"]), gen.pdf(rng, d, spec["b"])
        if rel == "equal":
            q = p.copy()
        elif rel == "perm":
            q = p[rng.permutation(d)]
        elif rel == "near":
            q = p + 1e-6 * rng.random(d) * (p > 0)
        elif rel == "disjoint":
            m = np.arange(d) < max(1, d // 2)
            p, q = (p + 0.01) * m, (q + 0.01) * ~m
        elif rel == "nested":
            m = rng.random(d) < 0.5
            m[int(rng.integers(d))] = True
            p = (p + 0.01) * m
            q = q + 0.01
        elif rel == "swap":
            q = p[::-1].copy()
        elif rel == "faint":  # outcomes of hardly any weight, in one or both
            i = rng.choice(d, max(1, d // 3), replace=False)
            p, q = p + 0.01, q + 0.01
            p[i] = 10.0 ** rng.uniform(-200 if rng.random() < 0.3 else -30, -9, len(i))
            if rng.random() < 0.5:
                q[i] = 0 if rng.random() < 0.5 else 10.0 ** rng.uniform(-30, -9, len(i))
        p, q = p / p.sum(), q / q.sum()
        x, y = (np.diag(p), np.diag(q)) if rel == "faint" else (form(rng, p), form(rng, q))
    f = {n: (lambda u, v, n=n: float(np.real(ctx.call(n, u, v)))) for n in NAMES}
    tv, kl, js, bc = (f[n](x, y) for n in NAMES)
    tv2, kl2, js2, bc2 = (f[n](y, x) for n in NAMES)
    w = dict(p=p, q=q)
    ctx.expect(abs(tv - tv2) < 1e-9 and abs(js - js2) < 1e-9 and abs(bc - bc2) < 1e-7, "symmetry: symmetric measures depend on the order", tv=(tv, tv2), js=(js, js2), bc=(bc, bc2), **w)
    e = 1e-7
    ctx.expect(-e <= tv <= 1 + e and -e <= js <= np.log(2) + e and -e <= bc <= 1 + e and kl >= -e and kl2 >= -e, "range: measure outside its range", tv=tv, js=js, bc=bc, kl=kl, **w)
    ctx.expect(tv <= np.sqrt(max(kl, 0) / 2) + 1e-6, "inequality: Pinsker", tv=tv, kl=kl, **w)
    ctx.expect(1 - bc <= tv + 1e-6 and tv <= np.sqrt(max(0, 1 - bc * bc)) + 1e-3, "inequality: Bhattacharyya bounds", tv=tv, bc=bc, **w)
    ctx.expect(js <= tv * np.log(2) + 1e-6 and tv * tv / 2 <= js + 1e-6, "inequality: Jensen-Shannon bounds", tv=tv, js=js, **w)
    tiny = np.any((p > 0) & (p < 1e-12)) or np.any((q > 0) & (q < 1e-12))
    if not tiny:
        ctx.expect(np.isinf(kl) == bool(np.any((p > 0) & (q == 0))), "range: relative entropy is infinite exactly without absolute continuity", kl=kl, **w)
    d = len(p)
    if d > 2:
        # merging outcomes never increases a divergence
        lab = rng.integers(0, max(2, d // 2), d)
        M = np.zeros((lab.max() + 1, d))
        M[lab, np.arange(d)] = 1
        P, Q = np.diag(M @ p), np.diag(M @ q)
        ctx.expect(f[NAMES[0]](P, Q) <= tv + 1e-8 and f[NAMES[2]](P, Q) <= js + 1e-8 and f[NAMES[3]](P, Q) >= bc - 1e-6, "data processing: merging outcomes increased a divergence", **w)
        k2 = f[NAMES[1]](P, Q)
        ctx.expect(k2 <= kl + 1e-7 or (np.isinf(k2) and np.isinf(kl)), "data processing: merging outcomes increased the relative entropy", **w)
        z = np.diag(gen.pdf(rng, d, pick(rng, ["dirichlet", "uniform", "zeros"])))
        ctx.expect(tv <= f[NAMES[0]](x, z) + f[NAMES[0]](z, y) + 1e-8, "inequality: triangle", **w)
    for n, v in zip(NAMES, (0, 0, 0, 1)):
        ctx.close(f[n](x, x), v, f"self: {n} of equal arguments", 0, 1e-9)
    if spec["kind"] == "pair" and spec["rel"] == "disjoint":
        ctx.close([tv, js, bc], [1, np.log(2), 0], "range: disjoint supports are perfectly distinguishable", 0, 1e-9)
    ctx.sample({"p": p[:5], "q": q[:5], "tv": tv, "kl": kl, "js": js, "bc": bc})
    _ = O
