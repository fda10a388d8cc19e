"""Coefficient-matrix builders."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C03"
CONTRACTS = contracts.pick(
    "build_V", "build_H", "build_Omega", "build_K", "build_reordering_xx_to_xp", "kitaev_chain", "permutation_to_matrix"
)
RULE = (
    "sizes 1..12 and up to 70, every Hermitian x skew input class of the generator (generic, real, imaginary, degenerate, integer "
    "dtype, ...), with and without the optional block; each matrix compared with its defining block formula plus the "
    "structural identities.  Distinct = distinct (function, argument) digests."
)
FLOORS = {"structure": 100, "generator": 30, "permutation": 100}


def cases(tier, seed):
    r = crng(tier, seed, 3)
    out = []
    for k in range(scale(tier, 240, 4000)):
        out.append({"kind": "blocks", "n": int(r.integers(1, 9)), "a": pick(r, gen.HERM_MODES), "b": pick(r, gen.SKEW_MODES), "k": k})
    for k in range(scale(tier, 60, 800)):
        out.append({"kind": "fixed", "n": int(r.integers(1, 13)), "k": k})
    for k in range(scale(tier, 120, 2000)):
        out.append({"kind": "perm", "n": int(r.integers(0, 12)), "k": k})
    for k in range(scale(tier, 80, 1000)):
        out.append({"kind": "kitaev", "n": int(r.integers(1, 11)), "k": k})
    for k in range(scale(tier, 60, 800)):
        out.append({"kind": "gen", "n": int(r.integers(1, 9)), "fixed": bool(r.integers(2)), "k": k})
    for k in range(scale(tier, 3, 30)):  # beyond any size a table or a small-case branch would cover
        n = int(r.integers(13, 70))
        out.append({"kind": "blocks", "n": n, "a": pick(r, gen.HERM_MODES), "b": pick(r, gen.SKEW_MODES), "k": k})
        out.append({"kind": "fixed", "n": n, "k": k})
        out.append({"kind": "perm", "n": 4 * n, "k": k})
        out.append({"kind": "kitaev", "n": n, "k": k})
        out.append({"kind": "gen", "n": n, "fixed": bool(k % 2), "k": k})
    return out + scenarios.specs(["chain", "diag", "random"], scale(tier, 6, 40))


def run(ctx, spec, rng):
    kind = spec["kind"]
    if kind == "scenario":
        return scenarios.run(ctx, spec, rng)
    n = spec["n"]
    if kind == "blocks":
        A, B = gen.herm_skew(rng, n, spec["a"], spec["b"])
        form = int(rng.integers(6))
        if form == 1:
            A, B = A.real.copy(), B.real.copy()
        elif form == 2:
            A, B = np.rint(A.real * 2).astype(int), np.rint(B.real * 2).astype(int)
        elif form == 3:  # arbitrary blocks: the formula does not need the symmetry
            A, B = gen.cplx(rng, n, n), gen.cplx(rng, n, n)
        elif form == 4:
            A = A.real.copy()  # real A with complex B
        elif form == 5:
            B = B.real.copy()
        none = rng.random() < 0.3
        if none:
            H = ctx.call("build_H", n, A) if rng.random() < 0.5 else ctx.call("build_H", n, A, None)
            V = ctx.call("build_V", n, A)
            B = np.zeros_like(A)
        elif rng.random() < 0.5:
            H = ctx.call("build_H", n, A, B)
            V = ctx.call("build_V", n, A, B)
        else:
            H = ctx.call("build_H", n_sites=n, A=A, B=B)
            V = ctx.call("build_V", n_sites=n, A=A, Z=B)
        ctx.expect(H.dtype.kind == "c" and V.dtype.kind == "c", "builders return complex matrices")
        ctx.close(V, O.s_matrix(n) @ ctx.call("build_H", n, A, B), "V is the swapped H", 1e-13, 0) if not none else None
        if form != 3:
            ctx.close(H, H.conj().T, "structure: H Hermitian", 1e-13, 0)
            if form != 2:
                w = np.linalg.eigvalsh(H)
                ctx.close(w, -w[::-1], "structure: spectrum symmetric", 1e-9, 1e-12)
            ctx.close(V, -V.T, "structure: V antisymmetric", 1e-13, 0) if not none or True else None
        else:
            ctx.close(H[:n, :n], -H[n:, n:].conj(), "structure: conjugate blocks", 1e-13, 0)
        ctx.checks["structure"] += 1
        ctx.sample({"n": n, "a": spec["a"], "b": spec["b"], "form": form})
    elif kind == "fixed":
        W = ctx.call("build_Omega", n)
        ctx.close(W @ W.conj().T, np.eye(2 * n), "Omega is unitary", 0, 1e-12)
        K = ctx.call("build_K", n)
        ctx.close(K.conj().T @ K, np.eye(2 * n), "K is unitary", 0, 1e-12)
        P = ctx.call("build_reordering_xx_to_xp", n)
        ctx.close(P @ P.T, np.eye(2 * n), "reordering is a permutation", 0, 0)
        names = [f"x{i}" for i in range(n)] + [f"p{i}" for i in range(n)]
        new = [names[int(np.argmax(P[:, j]))] for j in range(2 * n)]
        ctx.expect(new == [s for i in range(n) for s in (f"x{i}", f"p{i}")], "reordering is x1 p1 x2 p2", got=new)
        if n <= 6:
            al, ma = O.alphas(n), np.array(O.majoranas(n))
            ctx.close(np.tensordot(W, np.array(al), 1), ma, "Omega maps ladder operators to Majorana operators", 0, 1e-12)
    elif kind == "perm":
        p = [int(x) for x in rng.permutation(n)]
        q = [int(x) for x in rng.permutation(n)]
        form = pick(rng, [list, tuple, np.array])
        Mp, Mq = ctx.call("permutation_to_matrix", form(p)), ctx.call("permutation_to_matrix", form(q))
        ctx.close(Mp.T @ Mp, np.eye(n), "permutation matrix is orthogonal", 0, 0)
        ctx.close(Mp @ Mq, ctx.call("permutation_to_matrix", [p[i] for i in q]), "permutation matrices compose", 0, 0)
        x = rng.standard_normal(n)
        y = Mp @ x
        ctx.expect(all(y[p[i]] == x[i] for i in range(n)), "permutation moves entry i to p(i)")
        if n:
            bad = list(p)
            bad[int(rng.integers(n))] = int(pick(rng, [n, n + 3, -1, -n - 1]))
            ctx.expect(ctx.call("permutation_to_matrix", bad) is None, "invalid permutation gives None", bad=bad)
        ctx.checks["permutation"] += 1
    elif kind == "kitaev":
        vals = [0.0, 1.0, -1.0, 0.5, 2, -3, 1]
        mu, t, d = (
            (float(rng.normal()), float(rng.normal()), float(rng.normal()))
            if rng.random() < 0.6
            else (pick(rng, vals), pick(rng, vals), pick(rng, vals))
        )
        H = ctx.call("kitaev_chain", n, mu, t, d) if rng.random() < 0.5 else ctx.call("kitaev_chain", n_sites=n, mu=mu, t=t, delta=d)
        ctx.close(H, H.conj().T, "structure: Kitaev chain Hermitian", 1e-13, 0)
        z = complex(rng.normal(), rng.normal())  # complex pairing: refused, or the documented matrix
        try:
            X = ctx.quiet(ctx.fn("kitaev_chain"), n, mu, t, z)
        except (TypeError, ValueError):
            X = None
        if X is not None:
            B = z * (np.eye(n, k=1) - np.eye(n, k=-1))
            A = -mu * np.eye(n) - t * (np.eye(n, k=1) + np.eye(n, k=-1))
            ctx.close(X, O.H_matrix(A, B), "complex pairing amplitude", 1e-13, 0)
        # closed-form spectrum of H for open chains at the two solvable points
        if n >= 2 and abs(t - d) < 1e-15 and mu == 0:
            w = np.sort(np.abs(np.linalg.eigvalsh(H)))
            ctx.close(w, np.array([0.0, 0.0] + [2 * abs(t)] * (2 * n - 2)), "Kitaev zero modes at the sweet spot", 0, 1e-9)
    else:
        s = pick(rng, [None, 0, 1, 5, int(rng.integers(2**31))])
        H = ctx.call("random_H_generator", n, fixedN=spec["fixed"], seed=s)
        ctx.expect(H.shape == (2 * n, 2 * n), "generator shape")
        A, B = H[n:, n:], H[:n, n:]
        ctx.close(A, A.conj().T, "generator: A Hermitian", 0, 1e-12)
        ctx.close(B, -B.T, "generator: B skew", 0, 1e-12)
        ctx.close(H, O.H_matrix(A, B), "generator: block form", 0, 1e-12)
        ctx.expect(np.linalg.norm(A) > 0, "generator: A non-zero")
        if spec["fixed"]:
            ctx.expect(np.all(B == 0), "generator: number conserving has no pairing")
        elif n > 1:
            ctx.expect(np.linalg.norm(B) > 0, "generator: pairing present")
        ctx.nontrivial("gen", n, spec["fixed"], H)
        ctx.checks["generator"] += 1
