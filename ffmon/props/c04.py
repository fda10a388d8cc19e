"""Many-body lift of coefficient matrices and rotation of operator lists."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C04"
CONTRACTS = contracts.pick("build_op", "rotate_operators", "compute_algebra_S")
RULE = (
    "sizes 1..8, coefficient classes {generic, real, integer, sparse, one entry, small 1e-6..1e-9, mixed magnitude, "
    "Hermitian H/V forms, zero}, operator lists {ladder, Majorana, rotated ladder, permuted}, every option "
    "(direct, verbose as bool and int, left action, swapped arguments); values compared with one tensor contraction. "
    "Distinct = distinct argument digests."
)
FLOORS = {"linearity": 30, "covariance": 30, "commutator": 20, "algebra": 30}
RMODES = ("generic", "real", "int", "sparse", "single", "tiny", "mixed", "Hform", "Vform", "zero", "imag", "large")


def coef(rng, n, mode):
    m = 2 * n
    if mode == "generic":
        return gen.cplx(rng, m, m)
    if mode == "real":
        return rng.standard_normal((m, m))
    if mode == "imag":
        return 1j * rng.standard_normal((m, m))
    if mode == "int":
        return rng.integers(-3, 4, (m, m))
    if mode == "sparse":
        return gen.cplx(rng, m, m) * (rng.random((m, m)) < 0.25)
    if mode == "single":
        R = np.zeros((m, m), dtype=complex)
        R[tuple(rng.integers(0, m, 2))] = complex(pick(rng, [1, -1, 1j, 0.5 - 2j]))
        return R
    if mode == "tiny":
        return gen.cplx(rng, m, m) * pick(rng, [1e-5, 1e-6, 1e-7, 1e-8])
    if mode == "mixed":
        return np.exp(1j * rng.uniform(0, 6.28, (m, m))) * 10.0 ** rng.uniform(-8.4, 2, (m, m))
    if mode == "large":
        return gen.cplx(rng, m, m) * 1e4
    if mode == "zero":
        return np.zeros((m, m))
    A, B = gen.herm_skew(rng, n, pick(rng, gen.HERM_MODES), pick(rng, gen.SKEW_MODES))
    return O.H_matrix(A, B) if mode == "Hform" else O.V_matrix(A, B)


def oplist(rng, n, mode):
    if mode == "ladder":
        return [a.astype(complex) for a in O.alphas(n)]
    if mode == "majorana":
        return [a.astype(complex) for a in O.majoranas(n)]
    if mode == "rotated":
        C = gen.symplectic(rng, n)
        return list(np.tensordot(C, np.array(O.alphas(n)), 1))
    if mode == "permuted":
        al = [a.astype(complex) for a in O.alphas(n)]
        return [al[i] for i in rng.permutation(2 * n)]
    if mode == "mixed":  # the leading operator complex, the others in whatever type represents them
        al = O.alphas(n)
        return [al[0].astype(complex)] + [a.real.astype(pick(rng, [float, complex, int])) for a in al[1:]]
    if mode == "generic":
        d = int(rng.integers(2, 5))
        return [gen.cplx(rng, d, d) for _ in range(2 * n)]
    raise KeyError(mode)


OPS = ("ladder", "majorana", "rotated", "permuted", "generic", "mixed")


def cases(tier, seed):
    r = crng(tier, seed, 4)
    out = []
    for k in range(scale(tier, 320, 5000)):
        n = int(r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6]))
        out.append({"kind": "lift", "n": n, "R": pick(r, RMODES), "ops": pick(r, OPS), "direct": bool(r.integers(2)), "k": k})
    for k in range(scale(tier, 320, 5000)):
        n = int(r.choice([1, 2, 2, 3, 3, 4, 4, 5]))
        out.append({"kind": "rotate", "n": n, "R": pick(r, RMODES), "ops": pick(r, OPS), "left": bool(r.integers(2)), "k": k})
    for k in range(scale(tier, 40, 600)):
        n = int(r.choice([1, 2, 3, 4]))
        out.append({"kind": "lift", "n": n, "R": "Hform", "ops": pick(r, OPS[:1] + OPS[2:3]), "direct": False, "k": k})
    for k in range(scale(tier, 100, 1500)):
        out.append({"kind": "algebra", "n": int(r.integers(1, 6)), "k": k})
        out.append({"kind": "scaled", "n": int(r.integers(1, 5)), "k": k})
    for k in range(scale(tier, 4, 20)):
        out.append({"kind": "lift", "n": 7, "R": "generic", "ops": "ladder", "direct": bool(k % 2), "k": k, "cost": 1e5})
        out.append({"kind": "rotate", "n": 7, "R": "generic", "ops": "ladder", "left": bool(k % 2), "k": k, "cost": 1e5})
    for k in range(scale(tier, 1, 6)):
        out.append({"kind": "lift", "n": 8, "R": "Hform", "ops": "ladder", "direct": False, "k": k, "cost": 2e5})
    return out + scenarios.specs(["chain", "diag", "random"], scale(tier, 5, 40))


def run(ctx, spec, rng):
    kind = spec["kind"]
    if kind == "scenario":
        return scenarios.run(ctx, spec, rng)
    n = spec["n"]
    if kind == "algebra":
        C = gen.symplectic(rng, n, det=pick(rng, [1, -1]))
        al = [a.astype(complex) for a in O.alphas(n)]
        verbose = bool(rng.random() < 0.2)
        ctx.close(ctx.call("compute_algebra_S", al, verbose=verbose), O.s_matrix(n), "algebra of ladder operators", 0, 1e-8)
        ctx.close(ctx.call("compute_algebra_S", [m.astype(complex) for m in O.majoranas(n)]), np.eye(2 * n), "algebra of Majorana operators", 0, 1e-8)
        rot = ctx.call("rotate_operators", C, al)
        ctx.close(ctx.call("compute_algebra_S", rot), O.s_matrix(n), "algebra preserved by symplectic rotation", 0, 1e-8)
        M = gen.cplx(rng, 2 * n, 2 * n)
        rot = ctx.call("rotate_operators", M, al)
        ctx.close(ctx.call("compute_algebra_S", rot), M @ O.s_matrix(n) @ M.T, "algebra of linearly combined operators", 1e-11, 2e-8)
        ctx.checks["algebra"] += 1
        return
    if kind == "scaled":
        s = float(10.0 ** rng.uniform(-3.7, 3))
        C = gen.symplectic(rng, n, det=pick(rng, [1, -1]))
        al = [a * s for a in np.tensordot(C, np.array(O.alphas(n)), 1)]
        S = O.s_matrix(n)
        if rng.random() < 0.5:
            al, S = [a * s for a in O.majoranas(n)], np.eye(2 * n)
        ctx.close(ctx.call("compute_algebra_S", [a.astype(complex) for a in al]), s * s * S, "algebra of scaled operators", 0, 1e-12 * s * s * 2**n)
        # each operator with its own scale
        t = 10.0 ** rng.uniform(-1.8, 1.5, 2 * n)
        al = [x * a for x, a in zip(t, O.alphas(n))]
        ctx.close(ctx.call("compute_algebra_S", [a.astype(complex) for a in al]), np.outer(t, t) * O.s_matrix(n), "algebra of scaled operators", 1e-11, 1e-14)
        ctx.checks["algebra"] += 1
        return
    R, ops = coef(rng, n, spec["R"]), oplist(rng, n, spec["ops"])
    if kind == "lift":
        d = spec["direct"]
        v = pick(rng, [None, None, False, True, 2]) if n <= 3 else None
        form = int(rng.integers(3))
        if form == 0:
            X = ctx.call("build_op", n, R, ops, v, d)
        elif form == 1:
            X = ctx.call("build_op", n, R, ops, direct=d)
        else:
            X = ctx.call("build_op", n_sites=n, R=R, alphas=ops, verbose=v, direct=d)
        ctx.expect(X.shape == ops[0].shape, "lift has the shape of the operators")
        if not d:
            floor = 1e-15 * np.abs(R).sum() * max(np.abs(o).max() for o in ops) ** 2 * len(ops[0])
            ctx.close(ctx.call("build_op", n, np.conj(R).T, ops), X.conj().T, "lift of the adjoint", 1e-10, floor)
        S = coef(rng, n, "generic")
        if spec["R"] not in ("tiny", "mixed", "large"):
            Y = ctx.call("build_op", n, S, ops, direct=d)
            Z = ctx.call("build_op", n, 2 * R - 1j * S, ops, direct=d)
            ctx.close(Z, 2 * X - 1j * Y, "linearity of the lift", 1e-10, 1e-9)
            ctx.checks["linearity"] += 1
        if spec["R"] == "Hform" and spec["ops"] in ("ladder", "rotated") and not d:
            sc = max(1.0, np.abs(R).max())
            ctx.close(X, X.conj().T, "Hermitian coefficients lift to a Hermitian operator", 0, 1e-10 * sc)
            # [H^, alpha_i] = -2 sum_j H_ij alpha_j
            for i in rng.choice(2 * n, min(3, 2 * n), replace=False):
                want = -2 * sum(R[i, j] * ops[j] for j in range(2 * n))
                ctx.close(X @ ops[i] - ops[i] @ X, want, "commutator with the lifted operator", 0, 1e-8 * sc)
            ctx.checks["commutator"] += 1
        if spec["ops"] != "generic" or n < 4:
            C = coef(rng, n, "generic")
            b = ctx.call("rotate_operators", C, ops)
            if spec["R"] not in ("tiny", "mixed", "large"):
                lhs = ctx.call("build_op", n, S, b, direct=d)
                T = (C.T @ S @ C) if d else (C.conj().T @ S @ C)
                ctx.close(lhs, ctx.call("build_op", n, T, ops, direct=d), "covariance of lift and rotation", 1e-9, 1e-8)
                ctx.checks["covariance"] += 1
        ctx.sample({"n": n, "R": spec["R"], "ops": spec["ops"], "direct": d})
    else:
        left = spec["left"]
        form = int(rng.integers(4))
        verbose = bool(rng.random() < 0.2) and n <= 3
        if form == 0:
            b = ctx.call("rotate_operators", R, ops, left)
        elif form == 1:
            b = ctx.call("rotate_operators", ops, R, Left=left, verbose=verbose)  # swapped on purpose
        else:
            b = ctx.call("rotate_operators", C=R, alphas=ops, Left=left, verbose=verbose)
        ctx.expect(isinstance(b, list) and len(b) == 2 * n, "rotated list length")
        M = np.conj(R).T if left else R
        j = int(rng.integers(2 * n))
        want = sum(M[j, i] * ops[i] for i in range(2 * n))
        sc = max(np.abs(R).max(), 1e-300) * max(np.abs(ops[0]).max(), 1) * 2 * n
        ab = np.abs(R)  # such coefficients may be dropped
        slack = 2e-9 * 2 * n * np.abs(np.array(ops)).max() if np.any((ab > 0) & (ab < 2e-9)) else 0
        ctx.close(b[j], want, "rotated operator", 0, 1e-11 * sc + slack)
        if spec["R"] in ("generic", "real", "sparse", "int"):
            Q = coef(rng, n, "generic")
            one = ctx.call("rotate_operators", Q, ctx.call("rotate_operators", R, ops))
            two = ctx.call("rotate_operators", Q @ R, ops)
            ctx.close(np.array(one), np.array(two), "rotations compose", 1e-9, 1e-8)
        U = gen.symplectic(rng, n)
        back = ctx.call("rotate_operators", U, ctx.call("rotate_operators", U, ops), Left=True)
        ctx.close(np.array(back), np.array(ops), "left action inverts a unitary rotation", 1e-9, 1e-9)
