"""Structural predicates: symplectic, canonical block form, matchgate."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C07"
CONTRACTS = contracts.pick("is_symp", "check_canonical_form", "is_matchgate")
RULE = (
    "members of each class built independently (symplectic unitaries of both orientations and non-unitary "
    "symplectics, canonical block matrices with zero and repeated blocks, matchgates of generic, diagonal, "
    "permuted-phase and singular kind), and near members obtained by one targeted perturbation (one entry, one sign, "
    "one phase, a transposition, swapped blocks, misaligned blocks, a scale factor, an imaginary part, an entry that is not a number), magnitudes "
    "2e-4..10. Verdicts inside the tolerance band are not judged. Distinct = distinct argument digests."
)
FLOORS = {"is_symp": 300, "check_canonical_form": 300, "is_matchgate": 300, "member": 300, "non-member": 300}

SYMP_BREAK = ("entry", "scale", "transpose_block", "unitary", "phase", "swap_rows", "sign_row", "conj", "random", "gl", "balanced", "stretch", "hidden", "nan", "odd", "rect")
CAN_BREAK = ("entry", "sign", "misaligned", "imag", "symmetric", "odd", "rect", "scaled_corner", "complex_block", "diag", "balanced", "halves", "offblock", "nan")
MG_BREAK = ("entry", "swap", "phase", "shape", "inner_scale", "cnot", "fake_even", "outer_scale", "conj_det", "real_det", "imag_det", "abs_det", "nan")


def cases(tier, seed):
    r = crng(tier, seed, 7)
    out = []
    m = scale(tier, 45, 600)
    for k in range(m):
        for b in SYMP_BREAK:
            out.append({"kind": "symp", "n": int(r.integers(1, 6)), "b": b, "k": k})
        for b in CAN_BREAK:
            out.append({"kind": "can", "n": int(r.integers(1, 7)), "b": b, "k": k})
        for b in MG_BREAK:
            out.append({"kind": "mg", "b": b, "k": k})
    for k in range(scale(tier, 4, 40)):
        out += [{"kind": "symp", "n": int(r.integers(6, 25)), "b": b, "k": k} for b in SYMP_BREAK]
        out += [{"kind": "can", "n": int(r.integers(7, 33)), "b": b, "k": k} for b in CAN_BREAK]
    return out + scenarios.specs(["chain", "random"], scale(tier, 4, 40))


def member(ctx, name, M, **kw):
    r = ctx.call(name, M, **kw)
    ctx.expect(bool(r) is True, f"member: {name} refused a member", M=M)


def non_member(ctx, name, M, **kw):
    r = ctx.call(name, M, **kw)
    ctx.expect(bool(r) is False, f"non-member: {name} accepted a non-member", M=M)


def hidden(rng, n):
    """A Hermitian matrix of spectral norm one which vanishes on common test functionals."""
    if rng.random() < 0.4 or n < 4:  # imaginary: no real probe sees it
        Q = 1j * rng.standard_normal((n, n))
        Q = Q + Q.conj().T
        if rng.random() < 0.5 and n > 1:
            i, j = rng.choice(n, 2, replace=False)
            Q = np.zeros((n, n), dtype=complex)
            Q[i, j], Q[j, i] = 1j, -1j
    else:
        Q = rng.standard_normal((n, n))
        Q = Q + Q.T
        o, a = np.ones(n), np.arange(n)
        F = [np.eye(n), np.outer(o, o), np.outer(a, a + n) + np.outer(a + n, a), np.outer(a, o) + np.outer(o, a), np.outer(a + 1, a + 1 + n) + np.outer(a + 1 + n, a + 1)]
        F = np.linalg.qr(np.array([f.reshape(-1) for f in F], dtype=float).T)[0]
        q = Q.reshape(-1)
        Q = (q - F @ (F.T @ q)).reshape(n, n)
        Q = (Q + Q.T) / 2
    s = np.linalg.norm(Q, 2)
    return Q / s if s > 1e-9 else np.diag([1.0] + [0.0] * (n - 1))


def run(ctx, spec, rng):
    k = spec["kind"]
    if k == "scenario":
        return scenarios.run(ctx, spec, rng)
    eps = 10.0 ** rng.uniform(-3.8, 1)
    if k == "symp":
        n, S = spec["n"], O.s_matrix(spec["n"])
        U = gen.symplectic(rng, n, det=pick(rng, [1, -1]))
        form = int(rng.integers(5))
        if form == 0:
            U = np.eye(2 * n)[rng.permutation(n).tolist() * 1 + list(range(n, 2 * n))] if n == 1 else np.eye(2 * n)
        elif form == 1:  # non-unitary member: (A, A^-T)
            A = gen.cplx(rng, n, n) + 2 * np.eye(n)
            U = np.block([[A, np.zeros((n, n))], [np.zeros((n, n)), np.linalg.inv(A).T]])
        elif form == 2:  # real orthogonal block-diagonal member
            Q = gen.orthogonal(rng, n)
            U = np.block([[Q, np.zeros((n, n))], [np.zeros((n, n)), Q]])
        elif form == 4 and rng.random() < 0.5:  # very unequal entries
            a = 10.0 ** rng.uniform(-3.5, 3.5, n)
            U = np.diag(np.concatenate([a, 1 / a]))
        elif form == 3:  # particle-hole exchange on a subset
            U = np.eye(2 * n)
            for i in range(n):
                if rng.random() < 0.5:
                    U[[i, n + i]] = U[[n + i, i]]
        member(ctx, "is_symp", U)
        member(ctx, "is_symp", S.copy())
        M = np.array(U, dtype=complex)
        i, j = rng.integers(0, 2 * n, 2)
        b = spec["b"]
        if b == "entry":
            M[i, j] += eps * np.exp(1j * rng.uniform(0, 6.28))
        elif b == "scale":
            M = M * (1 + pick(rng, [0.01, -0.05, 1, 1j]))
        elif b == "transpose_block":
            M = gen.cplx(rng, 2 * n, 2 * n)
        elif b == "unitary":
            M = gen.unitary(rng, 2 * n)
        elif b == "phase":
            M[i] = M[i] * np.exp(1j * rng.uniform(0.2, 6))
        elif b == "swap_rows":
            M[[0, 2 * n - 1]] = M[[2 * n - 1, 0]]
        elif b == "sign_row":
            M[i] = -M[i]
        elif b == "conj":
            M = gen.orthogonal(rng, 2 * n).astype(complex)
        elif b == "random":  # block form but not symplectic
            s, t = gen.cplx(rng, n, n), gen.cplx(rng, n, n)
            M = np.block([[s, t.conj()], [t, s.conj()]])
        elif b == "balanced":  # equal perturbations of both signs
            e = rng.permutation(4 * n * n)[: 2 * int(rng.integers(1, 2 * n * n + 1))]
            M.reshape(-1)[e] += eps * np.where(np.arange(len(e)) % 2, -1, 1)
        elif b == "stretch":  # diag(a, 1/a) up to a small factor: not of block form
            a = np.exp(rng.uniform(-1, 1, n)) if rng.random() < 0.5 else 10.0 ** rng.uniform(-3.5, 3.5, n)
            M = np.diag(np.concatenate([a, (1 + min(eps, 0.5) * rng.choice([-1, 1], n)) / a])).astype(complex)
            if n > 1 and rng.random() < 0.5:
                Q = gen.orthogonal(rng, n)
                M = np.kron(np.eye(2), Q) @ M
        elif b == "hidden":  # block form kept, error invisible to traces and to the usual probe vectors
            E = min(eps, 0.3) * hidden(rng, n)
            L = np.linalg.cholesky(np.eye(n) + E)
            M = np.block([[L, np.zeros((n, n))], [np.zeros((n, n)), L.conj()]]) @ gen.symplectic(rng, n)
        elif b == "nan":
            M[i, j] = np.nan
            return non_member(ctx, "is_symp", M)
        elif b in ("odd", "rect"):  # no such matrix is symplectic, identities and permutations included
            m = 2 * n + pick(rng, [-1, 1])
            w = m if b == "odd" else pick(rng, [m - 1, m + 1, m + 2, 1])
            M = pick(rng, [np.eye(m, w), np.zeros((m, w)), gen.cplx(rng, m, w), np.ones((m, w)), np.eye(m, w)[rng.permutation(m)]])
            if rng.random() < 0.5 and b == "rect":
                M = M.T.copy()
            return non_member(ctx, "is_symp", M)
        else:
            M[:n, :n] *= 1 + eps
        d = np.abs(M @ S @ M.T - S).max()
        if d > 1e-4 * max(1, np.abs(M).max()):
            non_member(ctx, "is_symp", M)
        else:
            ctx.call("is_symp", M)
    elif k == "can":
        n = spec["n"]
        L = np.zeros((2 * n, 2 * n))
        for a in range(n):
            v = float(pick(rng, [0.0, 1.0, -1.0, rng.normal(), 10 * rng.normal(), 1e-3]))
            L[2 * a, 2 * a + 1], L[2 * a + 1, 2 * a] = v, -v
        member(ctx, "check_canonical_form", L.astype(complex) if rng.random() < 0.4 else L)
        if rng.random() < 0.3:
            member(ctx, "check_canonical_form", np.rint(L).astype(int))
        M, b = L.astype(complex), spec["b"]
        i, j = rng.integers(0, 2 * n, 2)
        if b == "entry":
            M[i, j] += eps
        elif b == "sign":
            M[0, 1] = M[1, 0] = max(eps, 0.1)
        elif b == "misaligned":  # canonical blocks shifted by one (what a leading zero mode does)
            M = np.zeros((2 * n, 2 * n), dtype=complex)
            for a in range(n - 1):
                M[2 * a + 1, 2 * a + 2], M[2 * a + 2, 2 * a + 1] = 1 + a, -1 - a
        elif b == "imag":
            M[0, 1], M[1, 0] = M[0, 1] + 1j * eps, M[1, 0] - 1j * eps
        elif b == "symmetric":
            M[i, j] += eps
            M[j, i] += eps
        elif b == "odd":
            M = np.zeros((2 * n - 1, 2 * n - 1))
        elif b == "rect":
            M = np.zeros((2 * n, 2 * n + pick(rng, [-1, 1, 2])))
        elif b == "scaled_corner" and n > 1:
            M[0, 2 * n - 1], M[2 * n - 1, 0] = eps, -eps
        elif b == "offblock" and n > 1:
            for _ in range(int(rng.integers(1, 3))):
                while i // 2 == j // 2:
                    i, j = rng.integers(0, 2 * n, 2)
                M[i, j] += eps
                M[j, i] -= eps
        elif b == "complex_block":
            M = M * 1j
        elif b == "diag":
            M[i, i] += eps
        elif b == "balanced":
            e = rng.permutation(4 * n * n)[: 2 * int(rng.integers(1, 2 * n * n + 1))]
            M.reshape(-1)[e] += eps * np.where(np.arange(len(e)) % 2, -1, 1)
        elif b == "halves":  # blocks not skew, errors of opposite sign in two blocks
            for a, s in zip(rng.permutation(n)[:2], (1, -1)):
                M[2 * a, 2 * a + 1] += s * eps
        elif b == "nan":
            M = M if rng.random() < 0.5 else M.real
            M[i, j] = np.nan
        if b in ("odd", "rect", "nan"):
            non_member(ctx, "check_canonical_form", M)
        else:
            W = np.zeros((2 * n, 2 * n))
            for a in range(n):
                v = np.real(M[2 * a, 2 * a + 1] - M[2 * a + 1, 2 * a]) / 2
                W[2 * a, 2 * a + 1], W[2 * a + 1, 2 * a] = v, -v
            if np.abs(M - W).max() > 6e-5 * max(1, np.abs(M).max()):
                non_member(ctx, "check_canonical_form", M)
            else:
                member(ctx, "check_canonical_form", W)
    else:
        A, B = gen.cplx(rng, 2, 2), gen.cplx(rng, 2, 2)
        form = int(rng.integers(5))
        if form == 0:
            A, B = A.real, B.real
        if form == 1:
            A, B = gen.unitary(rng, 2), gen.unitary(rng, 2)
        B = B * np.sqrt(np.linalg.det(A).astype(complex) / np.linalg.det(B))
        if form == 2:  # both singular
            A = np.outer(A[0], A[1])
            B = np.outer(B[0], B[1])
        if form == 3:  # exchange-like: inner off-diagonal only
            A = np.array([[0, 1], [1, 0]]) * np.exp(1j * rng.uniform(0, 6))
            B = np.diag([-A[0, 1] * A[1, 0], 1])
        M = np.zeros((4, 4), dtype=complex)
        M[1:3, 1:3] = B
        M[0, 0], M[0, 3], M[3, 0], M[3, 3] = A.reshape(-1)
        v = bool(rng.random() < 0.3)
        member(ctx, "is_matchgate", M, verbose=v)
        b = spec["b"]
        X = M.copy()
        if b == "entry":
            i, j = pick(rng, [(0, 0), (0, 3), (3, 3), (1, 1), (1, 2), (2, 2), (3, 0), (2, 1)])
            X[i, j] += eps
        elif b == "swap":
            X = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex) * np.exp(1j * rng.uniform(0, 6))
        elif b == "phase":
            X[1] = X[1] * np.exp(1j * rng.uniform(0.3, 5.9))
        elif b == "shape":
            non_member(ctx, "is_matchgate", gen.cplx(rng, *pick(rng, [(2, 2), (4, 5), (5, 4), (8, 8), (3, 4), (16, 1), (2, 8), (8, 2), (1, 16), (16,)])))
        elif b == "nan":
            X[pick(rng, [(0, 0), (0, 3), (3, 3), (1, 1), (1, 2), (2, 2), (3, 0), (2, 1)])] = np.nan
            return non_member(ctx, "is_matchgate", X)
        elif b == "inner_scale":
            X[1:3, 1:3] *= 1 + eps
        elif b == "cnot":
            X = np.diag([1, 1, 1, -1]).astype(complex)
        elif b == "fake_even":  # determinants agree only in modulus
            X[1:3, 1:3] = X[[2, 1], 1:3]
        elif b == "outer_scale":
            X[0, :] *= 1 + eps
        elif b.endswith("_det"):  # determinants related, but not equal
            A, B = gen.cplx(rng, 2, 2), gen.cplx(rng, 2, 2)
            z = np.linalg.det(A)
            e = eps * pick(rng, [1, -1])
            w = {"conj_det": z.conj(), "real_det": z + 1j * e, "imag_det": z + e, "abs_det": z * np.exp(1j * rng.uniform(0.1, 6.1))}[b]
            B = B * np.sqrt(w / np.linalg.det(B))
            X[1:3, 1:3] = B
            X[0, 0], X[0, 3], X[3, 0], X[3, 3] = A.reshape(-1)
        x = X[1, 1] * X[2, 2] - X[1, 2] * X[2, 1]
        y = X[0, 0] * X[3, 3] - X[0, 3] * X[3, 0]
        if abs(x - y) > 1e-4 * max(1, abs(x), abs(y)):
            non_member(ctx, "is_matchgate", X, verbose=v)
        # entries outside the parity blocks do not enter the condition
        Y = M.copy()
        Y[0, 1] = Y[2, 3] = complex(rng.normal())
        member(ctx, "is_matchgate", Y)
    ctx.sample(spec)
