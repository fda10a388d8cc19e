"""Random free-fermion rotations and states: internal consistency of the outputs."""

import numpy as np
from scipy.linalg import expm, logm

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C11"
CONTRACTS = {}
RULE = (
    "rotations and states for 1..5 sites over many seeds and every combination of returnH/returnOrb/pure/fixedN, with "
    "seed and with the ambient generator state; orbital matrix, generator, many-body unitary and states are checked "
    "against each other. Distinct = distinct (function, options, seed, n)."
)
FLOORS = {"the generator drawn": 100, "orbital matrix": 100, "unitary implements the orbital rotation": 80, "state from its generator": 100, "generator structure": 100, "number conservation": 40, "rotated distribution": 30}


def cases(tier, seed):
    r = crng(tier, seed, 11)
    out = []
    for k in range(scale(tier, 150, 2500)):
        out.append({"kind": "rotation", "n": int(r.choice([1, 1, 2, 2, 3, 3, 4, 5])), "s": int(r.integers(0, 2**31)), "k": k})
    for k in range(scale(tier, 200, 3000)):
        out.append(
            {
                "kind": "state", "n": int(r.choice([1, 2, 2, 3, 3, 4, 5, 5] if k % 20 else [6])), "s": int(r.integers(0, 2**31)), "k": k,
                "pure": bool(r.integers(2)), "fixedN": bool(r.integers(2)), "seeded": bool(r.integers(2)),
            }
        )
    for k in range(scale(tier, 100, 1500)):
        out.append({"kind": "generator", "n": int(r.integers(1, 9)), "fixedN": bool(r.integers(2)), "s": int(r.integers(0, 2**31)), "k": k})
    for k in range(scale(tier, 60, 800)):
        out.append({"kind": "rotated pdf", "n": int(r.integers(1, 5)), "s": int(r.integers(0, 2**31)), "seeded": bool(r.integers(2)), "k": k})
    return out + scenarios.specs(["random"], scale(tier, 4, 40))


def quadratic(ctx, K, n, what):
    """K must be Hermitian and bilinear in the ladder operators."""
    K = np.asarray(K)
    ctx.expect(K.shape == (2**n, 2**n), f"generator structure: {what} shape")
    sc = max(1.0, np.abs(K).max())
    ctx.close(K, K.conj().T, "generator structure", 0, 1e-11 * sc)
    al = O.alphas(n)
    # [K, a_i] must again be linear: expand on the ladder operators
    d = 2**n
    H = np.zeros((2 * n, 2 * n), dtype=complex)
    for i in range(2 * n):
        X = K @ al[i] - al[i] @ K
        for j in range(2 * n):
            H[i, j] = -np.vdot(al[j], X) / (d / 2) / 2
        ctx.close(-2 * sum(H[i, j] * al[j] for j in range(2 * n)), X, "generator structure", 0, 1e-10 * sc)
    return H


def run(ctx, spec, rng):
    kind = spec["kind"]
    if kind == "scenario":
        return scenarios.run(ctx, spec, rng)
    n, s = spec["n"], spec["s"]
    al = O.alphas(n)
    S = O.s_matrix(n)
    if kind == "rotation":
        if rng.random() < 0.4:  # ambient generator state instead of a seed
            np.random.seed(s)
            st = np.random.get_state()
            C = ctx.call("random_FF_rotation", n, returnOrb=True)
            np.random.set_state(st)
            W = ctx.call("random_FF_rotation", n)
            np.random.set_state(st)
            G = ctx.call("random_FF_rotation", n, returnH=True)
        else:
            C = ctx.call("random_FF_rotation", n, seed=s, returnOrb=True)
            W = ctx.call("random_FF_rotation", n, seed=s)
            G = ctx.call("random_FF_rotation", n, s, True)
        C, W, G = np.asarray(C), np.asarray(W), np.asarray(G)
        ctx.expect(C.shape == (2 * n, 2 * n) and W.shape == (2**n, 2**n), "orbital matrix: shapes")
        ctx.close(C @ C.conj().T, np.eye(2 * n), "orbital matrix unitary", 0, 1e-11)
        ctx.close(C @ S @ C.T, S, "orbital matrix symplectic", 0, 1e-11)
        ctx.close(C[:n, :n], C[n:, n:].conj(), "orbital matrix block form", 0, 1e-11)
        Om = O.omega(n)
        Q = Om @ C @ Om.conj().T
        ctx.close(Q.imag, 0 * Q.imag, "orbital matrix real in the Majorana basis", 0, 1e-11)
        ctx.close(np.linalg.det(Q), 1.0, "orbital matrix is a proper rotation", 0, 1e-11)
        ctx.checks["orbital matrix"] += 1
        ctx.close(W @ W.conj().T, np.eye(2**n), "many-body rotation unitary", 0, 1e-11)
        quadratic(ctx, G, n, "rotation generator")
        ctx.close(W, expm(-1j * G), "unitary is the exponential of its generator", 0, 1e-11)
        for i in range(2 * n):
            ctx.close(W.conj().T @ al[i] @ W, sum(C[i, j] * al[j] for j in range(2 * n)), "unitary implements the orbital rotation", 0, 1e-11)
        P = O.parity_diag(n)
        ctx.close(W * P[:, None], W * P[None, :], "rotation preserves parity", 0, 1e-11)
        ctx.nontrivial("rotation", n, s)
    elif kind == "rotated pdf":
        if spec["seeded"]:
            rho, p = ctx.call("random_FF_state_rotPDF", n, True, s) if rng.random() < 0.5 else ctx.call("random_FF_state_rotPDF", n, returnS=True, seed=s)
            plain = ctx.call("random_FF_state_rotPDF", n, seed=s)
        else:
            np.random.seed(s)
            st = np.random.get_state()
            rho, p = ctx.call("random_FF_state_rotPDF", n, returnS=True)
            np.random.set_state(st)
            plain = ctx.call("random_FF_state_rotPDF", n)
        rho, p = np.asarray(rho), np.asarray(p)
        ctx.close(plain, rho, "requesting the distribution does not change the state", 0, 1e-12)
        ctx.expect(p.shape == (2**n,), "rotated distribution: one probability per basis state")
        w, V = np.linalg.eigh((rho + rho.conj().T) / 2)
        ctx.close(w, np.sort(p), "rotated distribution: spectrum", 0, 1e-11)
        order = np.argsort(np.argsort(p))  # the eigenvector which basis state b was rotated to
        V = V[:, order]
        if np.diff(np.sort(p)).min() > 1e-6:
            # a Gaussian unitary adds the same change of the moments for each occupied mode
            M = np.array([O.corr(np.outer(V[:, b], V[:, b].conj()), al) for b in range(2**n)])
            for b in range(2**n):
                bits = [1 << i for i in range(n) if b >> i & 1]
                ctx.close(M[b] - M[0], sum(M[x] - M[0] for x in bits) + np.zeros_like(M[0]), "rotated distribution belongs to the state", 0, 1e-7)
            par = O.parity_diag(n)
            got = np.einsum("ib,i,ib->b", V.conj(), par, V).real
            ctx.close(got, par, "rotated distribution belongs to the state (parities)", 0, 1e-7)
            ctx.checks["rotated distribution"] += 1
    elif kind == "state":
        pure, fixedN = spec["pure"], spec["fixedN"]
        if spec["seeded"]:
            r = ctx.call("random_FF_state", n, fixedN, s, True, pure)
            plain = ctx.call("random_FF_state", n, fixedN=fixedN, seed=s, pure=pure)
        else:
            np.random.seed(s)
            st = np.random.get_state()
            r = ctx.call("random_FF_state", n, fixedN=fixedN, returnH=True, pure=pure)
            np.random.set_state(st)
            plain = ctx.call("random_FF_state", n, fixedN=fixedN, pure=pure)
        ctx.expect(isinstance(r, tuple) and len(r) == 2, "state and generator returned")
        rho, K = np.asarray(r[0]), np.asarray(r[1])
        ctx.close(plain, rho, "requesting the generator does not change the state", 0, 1e-10)
        quadratic(ctx, K, n, "state generator")
        # it is the generator which the same seed or generator state gives on its own
        if not spec["seeded"]:
            np.random.set_state(st)
        kw = {"seed": s} if spec["seeded"] else {}
        if fixedN and not pure:
            G = O.lift(ctx.call("random_H_generator", n, fixedN=True, **kw), al)
        else:
            G = np.asarray(ctx.call("random_FF_rotation", n, returnH=True, **kw))
        ctx.close(K, G, "the generator drawn", 0, 1e-11 * max(1.0, float(np.abs(G).max())))
        if pure:
            ctx.expect(rho.shape == (2**n, 1), "pure state shape")
            z = np.zeros((2**n, 1), dtype=complex)
            z[0] = 1
            ctx.close(rho, expm(-1j * K) @ z, "state from its generator", 0, 1e-11)
            ctx.close(np.linalg.norm(rho), 1.0, "pure state normalised", 0, 1e-11)
        else:
            ctx.expect(rho.shape == (2**n, 2**n), "mixed state shape")
            ctx.close(np.trace(rho), 1.0, "unit trace", 0, 1e-11)
            # rho = exp(-beta K)/Z for some beta >= 0: read beta off the extreme levels
            w, U = np.linalg.eigh((K + K.conj().T) / 2)
            D = np.real(np.diag(U.conj().T @ rho @ U))
            # levels whose population is far above the rounding of the matrix exponential
            ok = np.flatnonzero((w - w[0] > 1e-6) & (D > 1e-7 * D[0]))
            gap = w[-1] - w[0]
            if len(ok):
                k1 = int(ok[np.argmax(D[ok] > 1e-4 * D[0]) if np.any(D[ok] > 1e-4 * D[0]) else 0])
                beta = float(np.log(D[0] / D[k1]) / (w[k1] - w[0]))
                ctx.expect(beta > -1e-7, "state from its generator: negative temperature", beta=beta)
                p = np.exp(-beta * (w - w[0]))
            else:
                p = np.where(w - w[0] < 1e-6, 1.0, 0.0)
            p /= p.sum()
            if gap > 1e-6:
                ctx.close(rho, (U * p) @ U.conj().T, "state from its generator", 0, 1e-9 if len(ok) else 2e-7 * len(p))
            if fixedN:
                N = O.number_op(n)
                ctx.close(rho @ N, N @ rho, "number conservation", 0, 1e-11 * n)
                ctx.close(K @ N, N @ K, "number conservation", 0, 1e-11 * max(1, np.abs(K).max()))
        ctx.nontrivial("state", n, s, pure, fixedN)
        ctx.sample(spec)
    else:
        fixedN = spec["fixedN"]
        H = np.asarray(ctx.call("random_H_generator", n, fixedN, s) if rng.random() < 0.5 else ctx.call("random_H_generator", n, fixedN=fixedN, seed=s))
        ctx.expect(H.shape == (2 * n, 2 * n), "generator structure: coefficient shape")
        A, B = H[n:, n:], H[:n, n:]
        ctx.close(A, A.conj().T, "coefficient blocks Hermitian", 0, 1e-12)
        ctx.close(B, -B.T, "coefficient blocks skew", 0, 1e-12)
        ctx.close(H, O.H_matrix(A, B), "coefficient block form", 0, 1e-12)
        ctx.expect(np.abs(A).max() > 1e-6, "generator structure: trivial")
        if fixedN:
            ctx.close(B, 0 * B, "number conservation", 0, 0)
        elif n > 1:
            ctx.expect(np.abs(B).max() > 1e-6, "generator structure: no pairing terms")
        ctx.nontrivial("generator", n, s, fixedN)


_ = (logm, gen, pick)
