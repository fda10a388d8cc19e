"""Signs, Pfaffians, Hafnians, permanents and determinants."""

import itertools

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C19"
CONTRACTS = contracts.pick("sgn", "pf", "hf", "pt", "dt", "dt_eigen")
RULE = (
    "all permutations up to length 6 and random ones up to length 600; matrices of order 0..8 (symmetric, skew, generic, "
    "triangular, singular, sparse, block, adjacency, with zero diagonal or not) with entries of every numeric kind "
    "(machine integers up to overflow size, unsigned, bool, float32/64, complex, nested lists, strided views) judged by "
    "independent matching/subset expansions, exact for integers; algebraic identities between the functions. Distinct = "
    "argument digests."
)
FLOORS = {"sgn": 1000, "pf": 80, "hf": 80, "pt": 80, "dt": 80, "dt_eigen": 120, "identity": 100}
SHAPES = ("generic", "sym", "skew", "triangular", "singular", "sparse", "block", "adjacency", "zerodiag", "onehot", "rank1", "equal")
TYPES = ("int", "bigint", "uint8", "int32", "bool", "float", "complex", "float32", "mixed", "list", "listc", "strided", "pmone", "imag")


def cases(tier, seed):
    r = crng(tier, seed, 19)
    out = [{"kind": "allperms", "n": n} for n in range(1, 7)]
    out += [{"kind": "perm", "n": int(r.integers(1, 41)), "k": k} for k in range(scale(tier, 60, 800))]
    for s in SHAPES:
        for k in range(scale(tier, 36, 400)):
            f = "pf hf pt dt".split()[k % 4]
            n = int(r.choice([0, 2, 2, 4, 4, 4, 6, 3] if f in ("pf", "hf") else [0, 1, 2, 3, 4, 5, 6]))
            out.append({"kind": "mat", "f": f, "s": s, "t": pick(r, TYPES), "n": n, "k": k})
        for k in range(scale(tier, 20, 250)):
            out.append({"kind": "eig", "s": s, "t": pick(r, TYPES), "n": int(r.integers(1, 9)), "k": k})
    for k in range(scale(tier, 140, 1500)):
        out.append({"kind": "ident", "id": pick(r, ["pf2", "pfcong", "hfbip", "pfbip", "ptperm", "dtswap", "dtmul", "linear", "hfperm", "transpose", "blocks", "scale"]), "k": k})
    for k in range(scale(tier, 2, 20)):
        out.append({"kind": "mat", "f": pick(r, ["pf", "hf"]), "s": pick(r, SHAPES), "t": pick(r, TYPES), "n": 8, "k": k, "cost": 50})
        out.append({"kind": "mat", "f": pick(r, ["pt", "dt"]), "s": pick(r, SHAPES), "t": pick(r, TYPES), "n": 7, "k": k, "cost": 20})
    for k in range(scale(tier, 12, 100)):
        out.append({"kind": "perm", "n": int(r.integers(41, 600)), "k": k})
    for k in range(scale(tier, 2, 10)):
        out.append({"kind": "mat", "f": ["pt", "dt"][k % 2], "s": pick(r, SHAPES), "t": pick(r, TYPES), "n": 8, "k": k, "cost": 200})
    for k in range(scale(tier, 8, 80)):
        out.append({"kind": "eig", "s": pick(r, SHAPES), "t": pick(r, TYPES), "n": int(r.integers(9, 25)), "k": k})
    return out + scenarios.specs(["graph"], scale(tier, 4, 40))


def entries(rng, n, t):
    if t in ("int", "list"):
        return rng.integers(-9, 10, (n, n))
    if t == "bigint":
        return rng.integers(-(10**6), 10**6, (n, n)) * int(10 ** rng.integers(0, 12))
    if t == "uint8":
        return rng.integers(0, 256, (n, n)).astype(np.uint8)
    if t == "int32":
        return rng.integers(-(2**30), 2**30, (n, n)).astype(np.int32)
    if t == "bool":
        return rng.random((n, n)) < 0.5
    if t == "pmone":
        return rng.choice([-1, 0, 1], (n, n))
    if t in ("complex", "listc"):
        return gen.cplx(rng, n, n)
    if t == "imag":
        return 1j * rng.standard_normal((n, n))
    if t == "float32":
        return rng.standard_normal((n, n)).astype(np.float32)
    if t == "mixed":
        return rng.standard_normal((n, n)) * 10.0 ** rng.uniform(-4, 4, (n, n))
    return rng.standard_normal((n, n))


def matrix(rng, s, t, n):
    A = entries(rng, n, t)
    z = A.dtype.type(0)
    if s == "sym":
        A = np.triu(A) | np.triu(A, 1).T if A.dtype == bool else (np.triu(A) + np.triu(A, 1).T).astype(A.dtype)
    elif s == "skew":
        if A.dtype == bool or A.dtype == np.uint8:
            A = A.astype(int)
        A = np.triu(A, 1) - np.triu(A, 1).T
    elif s == "triangular":
        A = np.triu(A) if rng.random() < 0.5 else np.tril(A)
    elif s == "singular" and n > 1:
        A[int(rng.integers(n))] = A[int(rng.integers(n))]
    elif s == "sparse":
        A = np.where(rng.random((n, n)) < 0.35, A, z).astype(A.dtype)
    elif s == "block" and n > 2:
        h = n // 2
        A[:h, h:] = z
        A[h:, :h] = z
    elif s == "adjacency":
        B = rng.random((n, n)) < 0.6
        B = np.triu(B, 1)
        A = (B | B.T).astype(A.dtype)
    elif s == "zerodiag" and n:
        np.fill_diagonal(A, z)
    elif s == "onehot" and n:
        B = np.zeros_like(A)
        for i, j in enumerate(rng.permutation(n)):
            B[i, j] = A[i, j]
        A = B
    elif s == "rank1" and n:
        A = (A[:, :1] & A[:1, :]) if A.dtype == bool else (A[:, :1] * A[:1, :]).astype(A.dtype) if t not in ("bigint", "int32", "uint8") else A
    elif s == "equal":
        A = np.full((n, n), A.reshape(-1)[0]) if n else A
    if t == "strided" and n:
        big = np.zeros((2 * n, 3 * n), dtype=A.dtype)
        big[::2, ::3] = A
        A = big[::2, ::3]
    if t in ("list", "listc") and n:
        return A.tolist()
    return A


def run(ctx, spec, rng):
    k = spec["kind"]
    if k == "scenario":
        return scenarios.run(ctx, spec, rng)
    if k == "allperms":
        for p in itertools.permutations(range(spec["n"])):
            ctx.call("sgn", p)
        return
    if k == "perm":
        n = spec["n"]
        p = rng.permutation(n)
        q = rng.permutation(n)
        a = ctx.call("sgn", pick(rng, [p, p.tolist(), tuple(int(x) for x in p)]))
        b = ctx.call("sgn", q)
        ctx.expect(ctx.call("sgn", p[q]) == a * b, "identity: the sign is multiplicative", p=p, q=q)
        lab = np.sort(rng.choice(10 * n, n, replace=False))
        ctx.expect(ctx.call("sgn", lab[p]) == a, "identity: only the relative order matters", p=p)
        return
    if k in ("mat", "eig"):
        A = matrix(rng, spec["s"], spec["t"], spec["n"])
        if k == "mat":
            ctx.call(spec["f"], A)
            ctx.sample({"f": spec["f"], "A": np.asarray(A).tolist() if spec["n"] < 4 else spec})
            return
        A = np.asarray(A)
        if A.dtype.kind in "bu":
            A = A.astype(int)
        if A.dtype.kind == "i" and spec["t"] in ("bigint", "int32"):
            A = A.astype(float)
        if A.dtype == np.float32:
            A = A.astype(float)
        if rng.random() < 0.3:
            m = int(rng.integers(9, 25))
            A = gen.cplx(rng, m, m) if rng.random() < 0.5 else rng.standard_normal((m, m))
        if rng.random() < 0.25 and A.dtype.kind in "fc":
            A = A * 10.0 ** rng.uniform(-9, 3)  # the scale of the entries is immaterial
        ctx.call("dt_eigen", A)
        if rng.random() < 0.1:
            ctx.call("dt_eigen", rng.standard_normal((2, 3)))
        return
    ident(ctx, spec["id"], rng)


def ident(ctx, i, rng):
    c = lambda f, x: complex(ctx.call(f, x))  # noqa: E731
    ints = rng.random() < 0.4

    def M(a, b=None):
        b = a if b is None else b
        return rng.integers(-3, 4, (a, b)) if ints else rng.standard_normal((a, b)) + (1j * rng.standard_normal((a, b)) if rng.random() < 0.5 else 0)

    def eq(x, y, what):
        ctx.expect(abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y), sc), f"identity: {what}", left=x, right=y)

    sc = 1.0
    n = int(rng.choice([2, 4, 4, 6]))
    A = M(n)
    S = np.triu(A, 1) - np.triu(A, 1).T
    Y = np.triu(A, 1) + np.triu(A, 1).T
    m = int(rng.integers(1, 4))
    B, C = M(m), M(m)
    if i == "pf2":
        sc = float(np.prod(np.linalg.norm(S, axis=1) + 1e-9))
        eq(c("pf", S) ** 2, c("dt", S) if n < 6 else complex(np.linalg.det(S.astype(complex))), "pf(A)^2 = det(A)")
    elif i == "pfcong":
        n = 4
        S = S[:4, :4] if len(S) > 3 else np.block([[S, 0 * S], [0 * S, S]])
        Q = M(4)
        sc = float(np.linalg.norm(Q) ** 4 * np.linalg.norm(S) ** 2)
        eq(c("pf", Q @ S @ Q.T), c("dt", Q) * c("pf", S), "pf(QAQ^T) = det(Q) pf(A)")
    elif i == "hfbip":
        Z = np.zeros((m, m), dtype=B.dtype)
        eq(c("hf", np.block([[Z, B], [B.T, Z]])), c("pt", B), "hafnian of a bipartite matrix is the permanent")
    elif i == "pfbip":
        Z = np.zeros((m, m), dtype=B.dtype)
        eq(c("pf", np.block([[Z, B], [-B.T, Z]])), (-1) ** (m * (m - 1) // 2) * c("dt", B), "pfaffian of a bipartite matrix is the determinant")
    elif i == "ptperm":
        m = 4
        B = M(m)
        eq(c("pt", B[rng.permutation(m)][:, rng.permutation(m)]), c("pt", B), "the permanent ignores row and column order")
    elif i == "dtswap":
        m = 4
        B = M(m)
        p = rng.permutation(m)
        eq(c("dt", B[p]), O.perm_sign(p) * c("dt", B), "reordering rows multiplies the determinant by the sign")
    elif i == "dtmul":
        sc = float(np.linalg.norm(B) ** m * np.linalg.norm(C) ** m)
        eq(c("dt", B @ C), c("dt", B) * c("dt", C), "det(BC) = det(B) det(C)")
        eq(c("dt_eigen", B @ C), c("dt", B) * c("dt", C), "both determinants agree")
    elif i == "linear":
        f = pick(rng, ["pt", "dt"])
        m = int(rng.integers(2, 5))
        B, row = M(m), M(1, m)
        i = int(rng.integers(m))
        B2, B3 = B.astype(complex), B.astype(complex)
        B2[i] = row
        B3[i] = B[i] * 2 - 3 * row
        eq(c(f, B3), 2 * c(f, B) - 3 * c(f, B2), f"{f} is linear in each row")
    elif i == "hfperm":
        p = rng.permutation(n)
        eq(c("hf", Y[np.ix_(p, p)]), c("hf", Y), "the hafnian ignores the vertex order")
        eq(c("pf", S[np.ix_(p, p)]), O.perm_sign(p) * c("pf", S), "reordering vertices multiplies the pfaffian by the sign")
    elif i == "transpose":
        f = pick(rng, ["pt", "dt", "hf", "pf", "dt_eigen"])
        X = A if n < 6 else A[:4, :4]
        sc = float(np.linalg.norm(X) ** 4)
        eq(c(f, X.T.copy()), c(f, X) * ((-1) ** (len(X) // 2) if f == "pf" else 1), f"{f} of the transpose")
    elif i == "blocks":
        f = pick(rng, ["pt", "dt"])
        eq(c(f, np.block([[B, np.zeros((m, m), dtype=B.dtype)], [np.zeros((m, m), dtype=B.dtype), C]])), c(f, B) * c(f, C), f"{f} of a direct sum")
    elif i == "scale":
        f = pick(rng, ["pt", "dt", "hf", "pf"])
        X = A if n < 6 else A[:4, :4]
        sc = float(3 ** len(X) * np.linalg.norm(X) ** len(X))
        eq(c(f, 3 * X), 3 ** (len(X) if f in ("pt", "dt") else len(X) // 2) * c(f, X), f"{f} is homogeneous")
    ctx.nontrivial(i, A, B)
