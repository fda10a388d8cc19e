"""Inputs outside the documented domain are refused, and refusing is harmless."""

import random
import warnings

import networkx as nx
import numpy as np

from .. import catalog, core, gen, oracles as O
from .util import crng, pick, scale

ID = "C31"
CONTRACTS = {}
RULE = (
    "per entry point with a documented domain: wrong types, non-positive sizes, vectors of wrong norm, matrices of wrong "
    "trace / not Hermitian / indefinite / not square, non-dividing subsystem dimensions, non-trees, non-planar graphs, "
    "impossible weights and particle numbers, malformed symplectic/canonical/matchgate candidates, at magnitudes from "
    "blatant to just outside tolerance; a refused call must leave its arguments and later results unchanged. "
    "Distinct = (function, arguments)."
)
FLOORS = {"rejection": 500, "arguments of a refused call untouched": 500, "answers no": 120, "process state untouched by a refused call": 2000, "usable after refusal": 500, "neighbouring valid input accepted": 150}
REFUSED = (ValueError, AssertionError, TypeError)
SIZED = (
    "generate_pauli_group", "ff_random_states.random_qubit_state", "random_qubit_pure_state", "random_CHP_state",
    "random_FF_state_randH", "random_FF_state_rotPDF", "random_FF_pure_state_W0", "random_FF_pure_state_WN",
    "random_FF_pure_state_CN",
)
# functions that take a state through the common cast, with the other arguments
CASTING = {
    "cast_to_density_matrix": 1, "cast_to_pdf": 1, "analyze_pdf": 1, "stabilizer_distribution": 1, "SRE": 1, "FAF": 1,
    "cov_distribution": 1, "total_variation_distance": 2, "trace_distance": 2, "relative_entropy": 2, "bhattacharyya_coeff": 2,
    "jensen_shannon_divergence": 2, "renyi_entropy": 1,
}
BAD_STATES = ("vector_norm", "zero_vector", "pdf_sum", "trace", "not_hermitian", "indefinite", "rectangular", "negative_pdf", "complex_pdf", "nan", "inf")
MISC = (
    "wn_number", "bitstring", "linear_entropy", "ptrace", "nonplanar", "nontree", "clean_type", "eigm_real", "eigm_skew",
    "permutation", "eigh_form", "dt_eigen", "pdf_type", "pdf_empty",
)
PRED = ("is_symp", "check_canonical_form", "is_matchgate")


def cases(tier, seed):
    r = crng(tier, seed, 31)
    out = []
    for f in SIZED:
        for k in range(scale(tier, 14, 80)):
            out.append({"kind": "size", "f": f, "k": k})
    for f in CASTING:
        for b in BAD_STATES:
            for k in range(scale(tier, 4, 60)):
                out.append({"kind": "state", "f": f, "b": b, "k": k})
    for m in MISC:
        for k in range(scale(tier, 24, 300)):
            out.append({"kind": "misc", "m": m, "k": k})
    for p in PRED:
        for k in range(scale(tier, 60, 800)):
            out.append({"kind": "pred", "p": p, "k": k})
    _ = r
    return out


def refuse(ctx, rng, exc, f, *a, **k):
    d = core.digest(list(a), k)
    before = process_state()
    ctx.refuses(exc, f, *a, **k)
    for (what, x), (_, y) in zip(before, process_state()):
        ctx.expect(x == y, f"process state untouched by a refused call: {what} ({f})")
    ctx.expect(core.digest(list(a), k) == d, f"arguments of a refused call untouched: {f}", now=a)
    usable(ctx, rng, f)
    ctx.nontrivial(f, list(a), k)


def process_state():
    import matplotlib

    s = np.random.get_state()
    return [
        ("NumPy generator", (s[0], s[1].tobytes(), s[2:])), ("Python generator", random.getstate()), ("NumPy error handling", np.geterr()),
        ("NumPy print options", {k: repr(v) for k, v in np.get_printoptions().items()}),
        ("plot settings", {k: repr(v) for k, v in dict.items(matplotlib.rcParams)}), ("warning filters", list(warnings.filters)),
    ]


def usable(ctx, rng, f):
    """A valid call of the same function right after the refusal."""
    forms = [e for e in catalog.CAT if e[0].split(".")[-1] == f.split(".")[-1] and not set("NB") & set(e[2])]
    if not forms:
        return
    name, mk, flags = pick(rng, forms)
    s = int(rng.integers(2**31))
    a, k = mk(np.random.default_rng(s))
    np.random.seed(s)
    random.seed(s)
    ctx.call(name, *a, **k)
    ctx.checks["usable after refusal"] += 1
    if "P" in flags:
        import matplotlib.pyplot as plt

        plt.close("all")


def run(ctx, spec, rng):
    k = spec["kind"]
    if k == "size":
        f = spec["f"]
        bad = [0, -1, -7, 2.0, 1.5, "3", None, [2], (1,), 2 + 0j, np.float64(2.0), np.array([1, 2]), float("nan"), {}][spec["k"] % 14]
        want = ValueError if isinstance(bad, int) else TypeError
        kw = {"seed": 3} if "CHP" not in f and f != "generate_pauli_group" and rng.random() < 0.5 else {}
        refuse(ctx, rng, want, f, bad, **kw)
        ctx.call(f, 1)
        ctx.checks["neighbouring valid input accepted"] += 1
    elif k == "state":
        f = spec["f"]
        n = int(rng.integers(1, 4))
        if spec["k"] % 4 == 3 and f not in ("stabilizer_distribution", "SRE"):
            n = int(rng.integers(5, 8))
        x = gen.bad_state(rng, spec["b"], n)
        if f == "analyze_pdf" and spec["k"] % 2:
            x = x.tolist()
        # the other argument in every representation, or the same bad one
        good = pick(rng, [gen.state(rng, n, "mixed"), gen.pdf(rng, 2**n, pick(rng, gen.PDF_MODES)), gen.pdf(rng, 2**n, "dirichlet").reshape(-1, 1), gen.wavefunction(rng, 2**n), np.copy(x)])
        if f != "analyze_pdf" and rng.random() < 0.2:
            x = x.tolist()
        if CASTING[f] == 2:
            a = (x, good) if rng.random() < 0.5 else (good, x)
        else:
            a = (x,)
        if f == "renyi_entropy":
            a += (pick(rng, [0, 1, 2, 0.5, 3.5, np.inf, 1e-3]),)
        kw = {"a": 2} if f == "SRE" and rng.random() < 0.5 else {}
        refuse(ctx, rng, (ValueError, AssertionError), f, *a, **kw)
    elif k == "misc":
        misc(ctx, spec["m"], rng)
    else:
        predicate(ctx, spec["p"], rng)
    ctx.sample(spec)


def misc(ctx, m, rng):
    if m == "wn_number":
        n = int(rng.integers(1, 4))
        N = pick(rng, [-1, n + 1, n + 5, 1.0, "1", 0.5])
        refuse(ctx, rng, (ValueError, TypeError), "random_FF_pure_state_WN", n, N, **({"seed": 1} if rng.random() < 0.5 else {}))
        for N in (0, n):
            ctx.call("random_FF_pure_state_WN", n, N)
            ctx.checks["neighbouring valid input accepted"] += 1
    elif m == "bitstring":
        n = int(rng.integers(0, 9))
        w = pick(rng, [-1, -3, n + 1, n + 4])
        ctx.expect(ctx.call("generate_random_bitstring", n, w) is None, "answers no: impossible weight", n=n, k=w)
        ctx.expect(ctx.call("generate_random_bitstring", n, n) is not None, "neighbouring valid input accepted: full weight", n=n)
    elif m == "linear_entropy":
        d = pick(rng, [2, 3, 5, 8, 15, 17, 32, 24])
        refuse(ctx, rng, (AssertionError, ValueError), "linear_entropy", rng.dirichlet(np.ones(d)))
        ctx.call("linear_entropy", rng.dirichlet(np.ones(9)))
        ctx.checks["neighbouring valid input accepted"] += 1
    elif m == "ptrace":
        D = int(rng.integers(2, 13) if rng.random() < 0.5 else rng.integers(7, 28))
        bad = [d for d in range(2, 2 * D) if D % d]
        if rng.random() < 0.5:
            bad = [d for d in bad if d * d <= D] or bad
        f = pick(rng, ["ff_utils.partial_trace_blockTr", "ff_utils.partial_trace_diagblocksum", "partial_trace_over_1", "partial_trace_over_2"])
        M = gen.cplx(rng, D, D)
        refuse(ctx, rng, (AssertionError, ValueError), f, M, pick(rng, bad))
        for d in (1, D):
            ctx.call(f, M, d)
            ctx.checks["neighbouring valid input accepted"] += 1
    elif m == "nonplanar":
        G = gen.relabel(rng, gen.nonplanar(rng, pick(rng, gen.NONPLANAR_KINDS)), pick(rng, gen.LABELS))
        if rng.random() < 0.4:  # non-planarity in one component only
            G = nx.disjoint_union(gen.planar(rng, "cycle", 4), G)
        refuse(ctx, rng, (AssertionError, ValueError, nx.NetworkXException), "count_perfect_matchings_planar", G)
    elif m == "nontree":
        n = int(rng.integers(3, 9))
        G = pick(rng, [nx.cycle_graph(n), nx.disjoint_union(nx.path_graph(n), nx.path_graph(2)), nx.complete_graph(n), nx.empty_graph(n), nx.disjoint_union(nx.cycle_graph(3), nx.path_graph(1))])
        G = gen.relabel(rng, G, pick(rng, gen.LABELS))
        refuse(ctx, rng, ValueError, "compute_tree_depth", G)
    elif m == "clean_type":
        refuse(ctx, rng, TypeError, "clean", pick(rng, [None, {"a": 1.0}, {1.0}, (1.0, 2.0), object(), b"1.0", len]))
    elif m == "eigm_real":
        n = int(rng.integers(1, 4))
        R = rng.standard_normal((2 * n, 2 * n))
        R = R - R.T
        G = pick(rng, [R, 1j * R + 0.3 * R, 1j * R + pick(rng, [0.5, 1e-2]) * np.eye(2 * n)])
        refuse(ctx, rng, (AssertionError, ValueError), pick(rng, ["eigm_sp_can", "eigm_sp"]), G)
    elif m == "eigm_skew":
        n = int(rng.integers(1, 4))
        R = rng.standard_normal((2 * n, 2 * n))
        R = R - R.T
        S = rng.standard_normal((2 * n, 2 * n))
        G = 1j * (R + float(pick(rng, [0.01, 0.3, 1.0])) * (S + S.T))
        refuse(ctx, rng, (AssertionError, ValueError), "eigm_sp", G)
    elif m == "eigh_form":
        n = int(rng.integers(1, 5))
        A, B = gen.herm_skew(rng, n, "generic", "generic")
        H = O.H_matrix(A, B)
        how = pick(rng, ["no_ph", "not_hermitian", "pairing"])
        e = float(pick(rng, [1.0, 0.1, 0.01]))
        if how == "no_ph":  # Hermitian without the particle-hole structure
            H[0, 0] += e
        elif how == "not_hermitian":
            H = H + e * 1j * np.eye(2 * n)
        else:  # symmetric pairing part
            H[0, n] += e
            H[n, 0] += e
        refuse(ctx, rng, (AssertionError, ValueError), "eigh_sp", H)
    elif m == "permutation":
        n = int(rng.integers(1, 6))
        p = [int(x) for x in rng.permutation(n)]
        p[int(rng.integers(n))] = int(pick(rng, [-1, n, n + 3, -n - 1]))
        ctx.expect(ctx.call("permutation_to_matrix", p) is None, "answers no: index out of range", p=p)
        ctx.expect(ctx.call("permutation_to_matrix", list(range(n))) is not None, "neighbouring valid input accepted: identity", n=n)
    elif m == "dt_eigen":
        a, b = (int(x) for x in rng.choice(np.arange(1, 6), 2, replace=False))
        ctx.expect(ctx.call("dt_eigen", rng.standard_normal((a, b))) is None, "answers no: non-square determinant", shape=(a, b))
        ctx.expect(ctx.call("dt_eigen", rng.standard_normal((a, a))) is not None, "neighbouring valid input accepted: square", n=a)
    elif m == "pdf_type":
        refuse(ctx, rng, TypeError, "analyze_pdf", pick(rng, [None, 3, "x", {"a": 1}, (0.5, 0.5), 1.0, {0.5}]))
    elif m == "pdf_empty":
        refuse(ctx, rng, ValueError, "analyze_pdf", pick(rng, [[], np.array([]), np.zeros((0, 0)), [[]], np.zeros((0, 2))]))
    else:
        raise KeyError(m)


def predicate(ctx, p, rng):
    """Malformed candidates get the answer no, not an exception."""
    if p == "is_symp":
        n = int(rng.integers(1, 5))
        U = gen.symplectic(rng, n)
        bad = pick(rng, [
            U * pick(rng, [2.0, 1.05, 0.5]),
            gen.cplx(rng, 2 * n, 2 * n),
            U + pick(rng, [1.0, 0.01]) * np.eye(2 * n)[::-1] * (1 + 0.3j),
            np.zeros((2 * n, 2 * n)),
            np.exp(1j * rng.uniform(0.2, 1.2)) * U,
        ])
        ctx.expect(not ctx.call("is_symp", bad), "answers no: not symplectic", U=bad)
        ctx.expect(bool(ctx.call("is_symp", U)), "neighbouring valid input accepted: symplectic", U=U)
    elif p == "check_canonical_form":
        n = int(rng.integers(1, 5))
        L = np.kron(np.diag(rng.uniform(0.1, 3, n)), np.array([[0.0, 1.0], [-1.0, 0.0]]))
        bad = L.copy()
        i, j = rng.choice(2 * n, 2, replace=False)
        if rng.random() < 0.5:
            bad[i, i] = pick(rng, [1.0, -0.1])
        elif rng.random() < 0.5 and n > 1:
            i, j = 2 * int(rng.integers(n)), 0
            j = (i + 2) % (2 * n)
            bad[i, j] = 0.5
            bad[j, i] = -0.5
        else:
            i = 2 * int(rng.integers(n))
            bad[i, i + 1] *= pick(rng, [2.0, -1.0, 1.1])
        ctx.expect(not ctx.call("check_canonical_form", bad), "answers no: not canonical", L=bad)
        ctx.expect(bool(ctx.call("check_canonical_form", L)), "neighbouring valid input accepted: canonical", L=L)
    else:
        M = gen.cplx(rng, 4, 4)
        bad = pick(rng, [M[:3], M[:, :3], M[:2, :2], np.zeros((8, 8)), M[0], np.eye(3), np.kron(np.eye(2), M), np.eye(4)[[0, 2, 1, 3]]])
        ctx.expect(not ctx.call("is_matchgate", bad), "answers no: not a matchgate", M=bad)
        U = O.unitary_exp(O.lift(O.H_matrix(*gen.herm_skew(rng, 2, "generic", "generic")), O.alphas(2)))
        ctx.expect(bool(ctx.call("is_matchgate", U)), "neighbouring valid input accepted: matchgate", M=U)
