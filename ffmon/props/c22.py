"""Random planar graphs, tree depth, and the data shown by the plotting functions."""

import matplotlib.colors as mc
import networkx as nx
import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C22"
CONTRACTS = contracts.pick("compute_tree_depth")
RULE = (
    "random planar graphs of 2..40 vertices over many seeds; random, path, star and binary trees with 10 labellings up to 3000 vertices; adjacency matrices (symmetric, asymmetric, tiny, negative, integer, with self-loops) and graph objects "
    "round-tripped through the plotting function; arrows, curves and titles read back from the drawn figure (Agg). "
    "Distinct = argument digests."
)
FLOORS = {"planar generator": 150, "compute_tree_depth": 150, "plotted graph": 80, "embedding plot": 40, "population plot": 60}


def cases(tier, seed):
    r = crng(tier, seed, 22)
    out = []
    for k in range(scale(tier, 220, 2500)):
        out.append({"kind": "rand", "n": int(r.integers(15, 41) if k % 12 == 0 else r.integers(2, 15 if k % 6 == 0 else 9)), "k": k})
    for k in range(scale(tier, 56, 400)):  # many draws: rare outcomes of the generator
        out.append({"kind": "rand", "n": 5 + k % 7, "draws": 80, "k": k, "cost": 3})
    for k in range(scale(tier, 260, 3000)):
        out.append({"kind": "tree", "g": pick(r, ["rtree", "path", "star", "binary", "cater", "deep"]), "n": int(r.integers(1, 60)), "lab": pick(r, gen.LABELS), "k": k})
    for k in range(scale(tier, 110, 900)):
        out.append({"kind": "plot", "m": pick(r, ["sym", "asym", "int", "graph", "digraph", "negative", "tiny", "sparse", "loops", "skew", "zero"]), "k": k, "cost": 2})
    for k in range(scale(tier, 60, 500)):
        out.append({"kind": "emb", "g": pick(r, ["cycle", "wheel", "grid", "delaunay", "rtree", "theta", "outerplanar"]), "k": k, "cost": 2})
    for k in range(scale(tier, 90, 700)):
        out.append({"kind": "pdf", "stem": bool(k % 2), "src": pick(r, ["dm", "wf", "pdf", "list"]), "k": k, "cost": 2})
    for k in range(scale(tier, 8, 60)):  # deeper than any recursion limit
        out.append({"kind": "tree", "g": pick(r, ["path", "deep", "cater", "rtree", "star"]) if k > 1 else "path", "n": int(r.integers(1100, 3000)), "lab": pick(r, gen.LABELS), "k": k, "cost": 5})
    return out + scenarios.specs(["graph"], scale(tier, 3, 20))


def drawn(ctx, n, rng):
    kw = {"seed": int(rng.integers(2**31))} if rng.random() < 0.7 else {}
    G = ctx.call("generate_random_planar_graph", n, **kw)
    if G is None:
        ctx.expect(n > 8, "planar generator: gave up on a small graph", n=n, kw=kw)
        return
    ctx.expect(isinstance(G, nx.Graph) and not G.is_directed() and not G.is_multigraph(), "planar generator: a simple graph", G=G)
    ctx.expect(sorted(G.nodes) == list(range(n)), "planar generator: wrong nodes", n=n, G=G)
    ctx.expect(nx.is_connected(G), "planar generator: not connected", G=G, kw=kw)
    ctx.expect(nx.check_planarity(G)[0], "planar generator: not planar", G=G, kw=kw)
    ctx.expect(nx.number_of_selfloops(G) == 0, "planar generator: self-loops", G=G)
    ctx.nontrivial(n, sorted(map(sorted, G.edges)))


def run(ctx, spec, rng):
    k = spec["kind"]
    if k == "scenario":
        return scenarios.run(ctx, spec, rng)
    if k == "rand":
        for _ in range(spec.get("draws", 1)):
            drawn(ctx, spec["n"], rng)
    elif k == "tree":
        n, g = spec["n"], spec["g"]
        if g == "binary":
            T = nx.balanced_tree(2, int(rng.integers(0, 5)))
        elif g == "cater":
            T = nx.path_graph(max(2, n // 2))
            for v in list(T):
                if rng.random() < 0.5:
                    T.add_edge(v, len(T))
        elif g == "deep":
            T = nx.path_graph(max(2, n))
            T.add_edge(len(T) // 2, len(T))
        else:
            T = gen.planar(rng, g, n)
        T = gen.relabel(rng, T, spec["lab"])
        if rng.random() < 0.5:  # another root
            o = list(T.nodes)
            v = o.pop(int(rng.integers(len(o))))
            R = nx.Graph()
            R.add_nodes_from([v] + o)
            R.add_edges_from(T.edges)
            T = R
        if rng.random() < 0.3:
            for u, v in T.edges:
                T[u][v]["weight"] = float(rng.uniform(0.1, 5))
        ctx.call("compute_tree_depth", T)
        ctx.sample({"tree": g, "n": len(T)})
    else:
        import matplotlib.pyplot as plt

        plt.close("all")
        try:
            {"plot": plot, "emb": emb, "pdf": pdf}[k](ctx, spec, rng, plt)
        finally:
            plt.close("all")


def plot(ctx, spec, rng, plt):
    m = spec["m"]
    n = int(rng.integers(2, 7))
    A = rng.standard_normal((n, n)) * (rng.random((n, n)) < 0.7)
    A = A * pick(rng, [1, 1, 10, 1000])
    if rng.random() < 0.15:  # weights of very different size
        A = A * 10.0 ** rng.uniform(-6, 0, A.shape)
    if m in ("sym", "negative", "tiny", "sparse", "graph"):
        A = np.triu(A) + np.triu(A, 1).T
    if m == "negative":
        A = -np.abs(A)
    if m == "tiny":
        A = A * 1e-2
    if m == "sparse":
        A = A * (np.abs(A) > np.median(np.abs(A)))
    if m == "int":
        A = rng.integers(-3, 4, (n, n))
        if rng.random() < 0.5:
            A = A + A.T
    if m == "skew":
        A = A - A.T
    if m == "zero":
        A = np.zeros((n, n))
    if m == "loops":
        A = np.diag(rng.uniform(0.5, 2, n)) + np.triu(A, 1)
    arg = A
    if m == "graph":
        arg = gen.weighted(rng, gen.relabel(rng, gen.planar(rng, "delaunay", n), pick(rng, ["range", "strings", "shuffled"])), pick(rng, ["float", "int", "unit"]))
        A = nx.to_numpy_array(arg)
    elif m == "digraph":
        arg = nx.DiGraph()
        arg.add_nodes_from(range(n))
        for i in range(n):
            for j in range(n):
                if i != j and rng.random() < 0.5:
                    arg.add_edge(i, j, weight=float(rng.uniform(0.1, 3) * 10.0 ** rng.choice([0, 0, 0, -3, -5])))
        A = nx.to_numpy_array(arg)
    n = A.shape[0]
    kw = {}
    if rng.random() < 0.5:
        kw["title"] = "T%d" % rng.integers(1000)
    sym = bool(np.allclose(A, A.T))
    if not sym and np.allclose(A, A.T, rtol=1e-3, atol=1e-6):
        return ctx.checks.update({"plotted graph": 1})
    matching = []
    if sym and rng.random() < 0.6:
        up = [(i, j) for i in range(n) for j in range(i + 1, n) if A[i, j] != 0]
        if up:
            matching = [up[i] for i in sorted(rng.choice(len(up), min(len(up), 2), replace=False))]
            # in either direction, as tuples or lists
            kw["matching"] = [e if rng.random() < 0.5 else e[::-1] for e in matching]
            if rng.random() < 0.3:
                kw["matching"] = [list(e) for e in kw["matching"]]
    G = ctx.call("plot_graph_with_edge_weights", arg, **kw)
    ctx.expect(isinstance(G, nx.Graph) and G.is_directed() == (not sym), "plotted graph: directed exactly if the weights are not symmetric", A=A)
    ctx.expect(sorted(G.nodes) == list(range(n)), "plotted graph: one node per row", A=A, nodes=list(G.nodes))
    want = {}
    for i in range(n):
        for j in range(n):
            if A[i, j] != 0 and (not sym or i < j):
                want[(i, j)] = A[i, j]
    got = {}
    for u, v, d in G.edges(data=True):
        got[(u, v) if not sym else (min(u, v), max(u, v))] = d.get("weight")
    ctx.expect(set(got) == set(want), "plotted graph: edges are the nonzero entries", A=A, edges=list(got))
    for e, w in want.items():
        ctx.expect(got[e] is not None and abs(got[e] - w) <= 0.5001e-4 + 1e-12 * abs(w), "plotted graph: edge weight is the entry", A=A, e=e, got=got[e])
    ctx.expect(len(plt.get_fignums()) == 1, "plotted graph: one figure", n=len(plt.get_fignums()))
    ax = plt.gcf().axes[0]
    if "title" in kw:
        ctx.expect(ax.get_title() == kw["title"], "plotted graph: title", title=ax.get_title())
    if sym:
        reds = segments(ax, "red")
        pos = positions(ax)
        ctx.expect(pos is not None and len(pos) == n, "plotted graph: one marker per node")
        seen = sorted(tuple(sorted((nearest(pos, a), nearest(pos, b)))) for a, b in reds)
        ctx.expect(seen == sorted(map(tuple, matching)), "plotted graph: highlighted edges are the matching", seen=seen, matching=matching)
    texts = [t.get_text() for t in ax.texts]
    ctx.expect(all(str(v) in texts for v in G.nodes), "plotted graph: node labels", texts=texts)
    # what is left after the node labels are the weights, one per edge
    left = [t for t in texts if t]
    for v in G.nodes:
        if str(v) in left:
            left.remove(str(v))
    shown, due = sorted(map(number, left)), sorted(want.values())
    ctx.expect(
        len(shown) == len(due) and all(abs(a - b) <= 0.5001e-4 + 1e-12 * abs(b) for a, b in zip(shown, due)),
        "plotted graph: one weight label per edge", shown=shown, due=due,
    )
    pos = positions(ax)
    if sym and pos is not None:
        spare = {str(v) for v in G.nodes}
        for t in ax.texts:
            p = np.asarray(t.get_position(), float)
            if not t.get_text() or (t.get_text() in spare and np.min(np.linalg.norm(pos - p, axis=1)) < 1e-9):
                continue
            w = number(t.get_text())
            on = [e for e in want if between(pos[e[0]], pos[e[1]], p)]
            ctx.expect(any(abs(want[e] - w) <= 0.5001e-4 + 1e-12 * abs(w) for e in on), "plotted graph: a weight label stands at another edge", label=t.get_text(), on=on)
    lines = [(nearest(pos, a), nearest(pos, b)) for a, b in segments(ax, "grey")] if pos is not None else []
    lines = sorted((i, j) if not sym else (min(i, j), max(i, j)) for i, j in lines if i != j)
    ctx.expect(lines == sorted(e for e in want if e[0] != e[1]), "plotted graph: one line or arrow per edge", lines=lines, want=sorted(want))
    ctx.nontrivial("plot", A)


def between(a, b, p):
    d = b - a
    s = float(np.dot(p - a, d) / np.dot(d, d))
    return -1e-9 <= s <= 1 + 1e-9 and np.linalg.norm(a + s * d - p) < 1e-7


def number(t):
    try:
        return float(t)
    except ValueError:
        return float("nan")


def is_color(c, name):
    try:
        return mc.to_rgb(c) == mc.to_rgb(name)
    except (ValueError, TypeError):
        return False


def positions(ax):
    from matplotlib.collections import PathCollection

    for c in ax.collections:
        if isinstance(c, PathCollection):
            return np.asarray(c.get_offsets())
    return None


def nearest(pos, p):
    d = np.linalg.norm(pos - np.asarray(p), axis=1)
    return int(np.argmin(d))


def segments(ax, color):
    """End points of all drawn straight edges of a colour, arrows as (tail, head)."""
    from matplotlib.collections import LineCollection
    from matplotlib.patches import FancyArrowPatch

    out = []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            cols = c.get_colors()
            for i, s in enumerate(c.get_segments()):
                if is_color(cols[i % len(cols)], color):
                    out.append((s[0], s[-1]))
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch) and is_color(p.get_edgecolor(), color):
            a, b = p._posA_posB
            out.append((np.asarray(a), np.asarray(b)))
    return out


def cross(p, q, r, s):
    def o(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

    d = [o(p, q, r), o(p, q, s), o(r, s, p), o(r, s, q)]
    return d[0] * d[1] < -1e-12 and d[2] * d[3] < -1e-12


def emb(ctx, spec, rng, plt):
    G = nx.convert_node_labels_to_integers(gen.planar(rng, spec["g"], int(rng.integers(4, 9))))
    H = nx.Graph()
    n = len(G)
    H.add_nodes_from(pick(rng, [range(n), range(n)[::-1], [int(i) for i in rng.permutation(n)]]))
    H.add_edges_from([e if rng.random() < 0.5 else e[::-1] for e in G.edges])
    P = np.zeros((n, n))
    for u, v in H.edges:
        s = float(rng.choice([-1, 1, 1, -1, 0]))
        P[u, v], P[v, u] = s, -s
    if rng.random() < 0.3:  # an orientation weighted by the edges
        W = 10.0 ** rng.uniform(-3, 3, (n, n))
        P = P * (W + W.T)
    elif rng.random() < 0.2:
        P = P.astype(int)
    kw = {"title": "E%d" % rng.integers(1000)} if rng.random() < 0.6 else {}
    plain = rng.random() < 0.2
    r = ctx.call("plot_planar_embedding", H, **kw) if plain else ctx.call("plot_planar_embedding", H, P, **kw)
    _ = r
    ax = plt.gcf().axes[0]
    pos = positions(ax)
    ctx.expect(pos is not None and len(pos) == n, "embedding plot: one marker per node")
    nodes = list(H.nodes)
    base = segments(ax, "gray")
    drawn = sorted(tuple(sorted((nearest(pos, a), nearest(pos, b)))) for a, b in base)
    ctx.expect(drawn == sorted(tuple(sorted((nodes.index(u), nodes.index(v)))) for u, v in H.edges), "embedding plot: every edge is drawn once", drawn=drawn)
    for i in range(len(base)):
        for j in range(i):
            ctx.expect(not cross(*base[i], *base[j]), "embedding plot: edges cross", G=H)
    arrows = [(nodes[nearest(pos, a)], nodes[nearest(pos, b)]) for a, b in segments(ax, "red")]
    want = {frozenset(e) for e in H.edges if P[e] != 0} if not plain else set()
    ctx.expect(len(arrows) == len(want) and {frozenset(e) for e in arrows} == want, "embedding plot: one arrow per oriented edge", arrows=arrows, P=P)
    signs = {P[a, b] > 0 for a, b in arrows}
    ctx.expect(len(signs) <= 1, "embedding plot: arrows contradict the orientation", arrows=arrows, P=P)
    if "title" in kw:
        ctx.expect(ax.get_title() == kw["title"], "embedding plot: title", title=ax.get_title())
    ctx.nontrivial("emb", H, P)


def pdf(ctx, spec, rng, plt):
    src = spec["src"]
    n = int(rng.integers(1, 4))
    if src == "dm":
        x = gen.state(rng, n, pick(rng, gen.STATE_MODES))
    elif src == "wf":
        x = gen.wavefunction(rng, 2**n, pick(rng, gen.WF_MODES))
        if rng.random() < 0.5:
            x = x.reshape(-1, 1)
    else:
        x = gen.pdf(rng, int(rng.integers(2, 9)), pick(rng, gen.PDF_MODES))
        if src == "list":
            x = x.tolist()
    rho = O.density(x)
    kw = {"stem": spec["stem"]}
    if rng.random() < 0.5:
        kw["name"] = "N%d" % rng.integers(1000)
    r = ctx.call("analyze_pdf", x, **kw)
    ctx.expect(r is None, "population plot: returns nothing")
    axs = plt.gcf().axes
    ctx.expect(len(axs) == 1, "population plot: one axis", n=len(axs))
    ax = axs[0]
    data = {}
    for h, lab in zip(*ax.get_legend_handles_labels()):
        line = getattr(h, "markerline", h)
        data[lab] = (np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata()))
    ctx.expect(len(data) == 2, "population plot: two curves", labels=list(data))
    pops = [v for kk, v in data.items() if "diag" in kk]
    evs = [v for kk, v in data.items() if "eig" in kk]
    ctx.expect(len(pops) == 1 and len(evs) == 1, "population plot: curves are labelled", labels=list(data))
    d = rho.shape[0]
    for (xs, ys), want, what in ((pops[0], np.diag(rho).real, "populations"), (evs[0], np.sort(np.linalg.eigvalsh(rho))[::-1], "eigenvalues in descending order")):
        ctx.expect(xs.shape == (d,) and np.array_equal(xs, np.arange(d)), "population plot: indices", xs=xs)
        ys = np.ma.filled(ys, 0)
        ctx.close(np.nan_to_num(np.real(ys)), want, f"population plot: {what}", 0, 2.1e-6)
    ctx.expect(ax.get_yscale() == "log", "population plot: logarithmic axis")
    if "name" in kw:
        ctx.expect(kw["name"] in ax.get_title(), "population plot: title names the state", title=ax.get_title())
    ctx.nontrivial("pdf", np.asarray(x), spec["stem"])
