"""Perfect-matching counts."""

import math

import networkx as nx
import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C20"
CONTRACTS = contracts.pick("count_perfect_matchings", "count_perfect_matchings_planar", "find_perfect_matchings_brute")
RULE = (
    "31 planar families up to 60 vertices and 11 non-planar ones, with 10 node labellings/orders and 5 weightings, "
    "disconnected, with bridges, cut vertices, isolated vertices and no matching at all; judged by an independent "
    "subset-recursion count; invariances under relabelling and weight scaling, multiplicativity over disjoint unions, "
    "edge deletion-contraction, known lattice sequences. Distinct = argument digests."
)
FLOORS = {"count_perfect_matchings": 300, "count_perfect_matchings_planar": 250, "find_perfect_matchings_brute": 60, "relabelling": 100, "union": 20, "deletion": 20, "known": 5}
ASSUMPTIONS = [
    "weights are positive numbers on planar graphs (the determinant formula yields the modulus of the weighted sum); "
    "non-planar graphs are counted unweighted",
    "known finding: graphs handled by enumeration are refused above 15 vertices with a printed warning and the answer 0",
]
WEIGHTS = ("unit", "int", "float", "equal", "mixed")
BRUTE_OK = ("path", "cycle", "ladder", "star", "rtree", "k4", "theta", "edge", "isolated", "edgeless", "single", "k23", "prism", "twocomp", "pendants", "bridged", "cactus")


LARGE = ["grid", "ladder", "wheel", "cycle", "delaunay_sub", "delaunay", "path", "bridged", "twocomp", "cactus", "grid", "apollonian_sub"]


def cases(tier, seed):
    r = crng(tier, seed, 20)
    out = []
    for kind in gen.PLANAR_KINDS:
        for k in range(scale(tier, 14, 160)):
            n = int(r.integers(2, 13)) if k % 5 else int(r.integers(12, 20))
            out.append({"kind": "planar", "g": kind, "n": n, "lab": pick(r, gen.LABELS), "w": pick(r, WEIGHTS), "k": k})
    for kind in gen.NONPLANAR_KINDS:
        for k in range(scale(tier, 3, 20)):
            out.append({"kind": "nonplanar", "g": kind, "lab": pick(r, gen.LABELS), "k": k, "cost": 5})
    for kind in BRUTE_OK:
        for k in range(scale(tier, 4, 50)):
            out.append({"kind": "brute", "g": kind, "n": int(r.integers(2, 10)), "lab": pick(r, gen.LABELS), "k": k})
    for k in range(scale(tier, 30, 300)):
        out.append({"kind": "union", "k": k})
        out.append({"kind": "deletion", "k": k})
    out += [{"kind": "known", "k": k} for k in range(8)]
    for k, kind in enumerate(LARGE * scale(tier, 1, 8)):
        out.append({"kind": "planar", "g": kind, "n": int(r.integers(13, 31)) * 2, "lab": pick(r, gen.LABELS), "w": pick(r, WEIGHTS), "k": k, "cost": 20})
    for k in range(scale(tier, 8, 60)):  # the largest graphs within reach of the enumeration
        out.append({"kind": "fourteen", "lab": pick(r, gen.LABELS), "k": k, "cost": 8})
        out.append({"kind": "pieces", "lab": pick(r, gen.LABELS), "k": k, "cost": 8})
        out.append({"kind": "pieces", "lab": pick(r, gen.LABELS), "k": 10000 + k, "cost": 8})
    out += [{"kind": "limit", "k": k} for k in range(2)]
    return out + scenarios.specs(["graph"], scale(tier, 4, 40))


def run(ctx, spec, rng):
    k = spec["kind"]
    if k == "scenario":
        return scenarios.run(ctx, spec, rng)
    if k == "planar":
        G = gen.weighted(rng, gen.relabel(rng, gen.planar(rng, spec["g"], spec["n"]), spec["lab"]), spec["w"])
        a = ctx.call("count_perfect_matchings", G)
        if rng.random() < 0.5:
            b = ctx.call("count_perfect_matchings_planar", G)
            ctx.close(a, b, "relabelling: the dispatching and the planar count agree", 1e-9, 1e-9)
        H = gen.relabel(rng, G, pick(rng, gen.LABELS))
        ctx.close(ctx.call("count_perfect_matchings", H), a, "relabelling: the count depends on node names or order", 0, 2 * contracts.count_tol(G, abs(a)), G=G, H=H)
        if len(G) % 2 == 0 and rng.random() < 0.3:
            s = float(pick(rng, [2, 0.5, 3]))
            H = G.copy()
            for u, v, d in H.edges(data=True):
                d["weight"] = d.get("weight", 1) * s
            ctx.close(ctx.call("count_perfect_matchings", H), a * s ** (len(G) // 2), "relabelling: the count is homogeneous in the weights", 0, 2 * contracts.count_tol(H, abs(a) * s ** (len(G) // 2)) + 2 * contracts.count_tol(G, abs(a)) * s ** (len(G) // 2))
        ctx.sample({"graph": spec["g"], "n": len(G), "count": a})
    elif k == "nonplanar":
        G = gen.relabel(rng, gen.nonplanar(rng, spec["g"]), spec["lab"])
        ctx.call("count_perfect_matchings", G)
        if G.number_of_edges() < 24:
            ctx.call("find_perfect_matchings_brute", G)
    elif k == "pieces":  # non-planar graphs beside single edges, paths and small cycles
        G = nx.Graph(gen.nonplanar(rng, pick(rng, ["k5", "k33", "k6", "k5_pendant", "k33", "k6"])))
        while len(G) < 13 and (len(G) < 8 or rng.random() < 0.6):
            P = pick(rng, [nx.path_graph(2), nx.path_graph(2), nx.path_graph(2), nx.path_graph(4), nx.cycle_graph(4), nx.cycle_graph(3), nx.path_graph(3)])
            if len(G) + len(P) > 14 or G.number_of_edges() + P.number_of_edges() > 21:
                break
            G = nx.disjoint_union(G, P)
        G = gen.relabel(rng, G, spec["lab"])
        r = ctx.call("find_perfect_matchings_brute", G)
        ctx.close(ctx.call("count_perfect_matchings", G), len(r), "relabelling: enumeration and count agree", 1e-9, 1e-9)
        ctx.nontrivial(len(G), len(r))
    elif k == "fourteen":
        G = gen.nonplanar(rng, pick(rng, ["k33", "k5"])) if rng.random() < 0.7 else nx.Graph(nx.complete_bipartite_graph(3, 3))
        while len(G) < 14:
            if rng.random() < 0.4 and G.number_of_edges() < 17:  # hang an edge or a path on it
                G.add_edge(int(rng.integers(len(G))), len(G))
            else:  # subdivide
                u, v = list(G.edges)[int(rng.integers(G.number_of_edges()))]
                w = len(G)
                G.remove_edge(u, v)
                G.add_edges_from([(u, w), (w, v)])
        G = gen.relabel(rng, G, spec["lab"])
        r = ctx.call("find_perfect_matchings_brute", G)
        ctx.close(ctx.call("count_perfect_matchings", G), len(r), "relabelling: enumeration and count agree", 1e-9, 1e-9)
    elif k == "brute":
        G = gen.relabel(rng, gen.planar(rng, spec["g"], spec["n"]), spec["lab"])
        if G.number_of_edges() > 16:
            return
        r = ctx.call("find_perfect_matchings_brute", G)
        ctx.close(ctx.call("count_perfect_matchings", G), len(r), "relabelling: enumeration and determinant agree", 1e-9, 1e-9)
    elif k == "union":
        G = gen.planar(rng, pick(rng, gen.PLANAR_KINDS), int(rng.integers(2, 8)))
        H = gen.planar(rng, pick(rng, gen.PLANAR_KINDS), int(rng.integers(2, 8)))
        G, H = gen.weighted(rng, G, pick(rng, ["int", "unit", "float"])), gen.weighted(rng, H, pick(rng, ["int", "unit"]))
        a, b = ctx.call("count_perfect_matchings", G), ctx.call("count_perfect_matchings", H)
        ctx.close(ctx.call("count_perfect_matchings", nx.disjoint_union(G, H)), a * b, "union: counts multiply over components", 1e-8, 4e-9 * max(1, abs(a), abs(b)))
    elif k == "deletion":
        G = gen.weighted(rng, gen.planar(rng, pick(rng, gen.PLANAR_KINDS), int(rng.integers(4, 12))), pick(rng, ["int", "float"]))
        if not G.number_of_edges():
            return ctx.checks.update({"deletion": 1})
        e = list(G.edges)[int(rng.integers(G.number_of_edges()))]
        w = G[e[0]][e[1]].get("weight", 1)
        D, C = G.copy(), G.copy()
        D.remove_edge(*e)
        C.remove_nodes_from(e)
        t = ctx.call("count_perfect_matchings", G)
        rest = ctx.call("count_perfect_matchings", C) if len(C) else 1
        ctx.close(t, ctx.call("count_perfect_matchings", D) + w * rest, "deletion: matchings with the edge plus matchings without it", 1e-8, 4e-9 * (1 + w), G=G, e=e)
    elif k == "known":
        n = spec["k"]
        if n < 4:
            fib = [1, 2, 3, 5, 8, 13, 21, 34, 55, 89]
            m = [2, 4, 7, 9][n]
            ctx.close(ctx.call("count_perfect_matchings", nx.ladder_graph(m + 1)), fib[m], "known: domino tilings of a ladder", 1e-9, 1e-6)
        else:
            a, b, want = [(4, 4, 36), (4, 5, 95), (2, 6, 13), (3, 4, 11)][n - 4]
            ctx.close(ctx.call("count_perfect_matchings", gen.relabel(rng, nx.grid_2d_graph(a, b), "order")), want, "known: domino tilings of a rectangle", 1e-9, 1e-6)
    else:
        G = nx.disjoint_union(nx.complete_bipartite_graph(3, 3), nx.complete_bipartite_graph(5, 5))
        if spec["k"]:
            ctx.call("count_perfect_matchings", G)
        else:
            ctx.call("find_perfect_matchings_brute", nx.path_graph(16))
    _ = (O, np)
