"""Pfaffian orientations, faces, dual graphs and the completion of a face."""

import random as pyrandom

import networkx as nx
import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from . import c20
from .util import crng, pick, scale

ID = "C21"
CONTRACTS = contracts.pick("pfo_algorithm", "faces")
RULE = (
    "31 planar families up to 60 vertices with 10 labellings/orders and positive weights; every orientation judged by "
    "comparing the Pfaffian of the oriented matrix under generic weights with an independent matching sum; faces against "
    "the embedding; dual graphs for arbitrary spanning trees (not only the one the library picks); completion of faces "
    "from random partial orientations, real and with imaginary markers. Distinct = argument digests."
)
FLOORS = {"pfo_algorithm": 300, "faces": 200, "dual": 150, "completion": 150, "embedding": 80, "kasteleyn": 100, "weights": 60}


def cases(tier, seed):
    r = crng(tier, seed, 21)
    out = []
    for kind in gen.PLANAR_KINDS:
        for k in range(scale(tier, 13, 150)):
            n = int(r.integers(2, 14)) if k % 4 else int(r.integers(12, 24))
            out.append({"kind": "pfo", "g": kind, "n": n, "lab": pick(r, gen.LABELS), "k": k})
        for k in range(scale(tier, 9, 100)):
            out.append({"kind": "dual", "g": kind, "n": int(r.integers(3, 18)), "lab": pick(r, ["range", "shuffled", "offset", "reversed", "order", "edge_order", "sparse_ints"]), "k": k})
        for k in range(scale(tier, 6, 60)):
            out.append({"kind": "face", "g": kind, "n": int(r.integers(3, 12)), "k": k})
    for k, kind in enumerate(c20.LARGE * scale(tier, 1, 8)):
        out.append({"kind": "pfo", "g": kind, "n": int(r.integers(13, 31)) * 2, "lab": pick(r, gen.LABELS), "k": k, "cost": 20})
    for k in range(scale(tier, 6, 40)):
        out.append({"kind": "verbose", "k": k, "cost": 20})
    return out + scenarios.specs(["graph"], scale(tier, 4, 40))


def connected(rng, kind, n):
    G = gen.planar(rng, kind, n)
    if not G.number_of_edges() or not nx.is_connected(G):
        G = gen.planar(rng, pick(rng, ["cycle", "grid", "wheel", "delaunay", "theta", "nested"]), max(4, n))
    return G


def cyc(walk):
    """Canonical rotation of a closed walk of darts."""
    w = [tuple(e) for e in walk]
    i = min(range(len(w)), key=lambda j: (repr(w[j]), j))
    return tuple(w[i:] + w[:i])


def other_embedding(rng, G):
    """Some planar embedding of G, not the one networkx finds for it."""
    nodes = list(G.nodes)
    q = [nodes[int(i)] for i in rng.permutation(len(nodes))]
    to = dict(zip(nodes, q))
    back = {v: k for k, v in to.items()}
    R = nx.Graph()
    R.add_nodes_from(q[int(i)] for i in rng.permutation(len(q)))
    es = [(to[u], to[v]) for u, v in G.edges]
    R.add_edges_from(es[int(i)] for i in rng.permutation(len(es)))
    d = nx.check_planarity(R)[1].get_data()
    step = -1 if rng.random() < 0.5 else 1
    emb = nx.PlanarEmbedding()
    emb.set_data({back[v]: [back[w] for w in ns][::step] for v, ns in d.items()})
    emb.check_structure()
    return emb


def emb_faces(emb):
    seen, out = set(), []
    for u, v in emb.edges():
        if (u, v) in seen:
            continue
        w, a, b = [], u, v
        while (a, b) not in seen:
            seen.add((a, b))
            w.append((a, b))
            a, b = b, emb[b][a]["ccw"]
        out.append(cyc(w))
    return out


def run(ctx, spec, rng):
    k = spec["kind"]
    if k == "scenario":
        return scenarios.run(ctx, spec, rng)
    if k == "pfo":
        G0 = gen.planar(rng, spec["g"], spec["n"])
        G = gen.weighted(rng, gen.relabel(rng, G0, spec["lab"]), pick(rng, ["unit", "int", "float", "mixed"]))
        P = np.asarray(ctx.call("pfo_algorithm", G)).real
        U = nx.Graph()
        U.add_nodes_from(G.nodes)
        U.add_edges_from(G.edges)
        P2 = np.asarray(ctx.call("pfo_algorithm", U)).real
        ctx.expect(P2.shape == P.shape and np.array_equal(np.abs(P), np.abs(P2)), "weights: oriented edges do not depend on the weights")
        if len(G) <= 14 and len(G) % 2 == 0 and G.number_of_edges():
            # all perfect matchings carry the same sign, one by one
            nodes = list(G.nodes)
            ix = {v: i for i, v in enumerate(nodes)}
            signs = set()
            for m in list(O.matchings_list(G.nodes, G.edges))[:200]:
                flat, s = [], 1
                for e in m:
                    a, b = sorted(ix[x] for x in e)
                    flat += [a, b]
                    s *= int(P[a, b])
                signs.add(s * O.perm_sign(flat))
            ctx.expect(len(signs) <= 1, "kasteleyn: two perfect matchings carry opposite signs", G=G, P=P)
        ctx.sample({"graph": spec["g"], "n": len(G), "m": G.number_of_edges(), "labels": spec["lab"]})
    elif k == "dual":
        G = gen.relabel(rng, connected(rng, spec["g"], spec["n"]), spec["lab"])
        ok, emb = nx.check_planarity(G)
        how = rng.random()
        if how < 0.4:  # an embedding of the caller's choice
            emb = other_embedding(rng, G)
        F = ctx.call("faces", G, emb) if how < 0.7 else ctx.call("faces", G)
        want = sorted(map(repr, emb_faces(emb)))
        got = [[tuple(e) for e in f] for f in F]
        a = sorted(repr(cyc(f)) for f in got)
        b = sorted(repr(cyc([(v, u) for u, v in reversed(f)])) for f in got)
        ctx.expect(want in (a, b), "embedding: faces are not those of the embedding", G=G, F=F)
        # arbitrary spanning tree
        for u, v, d in G.edges(data=True):
            d["tmp"] = float(rng.random())
        T = nx.minimum_spanning_tree(G, weight="tmp")
        if rng.random() < 0.3:  # tree given with its edges the other way round
            T2 = nx.Graph()
            T2.add_nodes_from(T.nodes)
            T2.add_edges_from([(v, u) for u, v in T.edges])
            T = T2
        if rng.random() < 0.5:  # vertices of the tree in another order
            T2 = nx.Graph()
            nodes = list(T.nodes)
            T2.add_nodes_from([nodes[int(q)] for q in rng.permutation(len(nodes))])
            T2.add_edges_from(T.edges)
            T = T2
        if len(F) > 1 and rng.random() < 0.25:  # the infinite face left out of the list
            out = int(rng.integers(len(F)))
            F = got = got[:out] + got[out + 1 :]
        H = ctx.call("dual_graph_H", G, F, T)
        tree = {frozenset(e) for e in T.edges}
        own = {}
        for i, f in enumerate(got):
            for e in f:
                own.setdefault(frozenset(e), []).append(i)
        we = {frozenset((own[e] + [len(F)])[:2]) for e in map(frozenset, G.edges) if e not in tree}
        left_out = [e for e in own if len(own[e]) == 1 and frozenset((len(F),) + tuple(own[e])) in we]
        ctx.expect(set(H.nodes) == set(range(len(F) + bool(left_out))), "dual: one vertex per face", nodes=list(H.nodes), faces=len(F))
        ctx.expect({frozenset(e) for e in H.edges} == we, "dual: edges are not the face pairs sharing a non-tree edge", G=G, T=list(T.edges), H=list(H.edges), F=F)
        ctx.expect(nx.is_tree(H), "dual: not a tree", H=list(H.edges))
        ctx.nontrivial(sorted(map(repr, tree)), [list(f) for f in got])
    elif k == "face":
        G = gen.relabel(rng, connected(rng, spec["g"], spec["n"]), pick(rng, ["range", "reversed"]))
        G = nx.convert_node_labels_to_integers(G)
        n = len(G)
        F = [[tuple(e) for e in f] for f in ctx.call("faces", G)]
        for f in F[:4]:
            walk = f if rng.random() < 0.6 else [(v, u) for u, v in reversed(f)]
            j = int(rng.integers(len(walk)))
            if rng.random() < 0.5:
                walk = walk[j:] + walk[:j]
            edges = [frozenset(e) for e in walk]
            once = [e for e in walk if edges.count(frozenset(e)) == 1]
            if not once:
                continue
            e = once[int(rng.integers(len(once)))]
            P = np.zeros((n, n), dtype=complex)
            marks = rng.random() < 0.6
            for u, v in G.edges:
                s = float(rng.choice([-1, 1]))
                P[u, v], P[v, u] = s, -s
                if rng.random() < 0.3 and frozenset((u, v)) not in edges:
                    P[u, v] = P[v, u] = 99j if marks else 0
            P[e[0], e[1]] = P[e[1], e[0]] = 99j if marks else 0
            if not marks and rng.random() < 0.5:
                P = P.real.copy()
            before = P.copy()
            R = ctx.call("complete_face", P, [list(x) for x in walk] if rng.random() < 0.2 else walk)
            R = np.asarray(R)
            ctx.expect(R.shape == (n, n), "completion: a matrix", R=R)
            ctx.expect(abs(R[e]) == 1 and R[e] == -R[e[::-1]], "completion: the open edge is oriented", e=e, value=R[e])
            M = R.copy()
            M[e] = before[e]
            M[e[::-1]] = before[e[::-1]]
            ctx.expect(np.array_equal(M, before), "completion: other edges left alone", face=walk)
            prod = np.prod([R[a, b] for a, b in walk])
            ctx.expect(prod == -1, "completion: the face does not have an odd number of edges against its direction", face=walk, product=prod)
            ctx.nontrivial(walk, before)
    else:
        import matplotlib.pyplot as plt

        G = gen.relabel(rng, gen.planar(rng, pick(rng, ["cycle", "wheel", "grid", "theta", "twocomp"]), int(rng.integers(4, 8))), pick(rng, ["range", "shuffled", "strings"]))
        a = ctx.call("pfo_algorithm", G)
        try:
            b = ctx.call("pfo_algorithm", G, verbose=True)
        finally:
            plt.close("all")
        ctx.expect(np.array_equal(np.abs(a), np.abs(b)), "verbose: same oriented edges", G=G)
    _ = pyrandom
