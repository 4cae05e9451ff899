from hypothesis import strategies as st
import numpy as np
import torch
import dhg
from harness import gen
from harness.core import Sub, require
from harness.refmodel import (GraphModel, DiGraphModel, BiGraphModel, HyperModel, build_graph, build_bigraph, build_hyper,
                              check_graph, check_digraph, check_bigraph, check_hyper, ordered, poke)
from harness.util import same, near, t32, raises

PROPERTY = "P14"
RULE = ("graph/bigraph: hypergraphs built from (or added as a group from) a graph or bigraph with a history, and "
        "hypergraph-bigraph conversions, against incidence models; adj: adjacency lists with empty rows and repeated "
        "heads, against edge models; knn: feature matrices with repeated points, large offsets and up to 40 rows, "
        "against brute-force distances in double precision. Non-trivial: at least two edges (hyperedges) or, for knn, "
        "k below the number of vertices and k >= 2.")


@st.composite
def graph_cases(draw):
    c = draw(gen.graph_case(lo=1, hi=7, big=12))
    c["extra"] = draw(st.sampled_from([False, False, True]))
    c["more"] = draw(gen.pairs(c["n"], max_size=3))
    c["pre"] = draw(gen.hyperedges(c["n"], min_size=1, max_size=3))
    c["gname"] = draw(gen.group_names)
    return c


def check_from_graph(c):
    g, m = build_graph(dhg, c)
    if c["more"]:
        g.A, g.e
        g.add_edges([list(x) for x in c["more"]], [2.5] * len(c["more"]), merge_op="sum")
        m.add(c["more"], [2.5] * len(c["more"]), "sum")
    items = m.items()
    h = dhg.Hypergraph.from_graph(g)
    hm = HyperModel(m.n)
    hm.add([k for k, _ in items], [w for _, w in items], "mean", "main")
    check_hyper(h, hm)
    poke(h)
    h, hm = build_hyper(dhg, dict(n=m.n, groups=[["a", c["pre"], None], ["main", c["pre"], [2.0] * len(c["pre"])]], vw=None))
    h.H, h.e, h.H_of_group("a"), h.D_v
    h.add_hyperedges_from_graph(g, group_name=c["gname"])
    hm.add([k for k, _ in items], [w for _, w in items], "mean", c["gname"])
    check_hyper(h, hm)
    check_graph(g, m)
    raises(lambda: dhg.Hypergraph(m.n + 1).add_hyperedges_from_graph(g), "a graph with another number of vertices")
    return ["nt"] if len(items) > 1 else []


@st.composite
def bigraph_cases(draw):
    c = draw(gen.bigraph_case())
    c["more"] = draw(gen.pairs(c["nu"], c["nv"], max_size=3))
    c["U"], c["swap"] = draw(st.booleans()), draw(st.booleans())
    c["gname"] = draw(gen.group_names)
    return c


def check_from_bigraph(c):
    g, m = build_bigraph(dhg, c)
    if c["more"]:
        g.B, g.e
        g.add_edges([list(x) for x in c["more"]])
        m.add(c["more"], None, "mean")
    if c["swap"]:
        g, m = g.switch_uv(), m.switch()
    B = m.B(True) if c["U"] else m.B(True).T
    edges = [np.nonzero(B[:, j])[0].tolist() for j in range(B.shape[1])]
    edges = [e for e in edges if e]
    hm = HyperModel(B.shape[0])
    hm.add(edges, None, "mean", "main")
    check_hyper(dhg.Hypergraph.from_bigraph(g, U_as_vertex=c["U"]), hm)
    if c["U"]:
        check_hyper(dhg.Hypergraph.from_bigraph(g), hm)
    h, hm = build_hyper(dhg, dict(n=B.shape[0], groups=[["a", [[0]], [2.0]], ["b", [[B.shape[0] - 1]], None]], vw=None))
    h.H, h.e, h.H_of_group("a"), h.D_v
    h.add_hyperedges_from_bigraph(g, U_as_vertex=c["U"], group_name=c["gname"])
    hm.add(edges, None, "mean", c["gname"])
    check_hyper(h, hm)
    check_bigraph(g, m)
    return ["nt"] if len(edges) > 1 else []


@st.composite
def hyper_cases(draw):
    c = draw(gen.hyper_case(lo=1, hi=7, big=10))
    c["U"], c["weighted"] = draw(st.booleans()), draw(st.booleans())
    c["touch"] = draw(st.booleans())
    return c


def check_to_bigraph(c):
    h, m = build_hyper(dhg, c)
    if c["touch"]:
        h.H, h.e
        h.add_hyperedges([[0]], [4.0], merge_op="sum")
        m.add([[0]], [4.0], "sum", "main")
    e, w, _ = ordered(h)
    b = dhg.BiGraph.from_hypergraph(h, vertex_as_U=c["U"], weighted=c["weighted"])
    bm = BiGraphModel(m.n, len(e)) if c["U"] else BiGraphModel(len(e), m.n)
    for j, x in enumerate(e):
        for v in x:
            bm.e[(v, j) if c["U"] else (j, v)] = float(w[j]) if c["weighted"] else 1.0
    check_bigraph(b, bm)
    back = dhg.Hypergraph.from_bigraph(b, U_as_vertex=c["U"])
    poke(b)
    hm = HyperModel(m.n)
    hm.add(list(dict.fromkeys(m.key(x) for x in e)), None, "mean", "main")
    check_hyper(back, hm)
    poke(back)
    check_hyper(h, m)
    return ["nt"] if len(e) > 1 else []


@st.composite
def adj_cases(draw):
    kind = draw(st.sampled_from("gdb"))
    n = draw(gen.sizes(1, 7, 12))
    n2 = draw(gen.sizes(1, 7, 12)) if kind == "b" else n
    rows = draw(st.lists(st.tuples(st.integers(0, n - 1), st.lists(st.integers(0, n2 - 1), max_size=5)).map(lambda t: [t[0]] + t[1]), max_size=6))
    for _ in range(draw(st.integers(0, 2))):
        rows.insert(draw(st.integers(0, len(rows))), [])
    return dict(kind=kind, n=n, n2=n2, rows=rows, extra=draw(st.booleans()))


def check_adj(c):
    rows = [list(r) for r in c["rows"]]
    if c["kind"] == "b":
        g, m = dhg.BiGraph.from_adj_list(c["n"], c["n2"], rows), BiGraphModel(c["n"], c["n2"])
    else:
        cls, mc = (dhg.Graph, GraphModel) if c["kind"] == "g" else (dhg.DiGraph, DiGraphModel)
        g, m = cls.from_adj_list(c["n"], rows, extra_selfloop=c["extra"]), mc(c["n"], c["extra"])
    e = [(r[0], x) for r in c["rows"] for x in r[1:]]
    m.add(e, None, "mean")
    {"g": check_graph, "d": check_digraph, "b": check_bigraph}[c["kind"]](g, m)
    poke(g)
    same(rows, c["rows"], "adjacency list after the call")
    return ["nt"] if len(m.e) > 1 else []


@st.composite
def knn_cases(draw):
    n = draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(20, 40)))
    d = draw(st.integers(1, 3))
    lim = draw(st.sampled_from([1, 3, 20, 60]))
    off = draw(st.sampled_from([0, 0, 0, 1000, 4096]))
    pts = draw(st.lists(st.lists(st.integers(-lim, lim), min_size=d, max_size=d), min_size=n, max_size=n))
    return dict(pts=pts, off=off, k=draw(st.integers(1, min(n, 6))), p=draw(st.sampled_from([2, 2, 1, 3])),
                d2w=draw(st.booleans()), center=draw(st.booleans()), src=draw(st.booleans()), dt=draw(st.booleans()))


@st.composite
def many_knn(draw):
    """Dozens of points in many dimensions, dozens of neighbours, from a generated seed."""
    rng = np.random.default_rng(draw(st.integers(0, 1 << 30)))
    n, d = draw(st.integers(40, 130)), draw(st.sampled_from([1, 2, 5, 16, 50]))
    c = draw(knn_cases())
    c.update(pts=rng.integers(-60, 61, (n, d)).tolist(), k=draw(st.one_of(st.integers(2, 40), st.integers(1, n))), off=0)
    return c


def nearest(D, v, chosen, what):
    """chosen (vertices other than v) are at least as near as every other vertex but v."""
    rest = [x for x in range(len(D)) if x != v and x not in chosen]
    if chosen and rest:
        far, near_ = max(D[v][x] for x in chosen), min(D[v][x] for x in rest)
        return far <= near_ * (1 + 1e-5) + 1e-5
    return True


def check_knn(c):
    P = np.array(c["pts"], dtype=float) / 8 + c["off"]
    n, k = len(P), c["k"]
    X = torch.tensor(P, dtype=torch.float64 if c["dt"] else torch.float32)
    D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1))
    h = dhg.Hypergraph.from_feature_kNN(X, k)
    e = [set(x) for x in h.e[0]]
    same((h.num_v, set(h.e[1])), (n, {1.0}), "num_v, weights")
    for x in e:
        require(len(x) == k, "hyperedge %r has %d vertices, expected %d", sorted(x), len(x), k)
    fits = [[v in x and nearest(D, v, x - {v}, "") for x in e] for v in range(n)]
    for v in range(n):
        require(any(fits[v]), "no hyperedge consists of vertex %d and its %d nearest others: %r", v, k - 1, e)
    for j, x in enumerate(e):
        require(any(fits[v][j] for v in range(n)), "hyperedge %r is no vertex's neighbourhood", sorted(x))
    h2 = dhg.Hypergraph(n)
    h2.add_hyperedges([[0]], group_name="a")
    h2.H, h2.e
    h2.add_hyperedges_from_feature_kNN(X, k, group_name="knn")
    same(sorted(map(sorted, h2.e_of_group("knn")[0])), sorted(map(sorted, e)), "group added from features")
    same([tuple(x) for x in h2.e_of_group("a")[0]], [(0,)], "the other group")
    poke(h2)
    raises(lambda: dhg.Hypergraph.from_feature_kNN(X, n + 1), "k above the number of vertices")
    raises(lambda: dhg.Hypergraph(n + 1).add_hyperedges_from_feature_kNN(X, k), "features with another number of rows")
    # directed graph
    others = k - 1 if c["center"] else k
    if others <= n - 1:
        g = dhg.DiGraph.from_feature_kNN(X, k, p=c["p"], distance2weight=c["d2w"], include_center=c["center"], center_as_src=c["src"])
        Dp = (np.abs(P[:, None] - P[None]) ** c["p"]).sum(-1) ** (1 / c["p"])
        A = np.zeros((n, n))
        for (a, b), w in zip(*g.e):
            A[a, b] += float(w)
        A = A if c["src"] else A.T
        for v in range(n):
            out = {x for x in range(n) if A[v, x] != 0}
            require((v in out) == c["center"], "vertex %d links itself: %s", v, v in out)
            out.discard(v)
            require(len(out) == others, "vertex %d links %r, expected %d others", v, sorted(out), others)
            require(nearest(Dp, v, out, ""), "vertex %d links %r, which are not its nearest", v, sorted(out))
            if c["center"]:
                near(A[v, v], 1.0, f"self-loop of {v}")
            for x in out:
                near(A[v, x], np.exp(-Dp[v, x]) if c["d2w"] else 1.0, f"weight of ({v},{x})", rtol=1e-5, atol=1e-9)
        same(g.num_e, n * k, "num_e")
        same(g.num_v, n, "num_v")
        poke(g)
    return ["nt"] if 2 <= k < n else []


SUBS = [Sub("graph", graph_cases, check_from_graph, quick=700, shards=2),
        Sub("bigraph", bigraph_cases, check_from_bigraph, quick=700, shards=2),
        Sub("to_bigraph", hyper_cases, check_to_bigraph, quick=700, shards=2),
        Sub("adj", adj_cases, check_adj, quick=900, shards=2),
        Sub("knn", knn_cases, check_knn, quick=1000, shards=6), Sub("many_knn", many_knn, check_knn, quick=24, shards=2, case_timeout=60),
        Sub("large_graph", lambda: gen.large(graph_cases()), check_from_graph, quick=16, shards=2), Sub("large_bigraph", lambda: gen.large(bigraph_cases()), check_from_bigraph, quick=16, shards=2),
        Sub("large_hyper", lambda: gen.large(hyper_cases()), check_to_bigraph, quick=16, shards=2)]
