from hypothesis import strategies as st
import numpy as np
import torch
import dhg
from harness import gen
from harness.core import Sub, require, seed_all
from harness.refmodel import build_graph, build_digraph, build_bigraph, check_graph, check_digraph, check_bigraph
from harness.util import near, feats, row_softmax, safe_pow, same, dense, masked_mean

PROPERTY = "P07"
RULE = ("a case is a graph, directed graph or bigraph (isolated vertices, self-loops, extra self-loops, "
        "weights), an aggregation mode, optional per-edge weights in the order of the source/destination "
        "vectors, a direction, a feature seed and an optional edit before a second call; the result is "
        "compared with a dense message-by-message reference, on random features and on the identity. "
        "Non-trivial: at least two edges.")
AGGR = ["mean", "sum", "softmax_then_sum"]


def reference(P, mask, aggr, X):
    if aggr == "sum":
        M = P
    elif aggr == "mean":
        M = safe_pow(P.sum(1), -1)[:, None] * P
    else:
        M = row_softmax(P, mask)
    return M @ X


def ew_values(seed, k, signed):
    r = np.random.RandomState(seed % (2 ** 32))
    v = r.randint(1, 33, size=k) / 8.0
    if signed:
        v = v * r.choice([-1.0, 1.0], size=k)
    return torch.tensor(v, dtype=torch.float32)


@st.composite
def common(draw, c):
    c["aggr"] = draw(st.sampled_from(AGGR))
    c["ew"] = draw(st.one_of(st.none(), gen.seeds))
    c["xs"], c["d"] = draw(gen.seeds), draw(gen.widths())
    c["dir"] = draw(st.booleans())
    c["edit"] = draw(st.booleans())
    c["default"] = draw(st.integers(0, 3)) == 0
    return c


@st.composite
def gcase(draw):
    c = draw(gen.graph_case(hi=8, big=14))
    c["extra"] = draw(st.booleans())
    return draw(common(c))


@st.composite
def bcase(draw):
    return draw(common(draw(gen.bigraph_case())))


def propagate(call, base, unit, rows, cols, c, src, dst, weight, what):
    """base: dense receiver x sender matrix of stored weights; unit: where its edges are; src/dst: the library's index vectors,
    dst receiving. call(X, **kw) runs the library."""
    kw = {} if (c["default"] and c["aggr"] == "mean") else {"aggr": c["aggr"]}
    mask = unit != 0
    if c["ew"] is None:
        P = base
    else:
        ew = ew_values(c["ew"], len(src), c["aggr"] != "mean") * (1 / 1024 if c["ew"] % 6 == 0 else 1.0)
        P = np.zeros_like(base)
        for s, t, w in zip(src.tolist(), dst.tolist(), ew.tolist()):
            require(mask[t, s], "%s: index vectors list (%d -> %d), which is no edge", what, s, t)
            P[t, s] = w
        kw["e_weight"] = ew
        ew0 = ew.clone()
    for X in (feats(c["xs"], cols, c["d"]), torch.eye(cols)):
        X0 = X.clone()
        near(call(X, **kw), reference(P, mask, c["aggr"], X0.double().numpy()), f"{what} {c['aggr']} weights={c['ew'] is not None}")
        require(torch.equal(X, X0), "%s modified the features", what)
    if c["ew"] is not None:
        require(torch.equal(kw["e_weight"], ew0), "%s modified the weights", what)


def check_g(c):
    g, m = build_graph(dhg, c)
    for step in range(2 if c["edit"] else 1):
        propagate(g.v2v, m.A(), m.A(True), m.n, m.n, c, g.e_src, g.e_dst, g.e_weight, "Graph.v2v")
        check_graph(g, m, ["e", "A", "coo"])
        g.add_edges([[0, m.n - 1]], [3.5], merge_op="sum")
        m.add([[0, m.n - 1]], [3.5], "sum")
        c = dict(c, xs=c["xs"] + 1)
    return ["nt", c["aggr"] + ("_w" if c["ew"] is not None else "")] if len(c["e"]) >= 2 else []


def check_d(c):
    g, m = build_digraph(dhg, c)
    for step in range(2 if c["edit"] else 1):
        A, U = m.A(), m.A(True)
        dirn = "src2dst" if c["dir"] else "dst2src"
        if c["dir"]:
            propagate(lambda X, **kw: g.v2v(X, direction="src2dst", **kw), A.T, U.T, m.n, m.n, c, g.e_src, g.e_dst, g.e_weight, "DiGraph.v2v(src2dst)")
        else:
            propagate(lambda X, **kw: g.v2v(X, direction="dst2src", **kw), A, U, m.n, m.n, c, g.e_dst, g.e_src, g.e_weight, "DiGraph.v2v(dst2src)")
        check_digraph(g, m, ["e", "A", "coo"])
        g.reverse_direction()
        m.reverse()
        c = dict(c, xs=c["xs"] + 1)
    return ["nt", c["aggr"] + ("_w" if c["ew"] is not None else "")] if len(c["e"]) >= 2 else []


def check_b(c):
    g, m = build_bigraph(dhg, c)
    for step in range(2 if c["edit"] else 1):
        B = m.B()
        if c["dir"]:
            propagate(g.u2v, B.T, m.B(True).T, m.nv, m.nu, c, g.e_u, g.e_v, g.e_weight, "BiGraph.u2v")
        else:
            propagate(g.v2u, B, m.B(True), m.nu, m.nv, c, g.e_v, g.e_u, g.e_weight, "BiGraph.v2u")
        check_bigraph(g, m, ["e", "B", "coo"])
        g.add_edges([[m.nu - 1, 0]], [3.5], merge_op="sum")
        m.add([[m.nu - 1, 0]], [3.5], "sum")
        c = dict(c, xs=c["xs"] + 1)
    return ["nt", c["aggr"] + ("_w" if c["ew"] is not None else "")] if len(c["e"]) >= 2 else []


@st.composite
def dcase(draw):
    c = draw(gen.bigraph_case(min_e=3)) if draw(st.booleans()) else draw(gen.graph_case(lo=2, min_e=3))
    c["kind"] = "b" if "nu" in c else draw(st.sampled_from(["g", "d"]))
    c["rate"] = draw(gen.rates)
    c["ew"] = draw(st.one_of(st.none(), gen.seeds))
    c["dir"] = draw(st.booleans())
    return c


def check_drop(c):
    """With a drop rate, each message is either delivered whole or not at all."""
    if c["kind"] == "b":
        g, m = build_bigraph(dhg, c)
        base = m.B().T if c["dir"] else m.B()
        src, dst = (g.e_u, g.e_v) if c["dir"] else (g.e_v, g.e_u)
        f = g.u2v if c["dir"] else g.v2u
    elif c["kind"] == "d":
        g, m = build_digraph(dhg, c)
        base = m.A().T if c["dir"] else m.A()
        src, dst = (g.e_src, g.e_dst) if c["dir"] else (g.e_dst, g.e_src)
        f = lambda X, **kw: g.v2v(X, direction="src2dst" if c["dir"] else "dst2src", **kw)
    else:
        g, m = build_graph(dhg, c)
        base, f, src, dst = m.A(), g.v2v, g.e_src, g.e_dst
    kw = {}
    P = base
    if c["ew"] is not None:
        kw["e_weight"] = ew_values(c["ew"], len(src), True)
        P = np.zeros_like(base)
        for s, t, w in zip(src.tolist(), dst.tolist(), kw["e_weight"].tolist()):
            P[t, s] = w
    out = dense(f(torch.eye(base.shape[1]), aggr="sum", drop_rate=c["rate"], **kw))
    ok = np.isclose(out, P, rtol=1e-4, atol=1e-5) | np.isclose(out, 0)
    require(ok.all(), "dropped propagation delivered something else: %s vs %s", out.tolist(), P.tolist())
    near(f(torch.eye(base.shape[1]), aggr="sum", drop_rate=0.0, **kw), P, "drop_rate 0")
    if c["ew"] is not None:
        kw["e_weight"], P = kw["e_weight"].abs(), np.abs(P)
    masked_mean(f(torch.eye(base.shape[1]), aggr="mean", drop_rate=c["rate"], **kw), P, "mean with a drop rate")
    near(f(torch.eye(base.shape[1]), aggr="mean", drop_rate=0.0, **kw), safe_pow(P.sum(1), -1)[:, None] * P, "mean at drop_rate 0")
    return ["nt"]


@st.composite
def rcase(draw):
    return dict(kind=draw(st.sampled_from(["g", "d", "b"])), rate=draw(gen.rates), w=draw(st.booleans()), dir=draw(st.booleans()), seed=draw(gen.seeds))


def check_rate(c):
    """On a complete structure, the number of delivered messages matches 1 - rate (8 sigma)."""
    seed_all(c["seed"])
    n = 24
    e = [[i, j] for i in range(n) for j in range(n) if i != j]
    if c["kind"] == "b":
        g = dhg.BiGraph(n, n, e)
        f = g.u2v if c["dir"] else g.v2u
    elif c["kind"] == "d":
        g = dhg.DiGraph(n, e)
        f = lambda X, **kw: g.v2v(X, direction="src2dst" if c["dir"] else "dst2src", **kw)
    else:
        g = dhg.Graph(n, e)
        f = g.v2v
    kw = {"e_weight": torch.ones(len(g.e_weight))} if c["w"] else {}
    out = dense(f(torch.eye(n), aggr="sum", drop_rate=c["rate"], **kw))
    N, k, q = n * (n - 1), float((out != 0).sum()), 1 - c["rate"]
    require(abs(k - N * q) < 8 * (N * q * (1 - q)) ** 0.5 + 1, "drop_rate %s delivered %d of %d messages", c["rate"], k, N)
    return ["nt"]


SUBS = [
    Sub("graph", gcase, check_g, quick=1500, shards=4),
    Sub("digraph", gcase, check_d, quick=1500, shards=4),
    Sub("bigraph", bcase, check_b, quick=1500, shards=4),
    Sub("drop", dcase, check_drop, quick=500, shards=2),
    Sub("rate", rcase, check_rate, quick=80, shards=2),
    Sub("large_graph", lambda: gen.large(gcase()), check_g, quick=32, shards=2),
    Sub("large_digraph", lambda: gen.large(gcase()), check_d, quick=32, shards=2),
    Sub("large_bigraph", lambda: gen.large(bcase()), check_b, quick=32, shards=2),
]
