from hypothesis import strategies as st
import numpy as np
import torch
import dhg
from harness import gen
from harness.core import Sub, require, seed_all
from harness.refmodel import (build_graph, build_digraph, build_bigraph, check_graph, check_digraph,
                              check_bigraph)
from harness.util import near, safe_pow, feats, same, masked, kept_share

PROPERTY = "P05"
RULE = ("a case is a graph, directed graph or bigraph with self-loops, extra self-loops, isolated vertices "
        "and weights, a feature matrix and lambda; all normalisers are read in a generated order, the graph "
        "is edited and they are read again; each is compared with its dense definition. Non-trivial: at "
        "least two edges and either an isolated vertex, a self-loop or two different weights.")
GP = ["D_v", "D_v_neg_1", "D_v_neg_1_2", "L", "L_sym", "L_rw", "L_GCN", "A", "smooth", "gcn"]
DP = ["D_v_in", "D_v_out", "D_v_in_neg_1", "D_v_out_neg_1", "A", "A_T", "smooth"]
BP = ["D_u", "D_v", "D_u_neg_1", "D_v_neg_1", "L_GCN", "B", "smooth", "gcn"]


def rich(c):
    e = c["e"]
    deg = {x for p in e for x in p}
    n = c.get("n") or (c["nu"] + c["nv"])
    return len(e) >= 2 and (len(deg) < n or any(a == b for a, b in e) or (c["w"] and len(set(c["w"])) > 1))


@st.composite
def gcase(draw, props):
    c = draw(gen.graph_case(hi=8, big=15))
    c["extra"] = draw(st.booleans())
    c["order"] = draw(st.permutations(props))
    c["more"] = draw(gen.pairs(c["n"], max_size=3))
    c["xs"], c["d"], c["lamb"] = draw(gen.seeds), draw(gen.widths()), draw(st.sampled_from([1, 1, 1, 0.1, 10])) * draw(st.integers(-8, 8)) / 4
    return c


def check_g_props(g, m, c):
    A, n = m.A(), m.n
    D = A.sum(1)
    A0 = A - np.diag(np.diag(A))
    D0 = A0.sum(1)
    h0 = np.diag(safe_pow(D0, -0.5))
    Ah = m.copy()
    Ah.extra = True
    A1 = Ah.A()
    h1 = np.diag(safe_pow(A1.sum(1), -0.5))
    gcn = h1 @ A1 @ h1
    L = np.diag(D0) - A0
    ref = {"A": A, "D_v": np.diag(D), "D_v_neg_1": np.diag(safe_pow(D, -1)), "D_v_neg_1_2": np.diag(safe_pow(D, -0.5)),
           "L": L, "L_sym": np.eye(n) - h0 @ A0 @ h0, "L_rw": np.eye(n) - np.diag(safe_pow(D0, -1)) @ A0, "L_GCN": gcn}
    X = feats(c["xs"], n, c["d"])
    X0 = X.clone()
    for p in c["order"]:
        if p == "smooth":
            for nm in ("L", "L_sym", "L_rw", "L_GCN"):
                near(g.smoothing(X, getattr(g, nm), c["lamb"]), X0.double().numpy() + c["lamb"] * ref[nm] @ X0.double().numpy(), f"smoothing({nm})")
        elif p == "gcn":
            near(g.smoothing_with_GCN(X), gcn @ X0.double().numpy(), "smoothing_with_GCN")
        else:
            near(getattr(g, p), ref[p], p)
    require(torch.equal(X, X0), "features were modified")


def check_graph_case(c):
    g, m = build_graph(dhg, c)
    check_g_props(g, m, c)
    check_graph(g, m)
    if c["more"]:
        g.add_edges([list(x) for x in c["more"]])
        m.add(c["more"], None, "mean")
        check_g_props(g, m, c)
        g.remove_edges([list(c["more"][0])])
        m.rm(c["more"][:1])
        check_g_props(g, m, c)
    return ["nt"] if rich(c) else []


def check_d_props(g, m, c):
    A, n = m.A(), m.n
    ref = {"A": A, "A_T": A.T, "D_v_in": np.diag(A.sum(0)), "D_v_out": np.diag(A.sum(1)),
           "D_v_in_neg_1": np.diag(safe_pow(A.sum(0), -1)), "D_v_out_neg_1": np.diag(safe_pow(A.sum(1), -1))}
    X = feats(c["xs"], n, c["d"])
    for p in c["order"]:
        if p == "smooth":
            near(g.smoothing(X, g.A, c["lamb"]), X.double().numpy() + c["lamb"] * A @ X.double().numpy(), "smoothing(A)")
        else:
            near(getattr(g, p), ref[p], p)


def check_digraph_case(c):
    g, m = build_digraph(dhg, c)
    check_d_props(g, m, c)
    check_digraph(g, m)
    if c["more"]:
        g.add_edges([list(x) for x in c["more"]])
        m.add(c["more"], None, "mean")
        check_d_props(g, m, c)
        g.reverse_direction()
        m.reverse()
        check_d_props(g, m, c)
    return ["nt"] if rich(c) else []


@st.composite
def bcase(draw):
    c = draw(gen.bigraph_case())
    c["order"] = draw(st.permutations(BP))
    c["more"] = draw(gen.pairs(c["nu"], c["nv"], max_size=3))
    c["xs"], c["d"], c["lamb"] = draw(gen.seeds), draw(gen.widths()), draw(st.sampled_from([1, 1, 1, 0.1, 10])) * draw(st.integers(-8, 8)) / 4
    return c


def check_b_props(g, m, c):
    B, A = m.B(), m.A()
    n = m.nu + m.nv
    A1 = A + np.eye(n)
    h = np.diag(safe_pow(A1.sum(1), -0.5))
    gcn = h @ A1 @ h
    ref = {"B": B, "D_u": np.diag(B.sum(1)), "D_v": np.diag(B.sum(0)), "D_u_neg_1": np.diag(safe_pow(B.sum(1), -1)),
           "D_v_neg_1": np.diag(safe_pow(B.sum(0), -1)), "L_GCN": gcn}
    X = feats(c["xs"], n, c["d"])
    for p in c["order"]:
        if p == "smooth":
            near(g.smoothing(X, g.L_GCN, c["lamb"]), X.double().numpy() + c["lamb"] * gcn @ X.double().numpy(), "smoothing")
        elif p == "gcn":
            near(g.smoothing_with_GCN(X), gcn @ X.double().numpy(), "smoothing_with_GCN")
        else:
            near(getattr(g, p), ref[p], p)


def check_bigraph_case(c):
    g, m = build_bigraph(dhg, c)
    check_b_props(g, m, c)
    check_bigraph(g, m)
    if c["more"]:
        g.add_edges([list(x) for x in c["more"]])
        m.add(c["more"], None, "mean")
        check_b_props(g, m, c)
        check_b_props(g.switch_uv(), m.switch(), c)
    return ["nt"] if rich(c) else []


@st.composite
def drop_cases(draw):
    big = draw(st.booleans())
    if draw(st.booleans()):
        c = dict(draw(gen.graph_case(hi=8, big=15)) if not big else dict(n=30, e=[[i, j] for i in range(30) for j in range(i)], w=None), extra=draw(st.booleans()))
    else:
        c = draw(gen.bigraph_case()) if not big else dict(nu=24, nv=24, e=[[i, j] for i in range(24) for j in range(24)], w=None)
    return dict(c, big=big, rate=draw(gen.rates), seed=draw(gen.seeds), times=draw(st.integers(1, 2)))


def check_drop(c):
    """GCN smoothing with a drop rate: each entry of the matrix is used or left out, with the given probability."""
    g, m = build_bigraph(dhg, c) if "nu" in c else build_graph(dhg, c)
    n = c["n"] if "n" in c else c["nu"] + c["nv"]
    A1 = m.A() + np.eye(n)
    if "n" in c:
        mh = m.copy()
        mh.extra = True
        A1 = mh.A()
    h1 = np.diag(safe_pow(A1.sum(1), -0.5))
    gcn = h1 @ A1 @ h1
    seed_all(c["seed"])
    for _ in range(c["times"]):
        keep = masked(g.smoothing_with_GCN(torch.eye(n), drop_rate=c["rate"]), gcn, "smoothing_with_GCN with a drop rate")
        if c["big"]:
            kept_share(int(keep.sum()), int((gcn != 0).sum()), c["rate"], "smoothing_with_GCN")
    near(g.smoothing_with_GCN(torch.eye(n), drop_rate=0.0), gcn, "smoothing_with_GCN at rate 0 afterwards")
    near(g.L_GCN, gcn, "L_GCN afterwards")
    return ["nt"] if len(m.e) >= 2 else []


SUBS = [
    Sub("drop", drop_cases, check_drop, quick=400, shards=2),
    Sub("graph", lambda: gcase(GP), check_graph_case, quick=1500, shards=6),
    Sub("digraph", lambda: gcase(DP), check_digraph_case, quick=1000, shards=3),
    Sub("bigraph", bcase, check_bigraph_case, quick=1000, shards=3),
    Sub("large_graph", lambda: gen.large(gcase(GP)), check_graph_case, quick=24, shards=2),
    Sub("large_digraph", lambda: gen.large(gcase(DP)), check_digraph_case, quick=24, shards=2),
    Sub("large_bigraph", lambda: gen.large(bcase()), check_bigraph_case, quick=16, shards=2),
]
