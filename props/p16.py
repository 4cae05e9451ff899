from hypothesis import strategies as st
import numpy as np
import torch
import dhg
from harness import gen, refconv as R
from harness.core import Sub, require, seed_all
from harness.util import same, near, feats, dense
from props import p17

PROPERTY = "P16"
RULE = ("a case is a structure, features, an operation (propagation, smoothing, a Laplacian or another matrix, or a "
        "convolution with random parameters in evaluation mode), a vertex permutation, an order for the edges supplied "
        "and a second component; the result on the relabelled and reordered structure must be the relabelled result, "
        "and the result on the disjoint union, whose second component gets two different feature sets, must restrict to "
        "the original. Non-trivial: at least two edges and a permutation other than the identity.")
TOL = dict(rtol=3e-4, atol=3e-4)

G_OPS = ["v2v_sum", "v2v_mean", "v2v_softmax_then_sum", "smooth_L", "smooth_L_sym", "smooth_L_rw", "smooth_GCN", "M_L", "M_L_sym", "M_L_rw",
         "M_L_GCN", "M_A", "M_D_v_neg_1_2"] + ["conv_" + k for k in p17.GRAPH]
D_OPS = ["v2v_sum", "v2v_mean", "v2v_softmax_then_sum", "M_A", "M_A_T", "M_D_v_in_neg_1", "M_D_v_out_neg_1"]
B_OPS = ["u2v_sum", "u2v_mean", "u2v_softmax_then_sum", "v2u_sum", "v2u_mean", "v2u_softmax_then_sum", "smooth_GCN", "M_L_GCN", "M_A", "M_D_u_neg_1", "M_D_v_neg_1"]
H_OPS = ["v2v_sum", "v2v_mean", "v2v_softmax_then_sum", "gv2v_sum", "gv2v_mean", "gv2v_softmax_then_sum", "smooth_L_sym", "smooth_L_rw", "smooth_L_HGNN",
         "smooth_HGNN", "gsmooth_HGNN", "M_L_sym", "M_L_rw", "M_L_HGNN", "M_D_v", "M_D_v_neg_1_2"] + ["conv_" + k for k in p17.HYPER]


def shuffled(draw, e, w, flip):
    """The same edges in another order, with end points / members reordered."""
    p = draw(gen.perms(len(e)))
    out = []
    for i in p:
        x = list(e[i])
        if flip and len(x) > 1 and draw(st.booleans()):
            x = x[::-1]
        out.append(x)
    return out, (None if w is None else [w[i] for i in p])


@st.composite
def gcases(draw):
    kind = draw(st.sampled_from("ggdb"))
    if kind == "b":
        a, b = draw(gen.bigraph_case(hi=6, big=9)), draw(gen.bigraph_case(hi=4, big=4, max_e=5))
        perm = [draw(gen.perms(a["nu"])), draw(gen.perms(a["nv"]))]
    else:
        a, b = draw(gen.graph_case(hi=7, big=11)), draw(gen.graph_case(hi=4, big=4, max_e=5))
        perm = draw(gen.perms(a["n"]))
    if (a["w"] is None) != (b["w"] is None):
        b["w"] = None if a["w"] is None else [1.0] * len(b["e"])
    a["extra"] = b["extra"] = kind != "b" and draw(st.sampled_from([False, False, True]))
    e2, w2 = shuffled(draw, a["e"], a["w"], kind == "g")
    op = draw(st.sampled_from({"g": G_OPS, "d": D_OPS, "b": B_OPS}[kind]))
    return dict(kind=kind, a=a, b=b, perm=perm, e2=e2, w2=w2, op=op, merge=draw(st.sampled_from(["max", "sum"])), s1=draw(gen.seeds), s2=draw(gen.seeds),
                s3=draw(gen.seeds), lam=draw(st.sampled_from([0.5, 1.0, -0.25])), dir=draw(st.sampled_from(["dst2src", "src2dst"])),
                o=draw(p17.opts(op[5:])) if op.startswith("conv_") else None)


@st.composite
def hcases(draw):
    op = draw(st.sampled_from(H_OPS))
    mv = 2 if op == "conv_hypergcn" else 1
    a, b = draw(gen.hyper_case(lo=mv, hi=7, big=10, min_v=mv)), draw(gen.hyper_case(lo=mv, hi=4, big=4, min_v=mv, max_e=4))
    if (a["vw"] is None) != (b["vw"] is None):
        b["vw"] = None if a["vw"] is None else [1.0] * b["n"]
    g2 = []
    for nm, e, w in a["groups"]:
        e2, w2 = shuffled(draw, e, w, True)
        g2.append([nm, e2, w2])
    return dict(kind="h", a=a, b=b, perm=draw(gen.perms(a["n"])), g2=g2, op=op, merge=draw(st.sampled_from(["max", "sum"])), s1=draw(gen.seeds),
                s2=draw(gen.seeds), s3=draw(gen.seeds), lam=draw(st.sampled_from([0.5, 1.0, -0.25])), grp=draw(st.integers(0, 2)),
                vals=[draw(gen.perms(a["n"])), draw(st.permutations(range(b["n"]))), draw(st.permutations(range(b["n"])))],
                o=draw(p17.opts(op[5:])) if op.startswith("conv_") else None)


def build(kind, a, merge):
    if kind == "h":
        h = dhg.Hypergraph(a["n"], v_weight=a["vw"])
        for nm, e, w in a["groups"]:
            h.add_hyperedges([list(x) for x in e], w, merge_op=merge, group_name=nm)
        return h
    e = [tuple(x) for x in a["e"]]
    if kind == "b":
        return dhg.BiGraph(a["nu"], a["nv"], e, a["w"], merge_op=merge)
    g = (dhg.Graph if kind == "g" else dhg.DiGraph)(a["n"], e, a["w"], merge_op=merge)
    if a["extra"]:
        g.add_extra_selfloop()
    return g


def apply(c, g, X, conv):
    """The result as a list of (array, axes): axes tell which dimension is indexed by u / v."""
    op, kind = c["op"], c["kind"]
    if op.startswith("conv_"):
        with torch.no_grad():
            seed_all(c["o"]["ps"])
            return conv(X, g), "v"
    if op.startswith("M_"):
        M = getattr(g, op[2:])
        ax = {"b": {"M_D_u_neg_1": "uu", "M_D_v_neg_1": "vv"}.get(op, "aa")}.get(kind, "vv")
        return M, ax
    if op == "smooth_GCN":
        return g.smoothing_with_GCN(X), ("a" if kind == "b" else "v")
    if op == "smooth_HGNN":
        return g.smoothing_with_HGNN(X), "v"
    if op == "gsmooth_HGNN":
        return g.smoothing_with_HGNN_of_group(group(c), X), "v"
    if op.startswith("smooth_"):
        return g.smoothing(X, getattr(g, op[7:]), c["lam"]), "v"
    what, aggr = op.split("_", 1)
    if what == "gv2v":
        return g.v2v_of_group(group(c), X, aggr=aggr), "v"
    if kind == "b":
        return getattr(g, what)(X, aggr=aggr), what[-1]
    if kind == "d":
        return g.v2v(X, aggr=aggr, direction=c["dir"]), "v"
    return g.v2v(X, aggr=aggr), "v"


def group(c):
    gs = c["a"]["groups"]
    return gs[c["grp"] % len(gs)][0]


def relabel(c):
    a, p = c["a"], c["perm"]
    if c["kind"] == "h":
        vw = None
        if a["vw"] is not None:
            vw = [0] * a["n"]
            for i, x in enumerate(a["vw"]):
                vw[p[i]] = x
        return dict(n=a["n"], vw=vw, groups=[[nm, [[p[v] for v in x] for x in e], w] for nm, e, w in c["g2"]])
    if c["kind"] == "b":
        return dict(a, e=[[p[0][u], p[1][v]] for u, v in c["e2"]], w=c["w2"])
    return dict(a, e=[[p[u], p[v]] for u, v in c["e2"]], w=c["w2"])


def union(c):
    a, b = c["a"], c["b"]
    if c["kind"] == "h":
        gs = {nm: [list(e), list(w) if w is not None else [1.0] * len(e)] for nm, e, w in a["groups"]}
        for nm, e, w in b["groups"]:
            t = gs.setdefault(nm, [[], []])
            t[0] = t[0] + [[v + a["n"] for v in x] for x in e]
            t[1] = t[1] + (list(w) if w is not None else [1.0] * len(e))
        return dict(n=a["n"] + b["n"], vw=None if a["vw"] is None else a["vw"] + b["vw"], groups=[[k, v[0], v[1]] for k, v in gs.items()])
    w = None if a["w"] is None else list(a["w"]) + list(b["w"])
    if c["kind"] == "b":
        return dict(nu=a["nu"] + b["nu"], nv=a["nv"] + b["nv"], e=a["e"] + [[u + a["nu"], v + a["nv"]] for u, v in b["e"]], w=w, extra=False)
    return dict(n=a["n"] + b["n"], e=a["e"] + [[u + a["n"], v + a["n"]] for u, v in b["e"]], w=w, extra=a["extra"])


def inputs(c, d):
    """Feature rows: of a, two choices for b; and the kind of vertex they belong to."""
    a, b = c["a"], c["b"]
    if c["kind"] == "b":
        side = "a" if c["op"] == "smooth_GCN" else c["op"][0]
        na = {"u": a["nu"], "v": a["nv"], "a": a["nu"] + a["nv"], "M": 0}[side]
        nb = {"u": b["nu"], "v": b["nv"], "a": b["nu"] + b["nv"], "M": 0}[side]
        return side, feats(c["s1"], na, d), feats(c["s2"], nb, d), feats(c["s3"], nb, d)
    if c["op"] == "conv_hypergcn":
        u = np.random.RandomState(c["s1"] % 2 ** 32).randint(1, 6, size=d) / 4
        va, vb, vc = (np.array(v, dtype=float) for v in c["vals"])
        f = lambda v: torch.tensor(np.outer(v - 2.0, u), dtype=torch.float32)
        return "v", f(va), f(vb), f(vc)
    return "v", feats(c["s1"], a["n"], d), feats(c["s2"], b["n"], d), feats(c["s3"], b["n"], d)


def index(c, ax, which):
    """Positions of a's entries along an axis in the relabelled / united structure."""
    a, b, p = c["a"], c["b"], c["perm"]
    if c["kind"] != "b":
        return np.array(p if which == "perm" else range(a["n"]), dtype=int)
    U = list(p[0]) if which == "perm" else list(range(a["nu"]))
    V = list(p[1]) if which == "perm" else list(range(a["nv"]))
    if ax == "u":
        return np.array(U, dtype=int)
    if ax == "v":
        return np.array(V, dtype=int)
    off = a["nu"] if which == "perm" else a["nu"] + b["nu"]
    return np.array(U + [off + v for v in V], dtype=int)


def check(c):
    conv, d = None, 2
    if c["o"] is not None:
        conv = p17.make(c["o"]).eval()
        d = c["o"]["din"]
    side, X, Y1, Y2 = inputs(c, d)
    base, ax = apply(c, build(c["kind"], c["a"], c["merge"]), X.clone(), conv)
    base = dense(base)
    # relabelled, reordered
    Xp = torch.zeros_like(X)
    if side != "M":
        ix = index(c, side, "perm")
        Xp[torch.tensor(ix)] = X
    got, _ = apply(c, build(c["kind"], relabel(c), c["merge"]), Xp, conv)
    got = dense(got)
    same(got.shape, base.shape, "shape after relabelling")
    near(pick(c, got, ax, "perm"), base, f"{c['op']} on the relabelled structure", **TOL)
    # disjoint union
    u = build(c["kind"], union(c), c["merge"])
    for Y in (Y1, Y2):
        Z = join(c, side, X, Y)
        got, _ = apply(c, u, Z, conv)
        near(pick(c, dense(got), ax, "union"), base, f"{c['op']} next to another component", **TOL)
        if ax in ("vv", "aa", "uu"):
            g = dense(got)
            i, j = index(c, ax[0], "union"), index(c, ax[1], "union")
            rest = np.setdiff1d(np.arange(g.shape[1]), j)
            require(not g[np.ix_(i, rest)].any(), "%s links two components", c["op"])
    if c["kind"] == "h":
        ne = sum(len(g[1]) for g in c["a"]["groups"])
        moved = list(c["perm"]) != sorted(c["perm"])
    elif c["kind"] == "b":
        ne, moved = len(c["a"]["e"]), any(list(p) != sorted(p) for p in c["perm"])
    else:
        ne, moved = len(c["a"]["e"]), list(c["perm"]) != sorted(c["perm"])
    return [c["op"]] + (["nt"] if ne >= 2 and moved else [])


def pick(c, arr, ax, which):
    if len(ax) == 1:
        return arr[index(c, ax, which)]
    return arr[np.ix_(index(c, ax[0], which), index(c, ax[1], which))]


def join(c, side, X, Y):
    if side == "M":
        return X
    if side == "a":
        a, b = c["a"], c["b"]
        return torch.cat([X[:a["nu"]], Y[:b["nu"]], X[a["nu"]:], Y[b["nu"]:]])
    return torch.cat([X, Y])


SUBS = [Sub("graphs", gcases, check, quick=1400, shards=4),
        Sub("hypergraphs", hcases, check, quick=1600, shards=6),
        Sub("large_graphs", lambda: gen.large(gcases()), check, quick=40, shards=4),
        Sub("large_hypergraphs", lambda: gen.large(hcases()), check, quick=40, shards=4)]
