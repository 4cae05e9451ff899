from copy import deepcopy
from hypothesis import strategies as st
import numpy as np
import torch
import dhg
from harness import gen
from harness.core import Sub, require
from harness.refmodel import (GraphModel, DiGraphModel, BiGraphModel, HyperModel, build_graph, build_digraph,
                              build_bigraph, build_hyper, check_hyper, check_graph, check_digraph, check_bigraph)
from harness.util import same, near, feats
from props.p10 import struct, build, edit, touch, CHECK, VIEWS, CLS, edges_of

PROPERTY = "P11"
RULE = ("clone: a structure with a history is cloned and original and clone then receive interleaved edits and reads, "
        "each tracked by its own reference model (non-trivial: both are edited after the clone and the clone had an "
        "edge). inputs: every list, tensor or structure handed to constructors, edits, samplers and converters is "
        "compared with a deep copy afterwards, then mutated by the caller, and the structure compared with its model "
        "(non-trivial: at least one edge).")


@st.composite
def clone_cases(draw):
    c = draw(struct())
    kind = c["kind"]
    post = []
    for _ in range(draw(st.integers(2, 8))):
        who = draw(st.integers(0, 1))
        k = draw(st.sampled_from(["add", "add", "rmk", "read", "part", "clear", "again", "x", "special"]))
        if k == "add":
            if kind == "h":
                e = draw(gen.hyperedges(c["n"], max_size=3))
                op = ["add", e, draw(gen.opt_weights(len(e))), draw(gen.merges), draw(gen.group_names)]
            else:
                e = draw(gen.pairs(c.get("n", c.get("nu")), c.get("n", c.get("nv")), max_size=3))
                op = ["add", e, draw(gen.opt_weights(len(e))), draw(gen.merges), "list"]
        elif k == "rmk":
            op = ["rmk", draw(st.integers(0, 20)) if kind == "h" else [draw(st.integers(0, 20))]] + ([] if kind == "h" else [False])
        elif k == "x":
            op = [draw(st.sampled_from(["xadd", "xrm", "slrm"]))] if kind in "gd" else ["read"]
        elif k == "special":
            op = {"g": ["read"], "d": ["rev"], "b": ["read"], "h": ["rmg", draw(st.integers(0, 5))]}[kind]
        elif k == "part":
            op = ["part", draw(st.lists(st.sampled_from(VIEWS[kind]), min_size=1, max_size=3, unique=True))]
        else:
            op = [k]
        post.append([who, op])
    c["post"] = post
    c["touch"] = draw(st.booleans())
    return c


def check_clone(c):
    kind = c["kind"]
    obj, m = build(c)
    if c["touch"]:
        touch(obj, kind)
    objs, ms = [obj, obj.clone()], [m, m.copy()]
    require(type(objs[1]) is CLS[kind], "clone has type %r", type(objs[1]))
    edited = set()
    had = bool(edges_of(m, kind))
    for who, o in c["post"]:
        if o[0] == "part":
            CHECK[kind](objs[who], ms[who], o[1])
        elif o[0] == "again":
            objs[1 - who], ms[1 - who] = objs[who].clone(), ms[who].copy()
        elif o[0] == "clear":
            objs[who].clear()
            vw = getattr(ms[who], "vw", None)
            ms[who].clear()
            if kind == "h":
                require(list(objs[who].v_weight) in (list(vw), ms[who].vw), "v_weight after clear")
                ms[who].vw = list(objs[who].v_weight)
            edited.add(who)
        else:
            edit(objs[who], ms[who], kind, o)
            if o[0] != "read":
                edited.add(who)
    for i in (0, 1):
        CHECK[kind](objs[i], ms[i])
    return [kind] + (["nt"] if had and len(edited) == 2 else [])


class Watch:
    """Keeps the inputs handed over; after the call they must equal their deep copies."""

    def __init__(self):
        self.items = []

    def __call__(self, x):
        self.items.append((x, deepcopy(x)))
        return x

    def unchanged(self, what):
        for x, y in self.items:
            ok = x.dtype == y.dtype and torch.equal(x, y) if isinstance(x, torch.Tensor) else x == y and repr(x) == repr(y)
            require(ok, "%s modified its input: %r became %r", what, y, x)

    def wreck(self):
        for x, _ in self.items:
            if isinstance(x, torch.Tensor):
                x.fill_(77)
            elif isinstance(x, list):
                for i in range(len(x)):
                    if isinstance(x[i], list):
                        x[i].clear()
                        x[i].extend([0])
                    elif isinstance(x[i], (int, float)) and not isinstance(x[i], bool):
                        x[i] = 0
                x.reverse()
                del x[1:]


@st.composite
def input_cases(draw):
    what = draw(st.sampled_from(["g", "d", "b", "h", "h", "hconv", "adj", "radj", "remove", "drop", "conv", "conv", "subgraph", "prop"]))
    n, n2 = draw(gen.sizes(2, 7, 10)), draw(gen.sizes(1, 6, 8))
    e = draw(gen.pairs(n, n if what != "b" else n2, min_size=0, max_size=8))
    he = draw(gen.hyperedges(n, min_size=1, max_size=5, min_v=2))
    return dict(what=what, n=n, n2=n2, e=e, w=draw(gen.opt_weights(len(e))), he=he, hw=draw(gen.opt_weights(len(he))),
                vw=draw(st.one_of(st.none(), st.lists(gen.weights(), min_size=n, max_size=n))),
                merge=draw(gen.merges), extra=draw(st.booleans()), when=draw(st.booleans()), seed=draw(gen.seeds),
                outer=draw(st.sampled_from(["list", "tuple", "listtuple"])), rate=draw(st.sampled_from([0.0, 0.3, 0.7])),
                k=draw(st.integers(1, 3)), flag=draw(st.booleans()), flag2=draw(st.booleans()))


def wrap(e, outer):
    if outer == "tuple":
        return tuple(list(x) for x in e)
    if outer == "listtuple":
        return [tuple(x) for x in e]
    return [list(x) for x in e]


def hyper_snapshot(h):
    return ([tuple(x) for x in h.e[0]], [float(x) for x in h.e[1]], list(h.group_names), list(h.v_weight), h.num_v)


def check_inputs(c):
    what, n, W = c["what"], c["n"], Watch()
    e, w = c["e"], c["w"]
    if what in ("g", "d", "b"):
        E, WT = W(wrap(e, c["outer"])), W(None if w is None else list(w))
        if what == "b":
            m = BiGraphModel(n, c["n2"])
            obj = dhg.BiGraph(n, c["n2"], *([E, WT] if not c["when"] else []), merge_op=c["merge"])
        else:
            cls, mc = (dhg.Graph, GraphModel) if what == "g" else (dhg.DiGraph, DiGraphModel)
            m = mc(n, c["extra"])
            obj = cls(n, *([E, WT] if not c["when"] else []), extra_selfloop=c["extra"], merge_op=c["merge"])
        if c["when"]:
            obj.add_edges(E, WT, merge_op=c["merge"])
        m.add(e, w, c["merge"])
        CHECK[what](obj, m)
        W.unchanged("adding edges")
        W.wreck()
        CHECK[what](obj, m)
    elif what == "h":
        E, WT, VW = W(wrap(c["he"], c["outer"])), W(None if c["hw"] is None else list(c["hw"])), W(None if c["vw"] is None else list(c["vw"]))
        m = HyperModel(n, c["vw"])
        if c["when"]:
            obj = dhg.Hypergraph(n, v_weight=VW)
            obj.add_hyperedges(E, WT, merge_op=c["merge"], group_name="a")
            m.add(c["he"], c["hw"], c["merge"], "a")
        else:
            obj = dhg.Hypergraph(n, E, WT, VW, merge_op=c["merge"])
            m.add(c["he"], c["hw"], c["merge"], "main")
        if c["flag"]:
            check_hyper(obj, m)
        W.unchanged("building a hypergraph")
        W.wreck()
        check_hyper(obj, m)
        R = wrap(c["he"][:1], c["outer"])
        W.items = []
        W(R)
        obj.remove_hyperedges(R)
        m.rm(c["he"][:1])
        W.unchanged("remove_hyperedges")
        check_hyper(obj, m)
    elif what in ("adj", "radj"):
        adj = {}
        for a, b in e:
            adj.setdefault(a, []).append(b % n)
        A = W([[a] + bs for a, bs in adj.items()])
        if what == "adj":
            cls, mc = (dhg.Graph, GraphModel) if c["flag"] else (dhg.DiGraph, DiGraphModel)
            obj, m = cls.from_adj_list(n, A), mc(n)
        else:
            obj, m = dhg.BiGraph.from_adj_list(n, n, A), BiGraphModel(n, n)
        m.add([(a, b) for a, bs in adj.items() for b in bs], None, "mean")
        W.unchanged("from_adj_list")
        W.wreck()
        {GraphModel: check_graph, DiGraphModel: check_digraph, BiGraphModel: check_bigraph}[type(m)](obj, m)
    elif what == "remove":
        obj, m = build_graph(dhg, c, merge_op=c["merge"])
        if e:
            R = W(wrap(e[: c["k"]], c["outer"]))
            obj.remove_edges(R)
            m.rm(e[: c["k"]])
            W.unchanged("remove_edges")
            W.wreck()
        check_graph(obj, m)
    elif what == "drop":
        g, gm = build_graph(dhg, c)
        h, hm = build_hyper(dhg, dict(n=n, groups=[["a", c["he"], c["hw"]]], vw=c["vw"]))
        if c["flag"]:
            touch(g, "g"), touch(h, "h")
        g2, h2 = g.drop_edges(c["rate"]), h.drop_hyperedges(c["rate"])
        h3 = h.drop_hyperedges_of_group("a", c["rate"])
        for x in (g2,):
            x.add_edges([[0, 1]], [9.0], merge_op="sum")
            x.add_extra_selfloop()
        for x in (h2, h3):
            x.add_hyperedges([[0, 1]], [9.0], merge_op="sum", group_name="a")
        check_graph(g, gm), check_hyper(h, hm)
        s2, s3 = (g2.num_e, list(g2.e[1])), hyper_snapshot(h3)
        g.clear(), h.clear()
        same((g2.num_e, list(g2.e[1])), s2, "dropped graph after clearing the original")
        same(hyper_snapshot(h3), s3, "dropped hypergraph after clearing the original")
    elif what == "hconv":
        g, gm = build_graph(dhg, c)
        bg, bm = build_bigraph(dhg, dict(nu=n, nv=n, e=[[a, b % n] for a, b in e], w=w))
        X = W(feats(c["seed"], n, 2))
        hs = [dhg.Hypergraph.from_graph(g), dhg.Hypergraph.from_graph_kHop(g, c["k"], only_kHop=c["flag"]),
              dhg.Hypergraph.from_bigraph(bg, U_as_vertex=c["flag"]), dhg.Hypergraph.from_feature_kNN(X, 2)]
        h = dhg.Hypergraph(n)
        h.add_hyperedges_from_graph(g, "p"), h.add_hyperedges_from_graph_kHop(g, c["k"], group_name="q")
        h.add_hyperedges_from_bigraph(bg, U_as_vertex=c["flag"], group_name="r")
        h.add_hyperedges_from_feature_kNN(X, 2, group_name="s")
        hs.append(h)
        check_graph(g, gm), check_bigraph(bg, bm)
        W.unchanged("building hypergraphs")
        snaps = [hyper_snapshot(x) for x in hs]
        g.clear(), bg.clear()
        W.wreck()
        same([hyper_snapshot(x) for x in hs], snaps, "hypergraphs after their sources changed")
        for x in hs:
            x.clear()
    elif what in ("conv", "subgraph", "prop"):
        h, hm = build_hyper(dhg, dict(n=n, groups=[["a", c["he"], c["hw"]], ["b", c["he"][:1], None]], vw=c["vw"]))
        if c["flag"]:
            touch(h, "h")
        if what == "conv":
            X = W(feats(c["seed"], n, 2))
            outs = [dhg.Graph.from_hypergraph_star(h, weighted=c["flag2"])[0], dhg.Graph.from_hypergraph_clique(h, weighted=c["flag2"]),
                    dhg.Graph.from_hypergraph_hypergcn(h, X, with_mediator=c["flag2"]),
                    dhg.BiGraph.from_hypergraph(h, vertex_as_U=c["flag"], weighted=c["flag2"]), dhg.DiGraph.from_feature_kNN(X, 1)]
            W.unchanged("conversion")
            snap = lambda: [([tuple(p) for p in o.e[0]], [float(x) for x in o.e[1]]) for o in outs]
        elif what == "subgraph":
            V = W(sorted({x for q in c["he"] for x in q})[::-1])
            outs = [h.subgraph(V)]
            W.unchanged("subgraph")
            snap = lambda: [hyper_snapshot(o) for o in outs]
        else:
            X, E = W(feats(c["seed"], n, 3)), W(feats(c["seed"], h.num_e, 3))
            ew, vw_ = W(torch.rand(h.v2e_weight.shape[0])), W(torch.rand(h.e2v_weight.shape[0]))
            h.v2v(X, aggr="mean", v2e_weight=ew, e2v_weight=vw_), h.smoothing(X, h.L_sym, 0.5), h.smoothing_with_HGNN(X, drop_rate=c["rate"])
            h.v2e(X, "sum", ew), h.e2v(E, "softmax_then_sum", vw_), h.v2v(X, aggr="sum", drop_rate=c["rate"])
            g, gm = build_graph(dhg, c)
            gw = W(torch.rand(g.e_weight.shape[0]))
            g.v2v(X, "mean", gw), g.smoothing_with_GCN(X, drop_rate=c["rate"]), g.smoothing(X, g.L, 0.3), g.v2v(X, "sum", drop_rate=c["rate"])
            W.unchanged("propagation")
            check_graph(g, gm)
            snap = lambda: None
        check_hyper(h, hm)
        s = snap()
        h.clear()
        h.add_hyperedges([[0, 1]], [5.0])
        W.wreck()
        same(snap(), s, "converted structures after the source changed")
    return [what] + (["nt"] if e or what in ("h", "conv", "subgraph", "prop") else [])


SUBS = [Sub("clone", clone_cases, check_clone, quick=1800, shards=6),
        Sub("inputs", input_cases, check_inputs, quick=1600, shards=6),
        Sub("large", lambda: gen.large(clone_cases()), check_clone, quick=40, shards=4)]
