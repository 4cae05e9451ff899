import os
import pathlib
import tempfile
import shutil
import pickle
from hypothesis import strategies as st
import torch
import dhg
from harness import gen
from harness.core import Sub, require
from harness.refmodel import (GraphModel, DiGraphModel, BiGraphModel, HyperModel, check_graph, check_digraph,
                              check_bigraph, check_hyper, poke, GRAPH_VIEWS, DIGRAPH_VIEWS, BIGRAPH_VIEWS, HYPER_VIEWS)
from harness.util import same, near, feats, raises
from props.p01 import fmt, apply_edit

PROPERTY = "P10"
RULE = ("a case is a structure of one of the four classes with an edit history, cached reads, and one of: save and "
        "class load, save and load_structure, state dict, repeated save/load; the loaded structure is compared with "
        "the reference model and the original (views, order of edges, propagation), then edited to show it is "
        "independent. Non-trivial: the saved structure has an edge and carries a weight other than 1, an extra "
        "self-loop, a vertex weight or a second group.")
CLS = {"g": dhg.Graph, "d": dhg.DiGraph, "b": dhg.BiGraph, "h": dhg.Hypergraph}
CHECK = {"g": check_graph, "d": check_digraph, "b": check_bigraph, "h": check_hyper}
VIEWS = {"g": GRAPH_VIEWS, "d": DIGRAPH_VIEWS, "b": BIGRAPH_VIEWS, "h": HYPER_VIEWS}


@st.composite
def struct(draw, kinds="gdbh"):
    """A structure as a history: initial data plus edits and reads."""
    kind = draw(st.sampled_from(kinds))
    c = dict(kind=kind)
    ops = []
    nops = draw(st.integers(0, 6))
    if kind in "gd":
        n = draw(gen.sizes(1, 7, 12))
        e = draw(gen.pairs(n, max_size=8))
        c.update(draw(gen.large_graph()) if gen.LARGE[0] else dict(n=n, e=e, w=draw(gen.opt_weights(len(e), huge=True))))
        n = c["n"]
        c.update(extra=draw(st.booleans()), merge=draw(gen.merges))
        for _ in range(nops):
            k = draw(st.sampled_from(["add", "add", "rmk", "xadd", "xrm", "slrm", "read", "read"] + (["rev"] if kind == "d" else [])))
            if k == "add":
                e = draw(gen.pairs(n, max_size=3))
                ops.append(["add", e, draw(gen.opt_weights(len(e), huge=True)), draw(gen.merges), "list"])
            elif k == "rmk":
                ops.append(["rmk", [draw(st.integers(0, 20))], False])
            else:
                ops.append([k])
    elif kind == "b":
        nu, nv = draw(gen.sizes(1, 6, 9)), draw(gen.sizes(1, 6, 9))
        e = draw(gen.pairs(nu, nv, max_size=8))
        c.update(draw(gen.large_bigraph()) if gen.LARGE[0] else dict(nu=nu, nv=nv, e=e, w=draw(gen.opt_weights(len(e), huge=True))))
        nu, nv = c["nu"], c["nv"]
        c.update(merge=draw(gen.merges))
        for _ in range(nops):
            k = draw(st.sampled_from(["add", "add", "rmk", "read", "read"]))
            if k == "add":
                e = draw(gen.pairs(nu, nv, max_size=3))
                ops.append(["add", e, draw(gen.opt_weights(len(e), huge=True)), draw(gen.merges), "list"])
            elif k == "rmk":
                ops.append(["rmk", [draw(st.integers(0, 20))], False])
            else:
                ops.append([k])
    else:
        n = draw(gen.big_sizes() if gen.LARGE[0] else gen.sizes(1, 7, 10))
        if gen.LARGE[0]:
            e, w = draw(gen.many_hyperedges(n))
            ops.append(["add", e, w, draw(gen.merges), draw(gen.group_names)])
        c.update(n=n, vw=None if gen.LARGE[0] else draw(st.one_of(st.none(), gen.vertex_weights(n))))
        for _ in range(nops + 1):
            k = draw(st.sampled_from(["add"] * 6 + ["rmk", "rmg", "emg", "read", "read", "vw"]))
            if k == "add":
                e = draw(gen.hyperedges(n, max_size=4))
                ops.append(["add", e, draw(gen.opt_weights(len(e), huge=True)), draw(gen.merges), draw(gen.group_names)])
            elif k == "vw":
                ops.append([k, draw(gen.vertex_weights(min(n, 7)))])
            else:
                ops.append([k, draw(st.integers(0, 20))])
        if draw(st.integers(0, 3)) == 3:  # leave an empty group behind
            ops += [["add", [[0]], None, "mean", draw(gen.group_names)], ["emg", draw(st.integers(0, 20))]]
    c["ops"] = ops
    return c


def touch(obj, kind):
    """Fill the caches."""
    for v in obj.vars_for_DL:
        getattr(obj, v)
    obj.e
    if kind == "h":
        for nm in obj.group_names:
            obj.e_of_group(nm), obj.H_of_group(nm), obj.L_HGNN_of_group(nm)


def edit(obj, m, kind, o):
    if o[0] == "read":
        touch(obj, kind)
    elif kind != "h":
        apply_edit(obj, m, o)
    elif o[0] == "add":
        _, e, w, mg, nm = o
        obj.add_hyperedges([list(x) for x in e], None if w is None else list(w), merge_op=mg, group_name=nm)
        m.add(e, w, mg, nm)
    elif o[0] == "vw":
        w = [o[1][i % len(o[1])] for i in range(m.n)]
        obj.v_weight = list(w)
        m.vw = w
    elif o[0] == "rmk":
        ks = sorted({e for e, _ in m.edges()})
        if ks:
            obj.remove_hyperedges([list(ks[o[1] % len(ks)])])
            m.rm([ks[o[1] % len(ks)]])
    elif o[0] == "emg":  # empty a group hyperedge by hyperedge
        ns = sorted(m.g)
        if ns and m.g[ns[o[1] % len(ns)]]:
            nm = ns[o[1] % len(ns)]
            ks = [list(e) for e in m.g[nm]]
            obj.remove_hyperedges(ks, group_name=nm)
            m.rm(ks, nm)
    elif o[0] == "rmg":
        ns = sorted(m.g)
        if ns:
            obj.remove_group(ns[o[1] % len(ns)])
            m.rm_group(ns[o[1] % len(ns)])


def build(c, ops=True):
    k = c["kind"]
    if k in "gd":
        obj = CLS[k](c["n"], [list(x) for x in c["e"]], c["w"], extra_selfloop=c["extra"], merge_op=c["merge"])
        m = (GraphModel if k == "g" else DiGraphModel)(c["n"], c["extra"])
        m.add(c["e"], c["w"], c["merge"])
    elif k == "b":
        obj, m = dhg.BiGraph(c["nu"], c["nv"], [list(x) for x in c["e"]], c["w"], merge_op=c["merge"]), BiGraphModel(c["nu"], c["nv"])
        m.directed = True
        m.add(c["e"], c["w"], c["merge"])
    else:
        obj, m = dhg.Hypergraph(c["n"], v_weight=None if c["vw"] is None else list(c["vw"])), HyperModel(c["n"], c["vw"])
    if ops:
        for o in c["ops"]:
            edit(obj, m, k, o)
    return obj, m


def propagate(obj, kind, seed):
    if kind == "b":
        return torch.cat([obj.v2u(feats(seed, obj.num_v, 2), "mean"), obj.u2v(feats(seed, obj.num_u, 2), "sum")])
    X = feats(seed, obj.num_v, 2)
    if kind == "g":
        return torch.cat([obj.v2v(X, "mean"), obj.smoothing_with_GCN(X)])
    if kind == "d":
        return torch.cat([obj.v2v(X, "mean"), obj.v2v(X, "sum")])
    return torch.cat([obj.v2v(X, "mean"), obj.smoothing_with_HGNN(X)])


def edges_of(m, kind):
    return m.edges() if kind == "h" else list(m.e.items())


@st.composite
def cases(draw):
    c = draw(struct())
    c["how"] = draw(st.lists(st.sampled_from(["class", "generic", "state"]), min_size=1, max_size=3))
    c["path"] = draw(st.booleans())
    c["touch"] = draw(st.sampled_from(["before", "after", "no"]))
    c["late"] = draw(st.integers(0, 30))
    c["seed"] = draw(gen.seeds)
    return c


def check(c):
    kind = c["kind"]
    obj, m = build(c)
    if c["touch"] == "before":
        touch(obj, kind)
    cur = obj
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    try:
        for i, how in enumerate(c["how"]):
            if how == "state":
                nxt = CLS[kind].from_state_dict(cur.state_dict)
            else:
                p = os.path.join(d, f"s{i}.pkl")
                p = pathlib.Path(p) if c["path"] else p
                cur.save(p)
                nxt = CLS[kind].load(p) if how == "class" else dhg.load_structure(p)
                for k2 in "gdbh":
                    if k2 != kind:
                        raises(lambda: CLS[k2].load(p), f"{CLS[k2].__name__}.load of a file saved from {CLS[kind].__name__}")
            require(type(nxt) is CLS[kind], "loaded %r, expected %r", type(nxt), CLS[kind])
            if c["touch"] == "after":
                touch(nxt, kind)
            CHECK[kind](nxt, m)
            CHECK[kind](cur, m)
            same([tuple(x) for x in nxt.e[0]], [tuple(x) for x in cur.e[0]], "order of the edges")
            if kind in "gd":
                b = nxt.clone()
                b.remove_extra_selfloop()
                same(b.num_e, len(m.e), "extra self-loop setting after loading")
            near(propagate(nxt, kind, c["seed"]), propagate(cur, kind, c["seed"]), "propagation after loading")
            cur = nxt
    finally:
        shutil.rmtree(d, ignore_errors=True)
    # the loaded structure is a structure of its own
    m2 = m.copy()
    if kind == "h":
        cur.add_hyperedges([[0]], [7.0], merge_op="sum", group_name="late")
        m2.add([[0]], [7.0], "sum", "late")
        edit(cur, m2, kind, ["rmk", c["late"]])
    elif kind == "b":
        cur.add_edges([[0, 0]], [7.0], merge_op="sum")
        m2.add([[0, 0]], [7.0], "sum")
    else:
        edit(cur, m2, kind, ["rmk", [c["late"]], False])
        cur.add_edges([[0, 0]], [7.0], merge_op="sum")
        m2.add([[0, 0]], [7.0], "sum")
        edit(cur, m2, kind, ["xrm" if m.extra else "xadd"])
    CHECK[kind](cur, m2)
    poke(cur)
    CHECK[kind](obj, m)
    it = edges_of(m, kind)
    rich = any(w != 1 for _, w in it) or getattr(m, "extra", False) or (kind == "h" and (len(m.g) > 1 or set(m.vw) != {1.0}))
    return [kind] + (["nt"] if it and rich else [])


SUBS = [Sub("roundtrip", cases, check, quick=2400, shards=8), Sub("large", lambda: gen.large(cases()), check, quick=40, shards=4)]
