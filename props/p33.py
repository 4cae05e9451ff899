"""P33: invalid requests are refused and leave no trace."""
import copy
import os
import tempfile
import shutil
from hypothesis import strategies as st
import torch
import dhg
from harness import gen
from harness.core import Sub, Violation, require
from harness.util import raises, same
from props.p10 import CHECK, CLS, build, edit, struct, touch

PROPERTY = "P33"
RULE = ("a case is a structure of one of the four classes with an edit history, cached reads or not, and up to six requests, most of "
        "them invalid (index out of range or negative, wrong number of ends, wrong number of weights, unknown merge, aggregation, "
        "drop order, direction or group, features or weights of the wrong size, structures or files of the wrong kind), some valid, "
        "each bad item hidden among good ones at a random place; after every request the structure is compared with a reference "
        "model that only saw the valid ones. Non-trivial: an invalid edit meets a structure that has edges.")
BADGROUP = "no such group"


@st.composite
def cases(draw):
    c = draw(struct())
    c["touch"] = draw(st.booleans())
    c["req"] = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 4)) == 0:
            c["req"].append(["valid"])
        else:
            c["req"].append(["bad", draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 40)), draw(st.integers(0, 40)), draw(st.sampled_from([1, 1, 2, 50]))])
    c["good"] = [draw(gen.pairs(c.get("n") or c["nu"], c.get("nv"), max_size=3, min_size=1)) for _ in range(2)]
    c["end"] = draw(gen.merges)
    return c


def hide(good, bad, at):
    """bad among the good items."""
    at %= len(good) + 1
    return good[:at] + [bad] + good[at:]


def bad_requests(c, obj, m, a, b, far):
    """name -> call that must be refused."""
    k = c["kind"]
    good = [list(e) for e in c["good"][a % 2]]
    ones = [1.0] * (len(good) + 1)
    R = {}
    if k in "gdb":
        nu, nv = (obj.num_u, obj.num_v) if k == "b" else (obj.num_v, obj.num_v)
        u, v = b % nu, a % nv
        for name, e in (("a first end out of range", [nu - 1 + far, v]), ("a second end out of range", [u, nv - 1 + far]),
                        ("a negative first end", [-far, v]), ("a negative second end", [u, -far])):
            for w in (None, ones):
                R[f"adding an edge with {name}{'' if w is None else ', weighted'}"] = lambda e=e, w=w: obj.add_edges(hide(good, e, b), w)
            R[f"adding only an edge with {name}"] = lambda e=e: obj.add_edges(e)
            R[f"removing an edge with {name}"] = lambda e=e: obj.remove_edges(hide(good, e, b))
            R[f"construction with {name}"] = lambda e=e: CLS[k](*((nu, nv) if k == "b" else (nv,)), hide(good, e, b))
        R["too few weights"] = lambda: obj.add_edges(hide(good, [u, v], b), ones[:-1])
        R["too many weights"] = lambda: obj.add_edges(good, ones)
        R["an unknown merge operation"] = lambda: obj.add_edges(good, merge_op=["min", "Mean", "", "add"][b % 4])
        R["edges of three ends"] = lambda: obj.add_edges([e + [0] for e in good])
        R["an edge of three ends"] = lambda: obj.add_edges(hide(good, [0, 0, 0], b))
        R["an edge of one end"] = lambda: obj.add_edges(hide(good, [0], b))
        R["an unknown drop order"] = lambda: obj.drop_edges(0.5, ord="degree")
        R["another class's file"] = lambda: load_other(obj, k)
        X, bad = torch.ones(nu, 2), torch.ones(nu + far if b % 2 or nu == 1 else nu - 1, 2)
        ne = obj.e_weight.shape[0]
        ew, badew = torch.ones(ne), torch.ones(ne + far if b % 2 or ne == 0 else ne - 1)
        fn = obj.u2v if k == "b" else obj.v2v
        for ag in ("mean", "sum", "softmax_then_sum"):
            R[f"{ag} of features of the wrong size"] = lambda ag=ag: fn(bad, ag)
            R[f"{ag} of features of the wrong size with weights"] = lambda ag=ag: fn(bad, ag, e_weight=ew)
            R[f"{ag} with weights of the wrong size"] = lambda ag=ag: fn(X, ag, e_weight=badew)
        R["an unknown aggregation"] = lambda: fn(X, "max")
        if k == "b":
            Y, badY = torch.ones(nv, 2), torch.ones(nv + far if b % 2 or nv == 1 else nv - 1, 2)
            for ag in ("mean", "sum", "softmax_then_sum"):
                R[f"v2u {ag} of features of the wrong size"] = lambda ag=ag: obj.v2u(badY, ag)
                R[f"v2u {ag} with weights of the wrong size"] = lambda ag=ag: obj.v2u(Y, ag, e_weight=badew)
            R["v2u, an unknown aggregation"] = lambda: obj.v2u(Y, "")
            for f, n in (("N_v", nu), ("nbr_v", nu), ("N_u", nv), ("nbr_u", nv)):
                R[f"{f} of a vertex out of range"] = lambda f=f, n=n: getattr(obj, f)(n - 1 + far)
        else:
            fs = ("N_v", "nbr_v") if k == "g" else ("N_v_in", "N_v_out", "nbr_v_in", "nbr_v_out")
            for f in fs:
                R[f"{f} of a vertex out of range"] = lambda f=f: getattr(obj, f)(nv - 1 + far)
            if k == "g":
                R["neighbours within no hop"] = lambda: obj.N_v(0, 0)
                R["smoothing of features of the wrong size"] = lambda: obj.smoothing_with_GCN(bad)
                R["N_v of a vertex out of range, two hops"] = lambda: obj.N_v(nv - 1 + far, 2)
            else:
                R["an unknown direction"] = lambda: obj.v2v(X, direction="out")
                for d in ("src2dst", "dst2src"):
                    R[f"{d}, weights of the wrong size"] = lambda d=d: obj.v2v(X, "sum", direction=d, e_weight=badew)
        R["no vertices"] = lambda: CLS[k](*((nu, 0) if k == "b" else (0,)))
        R["a negative number of vertices"] = lambda: CLS[k](*((nu, -far) if k == "b" else (-far,)))
        return R
    n, ne = obj.num_v, obj.num_e
    good = [sorted(set(e)) for e in good]
    names = sorted(m.g)
    for gname in ([names[b % len(names)]] if names else []) + ["a new one"]:
        kw = dict(group_name=gname)
        R[f"a negative vertex, {gname!r}"] = lambda kw=kw: obj.add_hyperedges(hide(good, [0, -far], b), **kw)
        R[f"too few weights, {gname!r}"] = lambda kw=kw: obj.add_hyperedges(hide(good, [0], b), ones[:-1], **kw)
        R[f"too many weights, {gname!r}"] = lambda kw=kw: obj.add_hyperedges(good, ones, **kw)
        R[f"weights of the wrong type, {gname!r}"] = lambda kw=kw: obj.add_hyperedges(good, "1" * len(good), **kw)
        R[f"an unknown merge operation, {gname!r}"] = lambda kw=kw: obj.add_hyperedges(good, merge_op=["min", "", "Mean"][b % 3], **kw)
        R[f"hyperedges of a set, {gname!r}"] = lambda kw=kw: obj.add_hyperedges({0}, **kw)
        R[f"kNN features of the wrong size, {gname!r}"] = lambda kw=kw: obj.add_hyperedges_from_feature_kNN(torch.rand(n + far, 2), 1, **kw)
        R[f"a graph of another size, {gname!r}"] = lambda kw=kw: obj.add_hyperedges_from_graph(dhg.Graph(n + far, [(0, n)]), **kw)
        R[f"the hops of a graph of another size, {gname!r}"] = lambda kw=kw: obj.add_hyperedges_from_graph_kHop(dhg.Graph(n + far, [(0, n)]), 1, **kw)
        R[f"no hops, {gname!r}"] = lambda kw=kw: obj.add_hyperedges_from_graph_kHop(dhg.Graph(n, [(0, n - 1)]), 0, **kw)
        R[f"a bigraph of another size, {gname!r}"] = lambda kw=kw: obj.add_hyperedges_from_bigraph(dhg.BiGraph(n + far, n, [(n, 0)]), U_as_vertex=True, **kw)
        R[f"a bigraph of another size, U as hyperedges, {gname!r}"] = lambda kw=kw: obj.add_hyperedges_from_bigraph(dhg.BiGraph(n, n + far, [(0, n)]), U_as_vertex=False, **kw)
    R["removing from an unknown group"] = lambda: obj.remove_hyperedges(good, group_name=BADGROUP)
    R["construction with a negative vertex"] = lambda: dhg.Hypergraph(n, hide(good, [-far], b))
    R["construction with vertex weights of the wrong size"] = lambda: dhg.Hypergraph(n, v_weight=[1.0] * (n + far))
    R["construction without vertices"] = lambda: dhg.Hypergraph(0)

    def setw():
        obj.v_weight = [2.0] * (n + far if b % 2 else n - 1)
    R["vertex weights of the wrong size"] = setw
    R["an unknown drop order"] = lambda: obj.drop_hyperedges(0.5, ord="size")
    if names:
        R["an unknown drop order in a group"] = lambda: obj.drop_hyperedges_of_group(names[0], 0.5, ord="size")
    R["another class's file"] = lambda: load_other(obj, k)
    R["a subgraph with a vertex out of range"] = lambda: obj.subgraph([0, n - 1 + far])
    R["a subgraph with a negative vertex"] = lambda: obj.subgraph([0, -far])
    R["a subgraph of nothing"] = lambda: obj.subgraph([])
    for f in ("N_e", "nbr_e"):
        R[f"{f} of a vertex out of range"] = lambda f=f: getattr(obj, f)(n - 1 + far)
        if names:
            R[f"{f}_of_group of a vertex out of range"] = lambda f=f: getattr(obj, f + "_of_group")(n - 1 + far, names[0])
    for f in ("N_v", "nbr_v"):
        R[f"{f} of a hyperedge out of range"] = lambda f=f: getattr(obj, f)(ne - 1 + far)
        if names:
            R[f"{f}_of_group of a hyperedge out of range"] = lambda f=f: getattr(obj, f + "_of_group")(obj.num_e_of_group(names[0]) - 1 + far, names[0])
    X, Y = torch.ones(n, 2), torch.ones(ne, 2)
    badX = torch.ones(n + far if b % 2 or n == 1 else n - 1, 2)
    badY = torch.ones(ne + far if b % 2 or ne <= 1 else ne - 1, 2)
    nnz = sum(len(e) for e in obj.e[0])
    badw = torch.ones(nnz + far if b % 2 or nnz <= 1 else nnz - 1)
    if ne:
        for ag in ("mean", "sum", "softmax_then_sum"):
            R[f"v2e {ag} of features of the wrong size"] = lambda ag=ag: obj.v2e(badX, ag)
            R[f"e2v {ag} of features of the wrong size"] = lambda ag=ag: obj.e2v(badY, ag)
            R[f"v2v {ag} of features of the wrong size"] = lambda ag=ag: obj.v2v(badX, ag)
            R[f"v2e {ag} with weights of the wrong size"] = lambda ag=ag: obj.v2e(X, ag, v2e_weight=badw)
            R[f"e2v {ag} with weights of the wrong size"] = lambda ag=ag: obj.e2v(Y, ag, e2v_weight=badw)
        R["hyperedge weights of the wrong size"] = lambda: obj.v2e(X, "mean", e_weight=torch.ones(ne + far))
        R["smoothing of features of the wrong size"] = lambda: obj.smoothing_with_HGNN(badX)
    for f in ("v2e", "v2v", "v2e_aggregation"):
        R[f"{f}, an unknown aggregation"] = lambda f=f: getattr(obj, f)(X, "max")
        R[f"{f} of an unknown group"] = lambda f=f: getattr(obj, f + "_of_group")(BADGROUP, X)
        if names:
            R[f"{f} of a group, an unknown aggregation"] = lambda f=f: getattr(obj, f + "_of_group")(names[0], X, "max")
    for f in ("e2v", "e2v_aggregation", "e2v_update", "v2e_update"):
        R[f"{f} of an unknown group"] = lambda f=f: getattr(obj, f + "_of_group")(BADGROUP, Y)
    R["e2v, an unknown aggregation"] = lambda: obj.e2v(Y, "max")
    for f in ("e", "num_e", "deg_v", "deg_e", "H", "H_T", "W_e", "D_v", "D_e", "D_v_neg_1", "D_v_neg_1_2", "D_e_neg_1", "L_sym", "L_rw", "L_HGNN",
              "v2e_src", "v2e_dst", "v2e_weight", "e2v_src", "e2v_dst", "e2v_weight"):
        R[f"{f} of an unknown group"] = lambda f=f: getattr(obj, f + "_of_group")(BADGROUP)
    for f in ("N_e", "nbr_e", "N_v", "nbr_v"):
        R[f"{f} of an unknown group"] = lambda f=f: getattr(obj, f + "_of_group")(0, BADGROUP)
    R["dropping from an unknown group"] = lambda: obj.drop_hyperedges_of_group(BADGROUP, 0.5)
    R["smoothing in an unknown group"] = lambda: obj.smoothing_with_HGNN_of_group(BADGROUP, X)
    return R


def load_other(obj, k):
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "x")
        obj.save(p)
        CLS[{"g": "h", "h": "g", "d": "b", "b": "d"}[k]].load(p)
    finally:
        shutil.rmtree(d)


def check(c):
    obj, m = build(c)
    k = c["kind"]
    labels = set()
    if c["touch"]:
        touch(obj, k)
    for r in c["req"]:
        if r[0] == "valid":
            es = [list(e) for e in c["good"][0]]
            if k == "h":
                edit(obj, m, k, ["add", [sorted(set(e)) for e in es], None, c["end"], "main"])
            else:
                edit(obj, m, k, ["add", es, None, c["end"], "list"])
            continue
        _, i, a, b, far = r
        R = bad_requests(c, obj, m, a, b, far)
        name = sorted(R)[i % len(R)]
        raises(R[name], name)
        if m.g if k == "h" else m.e:
            labels.add("nt")
        labels.add(k + " " + name.split(",")[0][:40])
        CHECK[k](obj, m)
    # the structure goes on as if nothing had happened
    es = [list(e) for e in c["good"][1]]
    edit(obj, m, k, ["add", [sorted(set(e)) for e in es], None, c["end"], "main"] if k == "h" else ["add", es, None, c["end"], "list"])
    CHECK[k](obj, m)
    return labels


# ---------------------------------------------------------------- absent edges and groups
@st.composite
def absent_case(draw):
    c = draw(struct())
    c["touch"] = draw(st.booleans())
    c["e"] = c.get("e", [])
    n, nv = (c["n"], c["n"]) if c["kind"] != "b" else (c["nu"], c["nv"])
    c["gone"] = draw(gen.hyperedges(n, max_size=4)) if c["kind"] == "h" else draw(gen.pairs(n, nv, max_size=4))
    c["group"] = draw(st.integers(0, 3))
    return c


def check_absent(c):
    """Removing edges of which some or all are absent removes the others and nothing else."""
    obj, m = build(c)
    k = c["kind"]
    if c["touch"]:
        touch(obj, k)
    labels = {k}
    es = [list(e) for e in c["gone"]]
    if k == "h":
        names = sorted(m.g)
        nm = names[c["group"] % len(names)] if names and c["group"] else None
        have = {e for x, e in [(x, e) for x in (m.g if nm is None else [nm]) for e in m.g[x]]}
        obj.remove_hyperedges(es, group_name=nm)
        m.rm([m.key(e) for e in es], nm) if nm is not None else m.rm([m.key(e) for e in es])
    else:
        have = set(m.e)
        obj.remove_edges(es)
        m.rm(es) if es else None
    keys = {m.key(*e) if k != "h" else m.key(e) for e in es}
    if keys - have and have:
        labels |= {"nt", "some absent"}
    if k == "h":
        obj.remove_group(BADGROUP)
    CHECK[k](obj, m)
    return labels


def known_range(c):
    if c["kind"] == "ctor":
        raises(lambda: dhg.Hypergraph(c["n"], c["edges"]), "a hyperedge with a vertex out of range")
    else:
        raises(lambda: dhg.Hypergraph(c["n"]).add_hyperedges(c["edges"]), "a hyperedge with a vertex out of range")


KNOWN = {"hypergraph-vertex-range": known_range}
SUBS = [Sub("refuse", cases(), check, quick=1200, thorough=40000),
        Sub("absent", absent_case(), check_absent, quick=500, thorough=12000)]
