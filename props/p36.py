"""P36: layers, losses, metrics, generators, splits and loaders refuse what they cannot honour."""
import json
import os
import pickle
import shutil
import tempfile
from hypothesis import strategies as st
import numpy as np
import torch
import dhg
import dhg.datapipe as dp
import dhg.metrics as dm
import dhg.metrics.classification as mc
import dhg.metrics.recommender as mr
import dhg.metrics.retrieval as mt
import dhg.models as models
import dhg.nn as dnn
import dhg.random as dr
import dhg.utils as du
from dhg.nn.convs.common import MLP, MultiHeadWrapper
from dhg.structure.base import load_structure
from dhg.utils.sparse import sparse_dropout
from harness.core import Sub, require
from harness.util import near, raises, same

PROPERTY = "P36"
RULE = ("a case is a request to a layer, loss, metric, evaluator, random generator, split, dataset wrapper, loader or scaler with one "
        "unknown option, size that does not fit, probability or ratio out of range, or missing file, together with the same request "
        "made right; the right one is answered before and after, the wrong one refused. Every case is non-trivial: each pairs a "
        "refused with an accepted request.")
WORDS = ["", "Mean", "max_pool", "none", "SUM", "average", "first", "softmax", "custom "]


def requests(c, tmp):
    """name -> (right call, wrong call)"""
    n, far, w, x = c["n"], c["far"], c["word"], c["x"]
    R = {}
    g = dhg.Graph(n, [(i, (i + 1) % n) for i in range(n - 1)])
    X = torch.ones(n, 2)
    y = torch.tensor([i % 2 for i in range(n)])
    p = torch.tensor([float((i * 7) % 5) for i in range(n)])
    rows = lambda t: t.repeat(2, 1)
    longer = lambda t: torch.cat([t, t[:1]] if c["j"] % 2 else [t, t])

    # layers, losses, models
    R["BPRLoss activation"] = (lambda: dnn.BPRLoss(activation=["sigmoid_then_log", "softplus"][c["flip"]])(p, p + 1), lambda: dnn.BPRLoss(activation=w)(p, p + 1))
    R["GraphSAGEConv aggregation"] = (lambda: dnn.GraphSAGEConv(2, 2, aggr="mean", drop_rate=0.)(X, g), lambda: dnn.GraphSAGEConv(2, 2, aggr=w)(X, g))
    heads = lambda r: MultiHeadWrapper(2, r, dnn.GATConv, in_channels=2, out_channels=2, is_last=True, drop_rate=0.)(X=X, g=g)
    R["readout"] = (lambda: heads(["concat", "mean", "max", "sum"][c["i"] % 4]), lambda: heads(w))
    R["MLP channels"] = (lambda: MLP([2, 3])(X), lambda: MLP([2])(X))
    R["MLP activation"] = (lambda: MLP([2, 3], act_name="ReLU")(X), lambda: MLP([2, 3], act_name="Relu")(X))
    R["GIN layers"] = (lambda: models.GIN(2, 3, 2, num_mlp_layers=2, num_layers=2)(X, g), lambda: models.GIN(2, 3, 2, num_mlp_layers=2, num_layers=[1, 0, -far][c["i"] % 3])(X, g))
    R["drop probability"] = (lambda: sparse_dropout(g.A, 0.5), lambda: sparse_dropout(g.A, c["outside"]))
    R["features of the wrong width"] = (lambda: dnn.GCNConv(2, 2, drop_rate=0.)(X, g), lambda: dnn.GCNConv(2, 2, drop_rate=0.)(torch.ones(n, 2 + far), g))

    # classification
    yy, pp = (y, longer(y)) if c["flip"] else (longer(y), y)
    for f in (mc.accuracy, mc.f1_score, mc.confusion_matrix):
        R[f"{f.__name__} of different lengths"] = (lambda f=f: f(y, y), lambda f=f: f(yy, pp))
        R[f"{f.__name__} of a table of labels"] = (lambda f=f: f(y, y), lambda f=f: f(rows(y), rows(y)))
    # rankings
    bad = y.clone()
    bad[c["i"] % n] = 1 + far
    for m in (mr, mt):
        nm = m.__name__.split(".")[-1]
        for fn in ("precision", "recall", "ndcg"):
            f = getattr(m, fn)
            R[f"{nm} {fn} of different lengths"] = (lambda f=f: f(y, p), lambda f=f: f(yy, longer(p) if c["flip"] else p))
            R[f"{nm} {fn} of three axes"] = (lambda f=f: f(rows(y), rows(p)), lambda f=f: f(rows(y)[None], rows(p)[None]))
            if fn != "ndcg":
                R[f"{nm} {fn} of graded relevance"] = (lambda f=f: f(y, p), lambda f=f: f(bad, p))
    for fn in ("precision", "recall", "ndcg", "map", "mrr", "ap"):
        f = getattr(mt, fn)
        if fn != "mrr":
            R[f"retrieval {fn} ratio"] = (lambda f=f: f(y, p, ratio=0.5), lambda f=f: f(y, p, ratio=[0.0, 1.01 + x, -x - 0.01][c["i"] % 3]))
    for fn in ("ap", "map", "pr_curve"):
        f = getattr(mt, fn)
        R[f"retrieval {fn} method"] = (lambda f=f: f(y, p, method=["legacy", "pascal_voc"][c["flip"]]), lambda f=f: f(y, p, method=w))
    for fn in ("ap", "rr"):
        f = getattr(mt, fn)
        R[f"retrieval {fn} of rows"] = (lambda f=f: f(y, p), lambda f=f: f(rows(y), rows(p)))
    # evaluators
    E = {"classification": (dm.VertexClassificationEvaluator, ["accuracy", "f1_score", "confusion_matrix"], ["recall", "ndcg", "Accuracy", "_format_inputs", "torch", "sm", "VertexClassificationEvaluator", w]),
         "graph": (dm.GraphVertexClassificationEvaluator, ["accuracy", "f1_score", "confusion_matrix"], ["precision", "map", "acc", "BaseEvaluator", "List", w]),
         "hypergraph": (dm.HypergraphVertexClassificationEvaluator, ["accuracy", "f1_score", "confusion_matrix"], ["mrr", "F1_score", "available_classification_metrics", "sm", w]),
         "recommender": (dm.UserItemRecommenderEvaluator, ["precision", "recall", "ndcg"], ["accuracy", "map", "mrr", "_dcg", "torch", "np", "BaseEvaluator", w]),
         "retrieval": (dm.RetrievalEvaluator, ["precision", "recall", "map", "ndcg", "mrr", "pr_curve"], ["accuracy", "f1_score", "Map", "ap", "rr", "_dcg", "_pr_curve", "np", w])}
    for k, (cls, good, wrong) in E.items():
        ok, no = good[:1 + c["i"] % len(good)], wrong[c["j"] % len(wrong)]
        hidden = ok[:c["j"] % (len(ok) + 1)] + [no if c["flip"] else {no: {"k": 2}}] + ok[c["j"] % (len(ok) + 1):]
        R[f"{k} evaluator, metric"] = (lambda cls=cls, ok=ok: cls(ok), lambda cls=cls, h=hidden: cls(h))
        R[f"{k} evaluator, validation metric"] = (lambda cls=cls, ok=ok: cls(ok, len(ok) - 1), lambda cls=cls, ok=ok: cls(ok, len(ok) - 1 + far if c["flip"] else -far))
        if k in ("recommender", "retrieval"):
            R[f"{k} evaluator, nothing validated"] = (lambda cls=cls, ok=ok: cls(ok), lambda cls=cls, ok=ok: cls(ok).validate_epoch_res())
            R[f"{k} evaluator, nothing tested"] = (lambda cls=cls, ok=ok: cls(ok), lambda cls=cls, ok=ok: cls(ok).test_epoch_res())
    tasks = {"graph_vertex_classification": "accuracy", "hypergraph_vertex_classification": "f1_score", "user_item_recommender": "ndcg"}
    t = sorted(tasks)[c["i"] % 3]
    R["evaluator of an unknown task"] = (lambda: dm.build_evaluator(t, [tasks[t]]), lambda: dm.build_evaluator(w, [tasks[t]]))

    # random structures
    pr, N = c["outside"], n * c["times"]
    for f in (dr.graph_Gnp, dr.graph_Gnp_fast, dr.digraph_Gnp, dr.digraph_Gnp_fast):
        R[f"{f.__name__} probability"] = (lambda f=f: f(n, 0.5), lambda f=f: f(n, pr))
        R[f"{f.__name__} vertices"] = (lambda f=f: f(n, 0.5), lambda f=f: f(1 - far, 0.5))
    R["bigraph_Gnp probability"] = (lambda: dr.bigraph_Gnp(n, 2, 0.5), lambda: dr.bigraph_Gnp(n, 2, pr))
    R["bigraph_Gnp U"] = (lambda: dr.bigraph_Gnp(n, 2, 0.5), lambda: dr.bigraph_Gnp(1 - far, 2, 0.5))
    R["bigraph_Gnp V"] = (lambda: dr.bigraph_Gnp(2, n, 0.5), lambda: dr.bigraph_Gnp(2, 1 - far, 0.5))
    for f, most in ((dr.graph_Gnm, N * (N - 1) // 2), (dr.digraph_Gnm, N * (N - 1))):
        R[f"{f.__name__} edges"] = (lambda f=f, m=most: same(f(N, m).num_e, m, "edges"), lambda f=f, m=most: f(N, m + far))
    R["bigraph_Gnm edges"] = (lambda: same(dr.bigraph_Gnm(N, 3, 3 * N).num_e, 3 * N, "edges"), lambda: dr.bigraph_Gnm(N, 3, 3 * N + far))
    from math import comb
    k = 2 + c["i"] % (n - 1)
    R["uniform_hypergraph_Gnm hyperedges"] = (lambda: same(dr.uniform_hypergraph_Gnm(k, n, comb(n, k)).num_e, comb(n, k), "hyperedges"), lambda: dr.uniform_hypergraph_Gnm(k, n, comb(n, k) + far))
    R["uniform_hypergraph_Gnm no hyperedges"] = (lambda: dr.uniform_hypergraph_Gnm(k, n, 1), lambda: dr.uniform_hypergraph_Gnm(k, n, 1 - far))
    R["uniform_hypergraph_Gnm size"] = (lambda: dr.uniform_hypergraph_Gnm(k, n, 1), lambda: dr.uniform_hypergraph_Gnm(1 - far, n, 1))
    R["uniform_hypergraph_Gnp size"] = (lambda: dr.uniform_hypergraph_Gnp(k, n, 1.), lambda: dr.uniform_hypergraph_Gnp(1 - far, n, 1.))
    R["uniform_hypergraph_Gnp probability"] = (lambda: dr.uniform_hypergraph_Gnp(k, n, 0.5), lambda: dr.uniform_hypergraph_Gnp(k, n, pr))
    good = ["uniform", "low_order_first", "high_order_first"][c["i"] % 3]
    R["hypergraph_Gnm method"] = (lambda: dr.hypergraph_Gnm(n, 1, good), lambda: dr.hypergraph_Gnm(n, 1, w))
    R["hypergraph_Gnm hyperedges"] = (lambda: dr.hypergraph_Gnm(n, 1, good), lambda: dr.hypergraph_Gnm(n, 2 ** n - n - 1 + far, good))
    ps = [1.0] * (n - 1)
    R["hypergraph_Gnm own distribution missing"] = (lambda: dr.hypergraph_Gnm(n, 1, "custom", ps), lambda: dr.hypergraph_Gnm(n, 1, "custom"))
    R["hypergraph_Gnm own distribution of the wrong length"] = (lambda: dr.hypergraph_Gnm(n, 1, "custom", ps), lambda: dr.hypergraph_Gnm(n, 1, "custom", ps + [1.0] * far if c["flip"] else ps[:-1]))
    only = [float(s == k) for s in range(2, n + 1)]
    R["hypergraph_Gnm own distribution, too many of one size"] = (lambda: same(dr.hypergraph_Gnm(n, comb(n, k), "custom", only).num_e, comb(n, k), "hyperedges"), lambda: dr.hypergraph_Gnm(n, comb(n, k) + 1, "custom", only))
    R["labels of features"] = (lambda: dr.normal_features(y.tolist()), lambda: dr.normal_features([tuple(y.tolist()), set(y.tolist()), "01", 3][c["i"] % 4]))
    R["a table of labels of features"] = (lambda: dr.normal_features(y), lambda: dr.normal_features(rows(y)))

    # splits, wrappers
    lab = [i % 2 for i in range(n)]
    R["split ratios"] = (lambda: du.split_by_ratio(n, lab, 0.4, 0.2, 0.3), lambda: du.split_by_ratio(n, lab, 0.5, 0.3, 0.2 + x + 0.01))
    R["split ratios, the rest tested"] = (lambda: du.split_by_ratio(n, lab, 0.4, 0.2), lambda: du.split_by_ratio(n, lab, 0.5, 0.5 + x))
    R["labels of a split"] = (lambda: du.split_by_num(n, lab, 1), lambda: du.split_by_num(n, dict(enumerate(lab)), 1))
    R["a table of labels of a split"] = (lambda: du.split_by_ratio(n, lab, 0.5), lambda: du.split_by_ratio(n, [lab, lab], 0.5))
    pairs = [[0, 0], [1, 1], [1, 0]]
    R["dataset phase"] = (lambda: du.UserItemDataset(2, 2, pairs), lambda: du.UserItemDataset(2, 2, pairs, pairs, phase=["val", "Train", "", "t", "tes", "training", "valid", w][c["j"] % 8]))
    R["test dataset without training pairs"] = (lambda: du.UserItemDataset(2, 2, pairs, pairs, phase="test"), lambda: du.UserItemDataset(2, 2, pairs, phase="test"))
    R["negatives of a user with every item"] = (lambda: du.UserItemDataset(2, 2, pairs)[0], lambda: du.UserItemDataset(2, 2, pairs)[1])

    # loaders and scalers
    path = os.path.join(tmp, "f.txt")
    with open(path, "w") as f:
        f.write("1,2\n3,4\n")
    R["text of an unknown type"] = (lambda: dp.load_from_txt(path, ["int", "float", "str"][c["i"] % 3]), lambda: dp.load_from_txt(path, w))
    R["text that is no number"] = (lambda: dp.load_from_txt(path, "int", ","), lambda: dp.load_from_txt(path, "int", ";"))
    gone = os.path.join(tmp, "gone")
    for nm, f in (("text", lambda q: dp.load_from_txt(q, "str")), ("JSON", dp.load_from_json), ("pickle", dp.load_from_pickle)):
        right = {"text": path, "JSON": os.path.join(tmp, "f.json"), "pickle": os.path.join(tmp, "f.pkl")}[nm]
        with open(os.path.join(tmp, "f.json"), "w") as h:
            json.dump([1], h)
        with open(os.path.join(tmp, "f.pkl"), "wb") as h:
            pickle.dump({"a": 1}, h)
        R[f"a missing {nm} file"] = (lambda f=f, g=right: f(g), lambda f=f: f(gone))
    R["several pickle files"] = (lambda: dp.load_from_pickle(os.path.join(tmp, "f.pkl")), lambda: dp.load_from_pickle([os.path.join(tmp, "f.pkl")]))
    R["an absent key of a pickle"] = (lambda: dp.load_from_pickle(os.path.join(tmp, "f.pkl"), "a"), lambda: dp.load_from_pickle(os.path.join(tmp, "f.pkl"), "b" if c["flip"] else ["a", "b"]))
    stru = os.path.join(tmp, "g.dhg")
    g.save(stru)
    R["a missing structure file"] = (lambda: load_structure(stru), lambda: load_structure(gone))
    R["scaling to an empty range"] = (lambda: dp.min_max_scaler(X, 0.0, 1.0), lambda: dp.min_max_scaler(X, x + 0.5, 0.5))
    R["normalising three axes"] = (lambda: dp.norm_ft(X, 1), lambda: dp.norm_ft(X[None], 1))
    return R


@st.composite
def cases(draw):
    return dict(n=draw(st.integers(3, 6)), times=draw(st.sampled_from([1, 1, 2, 4])), far=draw(st.sampled_from([1, 1, 2, 10])), word=draw(st.sampled_from(WORDS)), x=draw(st.sampled_from([0.0, 0.1, 1.0])),
                outside=draw(st.sampled_from([-0.01, 1.01, -1.0, 2.0, 1.0000001, -1e-9])), flip=draw(st.integers(0, 1)), i=draw(st.integers(0, 11)),
                j=draw(st.integers(0, 11)), pick=draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=16)))


def check(c):
    tmp = tempfile.mkdtemp()
    labels = {"nt"}
    try:
        R = requests(c, tmp)
        names = sorted(R)
        for q in c["pick"]:
            name = names[q % len(names)]
            good, bad = R[name]
            good()
            before = sorted(os.listdir(tmp))
            raises(bad, name)
            same(sorted(os.listdir(tmp)), before, f"files after {name}")
            good()
            labels.add(name[:40])
    finally:
        shutil.rmtree(tmp)
    return labels


SUBS = [Sub("refuse", cases(), check, quick=3000, thorough=40000, case_timeout=30.)]
