import copy
from hypothesis import strategies as st
import numpy as np
import torch
import dhg.metrics as dm
import dhg.metrics.retrieval as rm
import dhg.metrics.recommender as um
import dhg.metrics.classification as cm
from harness import gen
from harness.core import Sub, require
from harness.util import same, near, close, raises

PROPERTY = "P27"
RULE = ("a case is an evaluator class, a list of metric configurations, the validation index and a history of batches "
        "added to the validation and the test stream, epochs closed (also twice) and direct evaluations; every result "
        "is compared with the metric functions on the concatenated batches of that epoch, and results returned earlier "
        "must not change. Non-trivial: an epoch of at least two batches, and at least two epochs or interleaved streams.")
FUNCS = {"ret": {"precision": rm.precision, "recall": rm.recall, "map": rm.map, "ndcg": rm.ndcg, "mrr": rm.mrr, "pr_curve": rm.pr_curve},
         "rec": {"precision": um.precision, "recall": um.recall, "ndcg": um.ndcg},
         "cls": {"accuracy": cm.accuracy, "f1_score": cm.f1_score, "confusion_matrix": cm.confusion_matrix}}


@st.composite
def config(draw, kind):
    f = draw(st.sampled_from(sorted(FUNCS[kind])))
    if draw(st.integers(0, 2)) == 0:
        return f
    p = {}
    if kind == "cls":
        if f != "f1_score":
            return f
        p["average"] = draw(st.sampled_from(["macro", "micro", "weighted"]))
    else:
        if draw(st.booleans()):
            p["k"] = draw(st.one_of(st.integers(1, 8), st.integers(9, 70)))
        else:
            p["ratio"] = draw(st.sampled_from([0.1, 0.25, 0.5, 1.0, 0.35]))
        if f in ("map", "pr_curve") and draw(st.booleans()):
            p["method"] = draw(st.sampled_from(["legacy", "pascal_voc"]))
        if f == "pr_curve" and draw(st.booleans()):
            p["n_points"] = draw(st.integers(2, 7))
    return {f: p}


def name(cfg):
    if isinstance(cfg, str):
        return cfg
    f, p = next(iter(cfg.items()))
    return f + " -> " + " | ".join(f"{k}@{v:.4f}" if isinstance(v, float) else f"{k}@{v}" for k, v in p.items())


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["ret", "ret", "rec", "rec", "cls"]))
    cfg = draw(st.lists(config(kind), min_size=1, max_size=4))
    ok = [i for i, x in enumerate(cfg) if name(x).split(" ")[0] != "pr_curve"]
    if not ok:
        cfg.append("recall")
        ok = [len(cfg) - 1]
    if kind == "cls":
        ok = [i for i in ok if "confusion" not in name(cfg[i])] or ok
    m = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(1, 7), st.integers(8, 60)))
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(["vadd", "tadd", "vadd", "tadd", "vadd", "tadd", "vend", "tend", "vend", "tend", "now", "now", "long", "big"]))
        if k == "long" and kind != "cls":         # an epoch of many small batches
            rng = np.random.default_rng(draw(st.integers(0, 1 << 30)))
            k = draw(st.sampled_from(["vadd", "tadd"]))
            for _ in range(draw(st.integers(5, 60))):
                n = int(rng.integers(1, 4))
                ops.append([k, rng.integers(0, 2, (n, m)).tolist(), [rng.permutation(m).tolist() for _ in range(n)]])
            ops.append([k[0] + "end"])
            continue
        if k == "big" and kind != "cls":          # large batches of rows in the common width
            rng = np.random.default_rng(draw(st.integers(0, 1 << 30)))
            k = draw(st.sampled_from(["vadd", "tadd"]))
            for _ in range(draw(st.integers(1, 3))):
                n = int(rng.integers(20, 80))
                ops.append([k, rng.integers(0, 2, (n, m)).tolist(), [rng.permutation(m).tolist() for _ in range(n)]])
            ops.append([k[0] + "end"])
            continue
        if k == "big":
            rng = np.random.default_rng(draw(st.integers(0, 1 << 30)))
            n, ncls = draw(st.integers(20, 120)), draw(st.integers(2, 30))
            t = rng.integers(0, ncls, n)
            ops.append(["now", t.tolist(), np.where(rng.random(n) < 0.6, t, rng.integers(0, ncls, n)).tolist(), draw(st.booleans())])
            continue
        k = "now" if k == "long" else k
        if k in ("vadd", "tadd", "now"):
            n = draw(st.integers(1, 4))
            if kind == "cls":
                ops.append([k, draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)), draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)), draw(st.booleans())])
            else:
                ops.append([k, [draw(st.lists(st.integers(0, 1), min_size=m, max_size=m)) for _ in range(n)], [draw(st.permutations(range(m))) for _ in range(n)]])
        else:
            ops.append([k])
    return dict(kind=kind, cfg=cfg, vi=draw(st.sampled_from(ok)), ops=ops, build=draw(st.sampled_from(["class", "build", "hyper"])))


def make(c):
    cfg = copy.deepcopy(c["cfg"])
    if c["kind"] == "ret":
        e = dm.RetrievalEvaluator(cfg, c["vi"])
    elif c["kind"] == "rec":
        e = dm.UserItemRecommenderEvaluator(cfg, c["vi"]) if c["build"] == "class" else dm.build_evaluator("user_item_recommender", cfg, c["vi"])
    elif c["build"] == "class":
        e = dm.VertexClassificationEvaluator(cfg, c["vi"])
    else:
        t = "graph_vertex_classification" if c["build"] == "build" else "hypergraph_vertex_classification"
        e = dm.build_evaluator(t, cfg, c["vi"])
    same(cfg, c["cfg"], "the configuration passed in")
    return e


def call(c, cfg, yt, yp):
    f, p = (cfg, {}) if isinstance(cfg, str) else next(iter(cfg.items()))
    return FUNCS[c["kind"]][f](yt, yp, **p)


def pack(c, batch):
    if c["kind"] == "cls":
        yt = torch.tensor(batch[0])
        yp = torch.tensor(batch[1])
        return yt, (torch.nn.functional.one_hot(yp, 31).float() if batch[2] else yp)
    return torch.tensor(batch[0]), torch.tensor(batch[1], dtype=torch.float32) / 4


def equal(got, want, what):
    if isinstance(want, tuple):
        same(len(got), len(want), what)
        for a, b in zip(got, want):
            near(a, b, what)
    else:
        near(got, want, what)


def plain(x):
    return copy.deepcopy(x)


def check(c):
    e = make(c)
    names = [name(x) for x in c["cfg"]]
    V, T, kept = [], [], []
    lastv = lastt = None
    epochs = multi = 0
    inter = False
    for op in c["ops"]:
        if op[0] in ("vadd", "tadd", "now"):
            yt, yp = pack(c, op[1:])
            a, b = yt.clone(), yp.clone()
        if op[0] == "now" or c["kind"] == "cls":
            if op[0] in ("vend", "tend"):
                continue
            equal(e.validate(yt, yp), call(c, c["cfg"][c["vi"]], yt, yp), "validate()")
            res = e.test(yt, yp)
            same(set(res), set(names), "names of the test results")
            for n, x in zip(names, c["cfg"]):
                equal(res[n], call(c, x, yt, yp), f"test()[{n!r}]")
        elif op[0] == "vadd":
            e.validate_add_batch(yt, yp)
            V.append((yt, yp))
            inter |= bool(T)
        elif op[0] == "tadd":
            e.test_add_batch(yt, yp)
            T.append((yt, yp))
            inter |= bool(V)
        elif op[0] == "vend":
            if not V and lastv is None:
                raises(e.validate_epoch_res, "closing a validation epoch without any batch")
                continue
            got = e.validate_epoch_res()
            if V:
                yt, yp = (torch.cat(x) for x in zip(*V))
                lastv = float(call(c, c["cfg"][c["vi"]], yt, yp))
                multi += len(V) > 1
                epochs += 1
            close(got, lastv, "validation result of the epoch")
            V = []
            continue
        else:
            if not T and lastt is None:
                raises(e.test_epoch_res, "closing a test epoch without any batch")
                continue
            got = e.test_epoch_res()
            if T:
                yt, yp = (torch.cat(x) for x in zip(*T))
                lastt = {n: call(c, x, yt, yp) for n, x in zip(names, c["cfg"])}
                multi += len(T) > 1
                epochs += 1
            same(set(got), set(names), "names of the test results")
            for n in names:
                equal(got[n], lastt[n], f"test result {n!r} of the epoch")
            kept.append((got, plain(got)))
            T = []
            continue
        require(torch.equal(yt, a) and torch.equal(yp, b), "the batch was modified")
    for g, w in kept:
        same(g, w, "a test result returned earlier")
    return [c["kind"]] + (["nt"] if (multi and (epochs > 1 or inter)) or (c["kind"] == "cls" and len(c["cfg"]) > 1) else [])


@st.composite
def bad_cases(draw):
    kind = draw(st.sampled_from(["ret", "rec", "cls"]))
    return dict(kind=kind, cfg=draw(st.lists(config(kind), min_size=1, max_size=3)), vi=0, how=draw(st.sampled_from(["index", "negative", "name", "private", "task"])),
                off=draw(st.integers(0, 3)), build="class", pos=draw(st.integers(0, 3)), dct=draw(st.booleans()))


def check_bad(c):
    if c["how"] == "index":
        c["vi"] = len(c["cfg"]) + c["off"]
    elif c["how"] == "negative":
        c["vi"] = -1 - c["off"]
    elif c["how"] == "task":
        raises(lambda: dm.build_evaluator("no_such_task", c["cfg"]), "an unknown task")
        return ["nt"]
    else:
        bad = "no_such_metric" if c["how"] == "name" else "_format_inputs"
        c["cfg"].insert(c["pos"] % (len(c["cfg"]) + 1), {bad: {}} if c["dct"] else bad)
    raises(lambda: make(c), f"configuration {c['cfg']} with validation index {c['vi']}")
    return [c["how"], "nt"]


SUBS = [Sub("history", cases, check, quick=1600, shards=6), Sub("refusals", bad_cases, check_bad, quick=300, shards=1)]
