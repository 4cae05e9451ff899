from collections import Counter
from hypothesis import strategies as st
import numpy as np
import torch
import dhg.metrics.classification as cm
from harness.core import Sub, require
from harness.util import same, near, close, raises

PROPERTY = "P26"
RULE = ("a case is a label vector, predicted classes (some never predicted, some never true, gaps in the numbering), the "
        "same predictions as a score matrix without ties, and a permutation of the vertices; accuracy, the confusion "
        "matrix and the three F1 averages are compared with counts. Non-trivial: at least two classes and at least one "
        "right and one wrong prediction.")


@st.composite
def cases(draw):
    k = draw(st.integers(1, 6))
    n = draw(st.integers(1, 25))
    used = draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=k, unique=True))
    true = draw(st.lists(st.sampled_from(used), min_size=n, max_size=n))
    noisy = draw(st.integers(0, 3))
    pred = [t if draw(st.integers(0, 3)) > noisy - 1 else draw(st.integers(0, k - 1)) for t in true]
    return dict(k=k, shift=draw(st.sampled_from([0, 0, -1, -3, 7, 1000])), true=true, pred=pred, order=draw(st.permutations(range(n))), top=draw(st.sampled_from([0.5, 1.0, 40.0])),
                rest=draw(st.lists(st.permutations(range(k)), min_size=n, max_size=n)), dtype=draw(st.sampled_from(["f32", "f64", "grad"])))


@st.composite
def wide_cases(draw):
    """Many vertices and up to 80 classes, from a generated seed."""
    rng = np.random.default_rng(draw(st.integers(0, 1 << 30)))
    k, n = draw(st.integers(7, 80)), draw(st.integers(30, 600))
    used = rng.permutation(k)[: draw(st.integers(1, k))]
    true = rng.choice(used, n)
    keep = rng.random(n) < draw(st.sampled_from([0.1, 0.5, 0.9, 0.99]))
    pred = np.where(keep, true, rng.integers(0, k, n))
    return dict(k=k, shift=draw(st.sampled_from([0, -1, 1000])), true=true.tolist(), pred=pred.tolist(), order=rng.permutation(n).tolist(), top=1.0,
                rest=[rng.permutation(k).tolist() for _ in range(n)], dtype=draw(st.sampled_from(["f32", "f64", "grad"])))


def check(c):
    n, k = len(c["true"]), c["k"]
    score = [[(-1.0 - r / 8 if j != p else c["top"]) for j, r in enumerate(rest)] for p, rest in zip(c["pred"], c["rest"])]
    # class numbers need not start at zero when predicted classes are given
    one([x + c["shift"] for x in c["true"]], [x + c["shift"] for x in c["pred"]], torch.tensor(c["true"]) + c["shift"], torch.tensor(c["pred"]) + c["shift"])
    for idx in (list(range(n)), c["order"]):
        t, p = [c["true"][i] for i in idx], [c["pred"][i] for i in idx]
        yt = torch.tensor(t)
        M = torch.tensor([score[i] for i in idx], dtype=torch.float64 if c["dtype"] == "f64" else torch.float32)
        if c["dtype"] == "grad":
            M.requires_grad_()
        for yp in (torch.tensor(p), M):
            a, b = yt.clone(), yp.detach().clone()
            one(t, p, yt, yp)
            require(torch.equal(yt, a) and torch.equal(yp.detach(), b), "the inputs were modified")
    right = sum(a == b for a, b in zip(c["true"], c["pred"]))
    return ["nt"] if len(set(c["true"])) > 1 and 0 < right < n else []


def one(t, p, yt, yp):
    n = len(t)
    cls = sorted(set(t) | set(p))
    cnt = Counter(zip(t, p))
    close(cm.accuracy(yt, yp), sum(cnt[k, k] for k in cls) / n, "accuracy")
    cmx = cm.confusion_matrix(yt, yp)
    same(np.asarray(cmx).tolist(), [[cnt[a, b] for b in cls] for a in cls], "confusion matrix")
    f1, sup = {}, Counter(t)
    for k in cls:
        tp, fn, fp = cnt[k, k], sup[k] - cnt[k, k], sum(x == k for x in p) - cnt[k, k]
        f1[k] = 2 * tp / (2 * tp + fp + fn)
    macro = sum(f1.values()) / len(cls)
    close(cm.f1_score(yt, yp), macro, "f1 by default (macro)")
    close(cm.f1_score(yt, yp, "macro"), macro, "macro f1")
    close(cm.f1_score(yt, yp, "micro"), sum(cnt[k, k] for k in cls) / n, "micro f1")
    close(cm.f1_score(yt, yp, "weighted"), sum(f1[k] * sup[k] for k in cls) / n, "weighted f1")
    raises(lambda: cm.accuracy(yt, torch.cat([yp.detach(), yp.detach()[:1]])), "predictions of another length")
    raises(lambda: cm.accuracy(yt.view(-1, 1), yp), "a two-dimensional label tensor")


SUBS = [Sub("metrics", cases, check, quick=1000, shards=6), Sub("wide", wide_cases, check, quick=60, shards=2)]
