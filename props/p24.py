from hypothesis import strategies as st
import numpy as np
import torch
import dhg.metrics.retrieval as rm
from harness import gen, refmetric as R
from harness.core import Sub, require
from harness.util import same, near, close, raises

PROPERTY = "P24"
RULE = ("a case is a relevance matrix (some rows without relevant targets, graded for NDCG), distinct scores, a "
        "cut-off (below, at and above the number of targets) or ratio, a data type and a permutation of samples and "
        "targets; every metric is compared with a plain-Python definition, per sample and averaged. "
        "Non-trivial: a row has both relevant and irrelevant targets and the cut-off is below the length.")


@st.composite
def cases(draw):
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 12))
    graded = draw(st.booleans())
    rel = [draw(st.lists(st.integers(0, 4 if graded else 1) if draw(st.integers(0, 6)) else st.just(0), min_size=m, max_size=m)) for _ in range(n)]
    return dict(rel=rel, graded=graded, perm=[draw(st.permutations(range(m))) for _ in range(n)], k=draw(st.one_of(st.none(), st.integers(1, m + 2))),
                ratio=draw(st.one_of(st.none(), st.none(), st.sampled_from([10, 7, 3, 100]).flatmap(lambda d: st.integers(1, d).map(lambda a: [a, d])))),
                dtype=draw(st.sampled_from(["long", "float", "bool", "double"])), trans=draw(st.sampled_from(["affine", "exp", "neg", "cube", "close"])),
                rows=draw(st.permutations(range(n))), cols=draw(st.permutations(range(m))), method=draw(st.sampled_from(["legacy", "pascal_voc"])),
                points=draw(st.sampled_from([2, 3, 5, 11, 21])), oneD=draw(st.booleans()))


@st.composite
def large_cases(draw):
    """Long lists and many samples, filled from a seed (the lists would be too long to draw entry by entry)."""
    n, m = draw(st.integers(1, 24)), draw(st.integers(10, 150))
    seed, dens = draw(st.integers(0, 1 << 30)), draw(st.sampled_from([0.05, 0.3, 0.6, 0.9]))
    graded = draw(st.booleans())
    rng = np.random.default_rng(seed)
    rel = (rng.random((n, m)) < dens) * rng.integers(1, 5 if graded else 2, (n, m))
    rel[rng.random(n) < 0.15] = 0
    return dict(rel=rel.tolist(), graded=graded, perm=[rng.permutation(m).tolist() for _ in range(n)],
                k=draw(st.one_of(st.none(), st.integers(1, m + 2), st.integers(1, m + 2))), ratio=draw(st.one_of(st.none(), st.none(), st.integers(1, 100).map(lambda a: [a, 100]))),
                dtype=draw(st.sampled_from(["long", "float", "bool", "double"])), trans=draw(st.sampled_from(["affine", "neg", "close"])), scale=draw(st.sampled_from([1.0, 0.01])),
                rows=rng.permutation(n).tolist(), cols=rng.permutation(m).tolist(), method=draw(st.sampled_from(["legacy", "pascal_voc"])),
                points=draw(st.sampled_from([2, 5, 11, 21, 101])), oneD=draw(st.integers(0, 3)) == 0)


def tensors(c, rel, score):
    t = torch.tensor(rel)
    if c["dtype"] == "bool" and not c["graded"]:
        t = t.bool()
    elif c["dtype"] == "float":
        t = t.float()
    elif c["dtype"] == "double":
        t = t.double()
    return t, torch.tensor(score, dtype=torch.float32)


def trans(c, x):
    f = {"affine": lambda v: 3 * v + 5, "exp": lambda v: 2.0 ** v, "neg": lambda v: v - 100, "cube": lambda v: (v + 1) ** 3,
         "close": lambda v: 1 + v * 2.0 ** -22}[c["trans"]]
    return [[f(v) for v in row] for row in x]


def per(fn, c, yt, yp, kw, want, name, ret_batch=True, scalar_rows=None):
    """Mean, per-sample and single-sample results of a metric against the admissible values."""
    a0, b0 = yt.clone(), yp.clone()
    if ret_batch:
        got = [float(x) for x in fn(yt, yp, ret_batch=True, **kw)]
        mean = float(fn(yt, yp, **kw))
        require(len(got) == len(want), "%s: %d values for %d samples", name, len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            check_one(g, w, f"{name} of sample {i}")
        close(mean, sum(got) / len(got), f"{name}: mean over the samples")
    for i in range(yt.shape[0] if (c["oneD"] or not ret_batch) else 0):
        check_one(float(fn(yt[i], yp[i], **kw)), want[i], f"{name} of one sample")
    require(torch.equal(yt, a0) and torch.equal(yp, b0), "%s modified its inputs", name)


def check_one(g, w, what):
    require(g == g and -1e-6 <= g <= 1 + 1e-6, "%s is %r", what, g)
    require(any(abs(g - x) <= 1e-5 for x in w), "%s: got %r, expected %s", what, g, w)


def variants(c):
    """Original, transformed scores, permuted rows and columns (relevance with scores)."""
    rel, sc = c["rel"], [[float(v) for v in p] for p in c["perm"]]
    yield rel, sc
    yield rel, trans(c, sc)
    yield [[rel[i][j] for j in c["cols"]] for i in c["rows"]], [[sc[i][j] for j in c["cols"]] for i in c["rows"]]


def check(c):
    n, m = len(c["rel"]), len(c["rel"][0])
    kw = {}
    if c["k"] is not None:
        kw["k"] = c["k"]
    if c["ratio"] is not None:
        kw["ratio"] = c["ratio"][0] / c["ratio"][1]
    ks = R.cut(m, c["k"], c["ratio"])
    full = {} if min(ks) < m else dict(kw)     # a cut-off below the length is a known finding for AP and the PR curve
    for rel, sc in variants(c):
        S = [R.ranked(a, b) for a, b in zip(rel, sc)]
        yt, yp = tensors(c, rel, sc)
        per(rm.ndcg, c, yt, yp, kw, [[R.ndcg(s, k) for k in ks] for s in S], "ndcg")
        if c["graded"]:
            continue
        per(rm.precision, c, yt, yp, kw, [[R.precision(s, k) for k in ks] for s in S], "precision")
        per(rm.recall, c, yt, yp, kw, [[R.recall(s, k) for k in ks] for s in S], "recall")
        per(rm.mrr, c, yt, yp, kw, [[R.rr(s, k) for k in ks] for s in S], "mrr")
        per(rm.rr, c, yt, yp, kw, [[R.rr(s, k) for k in ks] for s in S], "rr", ret_batch=False)
        per(rm.map, c, yt, yp, dict(full, method=c["method"]), [[R.ap(s, c["method"])] for s in S], "map")
        per(rm.ap, c, yt, yp, dict(full, method=c["method"]), [[R.ap(s, c["method"])] for s in S], "ap", ret_batch=False)
        curve(c, yt, yp, full, S)
    if not c["graded"]:
        t = torch.tensor(c["rel"])
        near(rm.map(t, torch.tensor(c["perm"]).float()), np.mean([R.ap(R.ranked(a, b), "pascal_voc") for a, b in zip(c["rel"], c["perm"])]), "map by default")
    mixed = any(0 < sum(bool(x) for x in r) < m for r in c["rel"])
    return ["graded" if c["graded"] else "binary", "ratio" if c["ratio"] else "k"] + (["nt"] if mixed and min(ks) < m else []) + \
        (["empty row"] if any(not any(r) for r in c["rel"]) else [])


def curve(c, yt, yp, kw, S):
    a0, b0 = yt.clone(), yp.clone()
    n = c["points"]
    kw = dict(kw, method=c["method"], n_points=n)
    P, Rc = rm.pr_curve(yt, yp, ret_batch=True, **kw)
    same((len(P), len(Rc)), (len(S), len(S)), "pr_curve: samples")
    for i, s in enumerate(S):
        near(Rc[i], np.arange(n) / (n - 1), "recall coordinates")
        same(len(P[i]), n, "precision coordinates")
        for j, w in enumerate(R.pr_curve(s, c["method"], n)):
            check_one(float(P[i][j]), w, f"precision {j} of sample {i}")
        if c["method"] == "pascal_voc":
            require(all(a >= b - 1e-6 for a, b in zip(P[i], P[i][1:])), "interpolated precision rises: %s", P[i])
    mp, mr = rm.pr_curve(yt, yp, **kw)
    near(mp, np.mean(np.array(P), axis=0), "pr_curve: mean precision")
    near(mr, np.arange(n) / (n - 1), "pr_curve: mean recall")
    if c["oneD"]:
        p1, r1 = rm.pr_curve(yt[0], yp[0], **kw)
        near(p1, P[0], "pr_curve of one sample")
    if c["method"] == "pascal_voc":
        near(rm.pr_curve(yt, yp, n_points=n)[0], mp, "pr_curve: default method")
    require(torch.equal(yt, a0) and torch.equal(yp, b0), "pr_curve modified its inputs")


def known_k(c):
    t, p = torch.tensor(c["rel"]), torch.tensor(c["score"])
    s = R.ranked(c["rel"], c["score"])[:c["k"]]
    got = rm.ap(t, p, k=c["k"], method="legacy")
    hits = R.precisions(s, "legacy")
    ok = [sum(hits) / d for d in (len(hits), sum(c["rel"]), min(c["k"], sum(c["rel"]))) if d]
    require(any(abs(got - x) < 1e-5 for x in ok), "ap at k=%s is %s, none of %s", c["k"], got, ok)


KNOWN = {"ap-ignores-k": known_k}
SUBS = [Sub("metrics", cases, check, quick=1800, shards=6), Sub("large", large_cases, check, quick=160, shards=6)]
