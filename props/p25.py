from hypothesis import strategies as st
import numpy as np
import torch
import dhg.metrics.recommender as rm
from harness import refmetric as R
from harness.core import Sub, require
from harness.util import same, near
from props.p24 import per, check_one, large_cases as large

PROPERTY = "P25"
RULE = ("a case is a relevance matrix (users without relevant items included, graded for NDCG), distinct scores with "
        "some irrelevant items masked by minus infinity, and a cut-off or ratio; every metric is compared with a "
        "plain-Python definition, per user and averaged, also after permuting users and items. Non-trivial: a user has "
        "relevant and irrelevant items and the cut-off is below the number of items.")


@st.composite
def cases(draw):
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 12))
    graded = draw(st.booleans())
    rel = [draw(st.lists(st.integers(0, 4 if graded else 1) if draw(st.integers(0, 6)) else st.just(0), min_size=m, max_size=m)) for _ in range(n)]
    mask = [draw(st.lists(st.booleans(), min_size=m, max_size=m)) if draw(st.booleans()) else [False] * m for _ in range(n)]
    return dict(rel=rel, graded=graded, mask=mask, perm=[draw(st.permutations(range(m))) for _ in range(n)], k=draw(st.one_of(st.none(), st.integers(1, m + 2))),
                ratio=draw(st.one_of(st.none(), st.none(), st.sampled_from([10, 7, 3, 100]).flatmap(lambda d: st.integers(1, d).map(lambda a: [a, d])))),
                dtype=draw(st.sampled_from(["long", "float", "double"])), scale=draw(st.sampled_from([1.0, 0.01, 100.0, 2.0 ** -20])), base=draw(st.sampled_from([0, 0, 1.0])),
                rows=draw(st.permutations(range(n))), cols=draw(st.permutations(range(m))), oneD=draw(st.booleans()))


@st.composite
def large_cases(draw):
    c = draw(large())
    rng = np.random.default_rng(draw(st.integers(0, 1 << 30)))
    c["mask"] = (rng.random((len(c["rel"]), len(c["rel"][0]))) < draw(st.sampled_from([0, 0.1, 0.5]))).tolist()
    c["dtype"] = "long" if c["dtype"] == "bool" else c["dtype"]
    c["base"] = draw(st.sampled_from([0, 1.0]))
    if c["base"]:
        c["scale"] = draw(st.sampled_from([2.0 ** -20, 0.01]))
    return c


def check(c):
    m = len(c["rel"][0])
    kw = {}
    if c["k"] is not None:
        kw["k"] = c["k"]
    if c["ratio"] is not None:
        kw["ratio"] = c["ratio"][0] / c["ratio"][1]
    ks = R.cut(m, c["k"], c["ratio"])
    sc = [[-np.inf if k and not r else c["base"] + c["scale"] * (v - 3) for v, k, r in zip(p, mk, rl)] for p, mk, rl in zip(c["perm"], c["mask"], c["rel"])]
    for rel, s in ((c["rel"], sc), ([[c["rel"][i][j] for j in c["cols"]] for i in c["rows"]], [[sc[i][j] for j in c["cols"]] for i in c["rows"]])):
        S = [R.ranked(a, b) for a, b in zip(rel, s)]
        yt = torch.tensor(rel)
        yt = {"long": yt.long, "float": yt.float, "double": yt.double}[c["dtype"]]()
        yp = torch.tensor(s, dtype=torch.float32)
        per(rm.ndcg, c, yt, yp, kw, [[R.ndcg(x, k) for k in ks] for x in S], "ndcg")
        if not c["graded"]:
            per(rm.precision, c, yt, yp, kw, [[R.precision(x, k) for k in ks] for x in S], "precision")
            per(rm.recall, c, yt, yp, kw, [[R.recall(x, k) for k in ks] for x in S], "recall")
    yt = torch.tensor(c["rel"])
    if yt.sum() > 0 and all(any(r) for r in c["rel"]):
        near(rm.ndcg(yt, yt + torch.linspace(0, 0.5, m), **kw), 1.0, "ndcg of a perfect ranking")
    mixed = any(0 < sum(bool(x) for x in r) < m for r in c["rel"])
    return ["graded" if c["graded"] else "binary", "ratio" if c["ratio"] else "k"] + (["nt"] if mixed and min(ks) < m else []) + \
        (["masked"] if any(v == -np.inf for r in sc for v in r) else [])


SUBS = [Sub("metrics", cases, check, quick=3000, shards=6), Sub("large", large_cases, check, quick=240, shards=6)]
