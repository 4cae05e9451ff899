from collections import Counter
from hypothesis import strategies as st
from scipy.stats import binom
import numpy as np
import torch
import dhg.random as dr
from dhg.utils import split_by_num, split_by_ratio
from harness import gen
from harness.core import Sub, require
from harness.util import same, raises

PROPERTY = "P21"
RULE = ("a case is a label vector (2 to 60 vertices, 1 to 6 classes of any integers, any order and imbalance) as a "
        "list, array, column or tensor, and a train/validation/test request by number or ratio; masks are checked "
        "against per-class counts; repeated splits are checked for fairness with exact binomial tails at 1e-11. "
        "Non-trivial: at least two classes and a non-empty training set.")
ALPHA = 1e-11


@st.composite
def labels(draw, hi=60):
    style = draw(st.sampled_from(["zero", "one", "any"]))
    k = draw(st.integers(1, 6))
    names = {"zero": list(range(k)), "one": list(range(1, k + 1))}.get(style) or draw(st.lists(st.integers(-3, 12), min_size=k, max_size=k, unique=True))
    lab = draw(st.lists(st.sampled_from(names), min_size=1, max_size=draw(st.sampled_from([6, 20, hi]))))
    return dict(lab=lab, form=draw(st.sampled_from(["list", "array", "column", "tensor", "tcolumn", "float"])))


@st.composite
def num_cases(draw):
    c = draw(labels())
    c.update(train=draw(st.integers(0, 8)), val=draw(st.one_of(st.none(), st.integers(1, 6))), test=draw(st.one_of(st.none(), st.integers(0, 6))), seed=draw(gen.seeds))
    return c


@st.composite
def ratio_cases(draw):
    c = draw(labels())
    den = draw(st.sampled_from([10, 16, 7, 100]))
    a = draw(st.integers(0, den))
    b = draw(st.one_of(st.none(), st.integers(1, max(1, den - a))))
    d = draw(st.one_of(st.none(), st.integers(0, max(0, den - a - (b or 0))), st.just(max(0, den - a - (b or 0)))))
    if draw(st.integers(0, 5)) == 0:
        a = a + draw(st.integers(1, den))
    c.update(den=den, train=a, val=b, test=d, seed=draw(gen.seeds))
    return c


@st.composite
def wide_cases(draw):
    """Hundreds of vertices, tens of classes, from a generated seed."""
    c = draw(draw(st.sampled_from([num_cases, ratio_cases]))())
    rng = np.random.default_rng(draw(st.integers(0, 1 << 30)))
    k, n = draw(st.integers(1, 60)), draw(st.integers(60, 2500))
    p = rng.dirichlet(np.full(k, draw(st.sampled_from([0.3, 1, 50]))))
    c["lab"] = rng.choice(rng.permutation(k + 5)[:k], n, p=p).tolist()
    if "den" not in c:
        c.update(train=draw(st.integers(0, 150)), val=draw(st.one_of(st.none(), st.integers(1, 150))), test=draw(st.one_of(st.none(), st.integers(0, 300))))
    return c


def check_wide(c):
    return check_ratio(c) if "den" in c else check_num(c)


def arg(c):
    lab = list(c["lab"])
    f = c["form"]
    if f == "list":
        return lab
    if f == "array":
        return np.array(lab)
    if f == "column":
        return np.array(lab).reshape(-1, 1)
    if f == "float":
        return np.array(lab, dtype=float)
    x = torch.tensor(lab)
    return x.view(-1, 1) if f == "tcolumn" else x


def unchanged(x, c, what):
    same([int(v) for v in (x if isinstance(x, list) else x.reshape(-1))], c["lab"], what)


def masks(c, out, val):
    n = len(c["lab"])
    same(len(out), 2 if val is None else 3, "number of masks")
    for m in out:
        require(isinstance(m, torch.Tensor) and m.dtype == torch.bool and tuple(m.shape) == (n,), "mask %r", m)
    tr, te = out[0], out[-1]
    va = out[1] if val is not None else torch.zeros(n, dtype=torch.bool)
    require(int((tr.int() + te.int() + va.int()).max()) <= 1, "masks overlap: %s", out)
    lab = c["lab"]
    return [Counter(lab[i] for i in range(n) if m[i]) for m in (tr, va, te)]


def check_num(c):
    x = arg(c)
    dr.set_seed(c["seed"])
    n = len(c["lab"])
    kw = {k: c[k2] for k, k2 in (("val_num", "val"), ("test_num", "test")) if c[k2] is not None}
    out = split_by_num(n, x, c["train"], **kw)
    unchanged(x, c, "the labels passed in")
    tr, va, te = masks(c, out, c["val"])
    for k, q in Counter(c["lab"]).items():
        a = min(q, c["train"])
        b = min(q - a, c["val"] or 0)
        d = q - a - b if c["test"] is None else min(q - a - b, c["test"])
        same((tr[k], va[k], te[k]), (a, b, d), f"class {k} of {q} vertices: train, validation, test")
    cls = len(set(c["lab"]))
    return [c["form"], "val" if c["val"] else "no val"] + (["nt"] if cls > 1 and c["train"] else [])


def floors(q, num, den):
    """q * num / den rounded down; floating point may sit one ulp to either side of an exact integer."""
    r = q * num // den
    return {r, r - 1} if q * num % den == 0 and int(q * (num / den)) == r - 1 else {r}


def check_ratio(c):
    x = arg(c)
    dr.set_seed(c["seed"])
    n, den = len(c["lab"]), c["den"]
    total = c["train"] + (c["val"] or 0) + (c["test"] or 0)
    kw = {k: c[k2] / den for k, k2 in (("val_ratio", "val"), ("test_ratio", "test")) if c[k2] is not None}
    if total > den:
        raises(lambda: split_by_ratio(n, x, c["train"] / den, **kw), "a ratio sum above one")
        return ["refused"]
    if total == den and c["test"] is None:
        return ["boundary"]       # nothing left for testing
    out = split_by_ratio(n, x, c["train"] / den, **kw)
    unchanged(x, c, "the labels passed in")
    tr, va, te = masks(c, out, c["val"])
    for k, q in Counter(c["lab"]).items():
        require(tr[k] in floors(q, c["train"], den), "class %s of %s: %s for training", k, q, tr[k])
        require(va[k] in floors(q, c["val"] or 0, den), "class %s of %s: %s for validation", k, q, va[k])
        if c["test"] is None:
            same(tr[k] + va[k] + te[k], q, f"class {k}: vertices in any mask")
        else:
            require(te[k] in floors(q, c["test"], den), "class %s of %s: %s for testing", k, q, te[k])
    return [c["form"], "split"] + (["nt"] if len(set(c["lab"])) > 1 and sum(tr.values()) else [])


@st.composite
def fair_cases(draw):
    c = draw(labels(hi=9))
    c["lab"] = c["lab"][:9]
    c.update(train=draw(st.integers(1, 3)), val=draw(st.one_of(st.none(), st.integers(1, 2))), seed=draw(gen.seeds), by=draw(st.sampled_from(["num", "ratio"])))
    return c


def check_fair(c):
    n, N = len(c["lab"]), 300
    dr.set_seed(c["seed"])
    cnt = [Counter(), Counter(), Counter()]
    q = Counter(c["lab"])
    for _ in range(N):
        if c["by"] == "num":
            out = split_by_num(n, arg(c), c["train"], *([c["val"]] if c["val"] else []))
        else:
            out = split_by_ratio(n, arg(c), c["train"] / 5, *([c["val"] / 6] if c["val"] else []))
        for k, m in zip((0, 1, 2) if c["val"] else (0, 2), out):
            cnt[k].update(i for i in range(n) if m[i])
    for k in range(3):
        for i in range(n):
            same_class = [j for j in range(n) if c["lab"][j] == c["lab"][i]]
            p = sum(cnt[k][j] for j in same_class) / (N * len(same_class))
            lo, hi = binom.cdf(cnt[k][i], N, p), binom.sf(cnt[k][i] - 1, N, p)
            require(min(lo, hi) > ALPHA, "vertex %d is in mask %d in %d of %d splits, its class on average %.3f", i, k, cnt[k][i], N, p)
    return [c["by"]] + (["nt"] if max(q.values()) > c["train"] else [])


SUBS = [Sub("by_num", num_cases, check_num, quick=2500, shards=3), Sub("by_ratio", ratio_cases, check_ratio, quick=2500, shards=3),
        Sub("fair", fair_cases, check_fair, quick=160, shards=4),
        Sub("wide", wide_cases, check_wide, quick=150, shards=2)]
