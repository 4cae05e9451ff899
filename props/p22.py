from collections import Counter
from hypothesis import strategies as st
from scipy.stats import binom
import torch
import dhg
import dhg.random as dr
from torch.utils.data import DataLoader
from dhg.utils import split_by_num_for_UI_bigraph, split_by_ratio_for_UI_bigraph, UserItemDataset, adj_list_to_edge_list
from harness import gen
from harness.core import Sub, require
from harness.refmodel import build_bigraph, check_bigraph
from harness.util import same, raises

PROPERTY = "P22"
RULE = ("a case is a weighted user-item bigraph (users without items, items without users) and a number or ratio, or a "
        "set of training and test interactions with a dataset phase, linking mode and batch size; split lists, "
        "dataset items and data-loader batches are compared with the interactions, and repeated draws are checked for "
        "fairness with exact binomial tails at 1e-11. Non-trivial: a user has items on both sides of the split, or "
        "there are at least two interactions.")
ALPHA = 1e-11


@st.composite
def split_cases(draw):
    c = draw(gen.bigraph_case(hi=6, big=9, max_e=25))
    c.update(by=draw(st.sampled_from(["num", "ratio"])), k=draw(st.integers(0, 6)), den=draw(st.sampled_from([10, 8, 3])), seed=draw(gen.seeds))
    c["r"] = draw(st.integers(0, c["den"]))
    return c


def adj_dict(lists):
    out = {}
    for line in lists:
        require(len(line) >= 1, "an empty line")
        require(line[0] not in out, "user %s appears in two lines", line[0])
        require(len(set(line[1:])) == len(line) - 1, "line %s repeats an item", line)
        out[line[0]] = [int(x) for x in line[1:]]
    return out


def split(c, g):
    return split_by_num_for_UI_bigraph(g, c["k"]) if c["by"] == "num" else split_by_ratio_for_UI_bigraph(g, c["r"] / c["den"])


def check_split(c):
    g, m = build_bigraph(dhg, c)
    dr.set_seed(c["seed"])
    tr, te = split(c, g)
    check_bigraph(g, m)
    tr, te = adj_dict(tr), adj_dict(te)
    items = {}
    for u, v in {tuple(e) for e in c["e"]}:
        items.setdefault(u, set()).add(v)
    require(set(tr) | set(te) <= set(items), "users without interactions are listed: %s", sorted((set(tr) | set(te)) - set(items)))
    both = False
    for u, s in items.items():
        a, b = tr.get(u, []), te.get(u, [])
        same(sorted(a + b), sorted(s), f"items of user {u}")
        if c["by"] == "num":
            same(len(a), min(len(s), c["k"]), f"training items of user {u} with {len(s)} items")
        else:
            q, r, den = len(s), c["r"], c["den"]
            ok = {q * r // den} | ({q * r // den - 1} if q * r % den == 0 and int(q * (r / den)) == q * r // den - 1 else set())
            require(len(a) in ok, "user %s with %s items: %s for training at ratio %s/%s", u, q, len(a), r, den)
        both |= bool(a and b)
    return [c["by"]] + (["nt"] if both else [])


def fair(cnt, N, p, what):
    require(min(binom.cdf(cnt, N, p), binom.sf(cnt - 1, N, p)) > ALPHA, "%s: %d of %d, expected share %.3f", what, cnt, N, p)


def check_split_fair(c):
    g, m = build_bigraph(dhg, c)
    dr.set_seed(c["seed"])
    N, cnt, size = 250, Counter(), {}
    for _ in range(N):
        tr, _te = split(c, g)
        for l in tr:
            size[l[0]] = len(l) - 1
            cnt.update((l[0], v) for v in l[1:])
    deg = Counter(u for u, v in {tuple(e) for e in c["e"]})
    for u, v in {tuple(e) for e in c["e"]}:
        fair(cnt[u, v], N, size.get(u, 0) / deg[u], f"item {v} of user {u} in training")
    return [c["by"]] + (["nt"] if any(0 < size.get(u, 0) < deg[u] for u in deg) else [])


@st.composite
def data_cases(draw):
    nu, nv = draw(st.integers(1, 6)), draw(st.integers(2, 8))
    allp = [[u, v] for u in range(nu) for v in range(nv)]
    e = draw(st.lists(st.sampled_from(allp), unique_by=tuple, min_size=0, max_size=25))
    # 1: a training interaction, 0: a test interaction, 2: both
    flags = draw(st.lists(st.sampled_from([0, 1, 0, 1, 0, 1, 2]), min_size=len(e), max_size=len(e)))
    if draw(st.integers(0, 11)) == 0:                  # many interactions of one user
        nv = draw(st.integers(70, 300))
        extra = [[0, v] for v in range(nv) if v % draw(st.integers(2, 9)) != 1]
        e = [x for x in e if x[0] != 0] + extra
        flags = flags[: len(e)] + [1] * (len(e) - len(flags))
    return dict(nu=nu, nv=nv, e=e, tr=flags, batch=draw(st.integers(1, 5)), strict=draw(st.booleans()), seed=draw(gen.seeds))


def triple(d, t):
    u, p, n = (int(x) for x in t)
    require(p in d.get(u, ()), "training item %s: user %s has no item %s", (u, p, n), u, p)
    require(0 <= n < d["nv"] and n not in d[u], "training item %s: negative item %s (items of the user %s)", (u, p, n), n, sorted(d[u]))
    return u, p, n


def check_train(c):
    tr = [tuple(e) for e, f in zip(c["e"], c["tr"]) if f]
    by = {"nv": c["nv"]}
    for u, v in tr:
        by.setdefault(u, set()).add(v)
    full = [u for u in range(c["nu"]) if len(by.get(u, ())) == c["nv"]]
    src = list(tr)
    dr.set_seed(c["seed"])
    ds = UserItemDataset(c["nu"], c["nv"], src, strict_link=c["strict"])
    same(len(ds), len(tr), "length of the training dataset")
    if full:
        raises(lambda: ds.sample_neg_item(full[0]), "a negative item for a user with all items")
        return ["full user"]
    if not c["strict"] and any(u not in by for u in range(c["nu"])):
        return ["user without items"]     # the random mode asserts that every user has an interaction
    got = [triple(by, ds[i]) for i in range(len(tr))]
    if c["strict"]:
        same([(u, p) for u, p, _ in got], tr, "enumerated interactions")
    if tr:
        seen = Counter()
        for b in DataLoader(ds, batch_size=c["batch"]):
            for t in zip(*[x.tolist() for x in b]):
                u, p, _ = triple(by, t)
                seen[u, p] += 1
        same(sum(seen.values()), len(tr), "items in one pass of the loader")
        if c["strict"]:
            same(seen, Counter(tr), "interactions in one pass of the loader")
    same(src, tr, "the caller's interaction list")
    return ["strict" if c["strict"] else "random"] + (["nt"] if len(tr) >= 2 else [])


def check_test(c):
    tr = [tuple(e) for e, f in zip(c["e"], c["tr"]) if f]
    te = [tuple(e) for e, f in zip(c["e"], c["tr"]) if f != 1]
    a, b = list(tr), list(te)
    ds = UserItemDataset(c["nu"], c["nv"], b, train_user_item_list=a, phase="test")
    same(len(ds), c["nu"], "length of the test dataset")
    rows = []
    for ub, mb, rb in DataLoader(ds, batch_size=c["batch"]):
        rows += list(zip(ub.tolist(), mb, rb))
    same([r[0] for r in rows], list(range(c["nu"])), "users visited")
    for k in (0, 1):
        for u, mask, true in (rows if k == 0 else [ds[i] for i in range(c["nu"])]):
            same(tuple(mask.shape) + tuple(true.shape), (c["nv"], c["nv"]), "row lengths")
            want = [float("-inf") if (u, v) in set(tr) else 0.0 for v in range(c["nv"])]
            same(mask.tolist(), want, f"mask of user {u}")
            same(true.tolist(), [1.0 if (u, v) in set(te) else 0.0 for v in range(c["nv"])], f"test items of user {u}")
    same((a, b), (tr, te), "the caller's interaction lists")
    raises(lambda: UserItemDataset(c["nu"], c["nv"], b, phase="test"), "a test dataset without training interactions")
    raises(lambda: UserItemDataset(c["nu"], c["nv"], b, a, phase="other"), "an unknown phase")
    return (["nt"] if tr and te else []) + ["users without items"] * any(not [e for e in c["e"] if e[0] == u] for u in range(c["nu"]))


@st.composite
def neg_cases(draw):
    nv = draw(st.integers(2, 6))
    nu = draw(st.integers(1, 3))
    if draw(st.integers(0, 9)) == 0:
        nv = draw(st.integers(75, 100))
        few = draw(st.sets(st.integers(0, nv - 1), min_size=1, max_size=5))
        return dict(nu=nu, nv=nv, e=[[u, (v + u) % nv] for u in range(nu) for v in range(nv) if v not in few], seed=draw(gen.seeds))
    e = [[u, v] for u in range(nu) for v in draw(st.lists(st.integers(0, nv - 1), unique=True, min_size=1, max_size=nv - 1))]
    return dict(nu=nu, nv=nv, e=e, seed=draw(gen.seeds))


def check_neg(c):
    N = 600
    dr.set_seed(c["seed"])
    e = [tuple(x) for x in c["e"]]
    ds = UserItemDataset(c["nu"], c["nv"], e, strict_link=False)
    by = {u: {v for a, v in e if a == u} for u in range(c["nu"])}
    users, pos = Counter(), Counter()
    for i in range(N):
        u, p, n = ds[i % len(e)]
        require(p in by[u] and n not in by[u], "item %s", (u, p, n))
        users[u] += 1
        pos[u, p] += 1
    for u in by:
        fair(users[u], N, 1 / c["nu"], f"user {u} drawn")
        for v in by[u]:
            fair(pos[u, v], N, 1 / (c["nu"] * len(by[u])), f"positive item {v} of user {u} drawn")
        neg = Counter(ds.sample_neg_item(u) for _ in range(N))
        rest = [v for v in range(c["nv"]) if v not in by[u]]
        require(set(neg) <= set(rest), "negative items %s of user %s with items %s", sorted(neg), u, sorted(by[u]))
        for v in rest:
            fair(neg[v], N, 1 / len(rest), f"negative item {v} for user {u}")
    return ["nt"]


SUBS = [Sub("split", split_cases, check_split, quick=1500, shards=3), Sub("split_fair", split_cases, check_split_fair, quick=150, shards=3),
        Sub("train", data_cases, check_train, quick=1000, shards=2, case_timeout=20), Sub("test", data_cases, check_test, quick=600, shards=2),
        Sub("sampling", neg_cases, check_neg, quick=150, shards=3),
        Sub("large_split", lambda: gen.large(split_cases()), check_split, quick=24, shards=2)]
