import math
from collections import Counter
from hypothesis import strategies as st
from scipy.stats import binom
import dhg
import dhg.random as dr
from harness import gen
from harness.core import Sub, require
from harness.refmodel import poke
from harness.util import same, raises

PROPERTY = "P19"
RULE = ("a case is a generator, sizes, a count or probability and a seed; the structure is checked for class, vertex "
        "count, validity, distinctness, edge size and count; repeated draws of small structures are compared with the "
        "documented distribution (each possible edge, pairs of edges, hyperedge sizes) with exact binomial tails at "
        "1e-11; impossible requests must raise. Non-trivial: the structure has an edge and is not complete.")
ALPHA = 1e-11
PROBS = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.1, 0.9]), st.floats(0, 1, allow_nan=False), st.sampled_from([0, 1, 1e-9, 1 - 1e-9]))


def possible(kind, c):
    """Every edge the generator may produce."""
    from itertools import combinations, product, permutations
    if kind == "g":
        return list(combinations(range(c["n"]), 2))
    if kind == "d":
        return list(permutations(range(c["n"]), 2))
    if kind == "b":
        return list(product(range(c["n"]), range(c["m"])))
    return list(combinations(range(c["n"]), c["k"]))


def norm(kind, e):
    return tuple(sorted(e)) if kind in "gu" else tuple(e)


GNP = {"g": lambda c: dr.graph_Gnp(c["n"], c["p"]), "gf": lambda c: dr.graph_Gnp_fast(c["n"], c["p"]), "d": lambda c: dr.digraph_Gnp(c["n"], c["p"]),
       "df": lambda c: dr.digraph_Gnp_fast(c["n"], c["p"]), "b": lambda c: dr.bigraph_Gnp(c["n"], c["m"], c["p"]),
       "u": lambda c: dr.uniform_hypergraph_Gnp(c["k"], c["n"], c["p"])}
GNM = {"g": lambda c: dr.graph_Gnm(c["n"], c["e"]), "d": lambda c: dr.digraph_Gnm(c["n"], c["e"]), "b": lambda c: dr.bigraph_Gnm(c["n"], c["m"], c["e"]),
       "u": lambda c: dr.uniform_hypergraph_Gnm(c["k"], c["n"], c["e"])}
CLS = {"g": dhg.Graph, "d": dhg.DiGraph, "b": dhg.BiGraph, "u": dhg.Hypergraph}


@st.composite
def gnp(draw):
    gn = draw(st.sampled_from(sorted(GNP)))
    c = dict(gen=gn, n=draw(st.integers(2, 14)), m=draw(st.integers(2, 9)), p=draw(PROBS), seed=draw(gen.seeds))
    if gn == "u":
        c["n"] = min(c["n"], 9)
        c["k"] = draw(st.integers(2, c["n"]))
    return c


@st.composite
def gnm(draw):
    gn = draw(st.sampled_from(sorted(GNM)))
    c = dict(gen=gn, n=draw(st.integers(2, 12)), m=draw(st.integers(2, 9)), seed=draw(gen.seeds))
    if gn == "u":
        c["n"] = min(c["n"], 8)
        c["k"] = draw(st.integers(2, c["n"]))
    top = len(possible(gn, c))
    lo = 1 if gn == "u" else 0
    c["e"] = draw(st.one_of(st.integers(lo, top), st.sampled_from([lo, top, max(lo, top - 1)])))
    return c


def valid(kind, g, c):
    require(type(g) is CLS[kind], "the generator returned a %s", type(g).__name__)
    if kind == "b":
        same((g.num_u, g.num_v), (c["n"], c["m"]), "vertex counts")
    else:
        same(g.num_v, c["n"], "vertex count")
    e, w = g.e
    e = [norm(kind, x) for x in e]
    require(all(x == 1 for x in w), "edge weights %s", w)
    same(len(w), len(e), "one weight per edge")
    same(g.num_e, len(e), "num_e")
    require(len(set(e)) == len(e), "repeated edges: %s", e)
    bad = set(e) - set(possible(kind, c))
    require(not bad, "impossible edges: %s", bad)
    if kind == "u":
        same(list(g.group_names), ["main"] if e else list(g.group_names), "groups")
    return e


def check_gnp(c):
    kind = c["gen"][0]
    dr.set_seed(c["seed"])
    g = GNP[c["gen"]](c)
    e = valid(kind, g, c)
    poke(g)
    top = len(possible(kind, c))
    if c["p"] == 0:
        require(not e, "probability 0 gave edges %s", e)
    if c["p"] == 1:
        same(len(e), top, "edges at probability 1")
    return [c["gen"]] + (["nt"] if 0 < len(e) < top else []) + (["p=0/1"] if c["p"] in (0, 1) else [])


def check_gnm(c):
    dr.set_seed(c["seed"])
    g = GNM[c["gen"]](c)
    e = valid(c["gen"], g, c)
    poke(g)
    same(len(e), c["e"], "number of edges")
    top = len(possible(c["gen"], c))
    return [c["gen"]] + (["nt"] if 0 < len(e) < top else []) + (["max"] if len(e) == top else [])


METHODS = ["uniform", "low_order_first", "high_order_first", "custom"]


@st.composite
def hyper(draw, one=False):
    n = draw(st.one_of(st.integers(2, 6), st.integers(7, 12))) if one else draw(st.integers(2, 6))
    m = draw(st.sampled_from(METHODS + ["default"]))
    pk = None
    if m == "custom":
        pk = draw(st.lists(st.sampled_from([0, 1, 1, 2, 4, 0.5]), min_size=n - 1, max_size=n - 1))
        if not any(pk):
            pk[draw(st.integers(0, n - 2))] = 1
    top = capacity(n, m, pk)
    e = 1 if one else draw(st.one_of(st.integers(1, top), st.just(top)))
    return dict(n=n, method=m, pk=pk, e=e, seed=draw(gen.seeds))


def capacity(n, method, pk):
    ks = range(2, n + 1)
    return sum(math.comb(n, k) for k in ks if pk is None or pk[k - 2] > 0)


def hcall(c):
    pk = None if c["pk"] is None else list(c["pk"])
    if c["method"] == "default":
        h = dr.hypergraph_Gnm(c["n"], c["e"])
    elif pk is None:
        h = dr.hypergraph_Gnm(c["n"], c["e"], c["method"])
    else:
        h = dr.hypergraph_Gnm(c["n"], c["e"], c["method"], pk)
    same(pk, c["pk"], "the caller's probability list")
    return h


def check_hyper(c):
    dr.set_seed(c["seed"])
    h = hcall(c)
    require(type(h) is dhg.Hypergraph, "class")
    same(h.num_v, c["n"], "vertex count")
    e, w = h.e
    require(all(x == 1 for x in w), "weights %s", w)
    same((len(e), h.num_e), (c["e"], c["e"]), "number of hyperedges")
    require(len({frozenset(x) for x in e}) == len(e), "repeated hyperedges: %s", e)
    for x in e:
        require(len(set(x)) == len(x) >= 2 and all(0 <= v < c["n"] for v in x), "hyperedge %s", x)
        require(c["pk"] is None or c["pk"][len(x) - 2] > 0, "size %s has probability 0", len(x))
    poke(h)
    return [c["method"]] + (["nt"] if c["e"] < capacity(c["n"], c["method"], c["pk"]) else ["max"])


def tail_ok(k, n, p, what):
    lo, hi = binom.cdf(k, n, p), binom.sf(k - 1, n, p)
    require(min(lo, hi) > ALPHA, "%s: %d of %d draws, expected a share of %.4f", what, k, n, p)


@st.composite
def stat_cases(draw):
    if draw(st.booleans()):
        gn = draw(st.sampled_from(sorted(GNP)))
        c = dict(gen=gn, n=draw(st.integers(2, 5)), m=draw(st.integers(2, 3)), p=draw(st.one_of(st.floats(0.02, 0.98), st.sampled_from([0.2, 0.5, 0.8]))), e=None)
    else:
        gn = draw(st.sampled_from(sorted(GNM)))
        c = dict(gen=gn, n=draw(st.integers(2, 5)), m=draw(st.integers(2, 3)))
    if gn == "u":
        c["k"] = draw(st.integers(2, c["n"]))
    if "e" not in c:
        c["e"] = draw(st.integers(1, len(possible(gn, c))))
    c["seed"] = draw(gen.seeds)
    return c


def shape(kind, c, e):
    """What the edges of a small structure look like as a whole."""
    out, inn, par = Counter(), Counter(), {}

    def find(x):
        while par.get(x, x) != x:
            x = par[x]
        return x
    for x in e:
        ends = [("u", x[0]), ("v", x[1])] if kind == "b" else list(x)
        for y in ends[1:]:
            if find(y) != find(ends[0]):
                par[find(y)] = find(ends[0])
        if kind == "d":
            out[x[0]] += 1
            inn[x[1]] += 1
        else:
            out.update(ends)
    n = c["n"] + (c["m"] if kind == "b" else 0)
    return [("isolated vertices", n - len(set(out) | set(inn))), ("components", n - len(par)), ("largest degree", max(out.values(), default=0)),
            ("largest in-degree", max(inn.values(), default=0)), ("edges in both directions", sum((b, a) in e for a, b in e) if kind == "d" else 0),
            ("degrees", tuple(sorted(out.values()))), ("number of edges", len(e))]


SHAPES = {}


def shape_probs(kind, c, poss):
    """The exact distribution of those, over all sets of edges; None where there are too many sets."""
    from itertools import combinations
    key = (kind, c["n"], c["m"], c.get("k"), c["e"], c.get("p"))
    if key not in SHAPES:
        M, ms = len(poss), range(len(poss) + 1) if c["e"] is None else [c["e"]]
        if sum(math.comb(M, m) for m in ms) > 5000:
            return None
        pr = Counter()
        for m in ms:
            q = c["p"] ** m * (1 - c["p"]) ** (M - m) if c["e"] is None else 1 / math.comb(M, m)
            for e in combinations(poss, m):
                for s in shape(kind, c, set(e)):
                    pr[s] += q
        SHAPES[key] = pr
    return SHAPES[key]


def check_stat(c):
    kind, N = c["gen"][0], 400
    poss = possible(kind, c)
    cnt, both, shapes = Counter(), Counter(), Counter()
    dr.set_seed(c["seed"])
    for _ in range(N):
        g = (GNP if c["e"] is None else GNM)[c["gen"]](c)
        e = {norm(kind, x) for x in g.e[0]}
        cnt.update(e)
        shapes.update(shape(kind, c, e))
        for i in range(len(poss)):
            for j in range(i):
                if poss[i] in e and poss[j] in e:
                    both[i, j] += 1
    M = len(poss)
    if c["e"] is None:
        p1, p2 = c["p"], c["p"] ** 2
    else:
        p1 = c["e"] / M
        p2 = c["e"] * (c["e"] - 1) / (M * (M - 1)) if M > 1 else 0
    for e in poss:
        tail_ok(cnt[e], N, p1, f"edge {e} present")
    for i in range(M):
        for j in range(i):
            tail_ok(both[i, j], N, p2, f"edges {poss[i]} and {poss[j]} both present")
    if c["e"] is None:
        tail_ok(sum(cnt.values()), N * M, p1, "edges in all draws")
    pr = shape_probs(kind, c, poss)
    for s in sorted(set(pr or ()) | set(shapes), key=str) if pr else []:
        tail_ok(shapes[s], N, min(pr[s], 1.0) if pr[s] < 1 - 1e-9 else 1.0, "%s: %s" % s)
    return [c["gen"] + ("p" if c["e"] is None else "m")] + (["nt"] if M > 1 and p1 < 1 else [])


@st.composite
def big_cases(draw):
    gn = draw(st.sampled_from(["g", "gf", "d", "df", "b", "u"]))
    c = dict(gen=gn, n=draw(st.integers(10, 40)), m=draw(st.integers(10, 30)), seed=draw(gen.seeds), fixed=draw(st.booleans()) and gn in GNM)
    if gn == "u":
        c["n"] = draw(st.integers(8, 11))
        c["k"] = draw(st.integers(2, 4))
    c["p"] = draw(st.sampled_from([0.02, 0.1, 0.3, 0.5, 0.8, 0.97]))
    if c["fixed"]:
        M = len(possible(gn, c))
        c["e"] = draw(st.sampled_from([M // 20, M // 4, M // 2, M - M // 10, M - 1]))
    return c


def check_big(c):
    """The documented distribution on larger structures: each edge, each vertex's edges, sampled pairs of edges (drawn
    and neighbours in every natural order), and the spread of the edge count."""
    import numpy as np
    kind, N = c["gen"][0], 60
    poss = possible(kind, c)
    M, ix = len(poss), {e: i for i, e in enumerate(poss)}
    dr.set_seed(c["seed"])
    X = np.zeros((N, M), dtype=bool)
    for r in range(N):
        g = (GNM if c["fixed"] else GNP)[c["gen"]](c)
        e = valid(kind, g, c)
        X[r, [ix[x] for x in e]] = True
    if c["fixed"]:
        require((X.sum(1) == c["e"]).all(), "edge counts %s, asked for %d", sorted(set(X.sum(1).tolist())), c["e"])
        p1, p2 = c["e"] / M, c["e"] * (c["e"] - 1) / (M * (M - 1))
    else:
        p1, p2 = c["p"], c["p"] ** 2
        tail_ok(int(X.sum()), N * M, p1, "edges in all draws")
        var = M * p1 * (1 - p1)
        if var > 20:
            q = float((((X.sum(1) - M * p1) ** 2) / var).sum())
            require(N / 6 < q < 4 * N, "the number of edges varies %.2f times as much as for independent edges", q / N)
    for i in range(M):
        tail_ok(int(X[:, i].sum()), N, p1, f"edge {poss[i]} present")
    R = np.random.RandomState(c["seed"] % 2 ** 32)
    pick = [(i, i + d) for d in (1, 2, c["n"] - 1, c["n"], c["m"], max(8, c["n"])) for i in range(0, M - d, 1 + M // 150)]
    pick += [(i, j) for i, j in R.randint(0, M, size=(300, 2)) if i != j]
    for i, j in pick:
        tail_ok(int((X[:, i] & X[:, j]).sum()), N, p2, f"edges {poss[i]} and {poss[j]} both present")
    if not c["fixed"]:
        for side in range(len(poss[0])):
            for v in range(c["m"] if (kind, side) == ("b", 1) else c["n"]):
                j = [i for i, e in enumerate(poss) if e[side] == v]
                if j:
                    tail_ok(int(X[:, j].sum()), N * len(j), p1, f"edges with end point {side} at {v}")
    return [c["gen"] + ("m" if c["fixed"] else "p"), "nt"]


@st.composite
def count_cases(draw):
    return dict(gen=draw(st.sampled_from(["g", "gf", "gf", "d", "df", "df", "b"])), n=draw(st.integers(90, 200)), m=draw(st.integers(60, 160)),
                p=draw(st.sampled_from([0.003, 0.01, 0.03, 0.05, 0.05, 0.15])), seed=draw(gen.seeds))


def check_count(c):
    """How many edges sparse structures with many vertices have, in all and by where they lie."""
    import numpy as np
    kind, n, m = c["gen"][0], c["n"], c["m"]
    M = n * m if kind == "b" else n * (n - 1) // (2 if kind == "g" else 1)
    # up to about 60000 edges; the plain generators look at every pair
    R = int(min(60, 60000 / (M * c["p"]) + 1)) if c["gen"].endswith("f") else 4
    dr.set_seed(c["seed"])
    cols = n if kind != "b" else m
    rows, col = np.zeros(n, dtype=int), np.zeros(cols, dtype=int)
    total = 0
    for _ in range(R):
        e = np.array([norm(kind, x) for x in GNP[c["gen"]](c).e[0]], dtype=int).reshape(-1, 2)
        total += len(e)
        rows += np.bincount(e[:, 0], minlength=n)
        col += np.bincount(e[:, 1], minlength=cols)
    tail_ok(total, R * M, c["p"], "edges in all draws")
    if kind == "g":
        rows, size = rows + col, [n - 1] * n
        tests = [(rows, size, "vertex")]
    else:
        tests = [(rows, [m if kind == "b" else n - 1] * n, "source"), (col, [n if kind == "b" else n - 1] * cols, "target")]
    for got, size, what in tests:
        for i, (x, s) in enumerate(zip(got, size)):
            tail_ok(int(x), R * s, c["p"], f"edges at {what} {i}")
    return [c["gen"], "nt"]


def check_sizes(c):
    N = 500
    dr.set_seed(c["seed"])
    cnt, sets = Counter(), Counter()
    for _ in range(N):
        e = hcall(c).e[0]
        cnt[len(e[0])] += 1
        sets[frozenset(e[0])] += 1
    n, ks = c["n"], range(2, c["n"] + 1)
    w = {"uniform": [math.comb(n, k) for k in ks], "low_order_first": [3.0 ** -i for i, k in enumerate(ks)],
         "high_order_first": [3.0 ** -(n - k) for k in ks], "custom": c["pk"]}[c["method"] if c["method"] != "default" else "low_order_first"]
    for k, x in zip(ks, w):
        p = x / sum(w)
        tail_ok(cnt[k], N, p, f"{c['method']}: hyperedges of size {k}")
        for s, q in sets.items():
            if len(s) == k:
                tail_ok(q, N, p / math.comb(n, k), f"{c['method']}: hyperedge {sorted(s)}")
    return [c["method"]] + (["nt"] if n > 2 else [])


@st.composite
def bad(draw):
    gn = draw(st.sampled_from(["g", "d", "b", "u", "h", "p-", "p+", "method", "pk"]))
    n, m = draw(st.integers(2, 5)), draw(st.integers(2, 4))
    c = dict(gen=gn, n=n, m=m, k=draw(st.integers(2, n)), more=draw(st.sampled_from([1, 1, 2, 7])), seed=draw(gen.seeds),
             which=draw(st.sampled_from(sorted(GNP))), p=draw(st.floats(0.01, 3)))
    if gn == "h":
        c["h"] = draw(hyper())
    return c


def check_bad(c):
    dr.set_seed(c["seed"])
    gn = c["gen"]
    if gn in GNM:
        c["e"] = len(possible(gn, c)) + c["more"]
        raises(lambda: GNM[gn](c), f"{c['e']} edges where {len(possible(gn, c))} are possible")
    elif gn == "h":
        h = c["h"]
        h["e"] = capacity(h["n"], h["method"], h["pk"]) + c["more"]
        raises(lambda: hcall(h), f"{h['e']} hyperedges, more than possible")
    elif gn in ("p-", "p+"):
        c["p"] = -c["p"] if gn == "p-" else 1 + c["p"]
        raises(lambda: GNP[c["which"]](c), f"probability {c['p']}")
    elif gn == "method":
        raises(lambda: dr.hypergraph_Gnm(c["n"], 1, "nonsense"), "an unknown method")
    else:
        raises(lambda: dr.hypergraph_Gnm(c["n"], 1, "custom", [1.0] * (c["n"] - 1 + c["more"])), "a probability list of the wrong length")
        raises(lambda: dr.hypergraph_Gnm(c["n"], 1, "custom"), "custom without a probability list")
    return [gn, "nt"]


@st.composite
def feat_cases(draw):
    lab = draw(st.one_of(st.lists(st.integers(-2, 6), min_size=1, max_size=12), st.lists(st.integers(-2, 12), min_size=13, max_size=40)))
    if draw(st.integers(0, 7)) == 0:      # as many labels as a real dataset has
        k = draw(st.integers(1, 9))
        lab = [(i * i + i // 7) % k for i in range(draw(st.integers(400, 1500)))]
    return dict(lab=lab, noise=draw(st.sampled_from([0.0, 0.25, 1.0, 3.0])), form=draw(st.sampled_from(["list", "array", "tensor"])), seed=draw(gen.seeds))


def check_feat(c):
    import numpy as np
    import torch
    from scipy.stats import norm as N, chi2
    lab = {"list": list, "array": np.array, "tensor": torch.tensor}[c["form"]](c["lab"])
    cls = sorted(set(c["lab"]))
    want = np.eye(len(cls))[[cls.index(x) for x in c["lab"]]]
    dr.set_seed(c["seed"])
    R = 200 if len(c["lab"]) <= 40 else 4
    draws = []
    for _ in range(R):
        f = dr.normal_features(lab, noise=c["noise"])
        require(isinstance(f, torch.Tensor) and f.dtype == torch.float32, "type %s", type(f))
        same(tuple(f.shape), want.shape, "shape")
        draws.append(f.double().numpy())
    same([int(x) for x in lab], c["lab"], "the labels passed in")
    d = np.array(draws) - want
    if c["noise"] == 0:
        require(np.abs(d).max() < 1e-6, "noise 0 gives %s, classes %s", draws[0].tolist(), c["lab"])
        return ["noise 0", "nt"]
    z = d / c["noise"]
    for m in (z.mean(0) * R ** 0.5).ravel():
        require(2 * N.sf(abs(m)) > ALPHA, "mean off by %.1f deviations", m)
    q = (z ** 2).sum()
    require(min(chi2.sf(q, z.size), chi2.cdf(q, z.size)) > ALPHA, "mean square %.3f of the noise variance", q / z.size)
    if R < 200:
        # over the vertices: columns against each other, rows against the next ones, draws against each other
        z = z / np.sqrt((z ** 2).mean())
        pairs = [(z[0], z[1]), (z[:, 1:], z[:, :-1]), (z[:, 2:], z[:, :-2])] + [(z[:, :, i], z[:, :, j]) for i in range(z.shape[2]) for j in range(i)]
        for a, b in pairs:
            require(abs((a * b).sum() / a.size ** 0.5) < 9, "noise of different entries is correlated")
        return [c["form"], "nt", "many"]
    flat = z.reshape(R, -1)
    rho = np.tril(flat.T @ flat / R * R ** 0.5, -1)
    require(np.abs(rho).max(initial=0) < 8.5, "entries %s are correlated", np.argwhere(np.abs(rho) >= 8.5).tolist()[:3])
    return [c["form"], "nt"]


SUBS = [Sub("features", feat_cases, check_feat, quick=150, shards=1), Sub("gnp", gnp, check_gnp, quick=1200, shards=2, case_timeout=20), Sub("gnm", gnm, check_gnm, quick=1200, shards=2, case_timeout=20),
        Sub("hypergraph", hyper, check_hyper, quick=1000, shards=2, case_timeout=20),
        Sub("distribution", stat_cases, check_stat, quick=120, shards=8, case_timeout=60),
        Sub("count", count_cases, check_count, quick=120, shards=8, case_timeout=90),
        Sub("large", big_cases, check_big, quick=48, shards=6, case_timeout=90),
        Sub("sizes", lambda: hyper(one=True), check_sizes, quick=100, shards=4, case_timeout=60),
        Sub("refusals", bad, check_bad, quick=400, shards=1, case_timeout=10)]
