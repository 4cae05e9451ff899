from hypothesis import strategies as st
import numpy as np
import torch
import dhg
from harness import gen
from harness.core import Sub, require, seed_all
from harness.refmodel import build_hyper, check_hyper_part, ordered
from harness.util import near, feats, row_softmax, safe_pow, same, dense, masked_mean, masked, kept_share

PROPERTY = "P08"
RULE = ("a case is a hypergraph with one to three groups, a target (whole or one group), an operation "
        "(v2e/e2v aggregation, update, v2e, e2v, v2v), an aggregation mode per stage, optional per-incidence "
        "and hyperedge weights, and a feature seed; compared with a dense reference, on random features and "
        "(for linear single-stage operations) the identity, with an edit and a second call. "
        "Non-trivial: at least two hyperedges in the target.")
AGGR = ["mean", "sum", "softmax_then_sum"]
OPS = ["v2e_aggregation", "e2v_aggregation", "v2e_update", "e2v_update", "v2e", "e2v", "v2v", "v2v"]


def vals(seed, k, signed):
    r = np.random.RandomState(seed % (2 ** 32))
    v = r.randint(1, 33, size=k) / 8.0
    if signed:
        v = v * r.choice([-1.0, 1.0], size=k)
    return torch.tensor(v, dtype=torch.float32)


@st.composite
def cases(draw):
    c = draw(gen.hyper_case(hi=7, big=12, max_e=5))
    c["target"] = draw(st.integers(-2, 2))
    c["op"] = draw(st.sampled_from(OPS))
    c["aggr"] = draw(st.sampled_from(AGGR))
    c["a1"] = draw(st.one_of(st.none(), st.sampled_from(AGGR)))
    c["a2"] = draw(st.one_of(st.none(), st.sampled_from(AGGR)))
    for k in ("w1", "w2", "we"):
        c[k] = draw(st.one_of(st.none(), gen.seeds))
    c["xs"], c["d"] = draw(gen.seeds), draw(gen.widths(3))
    c["edit"] = draw(st.booleans())
    return c


class Ref:
    def __init__(self, h, name):
        self.h, self.name = h, name
        self.e, self.w, self.H = ordered(h, name)

    def get(self, p):
        return getattr(self.h, p) if self.name is None else getattr(self.h, p + "_of_group")(self.name)

    def v2e_matrix(self, aggr, w):
        Ht = self.H.T
        return self._mat(Ht, aggr, w, "v2e", Ht.sum(1))

    def e2v_matrix(self, aggr, w):
        # the unweighted mean divides by the (hyperedge-weighted) vertex degree
        dv = self.H @ self.w if len(self.w) else np.zeros(self.H.shape[0])
        return self._mat(self.H, aggr, w, "e2v", dv)

    def _mat(self, M, aggr, w, pre, deg):
        mask = M != 0
        P = M
        if w is not None:
            P = np.zeros_like(M)
            for s, t, x in zip(self.get(pre + "_src").tolist(), self.get(pre + "_dst").tolist(), w.tolist()):
                require(mask[t, s], "%s index vectors list a pair that is no incidence", pre)
                P[t, s] = x
            deg = P.sum(1)
        if aggr == "sum":
            return P
        if aggr == "mean":
            return safe_pow(deg, -1)[:, None] * P
        return row_softmax(P, mask)


def run(h, name, c):
    r = Ref(h, name)
    n, ne = r.H.shape
    nnz = int(r.H.sum())
    op = c["op"]
    pre = [] if name is None else [name]
    fn = getattr(h, op if name is None else op + "_of_group")
    a1 = (c["a1"] or c["aggr"]) if op == "v2v" else c["aggr"]
    a2 = (c["a2"] or c["aggr"]) if op == "v2v" else c["aggr"]
    w1 = vals(c["w1"], nnz, a1 != "mean") if c["w1"] is not None else None
    w2 = vals(c["w2"], nnz, a2 != "mean") if c["w2"] is not None else None
    w1, w2 = (x / 1024 if x is not None and s % 6 == 0 else x for x, s in ((w1, c["w1"]), (w2, c["w2"])))
    we = vals(c["we"], ne, True) if c["we"] is not None else None
    W = (we.double().numpy() if we is not None else r.w)[:, None]
    from_e = op in ("e2v", "e2v_aggregation", "v2e_update")
    rows = ne if from_e else n
    args = [x for x in (w1, w2, we) if x is not None]
    saved = [x.clone() for x in args]
    Xs = [feats(c["xs"], rows, c["d"])]
    if rows:
        Xs.append(torch.eye(rows))
    for X in Xs:
        X0, Xd = X.clone(), X.double().numpy()
        if op == "v2e_aggregation":
            got, want = fn(*pre, X, c["aggr"], w1), r.v2e_matrix(a1, w1) @ Xd
        elif op == "e2v_aggregation":
            got, want = fn(*pre, X, c["aggr"], w2), r.e2v_matrix(a2, w2) @ Xd
        elif op == "v2e_update":
            got, want = fn(*pre, X, we), W * Xd
        elif op == "e2v_update":
            got, want = fn(*pre, X), Xd
        elif op == "v2e":
            got, want = fn(*pre, X, aggr=c["aggr"], v2e_weight=w1, e_weight=we), W * (r.v2e_matrix(a1, w1) @ Xd)
        elif op == "e2v":
            got, want = fn(*pre, X, aggr=c["aggr"], e2v_weight=w2), r.e2v_matrix(a2, w2) @ Xd
        else:
            got = fn(*pre, X, aggr=c["aggr"], v2e_aggr=c["a1"], v2e_weight=w1, e_weight=we, e2v_aggr=c["a2"], e2v_weight=w2)
            want = r.e2v_matrix(a2, w2) @ (W * (r.v2e_matrix(a1, w1) @ Xd))
        near(got, want, f"{op} group={name} aggr={a1}/{a2} w={[x is not None for x in (w1, we, w2)]}", rtol=1e-3, atol=1e-4)
        require(torch.equal(X, X0), "%s modified the features", op)
    for a, b in zip(args, saved):
        require(torch.equal(a, b), "%s modified the weights", op)
    return ne


def check_case(c):
    h, m = build_hyper(dhg, c)
    names = sorted(m.g)
    name = None if c["target"] < 0 else names[c["target"] % len(names)]
    ne = run(h, name, c)
    if c["edit"]:
        e = [0] if m.n == 1 else [0, m.n - 1]
        g = names[-1]
        h.add_hyperedges(e, 2.5, merge_op="sum", group_name=g)
        m.add([e], [2.5], "sum", g)
        run(h, name, dict(c, xs=c["xs"] + 1))
        h.remove_hyperedges([list(m.edges(g)[0][0])], g)
        m.rm([m.edges(g)[0][0]], g)
        run(h, name, dict(c, xs=c["xs"] + 2))
    check_hyper_part(h, m, name)
    if len(names) == 1 and name is not None:
        run(h, None, c)
    return ["nt", c["op"]] if ne >= 2 else []


@st.composite
def dcase(draw):
    c = draw(gen.hyper_case(hi=7, big=10, max_e=4))
    c["target"] = draw(st.integers(-1, 2))
    c["op"] = draw(st.sampled_from(["v2e", "e2v"]))
    c["w"] = draw(st.one_of(st.none(), gen.seeds))
    c["rate"] = draw(gen.rates)
    return c


def check_drop(c):
    h, m = build_hyper(dhg, c)
    names = sorted(m.g)
    name = None if c["target"] < 0 else names[c["target"] % len(names)]
    r = Ref(h, name)
    w = vals(c["w"], int(r.H.sum()), True) if c["w"] is not None else None
    P = r.v2e_matrix("sum", w) if c["op"] == "v2e" else r.e2v_matrix("sum", w)
    pre = [] if name is None else [name]
    fn = getattr(h, c["op"] + "_aggregation" + ("" if name is None else "_of_group"))
    kw = {c["op"] + "_weight": w, "aggr": "sum"}
    out = dense(fn(*pre, torch.eye(P.shape[1]), drop_rate=c["rate"], **kw))
    ok = np.isclose(out, P, rtol=1e-4, atol=1e-5) | np.isclose(out, 0)
    require(ok.all(), "dropped propagation delivered something else: %s vs %s", out.tolist(), P.tolist())
    near(fn(*pre, torch.eye(P.shape[1]), drop_rate=0.0, **kw), P, "drop_rate 0")
    # the combined call: the same masked aggregation, then the update with the stored hyperedge weights
    both = getattr(h, c["op"] + ("" if name is None else "_of_group"))
    masked(both(*pre, torch.eye(P.shape[1]), drop_rate=c["rate"], **kw), (r.w[:, None] if c["op"] == "v2e" else 1) * P, f"{c['op']} with a drop rate")
    if w is not None or c["op"] == "v2e":  # (without caller weights a vertex mean divides by its hyperedge-weighted degree)
        if w is not None:
            kw[c["op"] + "_weight"], P = w.abs(), np.abs(P)
        kw["aggr"] = "mean"
        masked_mean(fn(*pre, torch.eye(P.shape[1]), drop_rate=c["rate"], **kw), P, "mean with a drop rate")
    return ["nt"] if P.sum() != 0 else []


@st.composite
def rcase(draw):
    return dict(op=draw(st.sampled_from(["v2e", "e2v"])), rate=draw(gen.rates), w=draw(st.booleans()), grp=draw(st.booleans()), seed=draw(gen.seeds))


def check_rate(c):
    """On a dense hypergraph, the number of delivered messages matches 1 - rate (8 sigma)."""
    seed_all(c["seed"])
    n = 24
    h = dhg.Hypergraph(n, [[j for j in range(n) if j != i] for i in range(n)])
    fn = getattr(h, c["op"] + "_aggregation" + ("_of_group" if c["grp"] else ""))
    N = n * (n - 1)
    kw = {c["op"] + "_weight": torch.ones(N)} if c["w"] else {}
    out = dense(fn(*(["main"] if c["grp"] else []), torch.eye(n), aggr="sum", drop_rate=c["rate"], **kw))
    k, q = float((out != 0).sum()), 1 - c["rate"]
    require(abs(k - N * q) < 8 * (N * q * (1 - q)) ** 0.5 + 1, "drop_rate %s delivered %d of %d messages", c["rate"], k, N)
    # the combined two-stage call hands each stage its own rate
    if not c["w"]:
        full = h.v2v(torch.eye(n), aggr="sum")
        for kw1 in ({"v2e_drop_rate": 0.0, "e2v_drop_rate": 0.0, "drop_rate": c["rate"]},):
            near(h.v2v(torch.eye(n), aggr="sum", **kw1), full, "v2v with both stage rates 0")
            near(h.v2v_of_group("main", torch.eye(n), aggr="sum", **kw1), full, "v2v_of_group with both stage rates 0")
        # "all but i" hyperedges: from the result of either single-stage drop the mask can be read back
        for call in (h.v2v, lambda X, **k: h.v2v_of_group("main", X, **k)):
            out = dense(call(torch.eye(n), aggr="sum", v2e_drop_rate=0.0, e2v_drop_rate=c["rate"]))
            S = out.max(1, keepdims=True) - out      # (0 where hyperedge j was not delivered to v, or all were delivered)
            require(((S == 0) | (S == 1)).all(), "e2v_drop_rate alone: %s", out.tolist())
            full_rows = (S == 0).all(1)              # nothing or everything: decided by the count
            k = int(S.sum() + out.max(1)[full_rows].sum())
            same(out.max(1)[~full_rows].tolist(), S.sum(1)[~full_rows].tolist(), "number of delivered hyperedges")
            kept_share(k, N, c["rate"], "e2v_drop_rate")
            out = dense(call(torch.eye(n), aggr="sum", v2e_drop_rate=c["rate"], e2v_drop_rate=0.0))
            T = out.sum(0) / (n - 1)
            M = T[None] - out                        # row i: the vertices delivered to hyperedge i
            require((np.isclose(M, 0, atol=1e-4) | np.isclose(M, 1, atol=1e-4)).all() and np.allclose(np.diag(M), 0, atol=1e-4), "v2e_drop_rate alone: %s", M.tolist())
            kept_share(int(round(M.sum())), N, c["rate"], "v2e_drop_rate")
        require(not np.allclose(dense(h.v2v(torch.eye(n), aggr="sum", drop_rate=c["rate"])), dense(full)), "v2v ignores drop_rate")
    return ["nt"]


SUBS = [Sub("passing", cases, check_case, quick=3600, shards=8),
        Sub("drop", dcase, check_drop, quick=600, shards=2),
        Sub("rate", rcase, check_rate, quick=80, shards=2),
        Sub("large", lambda: gen.large(cases()), check_case, quick=60, shards=4)]
