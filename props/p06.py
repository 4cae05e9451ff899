from hypothesis import strategies as st
import numpy as np
import torch
import dhg
from harness import gen
from harness.core import Sub, require, seed_all
from harness.refmodel import build_hyper, check_hyper, ordered
from harness.util import near, safe_pow, feats, same, masked, kept_share

PROPERTY = "P06"
RULE = ("a case is a hypergraph with one to three groups (shared vertex sets across groups, singletons, "
        "isolated vertices, hyperedge and vertex weights), a feature matrix, lambda, a read order and two "
        "edits; every matrix, whole and per group, is compared with its dense definition before and after "
        "the edits. Non-trivial: two or more hyperedges and two groups or non-uniform weights.")
PROPS = ["H", "H_T", "W_e", "D_v", "D_e", "D_v_neg_1", "D_v_neg_1_2", "D_e_neg_1", "L_HGNN", "L_sym", "L_rw", "smooth", "hgnn", "W_v"]


@st.composite
def cases(draw):
    c = draw(gen.hyper_case(hi=7, big=12, max_e=5))
    c["order"] = draw(st.permutations(PROPS))
    c["more"] = [draw(gen.group_names), draw(gen.hyperedges(c["n"], min_size=1, max_size=2)), draw(gen.weights())]
    c["xs"], c["d"], c["lamb"] = draw(gen.seeds), draw(gen.widths(3)), draw(st.sampled_from([1, 1, 1, 0.1, 10])) * draw(st.integers(-8, 8)) / 4
    return c


def refs(h, name):
    e, w, H = ordered(h, name)
    n = h.num_v
    dv, de = (H @ w if len(w) else np.zeros(n)), H.sum(0)
    W = np.diag(w) if len(w) else np.zeros((0, 0))
    iDe = np.diag(safe_pow(de, -1)) if len(w) else np.zeros((0, 0))
    h2, h1 = np.diag(safe_pow(dv, -0.5)), np.diag(safe_pow(dv, -1))
    core = H @ W @ iDe @ H.T
    L = h2 @ core @ h2
    return {"H": H, "H_T": H.T, "W_e": W, "D_v": np.diag(dv), "D_e": np.diag(de) if len(w) else np.zeros((0, 0)),
            "D_v_neg_1": h1, "D_v_neg_1_2": h2, "D_e_neg_1": iDe, "L_HGNN": L,
            "L_sym": np.eye(n) - L, "L_rw": np.eye(n) - h1 @ core}


def check_props(h, m, c):
    X = feats(c["xs"], m.n, c["d"])
    X0 = X.clone()
    Xd = X.double().numpy()
    names = [None] + sorted(m.g)
    R = {nm: refs(h, nm) for nm in names}
    for p in c["order"]:
        for nm in names:
            ref = R[nm]
            get = (lambda q: getattr(h, q)) if nm is None else (lambda q: getattr(h, q + "_of_group")(nm))
            if p == "W_v":
                near(h.W_v, np.diag(m.vw), "W_v")
            elif p == "smooth":
                for q in ("L_sym", "L_rw", "L_HGNN"):
                    near(h.smoothing(X, get(q), c["lamb"]), Xd + c["lamb"] * ref[q] @ Xd, f"smoothing({q}, {nm})")
            elif p == "hgnn":
                got = h.smoothing_with_HGNN(X) if nm is None else h.smoothing_with_HGNN_of_group(nm, X)
                near(got, ref["L_HGNN"] @ Xd, f"smoothing_with_HGNN {nm}")
            else:
                near(get(p), ref[p], f"{p} {nm}")
    require(torch.equal(X, X0), "features were modified")


def check_case(c):
    h, m = build_hyper(dhg, c)
    check_props(h, m, c)
    check_hyper(h, m)
    nm, e, w = c["more"]
    h.add_hyperedges([list(x) for x in e], [w] * len(e), merge_op="sum", group_name=nm)
    m.add(e, [w] * len(e), "sum", nm)
    check_props(h, m, c)
    h.remove_hyperedges([list(e[0])], None)
    m.rm(e[:1], None)
    if c["xs"] % 2:
        m.vw = [x + 0.5 for x in m.vw][::-1]
        h.v_weight = list(m.vw)
    check_props(h, m, c)
    check_hyper(h, m)
    for v in h.vars_for_DL:
        require(isinstance(getattr(h, v), torch.Tensor), "vars_for_DL lists %r, which is no tensor of the hypergraph", v)
    ne = sum(len(x[1]) for x in c["groups"])
    ws = {x for g in c["groups"] for x in (g[2] or [1.0])}
    return ["nt"] if ne >= 2 and (len(c["groups"]) > 1 or len(ws) > 1) else []


@st.composite
def drop_cases(draw):
    big = draw(st.booleans())
    if big:
        e = [[j for j in range(24) if j != i] for i in range(24)]
        c = dict(n=24, groups=[["main", e, None], ["b", e[:12], [2.0] * 12]], vw=None)
    else:
        c = draw(gen.hyper_case(hi=7, big=12, max_e=5))
    return dict(c, big=big, target=draw(st.integers(-1, 2)), rate=draw(gen.rates), seed=draw(gen.seeds), times=draw(st.integers(1, 2)))


def check_drop(c):
    """HGNN smoothing with a drop rate: each entry of the matrix is used or left out, with the given probability."""
    h, m = build_hyper(dhg, c)
    names = sorted(m.g)
    nm = None if c["target"] < 0 else names[c["target"] % len(names)]
    L = refs(h, nm)["L_HGNN"]
    call = lambda p: h.smoothing_with_HGNN(torch.eye(m.n), drop_rate=p) if nm is None else h.smoothing_with_HGNN_of_group(nm, torch.eye(m.n), drop_rate=p)
    seed_all(c["seed"])
    for _ in range(c["times"]):
        keep = masked(call(c["rate"]), L, f"smoothing_with_HGNN {nm} with a drop rate")
        if c["big"]:
            kept_share(int(keep.sum()), int((L != 0).sum()), c["rate"], "smoothing_with_HGNN")
    near(call(0.0), L, "smoothing_with_HGNN at rate 0 afterwards")
    near(h.L_HGNN if nm is None else h.L_HGNN_of_group(nm), L, "L_HGNN afterwards")
    return ["nt"] if len(m.edges(nm)) >= 2 else []


SUBS = [Sub("drop", drop_cases, check_drop, quick=400, shards=2), Sub("matrices", cases, check_case, quick=1200, shards=8), Sub("large", lambda: gen.large(cases()), check_case, quick=32, shards=4)]
