from hypothesis import strategies as st
import numpy as np
import torch
import dhg
import dhg.nn as dn
from harness import gen, refconv as R
from harness.core import Sub, require, seed_all
from harness.refmodel import build_graph, build_hyper, check_graph, check_hyper
from harness.util import same, near, feats, kept_share, dense

PROPERTY = "P17"
RULE = ("a case is a layer type, constructor options (widths, bias, batch norm, last-layer form, attention slope, "
        "epsilon, mediators), random parameters and running statistics, a structure and features; the evaluation-mode "
        "output is compared with a dense double-precision formula, the training-mode output (dropout 0) with the same "
        "formula under batch statistics, and with final dropout each entry must be 0 or the scaled evaluation value. "
        "Non-trivial: the structure has at least two edges (hyperedges).")
GRAPH = {"gcn": dn.GCNConv, "gat": dn.GATConv, "gin": dn.GINConv, "sage": dn.GraphSAGEConv}
HYPER = {"hgnn": dn.HGNNConv, "hgnnp": dn.HGNNPConv, "hypergcn": dn.HyperGCNConv, "hnhn": dn.HNHNConv, "unigcn": dn.UniGCNConv,
         "unigat": dn.UniGATConv, "unisage": dn.UniSAGEConv, "unigin": dn.UniGINConv, "jh": dn.JHConv}
TOL = dict(rtol=2e-4, atol=2e-4)


@st.composite
def opts(draw, kind, w=gen.widths()):
    o = dict(kind=kind, din=draw(w), dout=draw(w), bias=draw(st.booleans()), bn=draw(st.booleans()),
             last=draw(st.booleans()), slope=draw(st.sampled_from([0.2, 0.05, 0.5])), eps=draw(st.sampled_from([0.0, 0.5, -0.5, 2.0])),
             train_eps=draw(st.booleans()), med=draw(st.booleans()), layers=draw(st.integers(1, 3)), ps=draw(gen.seeds), xs=draw(gen.seeds),
             mode=draw(st.sampled_from(["eval", "eval", "train", "drop"])), rate=draw(st.sampled_from([0.25, 0.5, 0.8])),
             cached=draw(st.booleans()), twice=draw(st.booleans()))
    if kind == "jh":
        o["dout"] = o["din"]
    return o


@st.composite
def gcases(draw):
    c = draw(gen.graph_case(lo=1, hi=7, big=12))
    c["extra"] = draw(st.sampled_from([False, False, True]))
    c["o"] = draw(opts(draw(st.sampled_from(sorted(GRAPH)))))
    return c


@st.composite
def hcases(draw):
    kind = draw(st.sampled_from(sorted(HYPER)))
    c = draw(gen.hyper_case(lo=2 if kind == "hypergcn" else 1, hi=7, big=10, min_v=2 if kind == "hypergcn" else 1))
    c["vals"] = draw(gen.perms(c["n"]))
    c["o"] = draw(opts(kind))
    return draw(gen.zeroed(c))


def make(o):
    k = o["kind"]
    common = dict(bias=o["bias"], use_bn=o["bn"], drop_rate=o["rate"], is_last=o["last"])
    if k == "gin":
        mlp = dn.MLP([o["din"]] + [o["dout"]] * o["layers"], use_bn=o["bn"], drop_rate=o["rate"], is_last=o["last"])
        c = dn.GINConv(mlp, eps=o["eps"], train_eps=o["train_eps"])
    elif k in ("gat", "unigat"):
        c = {**GRAPH, **HYPER}[k](o["din"], o["dout"], atten_neg_slope=o["slope"], **common)
    elif k == "unigin":
        c = HYPER[k](o["din"], o["dout"], eps=o["eps"], train_eps=o["train_eps"], **common)
    elif k == "hypergcn":
        c = HYPER[k](o["din"], o["dout"], use_mediator=o["med"], **common)
    else:
        c = {**GRAPH, **HYPER}[k](o["din"], o["dout"], **common)
    if k != "gin":
        lin = {n: m for n, m in c.named_modules() if isinstance(m, torch.nn.Linear)}
        require(any(m.bias is not None for m in lin.values()) == o["bias"], "a %s layer with bias=%s has biases %s", k, o["bias"],
                [n for n, m in lin.items() if m.bias is not None])
    R.randomise(c, o["ps"], positive=("theta",) if k == "hypergcn" else ())
    return c


def batch_ref(ref, conv, Xd, ref_struct, kw):
    """The formula under batch statistics, and the smallest deviation normalised by: nearly constant columns amplify
    float32 noise, so callers compare where the statistics are well conditioned."""
    probe, stds = R.bnorm, []

    def spy(b, Z, training=False):
        stds.append(Z.std(0).min() if training else 1.0)
        return probe(b, Z, training)
    R.bnorm = spy
    try:
        return ref(conv, Xd, ref_struct, training=True, **kw), min(stds, default=1.0)
    finally:
        R.bnorm = probe


def run(o, conv, X, struct, ref_struct, call, extra_ref=None):
    k = o["kind"]
    ref = dict(hypergcn=R.gcn).get(k) or getattr(R, k)
    kw = dict(is_last=o["last"], bn=o["bn"], slope=o["slope"], eps=o["eps"])
    if k == "gin":
        kw["mlp"] = R.mlp_ref(conv, o["layers"], o["bn"], o["last"])
    X0 = X.clone()
    Xd = X.double().numpy()
    mode = o["mode"]
    if mode == "train":
        for m in conv.modules():
            if isinstance(m, torch.nn.Dropout):
                m.p = 0.0
        if o["bn"] and X.shape[0] < 2:
            mode = "eval"
    conv.train(mode != "eval")
    if mode == "drop" and (k in ("gat", "unigat") or (k == "gin" and (o["layers"] > 1 or o["bn"])) or (o["bn"] and X.shape[0] < 2)):
        conv.eval()
        mode = "eval"
    seed_all(o["ps"])
    with torch.no_grad():
        out = call(X)
        if o["twice"] and mode == "eval":
            require(torch.equal(out, call(X)), "two evaluation-mode passes differ")
    require(torch.equal(X, X0), "the layer modified its input features")
    require(tuple(out.shape) == (X.shape[0], o["dout"]), "output shape %s", tuple(out.shape))
    if mode == "eval":
        near(out, ref(conv, Xd, ref_struct, **kw), f"{k} output", **TOL)
    elif mode == "train":
        if k == "gin":
            kw["mlp"] = R.mlp_ref(conv, o["layers"], o["bn"], o["last"], training=True)
        if o["bn"] and not (o["last"] and k != "gin"):
            want, spread = batch_ref(ref, conv, Xd, ref_struct, kw)
            if spread > 0.05:
                near(out, want, f"{k} training output", rtol=2e-3, atol=2e-3)
        else:
            near(out, ref(conv, Xd, ref_struct, **kw), f"{k} training output without dropout", **TOL)
    else:
        want, tol = ref(conv, Xd, ref_struct, **kw), TOL
        got = out.double().numpy()
        if o["last"]:
            near(out, want, f"{k} training output of a last layer", **TOL)
        else:
            if o["bn"]:
                want, spread = batch_ref(ref, conv, Xd, ref_struct, kw)
                tol = dict(rtol=2e-3, atol=5e-3)
                if spread <= 0.05:
                    return mode
            scaled = want / (1 - o["rate"])
            ok = np.isclose(got, scaled, **tol) | (got == 0)
            seen = np.abs(scaled) > 0.02
            kept_share(int((got[seen] != 0).sum()), int(seen.sum()), o["rate"], f"{k}: dropout of the output entries")
            require(ok.all(), "%s: training output is neither dropped nor scaled: %s, evaluation value %s", k, got.tolist(), want.tolist())
    return mode


def check_g(c):
    o = c["o"]
    g, m = build_graph(dhg, c)
    conv = make(o)
    mode = run(o, conv, feats(o["xs"], c["n"], o["din"]), g, R.G(m), lambda X: conv(X, g))
    check_graph(g, m)
    return [o["kind"], mode] + (["nt"] if len(m.e) >= 2 else [])


def check_h(c):
    o = c["o"]
    h, m = build_hyper(dhg, c)
    conv = make(o)
    if o["kind"] == "hypergcn":
        u = np.random.RandomState(o["xs"] % 2 ** 32).randint(1, 6, size=o["din"]) / 4
        X = torch.tensor(np.outer(np.array(c["vals"]) - len(c["vals"]) / 2, u), dtype=torch.float32)
        rs = R.hypergcn_graph(m, c["vals"], o["med"])
        if o["cached"]:
            gc, gm = build_graph(dhg, dict(n=c["n"], e=[[0, c["n"] - 1], [0, 0]], w=[2.0, 0.5]))
            rs = R.G(gm)
            mode = run(o, conv, X, h, rs, lambda X: conv(X, h, gc))
            check_graph(gc, gm)
        else:
            mode = run(o, conv, X, h, rs, lambda X: conv(X, h))
    else:
        X = feats(o["xs"], c["n"], o["din"])
        mode = run(o, conv, X, h, R.H(m), lambda X: conv(X, h))
    check_hyper(h, m)
    return [o["kind"], mode] + (["nt"] if len(m.edges()) >= 2 else [])


@st.composite
def att_cases(draw):
    kind = draw(st.sampled_from(["gat", "unigat"]))
    c = dict(kind=kind, slope=draw(st.sampled_from([0.2, 0.05, 0.5])), rate=draw(st.sampled_from([0.25, 0.5, 0.75])), ps=draw(gen.seeds), n=draw(st.integers(2, 12)))
    c["e"] = draw(gen.pairs(c["n"], max_size=40, min_size=1)) if kind == "gat" else draw(gen.hyperedges(c["n"], max_size=8, min_size=1, max_v=6))
    return c


def check_att(c):
    """In training mode every attention score is dropped (to the lower clamp) or rescaled, at the given rate.  Features
    are scaled unit vectors, so the attention weights can be read off the output of a last layer."""
    k, n = c["kind"], c["n"]
    if k == "gat":
        s, m = build_graph(dhg, dict(n=n, e=c["e"], w=None))
        mask, N = m.A() != 0, n
    else:
        es = [sorted(e) for e in {frozenset(e) for e in c["e"]}]
        es = [e + [n + i] for i, e in enumerate(sorted(es))]     # a private vertex tells the hyperedges apart
        N = n + len(es)
        s = dhg.Hypergraph(N, es)
        mask = np.zeros((N, len(es)), dtype=bool)
        for i, e in enumerate(es):
            mask[e, i] = True
    conv = (dn.GATConv if k == "gat" else dn.UniGATConv)(N, N, bias=False, drop_rate=c["rate"], atten_neg_slope=c["slope"], is_last=True)
    R.randomise(conv, c["ps"])
    with torch.no_grad():
        conv.theta.weight.copy_(torch.eye(N))
        X = torch.eye(N)
        seed_all(c["ps"])
        out = dense(conv.train()(X, s))
    if k == "gat":
        raw = R.lin(conv.atten_dst, np.eye(N)) + R.lin(conv.atten_src, np.eye(N)).T
        att = out
    else:
        Y = np.array([[1 / len(e) if v in e else 0.0 for v in range(N)] for e in es])
        raw = np.tile(R.lin(conv.atten_e, Y)[:, 0], (N, 1))
        att = np.array([[out[v, n + i] * len(e) for i, e in enumerate(es)] for v in range(N)])
    full = R.clip(R.leaky(raw, c["slope"]) / (1 - c["rate"]))
    kept = total = 0
    for i in range(N):
        j = np.flatnonzero(mask[i])
        if not len(j):
            require(not out[i].any(), "a vertex that receives nothing got %s", out[i])
            continue
        a = att[i, j]
        require(abs(a.sum() - 1) < 1e-3 and (a > 0).all(), "attention weights %s", a)
        ok = False
        for first in (full[i, j[0]], 0.001):
            score = np.log(a / a[0]) + first
            d = np.isclose(score, 0.001, atol=2e-3)
            f = np.isclose(score, full[i, j], rtol=1e-3, atol=2e-3)
            if (d | f).all():
                ok = True
                clear = np.abs(full[i, j] - 0.001) > 0.02
                pick = clear & (d != f) if len(j) > 1 else clear & False
                break
        require(ok, "row %d: attention weights %s do not come from scores %s each dropped or rescaled by %s", i, a, R.leaky(raw[i, j], c["slope"]), 1 / (1 - c["rate"]))
        alt = [np.isclose(np.log(a / a[0]) + x, 0.001, atol=2e-3) | np.isclose(np.log(a / a[0]) + x, full[i, j], rtol=1e-3, atol=2e-3) for x in (full[i, j[0]], 0.001)]
        if not (alt[0].all() and alt[1].all()):                 # only one reading of this row is possible
            kept += int((f & pick).sum())
            total += int(pick.sum())
    # scores whose row has only one reading: a fair share of them is kept (rows are not selected by their draws
    # beyond that, hence the wide margin)
    if total >= 60:
        require(0.15 * (1 - c["rate"]) < kept / total < 1 - 0.15 * c["rate"], "rate %s kept %d of %d attention scores", c["rate"], kept, total)
    return [k] + (["nt"] if mask.sum(1).max(initial=0) >= 2 else [])


SUBS = [Sub("attention_dropout", att_cases, check_att, quick=300, shards=3),
        Sub("graph", gcases, check_g, quick=1200, shards=4),
        Sub("hyper", hcases, check_h, quick=2000, shards=6),
        Sub("large_graph", lambda: gen.large(gcases()), check_g, quick=40, shards=3), Sub("large_hyper", lambda: gen.large(hcases()), check_h, quick=60, shards=4)]
