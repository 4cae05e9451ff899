import copy
from hypothesis import strategies as st
import numpy as np
import torch
import torch.nn as nn
import dhg
import dhg.nn as dn
import dhg.models as dm
from harness import gen, refconv as R
from harness.core import Sub, require, seed_all
from harness.refmodel import build_graph, build_hyper, build_bigraph, check_graph, check_hyper, check_bigraph
from harness.util import same, near, feats, masked, kept_share

PROPERTY = "P18"
RULE = ("a case is a model class with hyper-parameters (widths, heads, layers, batch norm, epsilon, mediators, fast mode), "
        "random parameters, a structure and features; the evaluation-mode output is compared with a dense "
        "double-precision composition of layer formulas, repeated calls and training-mode calls with dropout 0 agree, "
        "training-mode calls with dropout differ. Non-trivial: at least two edges (hyperedges).")
TOL = dict(rtol=5e-4, atol=5e-4)


@st.composite
def hp(draw, kind, w=gen.widths()):
    return dict(kind=kind, din=draw(w), hid=draw(w), out=draw(w), bn=draw(st.booleans()),
                heads=draw(st.integers(1, 5)), layers=draw(st.integers(2, 4)), mlp=draw(st.integers(1, 3)), slope=draw(st.sampled_from([0.2, 0.5])),
                eps=draw(st.sampled_from([0.0, 0.5, -0.5])), train_eps=draw(st.booleans()), med=draw(st.booleans()), fast=draw(st.booleans()),
                rate=draw(st.sampled_from([0.0, 0.3, 0.6])), ps=draw(gen.seeds), xs=draw(gen.seeds))


@st.composite
def gcases(draw):
    c = draw(gen.graph_case(lo=1, hi=7, big=12))
    c["extra"] = draw(st.sampled_from([False, False, True]))
    c["o"] = draw(hp(draw(st.sampled_from(["GCN", "GAT", "GraphSAGE", "GIN"]))))
    return c


def set_drop(model, p):
    for m in model.modules():
        if isinstance(m, nn.Dropout):
            m.p = p
        if hasattr(m, "drop_rate"):
            m.drop_rate = p


def separate(heads, want):
    """The heads are as many layers as asked for, with parameters of their own."""
    same(len(heads), want, "number of heads")
    ids = [id(p) for h in heads for p in h.parameters()]
    same(len(set(ids)), len(ids), "heads with parameters of their own")


def drive(o, model, call, want, rows, width, name):
    """Evaluation-mode output, repeatability, and dropout acting in training mode only."""
    model.eval()
    seed_all(o["ps"])
    with torch.no_grad():
        a = call()
        b = call()
    require(tuple(a.shape) == (rows, width), "%s output shape %s", name, tuple(a.shape))
    require(torch.equal(a, b), "%s: two evaluation-mode calls differ", name)
    near(a, want, f"{name} output", **TOL)
    if not o["bn"]:
        model.train()
        set_drop(model, 0.0)
        with torch.no_grad():
            near(call(), a, f"{name} in training mode without dropout", **TOL)
        model.eval()
        set_drop(model, 0.9)
        with torch.no_grad():
            require(torch.equal(call(), a), "%s: dropout acts in evaluation mode", name)


def check_g(c):
    o = c["o"]
    k = o["kind"]
    g, m = build_graph(dhg, c)
    s = R.G(m)
    args = (o["din"], o["hid"], o["out"])
    if k == "GAT":
        model = dm.GAT(*args, o["heads"], use_bn=o["bn"], drop_rate=o["rate"], atten_neg_slope=o["slope"])
    elif k == "GIN":
        model = dm.GIN(*args, o["layers"], num_mlp_layers=o["mlp"], eps=o["eps"], train_eps=o["train_eps"], use_bn=o["bn"], drop_rate=o["rate"])
    else:
        model = getattr(dm, k)(*args, use_bn=o["bn"], drop_rate=o["rate"])
    R.randomise(model, o["ps"])
    X = feats(o["xs"], c["n"], o["din"])
    X0, Z = X.clone(), X.double().numpy()
    if k == "GAT":
        heads = list(model.multi_head_layer.layers)
        separate(heads, o["heads"])
        Y = np.hstack([R.gat(h, Z, s, bn=o["bn"], slope=o["slope"]) for h in heads])
        want = R.gat(model.out_layer, Y, s, bn=o["bn"], slope=o["slope"])
    elif k == "GIN":
        want, Y = R.lin(model.pred_layers[0], Z), Z
        same((len(model.layers), len(model.pred_layers)), (o["layers"], o["layers"] + 1), "number of layers")
        for i, l in enumerate(model.layers):
            Y = R.gin(l, Y, s, eps=o["eps"], mlp=R.mlp_ref(l, o["mlp"], o["bn"]))
            want = want + R.lin(model.pred_layers[i + 1], Y)
        if o["train_eps"]:
            require(any("eps" in n for n, _ in model.named_parameters()), "epsilon is not trainable")
    else:
        f = R.gcn if k == "GCN" else R.sage
        same(len(model.layers), 2, "number of layers")
        want = f(model.layers[1], f(model.layers[0], Z, s, bn=o["bn"]), s, is_last=True)
    drive(o, model, lambda: model(X, g), want, c["n"], o["out"], k)
    require(torch.equal(X, X0), "%s modified its input", k)
    check_graph(g, m)
    return [k] + (["nt"] if len(m.e) >= 2 else [])


HYPER = ["HGNN", "HGNNP", "HNHN", "HyperGCN", "UniGCN", "UniGAT", "UniSAGE", "UniGIN"]


@st.composite
def hcases(draw):
    kind = draw(st.sampled_from(HYPER))
    hg = kind == "HyperGCN"
    c = draw(gen.hyper_case(lo=2 if hg else 1, hi=7, big=10, min_v=2 if hg else 1))
    c["vals"] = draw(gen.perms(c["n"]))
    c["o"] = draw(hp(kind))
    return draw(gen.zeroed(c))


def check_h(c):
    o = c["o"]
    k = o["kind"]
    h, m = build_hyper(dhg, c)
    s = R.H(m)
    args = (o["din"], o["hid"], o["out"])
    kw = dict(use_bn=o["bn"], drop_rate=o["rate"])
    if k == "UniGAT":
        model = dm.UniGAT(*args, o["heads"], atten_neg_slope=o["slope"], **kw)
    elif k == "UniGIN":
        model = dm.UniGIN(*args, eps=o["eps"], train_eps=o["train_eps"], **kw)
    elif k == "HyperGCN":
        model = dm.HyperGCN(*args, use_mediator=o["med"], fast=o["fast"], **kw)
    else:
        model = getattr(dm, k)(*args, **kw)
    R.randomise(model, o["ps"])
    X = feats(o["xs"], c["n"], o["din"])
    X0, Z = X.clone(), X.double().numpy()
    if k == "HyperGCN":
        return check_hypergcn(c, model, h, m)
    if k == "UniGAT":
        heads = list(model.multi_head_layer.layers)
        separate(heads, o["heads"])
        Y = np.hstack([R.unigat(x, Z, s, bn=o["bn"], slope=o["slope"]) for x in heads])
        want = R.unigat(model.out_layer, Y, s, bn=o["bn"], slope=o["slope"])
    else:
        f = getattr(R, k.lower())
        same(len(model.layers), 2, "number of layers")
        want = f(model.layers[1], f(model.layers[0], Z, s, bn=o["bn"], eps=o["eps"]), s, is_last=True, eps=o["eps"])
    drive(o, model, lambda: model(X, h), want, c["n"], o["out"], k)
    require(torch.equal(X, X0), "%s modified its input", k)
    check_hyper(h, m)
    return [k] + (["nt"] if len(m.edges()) >= 2 else [])


def check_hypergcn(c, model, h, m):
    o = c["o"]
    u = np.random.RandomState(o["xs"] % 2 ** 32).randint(1, 6, size=o["din"]) / 4
    X = torch.tensor(np.outer(np.array(c["vals"]) - len(c["vals"]) / 2, u), dtype=torch.float32)
    Z = X.double().numpy()
    if o["fast"]:
        s = R.hypergcn_graph(m, c["vals"], o["med"])
        want = R.gcn(model.layers[1], R.gcn(model.layers[0], Z, s, bn=o["bn"]), s, is_last=True)
        drive(o, model, lambda: model(X, h), want, c["n"], o["out"], "HyperGCN")
        # the converted graph is computed once: other features keep using it
        X2 = feats(o["ps"], c["n"], o["din"])
        want2 = R.gcn(model.layers[1], R.gcn(model.layers[0], X2.double().numpy(), s, bn=o["bn"]), s, is_last=True)
        model.eval()
        with torch.no_grad():
            near(model(X2, h), want2, "HyperGCN in fast mode with new features", **TOL)
    else:
        # layer by layer with the same draws; the first layer's graph is known from its rank-one features
        model.eval()
        R.randomise(model.layers[0], o["ps"], positive=("theta",))
        s = R.hypergcn_graph(m, c["vals"], o["med"])
        first = R.gcn(model.layers[0], Z, s, bn=o["bn"])
        with torch.no_grad():
            seed_all(o["ps"])
            out = model(X, h)
            seed_all(o["ps"])
            Y = model.layers[0](X, h)
            near(Y, first, "first HyperGCN layer", **TOL)
            near(out, model.layers[1](Y, h), "HyperGCN without fast mode", **TOL)
            # another hypergraph gives what a fresh conversion of it gives
            h2 = dhg.Hypergraph(c["n"], [list(range(c["n"]))[:2]])
            seed_all(o["ps"])
            out2 = model(X, h2)
            seed_all(o["ps"])
            near(out2, model.layers[1](model.layers[0](X, h2), h2), "HyperGCN without fast mode on another hypergraph", **TOL)
    check_hyper(h, m)
    return ["HyperGCN", "fast" if o["fast"] else "slow"] + (["nt"] if len(m.edges()) >= 2 else [])


@st.composite
def rcases(draw):
    kind = draw(st.sampled_from(["LightGCN", "NGCF", "DHCF", "BGNN_Adv", "BGNN_MLP"]))
    nu, nv = draw(gen.sizes(1, 6, 9)), draw(gen.sizes(1, 6, 9))
    c = dict(nu=nu, nv=nv, e=draw(gen.pairs(nu, nv, max_size=12)), w=None, o=draw(hp(kind)), nl=draw(st.integers(1, 4)), emb=draw(st.integers(1, 4)))
    c["hu"], c["hv"] = draw(gen.hyperedges(nu, min_size=1, max_size=4)), draw(gen.hyperedges(nv, min_size=1, max_size=4))
    c["train"] = draw(st.booleans())
    return c


def l2n(X):
    return X / np.maximum(np.linalg.norm(X, axis=1, keepdims=True), 1e-12)


def check_r(c):
    o = c["o"]
    k = o["kind"]
    nu, nv, nl, d = c["nu"], c["nv"], c["nl"], c["emb"]
    g, m = build_bigraph(dhg, c)
    A1 = m.A() + np.eye(nu + nv)
    dh = np.diag(A1.sum(1) ** -0.5)
    L = dh @ A1 @ dh
    if k in ("LightGCN", "NGCF", "DHCF"):
        model = getattr(dm, k)(nu, nv, d, num_layers=nl, drop_rate=o["rate"])
        R.randomise(model, o["ps"])
        E = np.vstack([R.P(model.u_embedding.weight), R.P(model.i_embedding.weight)])
        outs = [E]
        if k == "DHCF":
            hu, mu = build_hyper(dhg, dict(n=nu, groups=[["main", c["hu"], None]], vw=None))
            hv, mv = build_hyper(dhg, dict(n=nv, groups=[["main", c["hv"], None]], vw=None))
            Lu, Lv = R.H(mu).hgnn, R.H(mv).hgnn
        for i in range(nl):
            if k == "LightGCN":
                E = L @ E
            else:
                S = L @ E if k == "NGCF" else np.vstack([Lu @ E[:nu], Lv @ E[nu:]])
                first = R.lin(model.W_gc[i], S) + (E if k == "DHCF" else 0)
                E = R.leaky(first, 0.2) + R.leaky(R.lin(model.W_bi[i], E * S), 0.2)
                require(np.linalg.norm(E, axis=1).min() >= 0, "")
                E = l2n(E)
            outs.append(E)
        want = np.mean(outs, axis=0)
        o2 = dict(o, bn=False)

        def call():
            u, v = model(hu, hv) if k == "DHCF" else model(g)
            require((u.shape[0], v.shape[0]) == (nu, nv), "shapes of the user and item embeddings: %s %s", u.shape, v.shape)
            return torch.cat([u, v])
        drive(o2, model, call, want, nu + nv, d, k)
        if k == "DHCF":
            check_hyper(hu, mu), check_hyper(hv, mv)
        # dropout acts in training mode (probability of no effect is negligible for large inputs only)
    else:
        ud, vd, hid = o["din"], o["out"], o["hid"]
        if k == "BGNN_Adv":
            model = dm.BGNN_Adv(ud, vd, layer_depth=nl)
        else:
            model = dm.BGNN_MLP(ud, vd, hid, o["heads"], drop_rate=o["rate"], layer_depth=nl)
        R.randomise(model, o["ps"])
        Xu, Xv = feats(o["xs"], nu, ud), feats(o["ps"], nv, vd)
        X0 = (Xu.clone(), Xv.clone())
        model.eval()
        if c["train"]:
            args = dict(lr=0.01, weight_decay=1e-4, max_epoch=2)
            seed_all(o["ps"])
            emb = model.train_with_cascaded(Xu, Xv, g, **args)
            model.eval()
            with torch.no_grad():
                near(model(Xu, Xv, g), emb, f"{k}: cascaded training result against the trained model", **TOL)
        B = m.B()

        def forward():
            lu, lv = Xu.double().numpy(), Xv.double().numpy()
            for i in range(nl):
                dec = (lambda Z: Z) if k == "BGNN_Adv" else (lambda Z: decode(model.decoders[i], Z))
                if i % 2 == 0:
                    lu = dec(np.tanh(B @ R.lin(model.layers[i], lv)))
                else:
                    lv = dec(np.tanh(B.T @ R.lin(model.layers[i], lu)))
            return lu
        with torch.no_grad():
            out = model(Xu, Xv, g)
        near(out, forward(), f"{k} output", **TOL)
        require(torch.equal(Xu, X0[0]) and torch.equal(Xv, X0[1]), "%s modified its inputs", k)
    check_bigraph(g, m)
    return [k] + (["nt"] if len(m.e) >= 2 else [])


@st.composite
def tcases(draw):
    nu, nv = draw(st.integers(2, 6)), draw(st.integers(2, 6))
    return dict(kind=draw(st.sampled_from(["BGNN_Adv", "BGNN_MLP"])), nu=nu, nv=nv, e=draw(gen.pairs(nu, nv, min_size=1, max_size=12)), w=None, nl=draw(st.integers(1, 3)),
                ud=draw(st.integers(1, 4)), vd=draw(st.integers(1, 4)), hid=draw(st.integers(1, 4)), dhid=draw(st.integers(1, 4)), ps=draw(gen.seeds), xs=draw(gen.seeds),
                lr=draw(st.sampled_from([0.01, 0.1])), wd=draw(st.sampled_from([0.0, 0.5])), epochs=draw(st.sampled_from([0, 1, 2, 4])))


def check_train(c):
    """Cascaded training: layer after layer, Adam at the given rate and weight decay for the given number of epochs;
    adversarially against a fresh discriminator, or by reconstruction through the layer's decoder."""
    k, lr, wd = c["kind"], c["lr"], c["wd"]
    g, m = build_bigraph(dhg, c)
    Xu, Xv = feats(c["xs"], c["nu"], c["ud"]) / 5, feats(c["ps"], c["nv"], c["vd"]) / 5
    model = dm.BGNN_Adv(c["ud"], c["vd"], layer_depth=c["nl"]) if k == "BGNN_Adv" else dm.BGNN_MLP(c["ud"], c["vd"], c["hid"], c["dhid"], drop_rate=0.0, layer_depth=c["nl"])
    R.randomise(model, c["ps"])
    ref = copy.deepcopy(model).double()
    seed_all(c["ps"])
    kw = dict(drop_rate=0.0) if k == "BGNN_Adv" else {}
    model.train_with_cascaded(Xu, Xv, g, lr=lr, weight_decay=wd, max_epoch=c["epochs"], **kw)
    seed_all(c["ps"])
    B = torch.tensor(m.B())
    side = [Xu.double(), Xv.double()]
    bce, mse = nn.functional.binary_cross_entropy, nn.functional.mse_loss
    small = []                                     # gradients too small for Adam to tell their sign from noise

    def step(opt):
        for q in opt.param_groups:
            for p in q["params"]:
                d = (p.grad + wd * p.detach()).abs()
                small.extend(d[d > 0].min().reshape(1).tolist() if (d > 0).any() else [])
        opt.step()
    for i in range(c["nl"]):
        s = i % 2
        P, layer = (B if s == 0 else B.T), ref.layers[i]
        real, other = side[s], side[1 - s]
        if k == "BGNN_Adv":
            D = dn.Discriminator(real.shape[1], 16, 1, drop_rate=0.0).double()
            oG, oD = (torch.optim.Adam(x.parameters(), lr=lr, weight_decay=wd) for x in (layer, D))
            one, zero = torch.ones(len(real), 1).double(), torch.zeros(len(real), 1).double()
            for _ in range(c["epochs"]):
                fake = torch.tanh(P @ layer(other))
                oD.zero_grad()
                (bce(D(real), one) + bce(D(fake.detach()), zero)).backward()
                step(oD)
                oG.zero_grad()
                bce(D(fake), one).backward()
                step(oG)
            side[s] = torch.tanh(P @ layer(other)).detach()
        else:
            dec = ref.decoders[i]
            opt = torch.optim.Adam([*layer.parameters(), *dec.parameters()], lr=lr, weight_decay=wd)
            for _ in range(c["epochs"]):
                opt.zero_grad()
                mse(dec(torch.tanh(P @ layer(other))), real).backward()
                step(opt)
            side[s] = dec(torch.tanh(P @ layer(other))).detach()
    if min(small, default=1.0) < 1e-6:
        return [k, "flat"]
    for (name, p), q in zip(model.named_parameters(), ref.parameters()):
        near(p, q.detach().numpy(), f"{k}: {name} after cascaded training", rtol=2e-3, atol=lr * 0.05)
    return [k, "nt"] if c["epochs"] else [k]


def decode(dec, Z):
    l1, l2 = [x for x in dec.modules() if isinstance(x, nn.Linear)]
    return np.tanh(R.lin(l2, R.relu(R.lin(l1, Z))))


ACT = [["ReLU", None], ["ReLU", None], ["LeakyReLU", None], ["LeakyReLU", {"negative_slope": 0.25}], ["Tanh", None], ["ELU", {"alpha": 2.0}], ["ELU", {}],
       ["Softplus", {"beta": 2.0}], ["Hardtanh", {"min_val": -0.5, "max_val": 2.0}]]


@st.composite
def wcases(draw):
    what = draw(st.sampled_from(["multi", "multi", "mlp", "disc"]))
    return dict(what=what, n=draw(st.integers(2, 6)), e=draw(gen.pairs(2, max_size=3)), heads=draw(st.integers(1, 6)),
                readout=draw(st.sampled_from(["concat", "mean", "max", "sum"])), last=draw(st.booleans()), o=draw(hp("x")),
                train=draw(st.booleans()), act=draw(st.sampled_from(ACT)))


def check_w(c):
    o, n = c["o"], c["n"]
    X = feats(o["xs"], n, o["din"])
    Z = X.double().numpy()
    if c["what"] == "multi":
        g, m = build_graph(dhg, dict(n=n, e=c["e"], w=None))
        mh = dn.MultiHeadWrapper(c["heads"], c["readout"], dn.GCNConv, in_channels=o["din"], out_channels=o["out"], use_bn=o["bn"], is_last=c["last"],
                                 drop_rate=0.0 if c["train"] else 0.5)
        R.randomise(mh, o["ps"]).train(c["train"] and not o["bn"])
        hs = list(mh.layers)
        separate(hs, c["heads"])
        outs = [R.gcn(x, Z, R.G(m), bn=o["bn"], is_last=c["last"]) for x in hs]
        want = {"concat": lambda: np.hstack(outs), "mean": lambda: np.mean(outs, 0), "max": lambda: np.max(outs, 0), "sum": lambda: np.sum(outs, 0)}[c["readout"]]()
        near(mh(X=X, g=g), want, "multi-head " + c["readout"], **TOL)
    elif c["what"] == "mlp":
        ch = [o["din"]] + [o["hid"]] * (o["mlp"] - 1) + [o["out"]]
        net = R.randomise(dn.MLP(ch, use_bn=o["bn"], drop_rate=0.0 if c["train"] else o["rate"], is_last=c["last"], act_name=c["act"][0], act_kwargs=c["act"][1]), o["ps"])
        net.train(c["train"] and not o["bn"])
        near(net(X), R.mlp_ref(net, o["mlp"], o["bn"], c["last"], act=lambda Y: R.ACTS[c["act"][0]](Y, **(c["act"][1] or {})))(Z), f"MLP with {c['act']}", **TOL)
    else:
        net = R.randomise(dn.Discriminator(o["din"], o["hid"], o["out"], drop_rate=o["rate"]), o["ps"]).eval()
        l1, l2 = [x for x in net.modules() if isinstance(x, nn.Linear)]
        near(net(X), 1 / (1 + np.exp(-R.lin(l2, R.leaky(R.lin(l1, Z), 0.01)))), "Discriminator", **TOL)
    return ["nt", c["what"]]


@st.composite
def dcases(draw):
    return dict(kind=draw(st.sampled_from(["GCN", "GAT", "GraphSAGE", "GIN", "HGNN", "HGNNP", "HNHN", "HyperGCN", "UniGCN", "UniGAT", "UniSAGE", "UniGIN", "LightGCN", "NGCF", "DHCF", "BGNN_MLP"])),
                seed=draw(gen.seeds), rate=draw(st.sampled_from([0.5, 0.7])))


def check_d(c):
    """On a large structure, training mode with dropout changes the output; evaluation mode is unaffected by the rate."""
    k, n = c["kind"], 40
    seed_all(c["seed"])
    g = dhg.Graph(n, [[i, (i + 1) % n] for i in range(n)] + [[i, (i + 5) % n] for i in range(n)])
    h = dhg.Hypergraph(n, [[i, (i + 1) % n, (i + 7) % n] for i in range(n)])
    if c["seed"] % 2:
        h.add_hyperedges([[i, (i + 2) % n] for i in range(n)], group_name="other")
    b = dhg.BiGraph(n, n, [[i, (i * 3 + j) % n] for i in range(n) for j in range(3)])
    X = torch.randn(n, 8) * 3
    if k in ("LightGCN", "NGCF", "DHCF"):
        model = getattr(dm, k)(n, n, 8, drop_rate=c["rate"])
        call = lambda: torch.cat(model(h, h) if k == "DHCF" else model(b))
    elif k == "BGNN_MLP":
        model = dm.BGNN_MLP(8, 8, 8, 8, drop_rate=c["rate"])
        call = lambda: model(X, X, b)
    else:
        extra = dict(GAT=dict(num_heads=4), UniGAT=dict(num_heads=4), GIN=dict(num_layers=3)).get(k, {})
        model = getattr(dm, k)(8, 32, 4, drop_rate=c["rate"], **extra)
        call = lambda: model(X, g if k in ("GCN", "GAT", "GraphSAGE", "GIN") else h)
    with torch.no_grad():
        R.randomise(model, c["seed"])
        model.eval()
        seed_all(c["seed"])
        a = call()
        set_drop(model, 0.0)
        require(torch.equal(a, call()), "%s: the dropout rate changes the evaluation-mode output", k)
        set_drop(model, c["rate"])
        model.train()
        seed_all(c["seed"])
        t1, t2 = call(), call()
        require(not torch.allclose(t1, t2), "%s: two training-mode calls with dropout %s agree", k, c["rate"])
        model.eval()
        require(torch.equal(a, call()), "%s: evaluation mode after training mode differs", k)
    return ["nt", k]


RATED = ["GCN", "GraphSAGE", "GAT", "HGNN", "HGNNP", "HNHN", "UniGCN", "UniGAT", "UniSAGE", "UniGIN", "HyperGCN", "BGNN_MLP", "MLP", "Discriminator", "LightGCN", "NGCF", "DHCF"]


@st.composite
def ratecases(draw):
    return dict(kind=draw(st.sampled_from(RATED)), n=draw(st.integers(6, 24)), rate=draw(st.sampled_from([0.1, 0.3, 0.5, 0.8])), ps=draw(gen.seeds), heads=draw(st.integers(1, 3)),
                e=draw(gen.pairs(5, max_size=12)), eps=draw(st.sampled_from([0.0, 0.5])))


def unit_layers(model, n):
    """Square linear layers become the identity, others [I 0]; biases vanish."""
    with torch.no_grad():
        for m in model.modules():
            if isinstance(m, nn.Linear):
                m.weight.copy_(torch.eye(*m.weight.shape))
                if m.bias is not None:
                    m.bias.zero_()


def singles(n, seed):
    """One hyperedge per vertex, in one to three groups."""
    h = dhg.Hypergraph(n)
    for j in range(seed % 3 + 1):
        h.add_hyperedges([[i] for i in range(n) if i % (seed % 3 + 1) == j], group_name=["main", "b", "a"][j])
    return h


def check_rate(c):
    """The rate given to the constructor is the one at which training mode drops: with identity layers on a structure
    whose propagation is the identity, every output entry is the input entry, dropped or rescaled."""
    k, n, p = c["kind"], c["n"], c["rate"]
    X = (feats(c["ps"], n, n).abs() + 1) / 4
    E = X.double().numpy()
    seed_all(c["ps"])
    stages = 1
    if k in ("LightGCN", "NGCF", "DHCF"):
        return check_rate_rec(c)
    if k in ("GCN", "GraphSAGE"):
        model = getattr(dm, k)(n, n, n, drop_rate=p)
        call, want = (lambda: model(X, dhg.Graph(n))), E
    elif k == "HyperGCN":
        model = dm.HyperGCN(n, n, n, drop_rate=p)
        call, want = (lambda: model(X, dhg.Hypergraph(n))), E
    elif k in ("GAT", "UniGAT"):
        g = dhg.Graph(n, extra_selfloop=True) if k == "GAT" else singles(n, c["ps"])
        model = getattr(dm, k)(n, n, n * c["heads"], num_heads=c["heads"], drop_rate=p)
        call, want, stages = (lambda: model(X, g)), np.hstack([E] * c["heads"]), 2
    elif k in ("HGNN", "HGNNP", "HNHN", "UniGCN", "UniSAGE", "UniGIN"):
        h = singles(n, c["ps"])
        model = dm.UniGIN(n, n, n, eps=c["eps"], drop_rate=p) if k == "UniGIN" else getattr(dm, k)(n, n, n, drop_rate=p)
        call = lambda: model(X, h)
        want = E * {"UniSAGE": 4, "UniGIN": (2 + c["eps"]) ** 2}.get(k, 1)
    elif k == "BGNN_MLP":
        b = dhg.BiGraph(n, n, [[i, i] for i in range(n)])
        X = X / 8
        model = dm.BGNN_MLP(n, n, n, n, drop_rate=p, layer_depth=1)
        call, want = (lambda: torch.atanh(model(X, X, b))), np.tanh(X.double().numpy())
    elif k == "MLP":
        model = dn.MLP([n, n], use_bn=False, drop_rate=p)
        call, want = (lambda: model(X)), E
    else:
        X = X / 8
        model = dn.Discriminator(n, n, n, drop_rate=p)
        call, want = (lambda: torch.logit(model(X))), X.double().numpy()
    unit_layers(model, n)
    model.train()
    with torch.no_grad():
        out = call().double().numpy()
        if p == 0.8 and k in ("BGNN_MLP", "Discriminator"):
            return [k]      # saturated output layers
    if k in ("GAT", "UniGAT"):
        out = np.hstack([out[:, i * n:(i + 1) * n] for i in range(c["heads"])])
    scaled = want / (1 - p) ** stages
    zero = np.abs(out) < 1e-6
    ok = np.isclose(out, scaled, rtol=2e-3, atol=1e-4) | zero
    require(ok.all(), "%s in training mode: neither dropped nor rescaled: %s, evaluation value %s", k, out.tolist(), want.tolist())
    if stages == 2:                              # the first stage is shared by the heads
        kept_share(int((~zero[:, :n]).sum()), n * n, 1 - (1 - p) ** 2, k)
    else:
        kept_share(int((~zero).sum()), out.size, p, k)
    return [k, "nt"]


def check_rate_rec(c):
    """LightGCN drops entries of the propagation matrix; NGCF and DHCF drop entries of the layer's embedding and then
    normalise its rows."""
    k, p, nu, nv = c["kind"], c["rate"], 5, 5
    g, m = build_bigraph(dhg, dict(nu=nu, nv=nv, e=c["e"], w=None))
    N = nu + nv
    A1 = m.A() + np.eye(N)
    dh = np.diag(A1.sum(1) ** -0.5)
    L = dh @ A1 @ dh
    d = N if k == "LightGCN" else 24
    model = getattr(dm, k)(nu, nv, d, num_layers=1, drop_rate=p)
    R.randomise(model, c["ps"])
    if k == "LightGCN":
        with torch.no_grad():
            model.u_embedding.weight.copy_(torch.eye(N)[:nu])
            model.i_embedding.weight.copy_(torch.eye(N)[nu:])
    E = np.vstack([R.P(model.u_embedding.weight), R.P(model.i_embedding.weight)])
    hu, mu = build_hyper(dhg, dict(n=nu, groups=[["main", [[0, 1], [2, 3, 4]], None]], vw=None))
    model.train()
    with torch.no_grad():
        u, v = model(hu, hu) if k == "DHCF" else model(g)
    layer = 2 * torch.cat([u, v]).double().numpy() - E
    if k == "LightGCN":
        layer[np.abs(layer) < 1e-6] = 0
        keep = masked(layer, L, "LightGCN's propagation in training mode", atol=1e-4)
        kept_share(int(keep.sum()), int((L != 0).sum()), p, k)
        return [k, "nt"]
    if k == "NGCF":
        S = L @ E
        full = R.leaky(R.lin(model.W_gc[0], S), 0.2) + R.leaky(R.lin(model.W_bi[0], E * S), 0.2)
    else:
        Lu = R.H(mu).hgnn
        S = np.vstack([Lu @ E[:nu], Lu @ E[nu:]])
        full = R.leaky(R.lin(model.W_gc[0], S) + E, 0.2) + R.leaky(R.lin(model.W_bi[0], E * S), 0.2)
    keep = np.abs(layer) > 2e-5
    sure = np.abs(full) > 0.1
    want = l2n(np.where(keep, full, 0.0))
    near(layer, want, f"{k}: layer embedding with dropped entries, rows normalised", rtol=5e-3, atol=5e-4)
    kept_share(int((keep & sure).sum()), int(sure.sum()), p, k)
    return [k, "nt"]


SUBS = [Sub("rates", ratecases, check_rate, quick=300, shards=3),
        Sub("graph", gcases, check_g, quick=800, shards=3), Sub("hyper", hcases, check_h, quick=1400, shards=4),
        Sub("recommend", rcases, check_r, quick=800, shards=3), Sub("training", tcases, check_train, quick=160, shards=2), Sub("wrappers", wcases, check_w, quick=500, shards=2),
        Sub("dropout", dcases, check_d, quick=120, shards=3),
        Sub("large_graph", lambda: gen.large(gcases()), check_g, quick=24, shards=3), Sub("large_hyper", lambda: gen.large(hcases()), check_h, quick=32, shards=4)]
