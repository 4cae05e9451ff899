import copy
from hypothesis import strategies as st
import numpy as np
import torch
import dhg
import dhg.nn as dn
import dhg.models as dm
from harness import gen, refconv as R
from harness.core import Sub, require, seed_all, Violation
from harness.refmodel import build_graph, build_digraph, build_bigraph, build_hyper, check_graph, check_digraph, check_bigraph, check_hyper
from harness.util import same, feats, dense, safe_pow
from props import p07, p08, p17

PROPERTY = "P34"
RULE = ("a case is a propagation or smoothing call with custom weights, a convolution layer, or a model on a random "
        "structure, with random features and a random cotangent; the gradients by the features, the custom weights and "
        "every trainable parameter are compared, along random directions, with central differences of the "
        "double-precision reference (directions on which the reference has a kink are skipped), a second forward and "
        "backward pass gives the same gradients, and nothing but the leaves that asked for gradients gets one. "
        "Non-trivial: at least two edges (hyperedges) and a gradient that is not zero.")


class Out(Exception):
    """the case sits on a kink of the function"""


def compare(got, ref, point, seed, what, rtol=4e-3, scale=1.0):
    """got: {name: gradient}; point: {name: float64 array}; ref(point) -> scalar. Checks two directions per name."""
    rng = np.random.RandomState(seed % 2 ** 32)
    nonzero = False
    R.MARGIN[0] = np.inf
    f0 = ref(point)
    if R.MARGIN[0] < 2e-5:
        raise Out()
    for name in sorted(point):
        x = point[name]
        if x.size == 0:
            continue
        gd = got[name]
        require(gd is not None, "%s: no gradient by %s", what, name)
        gd = np.asarray(gd.detach().double().cpu().numpy())
        require(gd.shape == x.shape, "%s: gradient by %s has shape %s", what, name, gd.shape)
        require(np.isfinite(gd).all(), "%s: gradient by %s is not finite: %s", what, name, gd.tolist())
        for rep in range(2):
            d = rng.choice([-1.0, 1.0], size=x.shape) * rng.uniform(0.3, 1.0, size=x.shape)
            if rep:
                d = d * (rng.uniform(size=x.shape) < 0.4)
            h = 1e-5
            up, down = ref(dict(point, **{name: x + h * d})), ref(dict(point, **{name: x - h * d}))
            fd, kink = (up - down) / (2 * h), abs(up - 2 * f0 + down) / h
            size = np.sqrt(((gd * d) ** 2).sum()) + abs(fd)
            if kink > 1e-2 * size + 1e-3:
                raise Out()
            an = float((gd * d).sum())
            require(abs(an - fd) <= rtol * size + 2e-3 * scale, "%s: derivative by %s along a direction is %r, the gradient gives %r (gradient %s)",
                    what, name, fd, an, gd.tolist())
            nonzero |= abs(fd) > 1e-3
    return nonzero


def cot(seed, shape):
    return np.random.RandomState((seed + 7) % 2 ** 32).randint(-8, 9, size=shape) / 4.0


def backward(call, leaves, seed):
    """Two passes; returns the gradients of the first."""
    out = []
    for rep in range(2):
        for t in leaves.values():
            t.grad = None
        y = call()
        require(y.requires_grad, "the result does not depend on its differentiable inputs")
        (y * torch.tensor(cot(seed, tuple(y.shape)), dtype=y.dtype)).sum().backward()
        out.append({k: None if t.grad is None else t.grad.clone() for k, t in leaves.items()})
    for k in leaves:
        a, b = (o[k] for o in out)
        require((a is None) == (b is None) and (a is None or torch.allclose(a, b, rtol=1e-4, atol=1e-5, equal_nan=True)),
                "a second backward pass gives another gradient by %s: %s then %s", k, a, b)
    return out[0]


def leaf(t):
    return t.clone().requires_grad_()


def arr(t):
    return t.detach().double().numpy().copy()


# ---- propagation -------------------------------------------------------------------------------------------------

@st.composite
def pcases(draw):
    kind = draw(st.sampled_from(["g", "d", "b", "gcn", "lap", "bgcn"]))
    c = draw(gen.bigraph_case() if kind[0] == "b" else gen.graph_case(hi=7, big=10))
    if kind[0] != "b":
        c["extra"] = draw(st.booleans())
    c["kind"], c["aggr"], c["dir"] = kind, draw(st.sampled_from(p07.AGGR)), draw(st.booleans())
    c["ew"] = draw(st.one_of(st.none(), gen.seeds, gen.seeds))
    c["xs"], c["d"], c["lamb"] = draw(gen.seeds), draw(st.integers(1, 3)), draw(st.integers(-8, 8)) / 4
    c["need"] = draw(st.sampled_from(["both", "both", "x", "w"]))
    return c


def check_p(c):
    k = c["kind"]
    if k[0] == "b":
        g, m = build_bigraph(dhg, c)
        base, unit = (m.B().T, m.B(True).T) if c["dir"] else (m.B(), m.B(True))
        src, dst = (g.e_u, g.e_v) if c["dir"] else (g.e_v, g.e_u)
        f = g.u2v if c["dir"] else g.v2u
    elif k == "d":
        g, m = build_digraph(dhg, c)
        base, unit = (m.A().T, m.A(True).T) if c["dir"] else (m.A(), m.A(True))
        src, dst = (g.e_src, g.e_dst) if c["dir"] else (g.e_dst, g.e_src)
        f = lambda X, **kw: g.v2v(X, direction="src2dst" if c["dir"] else "dst2src", **kw)
    else:
        g, m = build_graph(dhg, c)
        base, unit, f, src, dst = m.A(), m.A(True), g.v2v, g.e_src, g.e_dst
    linear = k in ("gcn", "lap", "bgcn")
    if linear:
        A = m.A() + np.eye(len(m.A())) if k == "bgcn" else R.G(m).A
        n = len(A)
        if k == "bgcn":
            hd = np.diag(safe_pow(A.sum(1), -0.5))
            M = hd @ A @ hd
        elif k == "gcn":
            M = R.G(m).gcn
        else:
            A0 = A - np.diag(np.diag(A))
            M = np.diag(A0.sum(1)) - A0
        call = (lambda X: g.smoothing(X, g.L if k == "lap" else g.L_GCN, c["lamb"])) if (k == "lap" or c["dir"]) else g.smoothing_with_GCN
        if k == "lap" or c["dir"]:
            M = np.eye(n) + c["lamb"] * M
        X = leaf(feats(c["xs"], n, c["d"]))
        got = backward(lambda: call(X), {"X": X}, c["xs"])
        Rm = cot(c["xs"], (n, c["d"]))
        nz = compare(got, lambda p: float((Rm * (M @ p["X"])).sum()), {"X": arr(X)}, c["xs"], k)
    else:
        X = feats(c["xs"], base.shape[1], c["d"])
        leaves = {}
        if c["ew"] is None or c["need"] != "w":
            X = leaves["X"] = leaf(X)
        kw = {"aggr": c["aggr"]}
        if c["ew"] is not None:
            w = p07.ew_values(c["ew"], len(src), c["aggr"] != "mean")
            if c["need"] != "x":
                w = leaves["w"] = leaf(w)
            kw["e_weight"] = w
        point = {n_: arr(t) for n_, t in leaves.items()}
        mask = unit != 0
        Rm = cot(c["xs"], (base.shape[0], c["d"]))
        s_, d_ = src.tolist(), dst.tolist()

        def ref(p):
            P = base
            if c["ew"] is not None:
                P = np.zeros_like(base)
                P[d_, s_] = p.get("w", None) if "w" in p else arr(w)
            return float((Rm * p07.reference(P, mask, c["aggr"], p["X"] if "X" in p else arr(X))).sum())
        got = backward(lambda: f(X, **kw), leaves, c["xs"])
        nz = compare(got, ref, point, c["xs"], f"{k} {c['aggr']}")
        require(not f(X.detach(), **{a: (b.detach() if a == "e_weight" else b) for a, b in kw.items()}).requires_grad, "a result without differentiable inputs requires a gradient")
    {"b": check_bigraph, "d": check_digraph}.get(k[0], check_graph)(g, m)
    return [k] + (["nt"] if nz and len(c["e"]) >= 2 else [])


@st.composite
def hpcases(draw):
    c = draw(gen.hyper_case(hi=7, big=10, max_e=4))
    c["target"] = draw(st.integers(-2, 2))
    c["op"] = draw(st.sampled_from(["v2e_aggregation", "e2v_aggregation", "v2e_update", "v2e", "e2v", "v2v", "v2v", "smooth", "hgnn"]))
    c["aggr"] = draw(st.sampled_from(p08.AGGR))
    c["a2"] = draw(st.one_of(st.none(), st.sampled_from(p08.AGGR)))
    for k in ("w1", "w2", "we"):
        c[k] = draw(st.one_of(st.none(), gen.seeds))
    c["xs"], c["d"], c["lamb"] = draw(gen.seeds), draw(st.integers(1, 3)), draw(st.integers(-8, 8)) / 4
    return c


def check_hp(c):
    h, m = build_hyper(dhg, c)
    names = sorted(m.g)
    name = None if c["target"] < 0 else names[c["target"] % len(names)]
    r = p08.Ref(h, name)
    n, ne = r.H.shape
    nnz, op = int(r.H.sum()), c["op"]
    pre = [] if name is None else [name]
    fn = getattr(h, {"hgnn": "smoothing_with_HGNN"}.get(op, op) + ("" if name is None else "_of_group")) if op != "smooth" else None
    a1, a2 = c["aggr"], (c["a2"] or c["aggr"]) if op == "v2v" else c["aggr"]
    from_e = op in ("e2v", "e2v_aggregation", "v2e_update")
    leaves = {"X": leaf(feats(c["xs"], ne if from_e else n, c["d"]))}
    uses = {"v2e_aggregation": ["w1"], "e2v_aggregation": ["w2"], "v2e_update": ["we"], "v2e": ["w1", "we"], "e2v": ["w2"], "v2v": ["w1", "we", "w2"]}.get(op, [])
    for u in uses:
        if c[u] is not None:
            leaves[u] = leaf(p08.vals(c[u], ne if u == "we" else nnz, u == "we" or (a1 if u == "w1" else a2) != "mean"))
    X, w1, w2, we = (leaves.get(u) for u in ("X", "w1", "w2", "we"))
    dv = r.H @ r.w if ne else np.zeros(n)
    d12, Dei = np.diag(safe_pow(dv, -0.5)), np.diag(safe_pow(r.H.sum(0), -1)) if ne else np.zeros((0, 0))
    L = d12 @ r.H @ np.diag(r.w) @ Dei @ r.H.T @ d12 if ne else np.zeros((n, n))
    if op == "smooth":
        call = lambda: h.smoothing(X, h.L_HGNN if name is None else h.L_HGNN_of_group(name), c["lamb"])
        f = lambda p: p["X"] + c["lamb"] * L @ p["X"]
    elif op == "hgnn":
        call, f = lambda: fn(*pre, X), lambda p: L @ p["X"]
    else:
        kw = {"v2e_aggregation": dict(aggr=a1, v2e_weight=w1), "e2v_aggregation": dict(aggr=a2, e2v_weight=w2), "v2e_update": dict(e_weight=we),
              "v2e": dict(aggr=a1, v2e_weight=w1, e_weight=we), "e2v": dict(aggr=a2, e2v_weight=w2),
              "v2v": dict(aggr=a1, v2e_weight=w1, e_weight=we, e2v_aggr=c["a2"], e2v_weight=w2)}[op]
        call = lambda: fn(*pre, X, **kw)
        ix = {pr: (r.get(pr + "_dst").tolist(), r.get(pr + "_src").tolist()) for pr in ("v2e", "e2v")}

        def mat(base, aggr, w, pr, deg):
            mask, P = base != 0, base
            if w is not None:
                P = np.zeros_like(base)
                P[ix[pr]] = w
                deg = P.sum(1)
            return P if aggr == "sum" else safe_pow(deg, -1)[:, None] * P if aggr == "mean" else p08.row_softmax(P, mask)

        def f(p):
            Y = p["X"]
            if op in ("v2e_aggregation", "v2e", "v2v"):
                Y = mat(r.H.T, a1, p.get("w1"), "v2e", r.H.sum(0)) @ Y
            if op in ("v2e_update", "v2e", "v2v"):
                Y = (p["we"] if "we" in p else r.w)[:, None] * Y
            if op in ("e2v_aggregation", "e2v", "v2v"):
                Y = mat(r.H, a2, p.get("w2"), "e2v", dv) @ Y
            return Y
    point = {k: arr(t) for k, t in leaves.items()}
    Rm = cot(c["xs"], f(point).shape)
    got = backward(call, leaves, c["xs"])
    nz = compare(got, lambda p: float((Rm * f(p)).sum()), point, c["xs"], f"{op} {a1}/{a2} group={name}")
    check_hyper(h, m)
    return [op] + (["nt"] if nz and ne >= 2 else [])


@st.composite
def dcases(draw):
    return dict(kind=draw(st.sampled_from(["g", "d", "ds", "b", "bv", "gcn", "v2e", "e2v", "v2eg", "e2vg", "hgnn"])), seed=draw(gen.seeds), rate=draw(st.sampled_from([0.2, 0.5, 0.8])),
                dens=draw(st.sampled_from([0.6, 0.2])),
                w=draw(st.booleans()), aggr=draw(st.sampled_from(["mean"] + p07.AGGR)))


def check_drop(c):
    """With a drop rate, the gradient follows exactly the messages the forward pass delivered."""
    n, k, pre = 8, c["kind"], []
    rng = np.random.RandomState(c["seed"] % 2 ** 32)
    e = [[i, j] for i in range(n) for j in range(n) if i != j and rng.uniform() < c["dens"]] + [[0, 1]]
    X = leaf(torch.eye(n))
    kw = dict(aggr=c["aggr"], drop_rate=c["rate"])
    w = None
    if k == "g":
        g = dhg.Graph(n, e); f = g.v2v; dst, src = g.e_dst, g.e_src
    elif k in ("d", "ds"):
        g = dhg.DiGraph(n, e); f = g.v2v; dst, src = (g.e_src, g.e_dst) if k == "d" else (g.e_dst, g.e_src)
        kw["direction"] = "dst2src" if k == "d" else "src2dst"
    elif k in ("b", "bv"):
        g = dhg.BiGraph(n, n, e); f = g.u2v if k == "b" else g.v2u; dst, src = (g.e_v, g.e_u) if k == "b" else (g.e_u, g.e_v)
    elif k == "gcn":
        g = dhg.Graph(n, e); f = g.smoothing_with_GCN; kw = dict(drop_rate=c["rate"])
    else:
        g = dhg.Hypergraph(n, [[j for j in range(n) if rng.uniform() < c["dens"]] or [0] for _ in range(n + 3)])
        g.add_hyperedges([[0, 1], [2]], group_name="z")
        if k == "hgnn":
            f, kw = g.smoothing_with_HGNN, dict(drop_rate=c["rate"])
        else:
            of = "_of_group" if k[-1] == "g" else ""
            pre = ["main"] if of else []
            k = k.rstrip("g")
            ne = g.num_e_of_group("main") if of else g.num_e
            f = getattr(g, k + "_aggregation" + of)
            X = leaf(torch.eye(n if k == "v2e" else ne))
            src, dst = (getattr(g, f"{k}_{x}{of}") for x in ("src", "dst"))
            src, dst = (src(*pre), dst(*pre)) if of else (src, dst)
    weighted = c["w"] and k not in ("gcn", "hgnn")
    if weighted:
        w = leaf(torch.full((len(src),), 2.0))
        kw["e_weight" if k not in ("v2e", "e2v") else k + "_weight"] = w
    seed_all(c["seed"])
    out = f(*pre, X, **kw)
    M, Rm = arr(out), cot(c["seed"], tuple(out.shape))
    (out * torch.tensor(Rm, dtype=torch.float32)).sum().backward()
    require(np.allclose(arr(X.grad), M.T @ Rm, rtol=1e-4, atol=1e-4), "%s with dropout: gradient %s, expected %s", k, X.grad.tolist(), (M.T @ Rm).tolist())
    if weighted:
        require(w.grad is not None, "%s %s with dropout: no gradient by the weights", k, c["aggr"])
        src, dst, got = src.tolist(), dst.tolist(), arr(w.grad)
        for t in range(M.shape[0]):  # M[t] is the row of the operator that the forward pass applied
            ix = [i for i in range(len(src)) if dst[i] == t]
            m, r = np.array([M[t, src[i]] for i in ix]), np.array([Rm[t, src[i]] for i in ix])
            if not ix:
                continue
            options = []
            if c["aggr"] == "sum":
                options = [r * m / 2]
            elif c["aggr"] == "mean":
                kept = m != 0
                options = [kept * (r - (r * m).sum()) / max(2.0 * kept.sum(), 1)]
            else:
                d = m * (r - (r * m).sum())
                lo = m.min() * 1.5 < m.max()
                options = [(m > m.mean()) * d] if lo else [d, 0 * d]
            require(any(np.allclose(got[ix], o, rtol=1e-4, atol=1e-4) for o in options),
                    "%s %s with dropout: gradient by the weights of the messages to %s is %s, expected %s", c["kind"], c["aggr"], t, got[ix].tolist(), options[0].tolist())
    return ["nt", c["kind"]]


# ---- layers ------------------------------------------------------------------------------------------------------

def module_grads(mod, call, ref, X, seed, what):
    """call(X) runs the module; ref(double copy, X array) is the reference."""
    leaves = {"X": X} if X is not None else {}
    params = dict(mod.named_parameters())
    leaves.update({"p." + k: t for k, t in params.items()})
    twin = copy.deepcopy(mod).double()
    tp = dict(twin.named_parameters())
    point = {k: arr(t) for k, t in leaves.items()}

    def f(p):
        with torch.no_grad():
            for k, t in tp.items():
                t.copy_(torch.from_numpy(p["p." + k]))
        return ref(twin, p.get("X"))
    Rm = cot(seed, f(point).shape)
    got = backward(call, leaves, seed)
    # a parameter the result does not depend on may have no gradient at all
    for k in leaves:
        if got[k] is None:
            got[k] = torch.zeros_like(leaves[k])
    return compare(got, lambda p: float((Rm * f(p)).sum()), point, seed, what)


def layer(o, conv, X, rs, call):
    k = o["kind"]
    ref = dict(hypergcn=R.gcn).get(k) or getattr(R, k)
    training = o["mode"] != "eval" and (not o["bn"] or X.shape[0] >= 2)
    conv.train(training)
    for m in conv.modules():
        if isinstance(m, torch.nn.Dropout):
            m.p = 0.0
    kw = dict(is_last=o["last"], bn=o["bn"], slope=o["slope"], eps=o["eps"], training=training)
    eps = [n for n, p in conv.named_parameters() if n.split(".")[-1] == "eps"]
    require(bool(eps) == (k in ("gin", "unigin") and o["train_eps"]), "a %s layer with train_eps=%s has trainable epsilons %s", k, o["train_eps"], eps)
    stds = []
    probe = R.bnorm

    def spy(b, Z, t=False):
        if t:
            stds.append(Z.std(0).min())
        return probe(b, Z, t)

    def f(mod, Z):
        kk = dict(kw)
        if k == "gin":
            kk["mlp"] = R.mlp_ref(mod, o["layers"], o["bn"], o["last"], training=training)
        if eps:
            kk["eps"] = float(dict(mod.named_parameters())[eps[0]].detach())
        return ref(mod, Z, rs, **kk)
    R.bnorm = spy
    try:
        f(copy.deepcopy(conv).double(), arr(X))
        if min(stds, default=1.0) < 0.2:
            raise Out()
        return module_grads(conv, lambda: call(X), f, X, o["xs"], f"{k} layer")
    finally:
        R.bnorm = probe


def check_lg(c):
    o = c["o"]
    g, m = build_graph(dhg, c)
    conv = p17.make(o)
    X = leaf(feats(o["xs"], c["n"], o["din"]))
    nz = layer(o, conv, X, R.G(m), lambda X: conv(X, g))
    check_graph(g, m)
    return [o["kind"]] + (["nt"] if nz and len(m.e) >= 2 else [])


def check_lh(c):
    o = c["o"]
    h, m = build_hyper(dhg, c)
    conv = p17.make(o)
    if o["kind"] == "hypergcn":
        u = np.random.RandomState(o["xs"] % 2 ** 32).randint(1, 6, size=o["din"]) / 4
        X = leaf(torch.tensor(np.outer(np.array(c["vals"]) - len(c["vals"]) / 2, u), dtype=torch.float32))
        rs = R.hypergcn_graph(m, c["vals"], o["med"])
    else:
        X, rs = leaf(feats(o["xs"], c["n"], o["din"])), R.H(m)
    nz = layer(o, conv, X, rs, lambda X: conv(X, h))
    check_hyper(h, m)
    return [o["kind"]] + (["nt"] if nz and len(m.edges()) >= 2 else [])


# ---- models ------------------------------------------------------------------------------------------------------

MODELS = ["GCN", "GAT", "GraphSAGE", "GIN", "HGNN", "HGNNP", "HNHN", "UniGCN", "UniGAT", "UniSAGE", "UniGIN", "LightGCN", "NGCF", "DHCF", "BGNN_Adv", "BGNN_MLP", "multi", "disc"]


@st.composite
def mcases(draw):
    from props import p18
    k = draw(st.sampled_from(MODELS))
    o = draw(p18.hp(k, st.integers(1, 4)))
    c = dict(o=o, nl=draw(st.integers(1, 3)), emb=draw(st.integers(1, 3)), readout=draw(st.sampled_from(["concat", "mean", "sum"])))
    if k in ("LightGCN", "NGCF", "DHCF", "BGNN_Adv", "BGNN_MLP"):
        c.update(draw(gen.bigraph_case(hi=5, big=6, min_e=2)))
        c["hu"], c["hv"] = draw(gen.hyperedges(c["nu"], min_size=1, max_size=4)), draw(gen.hyperedges(c["nv"], min_size=1, max_size=4))
        c["w"] = None
    elif k in ("GCN", "GAT", "GraphSAGE", "GIN", "multi", "disc"):
        c.update(draw(gen.graph_case(lo=2, hi=6, big=8, min_e=2)))
        c["extra"] = False
    else:
        c.update(draw(gen.hyper_case(lo=2, hi=6, big=8, min_e=2, max_e=4)))
    return c


def check_m(c):
    o = c["o"]
    k, args = o["kind"], (o["din"], o["hid"], o["out"])
    kw = dict(use_bn=o["bn"], drop_rate=o["rate"])
    X, rec = None, k in ("LightGCN", "NGCF", "DHCF", "BGNN_Adv", "BGNN_MLP")
    if k in ("GCN", "GAT", "GraphSAGE", "GIN", "multi", "disc"):
        g, m = build_graph(dhg, c)
        s, n, fin = R.G(m), m.n, check_graph
        if k == "GAT":
            mod = dm.GAT(*args, o["heads"], atten_neg_slope=o["slope"], **kw)
        elif k == "GIN":
            mod = dm.GIN(*args, o["layers"], num_mlp_layers=o["mlp"], eps=o["eps"], train_eps=False, **kw)
        elif k == "multi":
            mod = dn.MultiHeadWrapper(o["heads"], c["readout"], dn.GCNConv, in_channels=o["din"], out_channels=o["out"], use_bn=o["bn"])
        elif k == "disc":
            mod = dn.Discriminator(*args, drop_rate=o["rate"])
        else:
            mod = getattr(dm, k)(*args, **kw)
    elif rec:
        g, m = build_bigraph(dhg, c)
        fin = check_bigraph
        nu, nv, nl, d = c["nu"], c["nv"], c["nl"], c["emb"]
        if k == "BGNN_Adv":
            mod = dm.BGNN_Adv(o["din"], o["out"], layer_depth=nl)
        elif k == "BGNN_MLP":
            mod = dm.BGNN_MLP(o["din"], o["out"], o["hid"], o["heads"], drop_rate=o["rate"], layer_depth=nl)
        else:
            mod = getattr(dm, k)(nu, nv, d, num_layers=nl, drop_rate=o["rate"])
    else:
        g, m = build_hyper(dhg, c)
        s, n, fin = R.H(m), m.n, check_hyper
        if k == "UniGAT":
            mod = dm.UniGAT(*args, o["heads"], atten_neg_slope=o["slope"], **kw)
        elif k == "UniGIN":
            mod = dm.UniGIN(*args, eps=o["eps"], train_eps=False, **kw)
        else:
            mod = getattr(dm, k)(*args, **kw)
    R.randomise(mod, o["ps"]).eval()
    if rec and k not in ("BGNN_Adv", "BGNN_MLP"):
        A1 = m.A() + np.eye(nu + nv)
        hd = np.diag(A1.sum(1) ** -0.5)
        L = hd @ A1 @ hd
        if k == "DHCF":
            hu, mu = build_hyper(dhg, dict(n=nu, groups=[["main", c["hu"], None]], vw=None))
            hv, mv = build_hyper(dhg, dict(n=nv, groups=[["main", c["hv"], None]], vw=None))
            Lu, Lv = R.H(mu).hgnn, R.H(mv).hgnn
        call = lambda X: torch.cat(mod(hu, hv) if k == "DHCF" else mod(g))

        def ref(t, Z):
            E = np.vstack([R.P(t.u_embedding.weight), R.P(t.i_embedding.weight)])
            outs = [E]
            for i in range(nl):
                if k == "LightGCN":
                    E = L @ E
                else:
                    S = L @ E if k == "NGCF" else np.vstack([Lu @ E[:nu], Lv @ E[nu:]])
                    E = R.leaky(R.lin(t.W_gc[i], S) + (E if k == "DHCF" else 0), 0.2) + R.leaky(R.lin(t.W_bi[i], E * S), 0.2)
                    nrm = np.linalg.norm(E, axis=1, keepdims=True)
                    if nrm.min() < 0.05:
                        raise Out()
                    E = E / nrm
                outs.append(E)
            return np.mean(outs, axis=0)
    elif rec:
        Xu, Xv = feats(o["xs"], nu, o["din"]), feats(o["ps"], nv, o["out"])
        X = leaf(torch.cat([Xu.reshape(-1), Xv.reshape(-1)]))
        B, cut = m.B(), Xu.numel()
        call = lambda X: mod(X[:cut].view_as(Xu), X[cut:].view_as(Xv), g)

        def ref(t, Z):
            lu, lv = Z[:cut].reshape(Xu.shape), Z[cut:].reshape(Xv.shape)
            for i in range(nl):
                dec = (lambda Y: Y) if k == "BGNN_Adv" else (lambda Y: decode(t.decoders[i], Y))
                if i % 2 == 0:
                    lu = dec(np.tanh(B @ R.lin(t.layers[i], lv)))
                else:
                    lv = dec(np.tanh(B.T @ R.lin(t.layers[i], lu)))
            return lu
    else:
        X = leaf(feats(o["xs"], n, o["din"]))
        call = (lambda X: mod(X=X, g=g)) if k == "multi" else (lambda X: mod(X)) if k == "disc" else (lambda X: mod(X, g))

        def ref(t, Z):
            if k in ("GAT", "UniGAT"):
                f = R.gat if k == "GAT" else R.unigat
                Y = np.hstack([f(x, Z, s, bn=o["bn"], slope=o["slope"]) for x in t.multi_head_layer.layers])
                return f(t.out_layer, Y, s, bn=o["bn"], slope=o["slope"])
            if k == "GIN":
                want, Y = R.lin(t.pred_layers[0], Z), Z
                for i, l in enumerate(t.layers):
                    Y = R.gin(l, Y, s, eps=o["eps"], mlp=R.mlp_ref(l, o["mlp"], o["bn"]))
                    want = want + R.lin(t.pred_layers[i + 1], Y)
                return want
            if k == "multi":
                outs = [R.gcn(x, Z, s, bn=o["bn"]) for x in t.layers]
                return {"concat": lambda: np.hstack(outs), "mean": lambda: np.mean(outs, 0), "sum": lambda: np.sum(outs, 0)}[c["readout"]]()
            if k == "disc":
                l1, l2 = [x for x in t.modules() if isinstance(x, torch.nn.Linear)]
                return 1 / (1 + np.exp(-R.lin(l2, R.leaky(R.lin(l1, Z), 0.01))))
            f = dict(GraphSAGE=R.sage).get(k) or getattr(R, k.lower())
            return f(t.layers[1], f(t.layers[0], Z, s, bn=o["bn"], eps=o["eps"]), s, is_last=True, eps=o["eps"])
    nz = module_grads(mod, lambda: call(X), ref, X, o["xs"], f"model {k}")
    fin(g, m)
    return [k] + (["nt"] if nz else [])


def decode(dec, Z):
    l1, l2 = [x for x in dec.modules() if isinstance(x, torch.nn.Linear)]
    return np.tanh(R.lin(l2, R.relu(R.lin(l1, Z))))


def skip(f):
    def g(c):
        try:
            return f(c)
        except Out:
            return ["kink"]
    return g


def narrow(c):
    """Few features: finite differences through hundreds of kinks tell nothing."""
    return dict(c, o=dict(c["o"], din=(c["o"]["din"] - 1) % 4 + 1, dout=(c["o"]["dout" if c["o"]["kind"] != "jh" else "din"] - 1) % 4 + 1))


SUBS = [Sub("propagate", pcases, skip(check_p), quick=1200, shards=4), Sub("hyper", hpcases, skip(check_hp), quick=1200, shards=4),
        Sub("dropout", dcases, check_drop, quick=200, shards=2), Sub("layer_graph", lambda: p17.gcases().map(narrow), skip(check_lg), quick=500, shards=3),
        Sub("layer_hyper", lambda: p17.hcases().map(narrow), skip(check_lh), quick=900, shards=4), Sub("model", mcases, skip(check_m), quick=700, shards=4),
        Sub("large_propagate", lambda: gen.large(pcases()), skip(check_p), quick=30, shards=3),
        Sub("large_hyper", lambda: gen.large(hpcases()), skip(check_hp), quick=40, shards=4)]
