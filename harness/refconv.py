"""Dense float64 references of the convolution layers, computed from a structure's reference model."""
import numpy as np
import torch
import torch.nn as nn

from .util import safe_pow, row_softmax, dense
from .refmodel import incidence


def P(x):
    return x.detach().cpu().double().numpy()


def lin(l, X):
    Y = X @ P(l.weight).T
    return Y + P(l.bias) if l.bias is not None else Y


MARGIN = [np.inf]      # smallest distance, since it was reset, of an activation's argument from a kink


def note(X):
    X = np.abs(X[X != 0])
    if X.size:
        MARGIN[0] = min(MARGIN[0], X.min())


def relu(X):
    note(X)
    return np.maximum(X, 0)


def leaky(X, s):
    note(X)
    return np.where(X > 0, X, s * X)


def clip(X):
    note(X - 0.001)
    note(X - 5)
    return np.clip(X, 0.001, 5)


def elu(X):
    return np.where(X > 0, X, np.exp(np.minimum(X, 0)) - 1)


def bnorm(b, X, training=False):
    if training:
        mu, var = X.mean(0), X.var(0)
    else:
        mu, var = P(b.running_mean), P(b.running_var)
    return (X - mu) / np.sqrt(var + b.eps) * P(b.weight) + P(b.bias)


class G:
    """What the formulas need of a graph: A and the renormalised matrix."""

    def __init__(self, m):
        self.n, self.A, self.mask = m.n, m.A(), m.A(True) != 0
        m1 = m.copy()
        m1.extra = True
        A1 = m1.A()
        h = np.diag(safe_pow(A1.sum(1), -0.5))
        self.gcn = h @ A1 @ h
        self.Dinv = np.diag(safe_pow(self.A.sum(1), -1))


class H:
    """What the formulas need of a hypergraph; columns sorted, vertex-level results do not depend on their order."""

    def __init__(self, m):
        self.m = m
        items = m.edges()
        self.n = m.n
        self.e = [k for k, _ in items]
        self.H = incidence(m.n, self.e)
        w = np.array([x for _, x in items])
        self.w = w
        self.W = np.diag(w) if len(w) else np.zeros((0, 0))
        self.dv = self.H @ w if len(w) else np.zeros(m.n)
        self.de = self.H.sum(0)
        self.Dei = np.diag(safe_pow(self.de, -1)) if len(w) else np.zeros((0, 0))
        self.Dvi = np.diag(safe_pow(self.dv, -1))
        self.Dv12 = np.diag(safe_pow(self.dv, -0.5))
        self.hgnn = self.Dv12 @ self.H @ self.W @ self.Dei @ self.H.T @ self.Dv12

    def v2e_mean(self, X):
        return self.W @ self.Dei @ self.H.T @ X


def tail(conv, X, is_last, use_bn, act, training=False):
    if is_last:
        return X
    X = act(X)
    return bnorm(conv.bn, X, training) if use_bn else X


def gcn(c, X, s, is_last=False, bn=False, training=False, **k):
    return tail(c, s.gcn @ lin(c.theta, X), is_last, bn, relu, training)


def sage(c, X, s, is_last=False, bn=False, training=False, **k):
    return tail(c, lin(c.theta, np.hstack([X, s.Dinv @ s.A @ X])), is_last, bn, relu, training)


def gat(c, X, s, is_last=False, bn=False, slope=0.2, training=False, **k):
    X = lin(c.theta, X)
    a, b = lin(c.atten_src, X)[:, 0], lin(c.atten_dst, X)[:, 0]
    score = clip(leaky(b[:, None] + a[None, :], slope))
    return tail(c, row_softmax(score, s.mask) @ X, is_last, bn, elu, training)


def gin(c, X, s, eps=0.0, mlp=None, training=False, **k):
    return mlp((1 + eps) * X + s.A @ X)


ACTS = {"ReLU": lambda X: relu(X), "LeakyReLU": lambda X, negative_slope=0.01: leaky(X, negative_slope), "Tanh": np.tanh,
        "ELU": lambda X, alpha=1.0: np.where(X > 0, X, alpha * (np.exp(np.minimum(X, 0)) - 1)),
        "Softplus": lambda X, beta=1.0: np.logaddexp(0, beta * X) / beta, "Hardtanh": lambda X, min_val=-1.0, max_val=1.0: np.clip(X, min_val, max_val)}


def mlp_ref(m, n_layers, bn, is_last=False, training=False, act=None):
    """Linear, ReLU, (batch norm) n_layers times; the parameters are taken in module order."""
    lins = [x for x in m.modules() if isinstance(x, nn.Linear)]
    bns = [x for x in m.modules() if isinstance(x, nn.BatchNorm1d)]

    def f(X):
        assert len(lins) == n_layers, "number of linear layers: %d" % len(lins)
        for i, l in enumerate(lins):
            X = lin(l, X)
            if is_last and i == n_layers - 1:
                return X
            X = (act or relu)(X)
            if bn:
                X = bnorm(bns[i], X, training)
        return X
    return f


def hgnn(c, X, s, is_last=False, bn=False, training=False, **k):
    return tail(c, s.hgnn @ lin(c.theta, X), is_last, bn, relu, training)


def jh(c, X, s, is_last=False, bn=False, training=False, **k):
    return tail(c, s.hgnn @ lin(c.theta, X) + X, is_last, bn, relu, training)


def hgnnp(c, X, s, is_last=False, bn=False, training=False, **k):
    return tail(c, s.Dvi @ s.H @ s.v2e_mean(lin(c.theta, X)), is_last, bn, relu, training)


def hnhn(c, X, s, is_last=False, bn=False, training=False, **k):
    Y = lin(c.theta_e2v, relu(s.v2e_mean(lin(c.theta_v2e, X))))
    return tail(c, s.Dvi @ s.H @ Y, is_last, bn, relu, training)


def unigcn(c, X, s, is_last=False, bn=False, training=False, **k):
    Y = s.v2e_mean(lin(c.theta, X))
    de = np.array([np.mean([s.dv[v] for v in e]) for e in s.e])
    Y = np.where(de == 0, 1.0, np.where(de == 0, 1.0, de) ** -0.5)[:, None] * Y
    return tail(c, s.Dv12 @ s.H @ Y, is_last, bn, relu, training)


def unigat(c, X, s, is_last=False, bn=False, slope=0.2, training=False, **k):
    Y = s.v2e_mean(lin(c.theta, X))
    sc = clip(leaky(lin(c.atten_e, Y)[:, 0], slope))
    return tail(c, row_softmax(np.tile(sc, (s.n, 1)), s.H != 0) @ Y, is_last, bn, elu, training)


def unisage(c, X, s, is_last=False, bn=False, training=False, **k):
    X = lin(c.theta, X)
    return tail(c, s.H @ s.v2e_mean(X) + X, is_last, bn, relu, training)


def unigin(c, X, s, is_last=False, bn=False, eps=0.0, training=False, **k):
    X = lin(c.theta, X)
    return tail(c, (1 + eps) * X + s.H @ s.v2e_mean(X), is_last, bn, relu, training)


def randomise(module, seed, positive=()):
    """Fill every parameter and running statistic from the seed."""
    g = torch.Generator().manual_seed(seed)
    for n, p in list(module.named_parameters()):
        if n.split(".")[-1] == "eps":
            continue
        with torch.no_grad():
            wide = max(1.0, p.shape[-1] / 6) ** 0.5 if p.dim() > 1 else 1.0  # values stay of order one in wide layers
            p.copy_(torch.randn(p.shape, generator=g) * 0.7 / wide)
            if any(q in n for q in positive):
                p.copy_(p.abs() + 0.05)
    for b in module.modules():
        if isinstance(b, nn.BatchNorm1d):
            with torch.no_grad():
                b.running_mean.copy_(torch.randn(b.running_mean.shape, generator=g))
                b.running_var.copy_(torch.rand(b.running_var.shape, generator=g) + 0.2)
    return module


def hypergcn_graph(m, score, med):
    from props.p13 import expansion
    return G(expansion(m, score, med))
