from hypothesis import strategies as st
from scipy.stats import binom
import numpy as np
import torch
import dhg.random as dr
from dhg.nn import BPRLoss, EmbeddingRegularization
from dhg.utils import sparse_dropout
from harness import gen
from harness.core import Sub, require
from harness.util import close, near, raises

PROPERTY = "P28"
RULE = ("a case is score vectors or matrices of any sign up to 1e4 with both coefficients and activations; up to four "
        "embeddings of different sizes with a power 1..5 and a decay; or a sparse matrix (float32/float64, duplicates, "
        "explicit zeros, empty) with a probability and a fill value, dropped repeatedly. Losses, their gradients and the "
        "regularisation are compared with float64 references; drop positions, values, marginal and pairwise frequencies "
        "with exact binomial tails at 1e-11. Non-trivial: at least two scores / a non-zero embedding / a matrix with "
        "two or more entries and a probability strictly between 0 and 1. many: one matrix of up to 5000 entries, whose drops "
        "must not correlate at any distance (Fourier autocorrelation, 9 standard deviations).")
ALPHA = 1e-11


@st.composite
def bpr_cases(draw):
    mag = draw(st.sampled_from([1.0, 8.0, 100.0, 1e4]))
    shape = draw(st.sampled_from([(1,), (2,), (5,), (3, 1), (2, 3)]))
    n = int(np.prod(shape))
    val = st.integers(-64, 64).map(lambda i: i * mag / 64)
    co = st.one_of(st.just(1.0), st.integers(0, 24).map(lambda i: i / 8))
    return dict(shape=list(shape), pos=draw(st.lists(val, min_size=n, max_size=n)), neg=draw(st.lists(val, min_size=n, max_size=n)),
                a=draw(co), b=draw(co), act=draw(st.sampled_from(["sigmoid_then_log", "softplus", None])),
                dt=draw(st.sampled_from(["float32", "float32", "float64"])))


@st.composite
def many_bpr(draw):
    c = draw(bpr_cases())
    rng = np.random.default_rng(draw(st.integers(0, 1 << 30)))
    c["shape"] = draw(st.sampled_from([[1000], [300, 1], [40, 30], [257]]))
    n, mag = int(np.prod(c["shape"])), draw(st.sampled_from([1.0, 8.0, 100.0]))
    c.update(pos=(rng.integers(-64, 65, n) * mag / 64).tolist(), neg=(rng.integers(-64, 65, n) * mag / 64).tolist())
    return c


def check_bpr(c):
    dt = getattr(torch, c["dt"])
    pos = torch.tensor(c["pos"], dtype=dt).view(*c["shape"]).requires_grad_()
    neg = torch.tensor(c["neg"], dtype=dt).view(*c["shape"]).requires_grad_()
    p0, n0 = pos.detach().clone(), neg.detach().clone()
    if c["act"] is None:
        fn = BPRLoss(c["a"], c["b"])
    else:
        fn = BPRLoss(alpha=c["a"], beta=c["b"], activation=c["act"])
    loss = fn(pos, neg)
    require(loss.dim() == 0, "the loss is not a scalar: %s", tuple(loss.shape))
    d = c["a"] * np.array(c["pos"], dtype=np.float64) - c["b"] * np.array(c["neg"], dtype=np.float64)
    want = np.logaddexp(0.0, -d).mean()
    require(bool(torch.isfinite(loss)), "the loss is %s for score differences %s", loss.item(), d.tolist())
    close(loss.item(), want, "BPR loss", rtol=1e-5, atol=1e-6)
    loss.backward()
    sig = 0.5 * (1 - np.tanh(d / 2)) / len(d)       # sigmoid(-d) / n
    near(pos.grad.view(-1), -c["a"] * sig, "gradient by positive scores", rtol=1e-3, atol=1e-6)
    near(neg.grad.view(-1), c["b"] * sig, "gradient by negative scores", rtol=1e-3, atol=1e-6)
    require(torch.equal(pos.detach(), p0) and torch.equal(neg.detach(), n0), "the scores were modified")
    if c["a"] == 1.0 and c["b"] == 1.0 and c["act"] is not None:
        close(BPRLoss(activation=c["act"])(p0, n0).item(), want, "BPR loss with default coefficients", rtol=1e-5, atol=1e-6)
    return ["nt"] if len(d) >= 2 else []


@st.composite
def reg_cases(draw):
    embs = []
    for _ in range(draw(st.integers(1, 4))):
        r, k = draw(st.integers(1, 6)), draw(st.integers(1, 4))
        embs.append(draw(st.lists(st.lists(st.integers(-40, 40).map(lambda i: i / 16), min_size=k, max_size=k), min_size=r, max_size=r)))
    return dict(embs=embs, p=draw(st.integers(1, 5)), wd=draw(st.sampled_from([1e-4, 0.5, 1.0, 3.0, 0.0])), dflt=draw(st.booleans()))


@st.composite
def many_reg(draw):
    c = draw(reg_cases())
    rng = np.random.default_rng(draw(st.integers(0, 1 << 30)))
    c["embs"] = [(rng.integers(-20, 21, (draw(st.integers(20, 200)), draw(st.sampled_from([1, 16, 64, 128])))) / 16).tolist() for _ in c["embs"]]
    return c


def check_reg(c):
    p, wd = (2, 1e-4) if c["dflt"] else (c["p"], c["wd"])
    fn = EmbeddingRegularization() if c["dflt"] else EmbeddingRegularization(p=p, weight_decay=wd)
    ts = [torch.tensor(e, dtype=torch.float32).requires_grad_() for e in c["embs"]]
    keep = [t.detach().clone() for t in ts]
    got = fn(*ts)
    want = wd * sum((np.abs(np.array(e, dtype=np.float64)) ** p).sum(axis=1).mean() / p for e in c["embs"])
    close(got.item(), want, "regularisation", rtol=1e-5, atol=1e-9)
    got.backward()
    for t, k, e in zip(ts, keep, c["embs"]):
        require(torch.equal(t.detach(), k), "an embedding was modified")
        a = np.array(e, dtype=np.float64)
        require(bool(torch.isfinite(t.grad).all()), "gradient of the regularisation is not finite: %s", t.grad.tolist())
        m = (a != 0) | (p > 1)      # at zero any sub-gradient of |x| will do
        near(t.grad.numpy()[m], (wd * np.sign(a) * np.abs(a) ** (p - 1) / len(e))[m], "gradient of the regularisation", rtol=1e-4, atol=1e-7)
    return ["nt"] if want > 0 else []


@st.composite
def drop_cases(draw):
    r, k = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    cells = draw(st.lists(st.tuples(st.integers(0, r - 1), st.integers(0, k - 1)), max_size=14))
    vals = draw(st.lists(st.integers(-16, 16).map(lambda i: i / 4), min_size=len(cells), max_size=len(cells)))
    if draw(st.integers(0, 4)) == 4:  # a matrix of dozens of entries, many of them given in parts
        import random
        rr, r, k = random.Random(draw(gen.seeds)), draw(st.integers(6, 30)), draw(st.integers(6, 30))
        cells = [(rr.randrange(r), rr.randrange(k)) for _ in range(draw(st.integers(20, 120)))]
        vals = [rr.randint(-16, 16) / 4 for _ in cells]
    return dict(r=r, k=k, cells=[list(x) for x in cells], vals=vals, coal=draw(st.booleans()), dt=draw(st.sampled_from(["float32", "float64"])),
                p=draw(st.sampled_from([0, 0.0, 1, 1.0, 0.5, 0.25, 0.9, 0.05])), fill=draw(st.sampled_from([None, 0.0, 1.0, -2.5, 7])),
                seed=draw(gen.seeds))


def build(c):
    i = torch.tensor(c["cells"], dtype=torch.long).view(-1, 2).t()
    m = torch.sparse_coo_tensor(i, torch.tensor(c["vals"], dtype=getattr(torch, c["dt"])), (c["r"], c["k"]))
    return m.coalesce() if c["coal"] else m


def entries(m):
    m = m.coalesce()
    return {tuple(k): v for k, v in zip(m.indices().t().tolist(), m.values().tolist())}


def check_drop(c):
    m = build(c)
    i0, v0 = m._indices().clone(), m._values().clone()
    want = entries(m)
    fill = 0.0 if c["fill"] is None else c["fill"]
    dr.set_seed(c["seed"])
    N = 1 if c["p"] in (0, 1) else 260
    hit, pair = {k: 0 for k in want}, 0
    keys = [k for k in want if want[k] != fill]
    for _ in range(N):
        out = sparse_dropout(m, c["p"]) if c["fill"] is None else sparse_dropout(m, c["p"], fill_value=c["fill"])
        require(out.is_sparse and tuple(out.shape) == (c["r"], c["k"]), "result is %s of shape %s", out.layout, tuple(out.shape))
        require(out.dtype == m.dtype, "dtype changed from %s to %s", m.dtype, out.dtype)
        got = entries(out)
        require(sorted(got) == sorted(want), "positions %s, expected %s", sorted(got), sorted(want))
        dropped = set()
        for k, v in got.items():
            if c["p"] == 0 or v != fill:
                require(abs(v - want[k]) <= 1e-12, "entry %s became %r, neither %r nor the fill value", k, v, want[k])
            elif want[k] != fill:
                dropped.add(k)
                hit[k] += 1
        if c["p"] == 1:
            require(len(dropped) == len(keys), "entries survive probability 1: %s", sorted(set(keys) - dropped))
        if len(keys) >= 2:
            pair += keys[0] in dropped and keys[-1] in dropped
    require(torch.equal(m._indices(), i0) and torch.equal(m._values(), v0), "the input matrix was modified")
    if N > 1:
        for k in keys:
            fair(hit[k], N, c["p"], f"drops of entry {k}")
        if len(keys) >= 2:
            fair(pair, N, c["p"] ** 2, f"common drops of entries {keys[0]} and {keys[-1]}")
        if keys:
            fair(sum(hit.values()), N * len(keys), c["p"], "all drops")
    return ["nt"] if len(keys) >= 2 and N > 1 else []


def fair(cnt, N, p, what):
    require(min(binom.cdf(cnt, N, p), binom.sf(cnt - 1, N, p)) > ALPHA, "%s: %d of %d, probability %.3f", what, cnt, N, p)


@st.composite
def many_cases(draw):
    n = draw(st.sampled_from([600, 1025, 1500, 2049, 3000, 5000]))
    return dict(n=n + draw(st.integers(0, 40)), p=draw(st.sampled_from([0.2, 0.5, 0.5, 0.75])), tiny=draw(st.sampled_from([5e-4, 1e-3, 0.9995])),
                wide=draw(st.integers(2, 90)), seed=draw(gen.seeds))


def check_many(c):
    """In a matrix of thousands of entries: no two drops at any distance depend on one another, and tiny probabilities still drop."""
    n, p, k = c["n"], c["p"], c["wide"]
    dr.set_seed(c["seed"])

    def kept(n, p):
        ix = torch.arange(n) * 3
        m = torch.sparse_coo_tensor(torch.stack([ix // k, ix % k]), torch.ones(n), (3 * n // k + 1, k)).coalesce()
        return sparse_dropout(m, p).coalesce().values().numpy()
    x = kept(n, p) - (1 - p)
    fair(int((x < 0).sum()), n, p, "drops of a large matrix")
    f = np.fft.rfft(x, 2 * n)
    corr = np.fft.irfft(f * np.conj(f), 2 * n)[1:n - 64] / (p * (1 - p))
    score = np.abs(corr) / np.sqrt(n - np.arange(1, n - 64))
    lag = int(np.argmax(score))
    require(score[lag] < 9, "entries %d apart are dropped together or never together: correlation at %.1f standard deviations", lag + 1, score[lag])
    fair(int((kept(200000, c["tiny"]) == 0).sum()), 200000, c["tiny"], "drops at an extreme probability")
    return ["nt"]


def check_bad(c):
    m = build(c)
    raises(lambda: sparse_dropout(m, c["bad"]), f"drop probability {c['bad']}")
    raises(lambda: BPRLoss(activation=c["act"]), f"activation {c['act']!r}")
    return ["nt"]


bad = drop_cases().flatmap(lambda c: st.sampled_from([(-0.1, "relu"), (1.5, ""), (2, "sigmoid")]).map(lambda b: dict(c, bad=b[0], act=b[1])))

SUBS = [Sub("many_bpr", many_bpr, check_bpr, quick=60), Sub("many_embedding", many_reg, check_reg, quick=40), Sub("bpr", bpr_cases, check_bpr, quick=1600), Sub("embedding", reg_cases, check_reg, quick=800),
        Sub("dropout", drop_cases, check_drop, quick=480, shards=6), Sub("many", many_cases, check_many, quick=40, shards=2), Sub("refuse", bad, check_bad, quick=40, shards=1)]
