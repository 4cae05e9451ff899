import numpy as np
import torch

from .core import require, Violation

RTOL, ATOL = 1e-4, 1e-5


def dense(x):
    if isinstance(x, torch.Tensor):
        x = x.detach()
        if x.is_sparse:
            x = x.to_dense()
        return x.cpu().double().numpy()
    return np.asarray(x, dtype=np.float64)


def near(got, want, what, rtol=RTOL, atol=ATOL):
    g, w = dense(got), np.asarray(dense(want), dtype=np.float64)
    require(g.shape == w.shape, "%s: shape %s, expected %s", what, g.shape, w.shape)
    if g.size == 0:
        return
    fin = np.abs(w[np.isfinite(w)])       # float32 sums: one part in a million of the largest value
    ok = np.isclose(g, w, rtol=rtol, atol=max(atol, 1e-6 * fin.max()) if fin.size and rtol >= 1e-5 else atol, equal_nan=False)
    if not ok.all():
        i = tuple(int(t) for t in np.argwhere(~ok)[0])
        raise Violation(f"{what}: at {i} got {g[i]!r}, expected {w[i]!r}\n got={g.tolist()}\nwant={w.tolist()}")


def same(got, want, what):
    require(got == want, "%s: got %r, expected %r", what, got, want)


def close(a, b, what="value", rtol=RTOL, atol=ATOL):
    require(abs(float(a) - float(b)) <= atol + rtol * abs(float(b)), "%s: got %r, expected %r", what, a, b)


def near_items(got, want, what):
    """Compare two lists of (key, weight) as multisets, weights with tolerance."""
    g, w = sorted(got), sorted(want)
    same([k for k, _ in g], [k for k, _ in w], what + " (members)")
    near([x for _, x in g], [x for _, x in w], what + " (weights)", rtol=3e-7, atol=1e-7)      # stored, not computed: a float32 at worst


def safe_pow(d, p):
    d = np.asarray(d, dtype=np.float64)
    out = np.zeros_like(d)
    nz = d != 0
    out[nz] = d[nz] ** p
    return out


def raises(fn, what):
    """fn must refuse by raising an ordinary exception."""
    try:
        r = fn()
    except Exception:
        return
    raise Violation(f"{what} was accepted (returned {r!r})")


def t32(x):
    return torch.tensor(x, dtype=torch.float32)


def feats(seed, n, d, signed=True):
    g = np.random.RandomState(seed % (2 ** 32))
    x = g.randint(-40, 41, size=(n, d)) / 8.0 if signed else g.randint(1, 41, size=(n, d)) / 8.0
    if seed % 4 == 1:                     # a view: columns of a wider matrix
        return t32(np.repeat(x, 2, axis=1))[:, ::2]
    if seed % 4 == 2:                     # stored by columns
        return t32(x.T.copy()).t()
    return t32(x)


def masked(got, want, what, rtol=1e-4, atol=1e-5):
    """Every entry of got is that of want, or 0.  -> the boolean matrix of kept entries (where want is not 0)."""
    g, w = dense(got), dense(want)
    require(g.shape == w.shape, "%s: shape %s, expected %s", what, g.shape, w.shape)
    ok = np.isclose(g, w, rtol=rtol, atol=atol) | (g == 0)
    require(ok.all(), "%s: an entry is neither kept nor dropped: %s vs %s", what, g.tolist(), w.tolist())
    return (g != 0) & (w != 0)


def kept_share(k, N, rate, what):
    """k of N independent keeps at 1 - rate, within 8 standard deviations."""
    q = 1 - rate
    require(abs(k - N * q) < 8 * (N * q * (1 - q)) ** 0.5 + 1, "%s: rate %s kept %d of %d", what, rate, k, N)


def masked_mean(got, P, what):
    """A mean over the delivered messages P: every row is c * (delivered part of P) with c the inverse of the total
    weight of all messages, or of the delivered ones; a row that receives nothing is zero."""
    g = dense(got)
    for i in range(len(P)):
        keep = g[i] != 0
        require(not (keep & (P[i] == 0)).any(), "%s: row %d: %s contains other messages than %s", what, i, g[i], P[i])
        part = np.where(keep, P[i], 0.0)
        ok = any(np.allclose(g[i], part / t, rtol=1e-3, atol=1e-5) for t in (P[i].sum(), part.sum()) if t != 0)
        require(ok or not keep.any(), "%s: row %d is %s, the messages are %s", what, i, g[i], P[i])


def row_softmax(P, mask):
    """Row softmax over the masked entries only; rows with no entry give zeros."""
    P = np.where(mask, P, -np.inf)
    out = np.zeros_like(P, dtype=np.float64)
    for i in range(P.shape[0]):
        if mask[i].any():
            m = P[i][mask[i]].max()
            ex = np.where(mask[i], np.exp(P[i] - m, where=mask[i], out=np.zeros_like(P[i])), 0.0)
            out[i] = ex / ex.sum()
    return out
