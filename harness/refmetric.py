"""Reference metrics on one ranked list, in plain Python."""
import math
from fractions import Fraction


def ranked(true, score):
    return [true[i] for i in sorted(range(len(true)), key=lambda i: -score[i])]


def cut(n, k, ratio):
    """The admissible cut-offs (a product that is exactly whole may be one ulp above)."""
    if ratio is not None:
        exact = math.ceil(n * Fraction(ratio[0], ratio[1]))
        return {exact, math.ceil(n * (ratio[0] / ratio[1]))}
    return {n if k is None else min(k, n)}


def precision(s, k):
    return sum(s[:k]) / k


def recall(s, k):
    return sum(s[:k]) / sum(s) if sum(s) else 0.0


def dcg(s, k):
    return sum(x / math.log2(i + 2) for i, x in enumerate(s[:k]))


def ndcg(s, k):
    best = dcg(sorted(s, reverse=True), k)
    return dcg(s, k) / best if best else 0.0


def rr(s, k):
    h = [1 / (i + 1) for i, x in enumerate(s[:k]) if x]
    return sum(h) / len(h) if h else 0.0


def precisions(s, method):
    p, hits = [], 0
    for i, x in enumerate(s):
        if x:
            hits += 1
            p.append(hits / (i + 1))
    if method == "pascal_voc":
        for i in range(len(p) - 2, -1, -1):
            p[i] = max(p[i], p[i + 1])
    return p


def ap(s, method):
    p = precisions(s, method)
    return sum(p) / len(p) if p else 0.0


def pr_curve(s, method, n):
    """For each recall coordinate the admissible precisions."""
    p = precisions(s, method)
    out = []
    for j in range(n):
        r = j / (n - 1) if n > 1 else 0.0
        if not p:
            out.append([0.0])
            continue
        x = r * (len(p) - 1)
        out.append(sorted({p[min(len(p) - 1, max(0, math.floor(x + d)))] for d in (-1e-9, 0, 1e-9)}))
    return out
