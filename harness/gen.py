"""Strategies for JSON-able cases."""
from hypothesis import strategies as st

seeds = st.integers(0, 2 ** 31 - 1)


def weights(ints=False):
    w = st.integers(1, 32).map(lambda k: k / 4)
    return st.one_of(w, st.integers(1, 8)) if ints else w


@st.composite
def opt_weights(draw, k, signed=False, huge=False):
    """None, or a list of k positive weights (sometimes all ints, sometimes all tiny, sometimes with zeros); signed: possibly negative ones."""
    mode = draw(st.sampled_from(["none", "none", "float", "float", "float", "int", "int", "tiny", "zero"] + ["huge"] * huge + ["signed"] * (2 * signed)))
    if mode == "none":
        return None
    if mode == "tiny":
        return draw(st.lists(st.integers(1, 32).map(lambda x: x / 2 ** 14), min_size=k, max_size=k))
    if mode == "huge":
        return draw(st.lists(st.integers(10 ** 6, 2 * 10 ** 6).map(lambda x: x + 0.5), min_size=k, max_size=k))
    if mode == "zero":
        return draw(st.lists(st.integers(0, 3).map(float), min_size=k, max_size=k))
    if mode == "signed":
        return draw(st.lists(st.integers(-16, 16).filter(bool).map(lambda x: x / 4), min_size=k, max_size=k))
    w = st.integers(1, 8) if mode == "int" else st.integers(1, 32).map(lambda x: x / 4)
    return draw(st.lists(w, min_size=k, max_size=k))


@st.composite
def zeroed(draw, c):
    """Sometimes all weights of the case's first hyperedge group become zero: vertices of degree zero inside hyperedges."""
    if c["groups"] and draw(st.integers(0, 5)) == 0:
        c["groups"][0][2] = [0.0] * len(c["groups"][0][1])
    return c


def vertex_weights(n):
    """One weight per vertex, positive or (nothing forbids it) of any sign."""
    return st.one_of(st.lists(weights(), min_size=n, max_size=n), st.lists(weights(), min_size=n, max_size=n), st.lists(st.integers(-8, 8).map(lambda x: x / 2), min_size=n, max_size=n))


def widths(hi=4):
    """Feature dimensions: mostly small, sometimes wide."""
    return st.one_of(st.integers(1, hi), st.integers(1, hi), st.integers(1, hi), st.integers(5, 40), st.sampled_from([64, 65, 130]))


rates = st.one_of(st.integers(1, 9).map(lambda x: x / 10), st.integers(1, 9).map(lambda x: x / 10), st.sampled_from([0.02, 0.15, 0.95, 0.98]))


merges = st.sampled_from(["mean", "max", "sum"])


def sizes(lo=1, hi=8, big=16):
    return st.one_of(st.integers(lo, hi), st.integers(lo, hi), st.integers(lo, hi), st.integers(lo, big))


def pairs(n, m=None, max_size=12, min_size=0, loops=True):
    m = n if m is None else m
    e = st.tuples(st.integers(0, n - 1), st.integers(0, m - 1)).map(list)
    if not loops:
        e = e.filter(lambda p: p[0] != p[1])
    return st.lists(e, min_size=min_size, max_size=max_size)


def simple_pairs(n, max_size=14, min_size=0):
    """Distinct undirected non-loop edges, constructed not filtered."""
    allp = [[a, b] for a in range(n) for b in range(a + 1, n)]
    if not allp:
        return st.just([])
    return st.lists(st.integers(0, len(allp) - 1), unique=True, min_size=min(min_size, len(allp)), max_size=min(max_size, len(allp))
                    ).flatmap(lambda ix: st.lists(st.booleans(), min_size=len(ix), max_size=len(ix)).map(
                        lambda fl: [allp[i][::-1] if f else list(allp[i]) for i, f in zip(ix, fl)]))


@st.composite
def hyperedges(draw, n, max_size=7, min_size=0, min_v=1, max_v=None, dup=False):
    """Hyperedges as vertex lists in random order, vertices within one hyperedge distinct (unless dup)."""
    max_v = min(n, max_v or 6)
    k = draw(st.integers(min_size, max_size))
    out = []
    for _ in range(k):
        e = draw(st.lists(st.integers(0, n - 1), unique=True, min_size=min(min_v, n), max_size=max_v))
        if dup and len(e) < max_v and draw(st.integers(0, 9)) == 0:
            e = e + [draw(st.sampled_from(e))]  # a vertex named twice: still the same set
        out.append(e)
    return out


@st.composite
def graph_case(draw, lo=1, hi=8, big=14, loops=True, weighted=None, min_e=0, max_e=14):
    if LARGE[0]:
        return draw(large_graph())
    n = draw(sizes(lo, hi, big))
    e = draw(pairs(n, max_size=max_e, min_size=min_e, loops=loops and True)) if (loops or n > 1) else []
    w = draw(opt_weights(len(e))) if weighted is not False else None
    return dict(n=n, e=e, w=w)


@st.composite
def bigraph_case(draw, hi=7, big=12, min_e=0, max_e=14):
    if LARGE[0]:
        return draw(large_bigraph())
    nu, nv = draw(sizes(1, hi, big)), draw(sizes(1, hi, big))
    e = draw(pairs(nu, nv, max_size=max_e, min_size=min_e))
    return dict(nu=nu, nv=nv, e=e, w=draw(opt_weights(len(e))))


group_names = st.sampled_from(["main", "main", "a", "a", "b", "b", "c", "group 4", "a2"])


@st.composite
def hyper_case(draw, lo=1, hi=8, big=12, min_e=1, max_e=6, groups=3, vw=True, min_v=1):
    """A hypergraph with >= 1 group; hyperedges of a group may repeat."""
    if LARGE[0]:
        return draw(large_hyper(min_v))
    n = draw(sizes(lo, hi, big))
    names = draw(st.lists(group_names, unique=True, min_size=1, max_size=groups if draw(st.integers(0, 9)) else 6))
    gs = []
    for nm in names:
        e = draw(hyperedges(n, max_size=max_e, min_size=min_e, min_v=min_v))
        gs.append([nm, e, draw(opt_weights(len(e)))])
    v_weight = draw(st.one_of(st.none(), st.lists(weights(), min_size=n, max_size=n))) if vw else None
    return dict(n=n, groups=gs, vw=v_weight)


# ---- large structures: sizes beyond small-integer and byte ranges, edges expanded from a seed -------------------

LARGE = [False]


@st.composite
def large(draw, strategy):
    """The same strategy with its structures replaced by large ones."""
    LARGE[0] = True
    try:
        return draw(strategy)
    finally:
        LARGE[0] = False


def perms(n):
    if LARGE[0]:
        import numpy as np
        return seeds.map(lambda s: [int(x) for x in np.random.RandomState(s).permutation(n)])
    return st.permutations(range(n))


def big_sizes():
    return st.integers(257, 320)


@st.composite
def many_pairs(draw, n, m=None):
    """Hundreds of edges: uniform, around a hub, or among the highest vertices; some repeated or reversed."""
    import numpy as np
    bip, m = m is not None, m or n
    k, r = draw(st.integers(20, 700)), np.random.RandomState(draw(seeds))
    style = draw(st.sampled_from(["uniform", "hub", "top"]))
    a, b = r.randint(0, n, size=k), r.randint(0, m, size=k)
    if style == "hub":
        a[: k // 2] = n - 1
    elif style == "top":
        a, b = np.maximum(a, n - 40), np.maximum(b, m - 40)
    e = [[int(x), int(y)] for x, y in zip(a, b)]
    e += [x[::-1] if (not bip and r.uniform() < 0.5) else list(x) for x in e[: k // 10]]
    w = None if draw(st.booleans()) else [float(x) / 4 for x in r.randint(1, 33, size=len(e))]
    return e, w


@st.composite
def many_hyperedges(draw, n):
    import numpy as np
    k, r = draw(st.integers(20, 340)), np.random.RandomState(draw(seeds))
    wide = draw(st.booleans())
    e = []
    for i in range(k):
        s = r.randint(1, 8) if r.uniform() < 0.97 or not wide else r.randint(8, n)
        lo = 0 if r.uniform() < 0.6 else n - min(n, 60)
        e.append([int(x) for x in lo + r.permutation(n - lo)[:s]])
    e += [x[::-1] for x in e[: k // 10]]
    w = None if draw(st.booleans()) else [float(x) / 4 for x in r.randint(1, 33, size=len(e))]
    return e, w


@st.composite
def large_graph(draw):
    n = draw(big_sizes())
    e, w = draw(many_pairs(n))
    return dict(n=n, e=e, w=w)


@st.composite
def large_bigraph(draw):
    nu, nv = draw(big_sizes()), draw(st.one_of(big_sizes(), st.integers(1, 9)))
    e, w = draw(many_pairs(nu, nv))
    return dict(nu=nu, nv=nv, e=e, w=w)


@st.composite
def large_hyper(draw, min_v=1):
    n = draw(big_sizes())
    gs = []
    for nm in draw(st.lists(group_names, unique=True, min_size=1, max_size=2)):
        e, w = draw(many_hyperedges(n))
        ok = [i for i, x in enumerate(e) if len(x) >= min_v]
        gs.append([nm, [e[i] for i in ok], None if w is None else [w[i] for i in ok]])
    return dict(n=n, groups=gs, vw=None)
