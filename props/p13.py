import math
from itertools import combinations
from hypothesis import strategies as st
import numpy as np
import torch
import dhg
from harness import gen
from harness.core import Sub, require, seed_all
from harness.refmodel import GraphModel, check_graph, build_hyper, check_hyper, ordered, poke
from harness.util import same, near, t32, raises

PROPERTY = "P13"
RULE = ("a case is a weighted hypergraph with one to three groups, optionally edited and read first. star/clique are "
        "compared with the incidences and co-memberships. hypergcn1 uses rank-one features, for which the extreme "
        "pair of every hyperedge is the same under every projection; hypergcn2 uses distinct 2-D features and "
        "requires the result to be the expansion for one of the finitely many classes of projection direction; "
        "Non-trivial: two hyperedges share a vertex pair, or a hyperedge has at least three vertices.")


@st.composite
def cases(draw, min_v=1):
    c = draw(gen.hyper_case(lo=2, hi=7, big=10, min_v=min_v))
    c["weighted"], c["miu"] = draw(st.booleans()), draw(st.sampled_from([1.0, 0.5, 2.0, 3.25, 0.0625, 100.0, 1e-5]))
    if draw(st.integers(0, 11)) == 0:      # no hyperedges at all
        c["groups"] = []
    c["merge"], c["touch"] = draw(gen.merges), draw(st.booleans())
    c["extra_edge"] = draw(st.one_of(st.none(), st.lists(st.integers(0, c["n"] - 1), min_size=min(min_v, c["n"]), max_size=4, unique=True)))
    c["med"], c["rms"] = draw(st.booleans()), draw(st.booleans())
    c["vals"] = draw(gen.perms(c["n"]))
    c["dir"] = draw(st.lists(st.integers(0, 8), min_size=1, max_size=4).filter(any))
    c["off"] = draw(st.integers(-20, 20))
    c["seed"] = draw(gen.seeds)
    return c


def hyper(c):
    h, m = build_hyper(dhg, c)
    if c["touch"]:
        h.H, h.H_T, h.e
    if c["extra_edge"]:
        h.add_hyperedges([list(c["extra_edge"])], [3.0], merge_op="sum", group_name="a")
        m.add([c["extra_edge"]], [3.0], "sum", "a")
    return h, m


def rich(m):
    es = [set(k) for k, _ in m.edges()]
    return any(len(a & b) > 1 for a, b in combinations(es, 2)) or any(len(e) > 2 for e in es)


def check_star(c):
    h, m = hyper(c)
    g, mask = dhg.Graph.from_hypergraph_star(h, weighted=c["weighted"], merge_op=c["merge"])
    e, _, _ = ordered(h)
    want = GraphModel(m.n + len(e))
    want.add([(v, m.n + j) for j, x in enumerate(e) for v in x], None, "mean")
    check_graph(g, want)
    poke(g)
    same(mask.dtype, torch.bool, "mask type")
    same(mask.tolist(), [True] * m.n + [False] * len(e), "vertex mask")
    check_hyper(h, m)
    return ["nt"] if rich(m) else []


def check_clique(c):
    h, m = hyper(c)
    g = dhg.Graph.from_hypergraph_clique(h, weighted=c["weighted"], miu=c["miu"])
    want = GraphModel(m.n)
    for k, _ in m.edges():
        for a, b in combinations(k, 2):
            want.e[(a, b)] = (want.e.get((a, b), 0.0) + c["miu"]) if c["weighted"] else 1.0
    check_graph(g, want)
    poke(g)
    check_hyper(h, m)
    if c["miu"] == 1.0 and c["weighted"]:
        check_graph(dhg.Graph.from_hypergraph_clique(h, weighted=True), want)
    return ["nt"] if rich(m) else []


def expansion(m, score, med):
    """The HyperGCN expansion for vertex scores without ties inside a hyperedge."""
    want = GraphModel(m.n)
    for k, _ in m.edges():
        a, b = max(k, key=lambda v: score[v]), min(k, key=lambda v: score[v])
        w = 1.0 / (2 * len(k) - 3) if med else 1.0 / len(k)
        es = [(a, b)]
        if med:
            es += [(x, v) for v in k if v not in (a, b) for x in (a, b)]
        want.add(es, [w] * len(es), "sum")
    return want


def check_gcn1(c):
    h, m = hyper(c)
    X = t32([[(c["vals"][v] + c["off"]) * d / 8 for d in c["dir"]] for v in range(m.n)])
    X0 = X.clone()
    seed_all(c["seed"])
    g = dhg.Graph.from_hypergraph_hypergcn(h, X, with_mediator=c["med"], remove_selfloop=c["rms"])
    check_graph(g, expansion(m, c["vals"], c["med"]))
    poke(g)
    check_hyper(h, m)
    require(torch.equal(X, X0), "features were modified")
    if c["seed"] % 5 == 0:  # ties: no self-loop may survive, edges stay inside hyperedges
        g = dhg.Graph.from_hypergraph_hypergcn(h, torch.ones(m.n, 2), with_mediator=c["med"], remove_selfloop=True)
        ok = {p for k, _ in m.edges() for p in combinations(k, 2)}
        require({tuple(x) for x in g.e[0]} <= ok, "edges %r outside the hyperedges, or self-loops", g.e[0])
        raises(lambda: dhg.Graph.from_hypergraph_hypergcn(h, torch.ones(m.n + 1, 2)), "a feature matrix with too many rows")
    return ["nt"] if rich(m) else []


@st.composite
def gcn2_cases(draw):
    c = draw(cases(min_v=2))
    pts = draw(st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)), min_size=c["n"], max_size=c["n"], unique=True))
    c["pts"] = [list(p) for p in pts]
    return c


def check_gcn2(c):
    h, m = hyper(c)
    P = np.array(c["pts"], dtype=float)
    seed_all(c["seed"])
    g = dhg.Graph.from_hypergraph_hypergcn(h, t32(c["pts"]), with_mediator=c["med"], remove_selfloop=c["rms"])
    crit = sorted({math.atan2(*(P[a] - P[b])[::-1]) % math.pi for a, b in combinations(range(m.n), 2)})
    crit = [(x + math.pi / 2) % math.pi for x in crit]
    crit.sort()
    mids = [(x + y) / 2 for x, y in zip(crit, crit[1:] + [crit[0] + math.pi]) if y - x > 1e-9] or [0.7]
    err = None
    for t in mids:
        try:
            check_graph(g, expansion(m, P @ [math.cos(t), math.sin(t)], c["med"]), ["num_e", "e"])
            break
        except AssertionError as ex:
            err = ex
    else:
        raise AssertionError("the expansion matches no projection direction: %s" % err)
    return ["nt"] if rich(m) else []


SUBS = [Sub("star", cases, check_star, quick=700, shards=2), Sub("clique", cases, check_clique, quick=900, shards=2),
        Sub("hypergcn1", lambda: cases(min_v=2), check_gcn1, quick=1200, shards=4),
        Sub("hypergcn2", gcn2_cases, check_gcn2, quick=400, shards=4),
        Sub("large_star", lambda: gen.large(cases()), check_star, quick=16, shards=2), Sub("large_clique", lambda: gen.large(cases()), check_clique, quick=16, shards=2),
        Sub("large_hypergcn", lambda: gen.large(cases(min_v=2)), check_gcn1, quick=24, shards=3)]
