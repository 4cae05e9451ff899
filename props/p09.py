from hypothesis import strategies as st
import numpy as np
import dhg
from harness import gen
from harness.core import Sub, require
from harness.refmodel import build_graph, check_graph, build_hyper, check_hyper, HyperModel
from harness.util import same
from props.p01 import apply_edit

PROPERTY = "P09"
RULE = ("a case is a sparse, path-like or random graph (self-loops, extra self-loops, weights) and a sequence of "
        "k-hop queries, k = 1..12 in any order, edits, k-hop hypergraph constructions and group additions; each "
        "answer is compared with breadth-first walks over edge sets. Non-trivial: at least two different k are "
        "asked and some k-hop set differs from the 1-hop set.")


@st.composite
def base_graph(draw):
    if gen.LARGE[0]:
        return dict(draw(gen.large_graph()), extra=draw(st.sampled_from([False, False, True])))
    n = draw(gen.sizes(1, 8, 14))
    shape = draw(st.sampled_from(["random", "sparse", "path", "cycle", "star"]))
    if shape in ("path", "cycle"):
        perm = draw(st.permutations(range(n)))
        e = [[perm[i], perm[i + 1]] for i in range(n - 1)]
        if shape == "cycle" and n > 1:
            e.append([perm[-1], perm[0]])
        e += draw(gen.pairs(n, max_size=2))
    elif shape == "star":
        e = [[0, i] for i in range(1, n)] + draw(gen.pairs(n, max_size=2))
    else:
        e = draw(gen.pairs(n, max_size=14 if shape == "random" else max(1, n - 1)))
    return dict(n=n, e=e, w=draw(gen.opt_weights(len(e))), extra=draw(st.sampled_from([False, False, True])))


@st.composite
def op(draw, n):
    k = draw(st.sampled_from(["q"] * 6 + ["all", "all", "add", "rm", "xadd", "xrm", "kh", "kh", "group"]))
    hop = draw(st.one_of(st.integers(1, 5), st.integers(1, 12)))
    if k == "q":
        return ["q", draw(st.integers(0, n - 1)), hop]
    if k == "all":
        return ["all", hop]
    if k == "add":
        e = draw(gen.pairs(n, max_size=3, min_size=1))
        return ["add", e, None, "mean", "list"]
    if k == "rm":
        return ["rmk", draw(st.lists(st.integers(0, 30), min_size=1, max_size=2)), draw(st.booleans())]
    if k in ("kh", "group"):
        return [k, hop, draw(st.booleans())]
    return [k]


@st.composite
def cases(draw):
    c = draw(base_graph())
    c["ops"] = draw(st.lists(op(c["n"]), min_size=2, max_size=9))
    return c


def walk_sets(m, k):
    adj = [set() for _ in range(m.n)]
    for (a, b), _ in m.items():
        adj[a].add(b)
        adj[b].add(a)
    layers = []
    cur = [{i} for i in range(m.n)]
    for _ in range(k):
        cur = [set().union(*(adj[v] for v in s)) if s else set() for s in cur]
        layers.append(cur)
    return layers


def khop_edges(m, k, only):
    L = walk_sets(m, k)
    return [sorted({i} | (L[-1][i] if only else set().union(*(l[i] for l in L)))) for i in range(m.n)]


def check(c):
    g, m = build_graph(dhg, c)
    ks, differs = set(), False
    for o in c["ops"]:
        k = o[0]
        if k in ("q", "all"):
            hop = o[-1]
            L = walk_sets(m, hop)
            for i in (range(m.n) if k == "all" else [o[1]]):
                want = sorted(L[-1][i])
                same(sorted(g.nbr_v(i, hop)), want, f"nbr_v({i}, hop={hop})")
                same(sorted(g.N_v(i, hop).tolist()), want, f"N_v({i}, hop={hop})")
                if hop == 1:
                    same(sorted(g.nbr_v(i)), want, f"nbr_v({i})")
                differs |= L[-1][i] != L[0][i]
            ks.add(hop)
        elif k in ("kh", "group"):
            want = khop_edges(m, o[1], o[2])
            if k == "kh":
                h = dhg.Hypergraph.from_graph_kHop(g, o[1], only_kHop=o[2])
                hm = HyperModel(m.n)
                hm.add(want, None, "mean", "main")
            else:
                h, hm = build_hyper(dhg, dict(n=m.n, groups=[["a", [[0]], None]], vw=None))
                h.e, h.H
                h.add_hyperedges_from_graph_kHop(g, o[1], only_kHop=o[2], group_name="khop")
                hm.add(want, None, "mean", "khop")
            check_hyper(h, hm, ["count", "H", "deg"])
            ks.add(o[1])
            L = walk_sets(m, o[1])
            differs |= L[-1] != L[0]
        else:
            apply_edit(g, m, o)
    check_graph(g, m)
    return ["nt"] if len(ks) >= 2 and differs else []


SUBS = [Sub("walks", cases, check, quick=3000, shards=8), Sub("large", lambda: gen.large(cases()), check, quick=24, shards=4)]
