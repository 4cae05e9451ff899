import math
from collections import Counter
from hypothesis import strategies as st
import dhg.utils as du
from harness.core import Sub, require
from harness.util import same

PROPERTY = "P23"
RULE = ("a case is an edge list (with repeats and loops), an adjacency list (empty lines, isolated heads, repeated heads) or "
        "several of them, with integer, float and text labels; conversions are compared as multisets of edges, and a remapping is "
        "inverted through its returned maps, which must be bijections onto 0..n-1. Non-trivial: at least two edges and "
        "three labels.")
LABEL = st.one_of(st.integers(0, 6), st.integers(-3, 120), st.sampled_from(["A", "B", "a b", "", "10x", 4.5, 0.25, "user", "9", "é", "1234", "007", "20190801", "-5", "user_12", "user_3", 10 ** 12, "1000000000000", 1e-7, "Z" * 40, " A", "A ", "a", "B", "b", "\t9", "a b ", "a  b", "é", "E\u0301", "É"]))


def edge_lists(label=LABEL, size=2):
    e = st.lists(label, min_size=size, max_size=size) if size else st.lists(label, min_size=1, max_size=5)
    return st.lists(e, max_size=12)


def adj_lists(label=LABEL):
    return st.lists(st.lists(label, max_size=6), max_size=8)


def txt(x):
    return [[str(v) for v in l] for l in x]


def check_conv(c):
    e = [tuple(x) for x in c["e"]]
    src = list(e)
    al = du.edge_list_to_adj_list(e)
    ad = du.edge_list_to_adj_dict(e)
    same(e, src, "the edge list passed in")
    want = Counter(e)
    same(Counter((l[0], v) for l in al for v in l[1:]), want, "edges of the adjacency list")
    same(Counter((u, v) for u, vs in ad.items() for v in vs), want, "edges of the adjacency dictionary")
    heads = [l[0] for l in al]
    same(len(set(heads)), len(heads), "one line per source vertex")
    same(set(heads), {u for u, _ in e}, "heads of the adjacency list")
    same(set(ad), {u for u, _ in e}, "keys of the adjacency dictionary")
    for l in al:
        same(l[1:], [v for u, v in e if u == l[0]], f"order of the neighbours of {l[0]!r}")
    keep = [list(l) for l in al]
    back = du.adj_list_to_edge_list(al)
    same(al, keep, "the adjacency list passed in")
    same(Counter(tuple(x) for x in back), want, "edges after the round trip")
    if len(e):
        al[0].append("new")
        require("new" not in du.edge_list_to_adj_list(e)[0], "state leaks between calls")
    a = [list(l) for l in c["a"]]
    got = du.adj_list_to_edge_list(a)
    same(Counter(tuple(x) for x in got), Counter((l[0], v) for l in a for v in l[1:]), "edges of an adjacency list")
    same(a, c["a"], "the adjacency list passed in")
    return ["nt"] if len(e) >= 2 and len({v for x in e for v in x}) >= 3 else []


def inverse(m, labels, what):
    same(set(m), labels, what + ": labels mapped")
    same(sorted(m.values()), list(range(len(labels))), what + ": indices")
    return {v: k for k, v in m.items()}


@st.composite
def remap_cases(draw):
    kind = draw(st.sampled_from(["edge", "edge", "adj"]))
    bi = draw(st.booleans())
    k = draw(st.integers(1, 3))
    size = 2 if bi or kind == "adj" else draw(st.sampled_from([2, 0]))
    one = adj_lists() if kind == "adj" else edge_lists(size=size)
    return dict(kind=kind, bi=bi, lists=draw(st.lists(one, min_size=k, max_size=k)))


def check_remap(c):
    adj = c["kind"] == "adj"
    conv = (lambda L: [list(x) for x in L]) if adj else (lambda L: [tuple(x) for x in L])
    lists = [conv(L) for L in c["lists"]]
    keep = [list(L) for L in lists]
    many = du.remap_adj_lists if adj else du.remap_edge_lists
    one = du.remap_adj_list if adj else du.remap_edge_list
    out = many(*lists, bipartite_graph=c["bi"], ret_map=True)
    verify(c, lists, out)
    same(many(*lists, bipartite_graph=c["bi"]), out[0], "the same call without ret_map")
    for L in lists:
        o = one(L, bipartite_graph=c["bi"], ret_map=True)
        verify(c, [L], ([o[0]],) + tuple(o[1:]))
        same(one(L, bipartite_graph=c["bi"]), o[0], "the same call without ret_map")
        same(many(L, bipartite_graph=c["bi"])[0], o[0], "one list through the list version")
    same(lists, keep, "the lists passed in")
    n = len({str(v) for L in lists for x in L for v in x})
    return [c["kind"] + ("-bi" if c["bi"] else "")] + (["nt"] if sum(map(len, lists)) >= 2 and n >= 3 else []) + \
        (["short line"] if adj and any(len(x) < 2 for L in lists for x in L) else [])


def verify(c, lists, out):
    res = out[0]
    same(len(res), len(lists), "number of lists")
    flat = [x for L in lists for x in L]
    if c["bi"]:
        inv_u = inverse(out[1], {str(x[0]) for x in flat if len(x)}, "first side")
        inv_v = inverse(out[2], {str(v) for x in flat for v in x[1:]}, "second side")
    else:
        inv_u = inv_v = inverse(out[1], {str(v) for x in flat for v in x}, "map")
    back = [[[inv_u[x[0]]] + [inv_v[v] for v in x[1:]] if len(x) else [] for x in L] for L in res]
    same(back, [txt(L) for L in lists], "lists after applying the inverse map")


def check_c(c):
    n, m = c["n"], c["m"]
    want = math.comb(n, m) if 0 <= m <= n else 0
    got = du.C(n, m)
    require(isinstance(got, int) and got == want, "C(%s, %s) = %s, expected %s", n, m, got, want)
    return ["nt"] if 2 <= m <= n - 2 else []


@st.composite
def big_edges(draw):
    """Hundreds of edges over labels of one style."""
    import random
    r = random.Random(draw(st.integers(0, 10 ** 6)))
    k, n = draw(st.integers(60, 500)), draw(st.integers(12, 300))
    style = draw(st.sampled_from(["int", "text", "digits", "gap", "mixed"]))
    lab = {"int": lambda i: i, "text": lambda i: f"v{i}", "digits": lambda i: str(i * 37 + 900), "gap": lambda i: i * 1009,
           "mixed": lambda i: i if i % 2 else f"{i}x"}[style]
    return [[lab(r.randrange(n)), lab(r.randrange(n))] for _ in range(k)]


@st.composite
def big_remaps(draw):
    lists = draw(st.lists(big_edges(), min_size=1, max_size=2))
    kind = draw(st.sampled_from(["edge", "adj"]))
    if kind == "adj":
        lists = [[sum((e[1:] for e in L[i:i + 1 + i % 9]), L[i][:1]) for i in range(0, len(L), 9)] for L in lists]
    return dict(kind=kind, bi=draw(st.booleans()), lists=lists)


@st.composite
def big_convs(draw):
    return dict(e=draw(big_edges()), a=draw(big_remaps().filter(lambda c: c["kind"] == "adj"))["lists"][0])


SUBS = [Sub("large", big_convs, check_conv, quick=60, shards=1), Sub("large_remap", big_remaps, check_remap, quick=60, shards=1), Sub("convert", lambda: st.fixed_dictionaries(dict(e=edge_lists(), a=adj_lists())), check_conv, quick=1500, shards=2),
        Sub("remap", remap_cases, check_remap, quick=2500, shards=4),
        Sub("binomial", lambda: st.integers(0, 120).flatmap(lambda n: st.fixed_dictionaries(dict(n=st.just(n), m=st.one_of(st.integers(0, n), st.integers(-3, n + 3))))),
            check_c, quick=1500, shards=1)]
