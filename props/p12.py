from math import sqrt
from hypothesis import strategies as st
import dhg
from harness import gen
from harness.core import Sub, require, seed_all
from harness.refmodel import check_hyper, check_graph, check_digraph, check_bigraph, poke, GraphModel, DiGraphModel, BiGraphModel, HyperModel
from harness.util import same, near
from props.p10 import struct, build, touch, CHECK, CLS, edges_of, edit

PROPERTY = "P12"
RULE = ("contain: a structure with an edit history, cached reads or not, a rate in [0,1) and a seed; the result is "
        "compared, edge by edge and weight by weight, with a sub-model of the original (non-trivial: some edges kept "
        "and some dropped). rate: a structure with hundreds of edges is dropped at a rate; kept counts, per-edge keep "
        "counts over repeated draws and the pairwise joint keep counts lie within 8 standard deviations of "
        "independent dropping (non-trivial: always).")


@st.composite
def cases(draw):
    c = draw(struct())
    c["rate"] = draw(st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.5, 0.7, 0.9, 0.99]))
    c["group"] = draw(st.integers(-1, 4))
    c["touch"], c["seed"] = draw(st.booleans()), draw(gen.seeds)
    return c


def submodel(obj2, m, kind):
    """A model with the same settings and exactly the edges of the result, weights from the original."""
    m2 = m.copy()
    if kind == "h":
        for nm in m2.g:
            kept = {m.key(e) for e in obj2.e_of_group(nm)[0]}
            require(kept <= set(m.g[nm]), "group %r has hyperedges %r that are not in the original", nm, kept - set(m.g[nm]))
            m2.g[nm] = {k: w for k, w in m.g[nm].items() if k in kept}
    else:
        o = obj2
        if kind in "gd" and m.extra:
            o = obj2.clone()
            o.remove_extra_selfloop()
        kept = {m.key(*e) for e in o.e[0]}
        require(kept <= set(m.e), "edges %r are not in the original", kept - set(m.e))
        m2.e = {k: w for k, w in m.e.items() if k in kept}
    return m2


def check(c):
    kind = c["kind"]
    obj, m = build(c)
    if c["touch"]:
        touch(obj, kind)
    seed_all(c["seed"])
    names = sorted(getattr(m, "g", {}))
    nm = names[c["group"] % len(names)] if names and c["group"] >= 0 else None
    if kind == "h":
        r = obj.drop_hyperedges(c["rate"]) if nm is None else obj.drop_hyperedges_of_group(nm, c["rate"])
    else:
        r = obj.drop_edges(c["rate"])
    require(type(r) is CLS[kind] and r is not obj, "result is %r", type(r))
    if kind == "h":
        require(set(r.group_names) <= set(names), "groups %r", r.group_names)
        for x in names:  # a group may disappear only if nothing of it is left and hyperedges were dropped from it
            if x not in r.group_names:
                require(nm is None or x == nm, "group %r disappeared", x)
                m.g.pop(x) if not m.g[x] else None
    m2 = submodel(r, m, kind)
    CHECK[kind](r, m2)
    CHECK[kind](obj, m)
    n0, n1 = len(edges_of(m, kind)), len(edges_of(m2, kind))
    if c["rate"] == 0:
        same(n1, n0, "edges kept at rate 0")
    if nm is not None:
        for x in names:
            if x != nm:
                same(len(m2.g[x]), len(m.g[x]), f"hyperedges of the other group {x!r}")
    # edits of the result stay in the result
    before = m.copy()
    poke(r)
    r.clear()
    CHECK[kind](obj, before)
    return [kind] + (["nt"] if 0 < n1 < n0 else [])


@st.composite
def rate_cases(draw):
    return dict(kind=draw(st.sampled_from("gdbhH")), k=draw(st.integers(60, 160)), rate=draw(st.sampled_from([0.05, 0.2, 0.4, 0.6, 0.8, 0.95])),
                seed=draw(gen.seeds), loops=draw(st.booleans()), more=draw(st.sampled_from([0, 0, 1, 4, 12])))


def check_rate(c):
    k, p = c["k"], c["rate"]
    n = k + 1
    kind = c["kind"].lower()
    if kind == "h":
        obj = dhg.Hypergraph(n, [[i, i + 1] for i in range(k)])
        obj.add_hyperedges([[0, i, i + 1] for i in range(1, k)] + [[0]], group_name="b")
        for i in range(c["more"]):
            obj.add_hyperedges([[0, 1, 2, 3 + i]], group_name="g%d" % i)
    elif kind == "b":
        obj = dhg.BiGraph(n, n, [[i, (i * 7) % n] for i in range(n)])
    else:
        e = [[i, i + 1] for i in range(k)] + ([[i, i] for i in range(n)] if c["loops"] else [])
        obj = CLS[kind](n, e)
    seed_all(c["seed"])
    keep, reps, joint = {}, 60, 0
    universe = [tuple(x) for x in obj.e[0]]
    for _ in range(reps):
        if c["kind"] == "H":
            r = obj.drop_hyperedges_of_group("b", p)
            kept = {tuple(x) for x in r.e_of_group("b")[0]} if "b" in r.group_names else set()
            universe = [tuple(x) for x in obj.e_of_group("b")[0]]
        else:
            r = obj.drop_edges(p) if kind != "h" else obj.drop_hyperedges(p)
            kept = {tuple(x) for x in r.e[0]}
        for x in kept:
            keep[x] = keep.get(x, 0) + 1
        joint += sum(1 for a, b in zip(universe, universe[1:]) if a in kept and b in kept)
    q = 1 - p

    def within(got, mean, var, what):
        require(abs(got - mean) <= 8 * sqrt(var) + 1, "%s: %s, expected about %.1f (deviation %.1f)", what, got, mean, sqrt(var))
    N = len(universe)
    within(sum(keep.values()), reps * N * q, reps * N * p * q, "edges kept in all draws")
    for x in universe:
        within(keep.get(x, 0), reps * q, reps * p * q, f"draws that keep edge {x}")
    # neighbouring edges are kept together as independence predicts (variance bounded by 3 N q^2)
    within(joint, reps * (N - 1) * q * q, 3 * reps * N * q * q, "neighbouring edges kept together")
    if kind in "gd" and c["loops"]:
        loops = [x for x in universe if x[0] == x[1]]
        within(sum(keep.get(x, 0) for x in loops), reps * len(loops) * q, reps * len(loops) * p * q, "self-loops kept")
    return ["nt", c["kind"]]


SUBS = [Sub("contain", cases, check, quick=2400, shards=8), Sub("large", lambda: gen.large(cases()), check, quick=40, shards=4),
        Sub("rate", rate_cases, check_rate, quick=40, shards=4)]
