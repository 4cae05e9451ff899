from hypothesis import strategies as st
import dhg
from harness import gen
from harness.core import Sub
from harness.refmodel import BiGraphModel, check_bigraph, BIGRAPH_VIEWS
from harness.util import same
from props.p01 import fmt

PROPERTY = "P03"
RULE = ("a case is two side sizes, an initial edge list (lists, tuples or an adjacency list; weights; merge "
        "mode) and up to 12 operations (add, remove, clear, swap the sides, read some views), compared with "
        "a dictionary model. Non-trivial: at least two edits with a read between them and an edge existed.")


@st.composite
def op(draw, nu, nv):
    # edges are generated for the original orientation and flipped by the checker after swaps
    k = draw(st.sampled_from(["add", "add", "rm", "rmk", "rmk", "clear", "switch", "switch", "read", "read", "read"]))
    if k == "add":
        e = draw(gen.pairs(nu, nv, max_size=5))
        return ["add", e, draw(gen.opt_weights(len(e), True, True)), draw(gen.merges), draw(st.sampled_from(["list", "tuple", "single"]))]
    if k == "rm":
        return ["rm", draw(gen.pairs(nu, nv, max_size=3, min_size=1))]
    if k == "rmk":
        return ["rmk", draw(st.lists(st.integers(0, 30), min_size=1, max_size=3))]
    if k == "read":
        return ["read", draw(st.lists(st.sampled_from(BIGRAPH_VIEWS), min_size=1, max_size=4, unique=True))]
    return [k]


@st.composite
def histories(draw):
    nu, nv = draw(gen.sizes(1, 6, 12)), draw(gen.sizes(1, 6, 12))
    e = draw(gen.pairs(nu, nv, max_size=8))
    return dict(nu=nu, nv=nv, e=e, w=draw(gen.opt_weights(len(e), True, True)), merge=draw(gen.merges),
                form=draw(st.sampled_from(["list", "tuple", "adj"])), ops=draw(st.lists(op(nu, nv), max_size=12)))


@st.composite
def large(draw):
    c = draw(gen.large_bigraph())
    return dict(c, merge=draw(gen.merges), form=draw(st.sampled_from(["list", "tuple", "adj"])), ops=draw(st.lists(op(c["nu"], c["nv"]), min_size=2, max_size=6)))


def check_history(c):
    m = BiGraphModel(c["nu"], c["nv"])
    if c["form"] == "adj":
        adj = {}
        for a, b in c["e"]:
            adj.setdefault(a, []).append(b)
        g = dhg.BiGraph.from_adj_list(c["nu"], c["nv"], [[a] + bs for a, bs in adj.items()])
        m.add([(a, b) for a, bs in adj.items() for b in bs], None, "mean")
    else:
        g = dhg.BiGraph(c["nu"], c["nv"], fmt(c["e"], c["form"]), c["w"], merge_op=c["merge"])
        m.add(c["e"], c["w"], c["merge"])
    labels, edits, between, pend, seen, flipped = {"init_" + c["form"]}, 0, 0, False, bool(m.e), False
    olds = []
    for o in c["ops"]:
        k = o[0]
        if k == "read":
            check_bigraph(g, m, o[1])
            pend = True
            continue
        fl = (lambda es: [x[::-1] for x in es]) if flipped else (lambda es: [list(x) for x in es])
        if k == "add":
            _, e, w, mg, form = o
            e = fl(e)
            if form == "single" and e:
                g.add_edges(e[0], None if w is None else w[0], merge_op=mg)
                m.add(e[:1], None if w is None else w[:1], mg)
            else:
                g.add_edges(fmt(e, form), None if w is None else list(w), merge_op=mg)
                m.add(e, w, mg)
        elif k == "rm":
            e = fl(o[1])
            g.remove_edges(e)
            m.rm(e)
        elif k == "rmk":
            keys = sorted(m.e)
            if not keys:
                continue
            e = [list(keys[i % len(keys)]) for i in o[1]]
            g.remove_edges(e)
            m.rm(e)
        elif k == "clear":
            g.clear()
            m.clear()
        elif k == "switch":
            olds.append((g, m.copy()))
            g, m, flipped = g.switch_uv(), m.switch(), not flipped
        labels.add(k)
        same(g.num_e, len(m.e), f"num_e after {k}")
        edits += 1
        seen |= bool(m.e)
        if pend:
            between, pend = between + 1, False
    check_bigraph(g, m)
    check_bigraph(g, m)
    for og, om in olds[-2:]:
        check_bigraph(og, om)  # the bigraph that was swapped keeps its own orientation
    if edits >= 2 and between and seen:
        labels.add("nt")
    return labels


SUBS = [Sub("history", histories, check_history, quick=3600, shards=8),
        Sub("large", large, check_history, quick=100, shards=4)]
