from hypothesis import strategies as st
import dhg
from harness import gen
from harness.core import Sub, require
from harness.refmodel import GraphModel, check_graph, GRAPH_VIEWS
from harness.util import same

PROPERTY = "P01"
RULE = ("a case is a vertex count, an initial edge list (lists, tuples or an adjacency list; weights "
        "none/float/int; merge mode; extra self-loops) and up to 12 operations (add, remove, "
        "add/remove extra self-loops, remove self-loops, clear, read some views); after each edit the "
        "edge count, after each read the chosen views and at the end every view are compared with a "
        "dictionary model. Non-trivial: at least two edits with a read of a derived view between them, "
        "and the final graph or an intermediate one has an edge.")


@st.composite
def edge_op(draw, n):
    k = draw(st.sampled_from(["add", "add", "add", "rm", "rmk", "xadd", "xrm", "slrm", "clear", "read", "read", "read"]))
    if k == "add":
        e = draw(gen.pairs(n, max_size=5))
        return ["add", e, draw(gen.opt_weights(len(e), True, True)), draw(gen.merges), draw(st.sampled_from(["list", "tuple", "single"]))]
    if k == "rm":
        return ["rm", draw(gen.pairs(n, max_size=3, min_size=1))]
    if k == "rmk":
        return ["rmk", draw(st.lists(st.integers(0, 30), min_size=1, max_size=3)), draw(st.booleans())]
    if k == "read":
        return ["read", draw(st.lists(st.sampled_from(GRAPH_VIEWS), min_size=1, max_size=4, unique=True))]
    return [k]


@st.composite
def histories(draw):
    n = draw(gen.sizes(1, 7, 14))
    e = draw(gen.pairs(n, max_size=8))
    return dict(n=n, e=e, w=draw(gen.opt_weights(len(e), True, True)), merge=draw(gen.merges), extra=draw(st.booleans()),
                form=draw(st.sampled_from(["list", "tuple", "adj"])),
                ops=draw(st.lists(edge_op(n), max_size=12)))


def fmt(e, form):
    return [tuple(x) for x in e] if form == "tuple" else [list(x) for x in e]


def apply_edit(g, m, op):
    """Apply one edit operation to library object and model; True if it was an edit."""
    k = op[0]
    if k == "add":
        _, e, w, mg, form = op
        if form == "single" and e:
            g.add_edges(list(e[0]), None if w is None else w[0], merge_op=mg)
            m.add(e[:1], None if w is None else w[:1], mg)
        else:
            g.add_edges(fmt(e, form), None if w is None else list(w), merge_op=mg)
            m.add(e, w, mg)
        return True
    if k == "rm":
        g.remove_edges([list(x) for x in op[1]])
        m.rm(op[1])
        return True
    if k == "rmk":
        keys = sorted(m.e)
        if not keys:
            return False
        e = [list(keys[i % len(keys)]) for i in op[1]]
        if op[2] and not m.directed:
            e = [x[::-1] for x in e]
        g.remove_edges(e)
        m.rm(e)
        return True
    if k == "xadd":
        g.add_extra_selfloop()
        m.extra = True
    elif k == "xrm":
        g.remove_extra_selfloop()
        m.extra = False
    elif k == "slrm":
        g.remove_selfloop()
        m.rm_selfloop()
    elif k == "clear":
        g.clear()
        m.clear()
    elif k == "rev":
        g.reverse_direction()
        m.reverse()
    else:
        return False
    return True


def run_history(c, cls, model_cls, check):
    m = model_cls(c["n"], c["extra"])
    if c["form"] == "adj":
        adj = {}
        for a, b in c["e"]:
            adj.setdefault(a, []).append(b)
        g = cls.from_adj_list(c["n"], [[a] + bs for a, bs in adj.items()], extra_selfloop=c["extra"])
        m.add([(a, b) for a, bs in adj.items() for b in bs], None, "mean")
    else:
        g = cls(c["n"], fmt(c["e"], c["form"]), c["w"], extra_selfloop=c["extra"], merge_op=c["merge"])
        m.add(c["e"], c["w"], c["merge"])
    labels = {"init_" + c["form"]}
    edits = reads_between = 0
    seen_edge = bool(m.items())
    pending_read = False
    for op in c["ops"]:
        if op[0] == "read":
            check(g, m, op[1])
            pending_read = True
            continue
        if apply_edit(g, m, op):
            labels.add(op[0])
            same(g.num_e, m.num_e, f"num_e after {op[0]}")
            edits += 1
            if pending_read:
                reads_between += 1
                pending_read = False
            seen_edge |= bool(m.items())
    check(g, m)
    check(g, m)  # reading twice gives the same
    if edits >= 2 and reads_between and seen_edge:
        labels.add("nt")
    return labels


@st.composite
def large(draw):
    c = draw(gen.large_graph())
    return dict(c, merge=draw(gen.merges), extra=draw(st.booleans()), form=draw(st.sampled_from(["list", "tuple", "adj"])),
                ops=draw(st.lists(edge_op(c["n"]), min_size=2, max_size=6)))


def check_history(c):
    return run_history(c, dhg.Graph, GraphModel, check_graph)


@st.composite
def merge_cases(draw):
    n = draw(st.integers(1, 4))
    base = draw(gen.pairs(n, min_size=1, max_size=4))
    seq = draw(st.lists(st.tuples(st.integers(0, len(base) - 1), st.booleans(), gen.weights(), gen.merges, st.booleans()).map(list), min_size=2, max_size=10))
    return dict(n=n, base=base, seq=seq)


def check_merge(c):
    """Repeated merging of the same edges, end points in either order, via one or several calls."""
    g, m = dhg.Graph(c["n"]), GraphModel(c["n"])
    for k, flip, w, mg, batch in c["seq"]:
        e = c["base"][k][::-1] if flip else list(c["base"][k])
        es, ws = ([e, e[::-1]], [w, w / 2]) if batch else ([e], [w])
        g.add_edges(es, ws, merge_op=mg)
        m.add(es, ws, mg)
    check_graph(g, m, ["e", "A", "deg", "num_e"])
    return ["nt"] if len(c["seq"]) > len(m.e) else []


SUBS = [
    Sub("history", histories, check_history, quick=3200, shards=8),
    Sub("large", large, check_history, quick=100, shards=4),
    Sub("merge", merge_cases, check_merge, quick=1200, shards=4),
]
