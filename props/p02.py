from hypothesis import strategies as st
import dhg
from harness import gen
from harness.core import Sub
from harness.refmodel import DiGraphModel, check_digraph, DIGRAPH_VIEWS
from props.p01 import fmt, run_history

PROPERTY = "P02"
RULE = ("as P01 for directed graphs, with reversal of all edges among the operations and in/out views. "
        "Non-trivial: at least two edits with a read of a derived view between them, and an edge existed.")


@st.composite
def edge_op(draw, n):
    k = draw(st.sampled_from(["add", "add", "rm", "rmk", "rmk", "xadd", "xrm", "slrm", "clear", "rev", "rev", "read", "read", "read"]))
    if k == "add":
        e = draw(gen.pairs(n, max_size=5))
        return ["add", e, draw(gen.opt_weights(len(e), True, True)), draw(gen.merges), draw(st.sampled_from(["list", "tuple", "single"]))]
    if k == "rm":
        return ["rm", draw(gen.pairs(n, max_size=3, min_size=1))]
    if k == "rmk":
        return ["rmk", draw(st.lists(st.integers(0, 30), min_size=1, max_size=3)), False]
    if k == "read":
        return ["read", draw(st.lists(st.sampled_from(DIGRAPH_VIEWS), min_size=1, max_size=4, unique=True))]
    return [k]


@st.composite
def histories(draw):
    n = draw(gen.sizes(1, 7, 14))
    e = draw(gen.pairs(n, max_size=8))
    return dict(n=n, e=e, w=draw(gen.opt_weights(len(e), True, True)), merge=draw(gen.merges), extra=draw(st.booleans()),
                form=draw(st.sampled_from(["list", "tuple", "adj"])),
                ops=draw(st.lists(edge_op(n), max_size=12)))


@st.composite
def large(draw):
    c = draw(gen.large_graph())
    return dict(c, merge=draw(gen.merges), extra=draw(st.booleans()), form=draw(st.sampled_from(["list", "tuple", "adj"])),
                ops=draw(st.lists(edge_op(c["n"]), min_size=2, max_size=6)))


def check_history(c):
    return run_history(c, dhg.DiGraph, DiGraphModel, check_digraph)


SUBS = [Sub("history", histories, check_history, quick=3600, shards=8),
        Sub("large", large, check_history, quick=100, shards=4)]
