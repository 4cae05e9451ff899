from hypothesis import strategies as st
import numpy as np
import dhg
from harness import gen
from harness.core import Sub, require
from harness.refmodel import HyperModel, build_hyper, check_hyper, check_hyper_part, poke
from harness.util import same, near, raises, feats
from props.p10 import touch

PROPERTY = "P15"
RULE = ("a case is a hypergraph with one to three groups, weights and an optional edit history, a vertex selection in any "
        "order (list or set, possibly with repeats) and the single-vertex option; the sub-hypergraph is compared with "
        "an induced model and its propagation with the model's matrices. Non-trivial: the selection is a proper subset, "
        "and some hyperedge is cut (neither kept whole nor lost).")


@st.composite
def cases(draw):
    c = draw(gen.hyper_case(lo=1, hi=8, big=12))
    n = c["n"]
    c["sel"] = draw(gen.perms(n).flatmap(lambda p: st.integers(1, n).map(lambda k: p[:k]))) if gen.LARGE[0] else draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n + 1))
    c["form"] = draw(st.sampled_from(["list", "list", "set"]))
    c["keep"] = draw(st.sampled_from([True, False, None]))
    c["touch"] = draw(st.booleans())
    c["then"] = draw(st.booleans())
    return c


def induced(m, sel, keep):
    """-> model with, per hyperedge, the set of weights a collided hyperedge may come from."""
    order = sorted(set(sel))
    mp = {v: i for i, v in enumerate(order)}
    out = {}
    for nm, d in m.g.items():
        out[nm] = {}
        for k, w in d.items():
            x = tuple(sorted(mp[v] for v in k if v in mp))
            if len(x) >= (1 if keep else 2):
                out[nm].setdefault(x, []).append(w)
    return order, out


def check_sub(s, m, sel, keep):
    order, want = induced(m, sel, keep)
    sm = HyperModel(len(order), [m.vw[v] for v in order])
    for nm in m.g:
        if not want[nm] and nm not in s.group_names:
            continue  # a group that lost every hyperedge may disappear
        sm.g[nm] = {}
        require(nm in s.group_names, "group %r is missing", nm)
        got = {sm.key(e): w for e, w in zip(*s.e_of_group(nm))}
        for x, ws in want[nm].items():
            # hyperedges whose restrictions coincide: the resulting weight is unspecified
            sm.g[nm][x] = ws[0] if len(ws) == 1 else got.get(x, ws[0])
    check_hyper(s, sm)
    return sm


def check(c):
    h, m = build_hyper(dhg, c)
    if c["touch"]:
        touch(h, "h")
        h.add_hyperedges([[0]], [6.0], merge_op="max", group_name="late")
        m.add([[0]], [6.0], "max", "late")
    keep = True if c["keep"] is None else c["keep"]
    arg = set(c["sel"]) if c["form"] == "set" else list(c["sel"])
    args = {} if c["keep"] is None else dict(keep_edges_with_only_one_nodes=keep)
    s = h.subgraph(arg, **args)
    require(type(s) is dhg.Hypergraph, "type %r", type(s))
    sm = check_sub(s, m, c["sel"], keep)
    check_hyper(h, m)
    same(list(c["sel"]) if c["form"] == "list" else set(c["sel"]), arg, "v_list after the call")
    if c["then"]:
        # editing the sub-hypergraph does not reach the original, nor the other way round
        s.add_hyperedges([[0]], [2.0], merge_op="sum", group_name="late")
        sm.add([[0]], [2.0], "sum", "late")
        check_hyper(s, sm)
        check_hyper(h, m)
        h.clear()
        check_hyper(s, sm)
        # a sub-hypergraph of the sub-hypergraph
        check_sub(s.subgraph([0]), sm, [0], True)
        poke(s)
    else:
        everything = h.subgraph(range(h.num_v)) if c["form"] == "set" else h.subgraph(list(range(h.num_v))[::-1])
        check_hyper(everything, m)
        poke(everything)
        poke(s)
        raises(lambda: h.subgraph([h.num_v]), "a vertex beyond the last one")
        raises(lambda: h.subgraph([-1]), "a negative vertex")
        raises(lambda: h.subgraph([]), "an empty selection")
    sel = set(c["sel"])
    cut = any(0 < len(sel & set(k)) < len(k) for k, _ in m.edges())
    return ["nt"] if (cut or c["then"]) and len(sel) < m.n else []


SUBS = [Sub("induced", cases, check, quick=2400, shards=8), Sub("large", lambda: gen.large(cases()), check, quick=40, shards=4)]
