from hypothesis import strategies as st
import dhg
from harness import gen
from harness.core import Sub, require
from harness.refmodel import HyperModel, check_hyper, check_hyper_part, HYPER_VIEWS
from harness.util import same, near

PROPERTY = "P04"
RULE = ("a case is a vertex count, optional vertex weights, an optional initial hyperedge list and up to 12 "
        "operations over up to three named groups (add with a merge mode in list/tuple/single form and any "
        "vertex order, remove from one or all groups, remove a group, clear, set the vertex weights, "
        "read some whole or per-group views), compared with a dictionary model after reads and at the end. Non-trivial: at least two "
        "edits with a read between them, and either two groups at some point or a merged hyperedge.")
NAMES = ["main", "main", "a", "a", "b", "b", "c", "group 4", "a2"]


@st.composite
def op(draw, n):
    k = draw(st.sampled_from(["add"] * 5 + ["spread", "rm", "rmk", "rmk", "rmk", "rmg", "clear", "vw"] + ["read"] * 5))
    if k == "add":
        e = draw(gen.hyperedges(n, max_size=4, dup=True))
        return ["add", e, draw(gen.opt_weights(len(e), True, True)), draw(gen.merges), draw(st.sampled_from(NAMES)),
                draw(st.sampled_from(["list", "tuple", "outer", "single", "scalar"]))]
    if k == "spread":
        return ["spread", draw(gen.hyperedges(n, min_size=1, max_size=2)), draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=3, max_size=6)), draw(gen.merges)]
    if k == "rm":
        return ["rm", draw(gen.hyperedges(n, min_size=1, max_size=2, dup=True)), draw(st.sampled_from([None] + NAMES))]
    if k == "rmk":
        return ["rmk", draw(st.lists(st.integers(0, 30), min_size=1, max_size=2)), draw(st.booleans()), draw(st.integers(0, 5))]
    if k == "rmg":
        return ["rmg", draw(st.integers(0, 5))]
    if k == "vw":
        return ["vw", draw(gen.vertex_weights(n)) if n < 40 else [1 + i % 5 / 4 for i in range(n)]]
    if k == "read":
        return ["read", draw(st.lists(st.sampled_from(HYPER_VIEWS), min_size=1, max_size=3, unique=True)), draw(st.integers(-1, 5))]
    return [k]


@st.composite
def histories(draw):
    n = draw(gen.sizes(1, 6, 10))
    e = draw(gen.hyperedges(n, max_size=5, dup=True))
    return dict(n=n, e=e if e else None, w=draw(gen.opt_weights(len(e), True, True)) if e else None, merge=draw(gen.merges),
                vw=draw(st.one_of(st.none(), gen.vertex_weights(n))),
                ops=draw(st.lists(op(n), max_size=12)))


@st.composite
def large(draw):
    n = draw(gen.big_sizes())
    e, w = draw(gen.many_hyperedges(n))
    return dict(n=n, e=e, w=w, merge=draw(gen.merges), vw=None, ops=draw(st.lists(op(n), min_size=2, max_size=6)))


def check_history(c):
    n = c["n"]
    h = dhg.Hypergraph(n, [list(x) for x in c["e"]] if c["e"] is not None else None, c["w"],
                       list(c["vw"]) if c["vw"] else None, merge_op=c["merge"])
    m = HyperModel(n, c["vw"])
    if c["e"]:
        m.add(c["e"], c["w"], c["merge"], "main")
    labels, edits, between, pend, rich = set(), 0, 0, False, False
    for o in c["ops"]:
        k = o[0]
        if k == "read":
            names = sorted(m.g)
            if o[2] < 0 or not names:
                check_hyper_part(h, m, None, o[1])
            else:
                check_hyper_part(h, m, names[o[2] % len(names)], o[1])
            pend = True
            continue
        if k == "add":
            _, e, w, mg, nm, form = o
            before = sum(len(d) for d in m.g.values())
            if form == "single" and e:
                h.add_hyperedges(list(e[0]), None if w is None else w[0], merge_op=mg, group_name=nm)
                e, w = e[:1], None if w is None else w[:1]
            elif form == "scalar" and e and w is not None:
                h.add_hyperedges([list(x) for x in e], w[0], merge_op=mg, group_name=nm)
                w = [w[0]] * len(e)
            else:
                ee = [tuple(x) for x in e] if form == "tuple" else [list(x) for x in e]
                h.add_hyperedges(tuple(ee) if form == "outer" else ee, None if w is None else list(w), merge_op=mg, group_name=nm)
            m.add(e, w, mg, nm)
            rich |= len(m.g) > 1 or sum(len(d) for d in m.g.values()) < before + len(e)
        elif k == "spread":           # the same hyperedges in many groups
            for nm in o[2]:
                h.add_hyperedges([list(x) for x in o[1]], merge_op=o[3], group_name=nm)
                m.add(o[1], None, o[3], nm)
            rich |= True
        elif k == "rm":
            nm = o[2] if o[2] in m.g else None
            h.remove_hyperedges([list(x) for x in o[1]], nm)
            m.rm(o[1], nm)
        elif k == "rmk":
            names = sorted(m.g)
            nm = names[o[3] % len(names)] if names and not o[2] else None
            keys = sorted({e for e, _ in m.edges(nm)})
            if not keys:
                continue
            e = [list(keys[i % len(keys)])[::-1] for i in o[1]]
            if len(e) == 1 and o[3] % 2:
                h.remove_hyperedges(list(e[0]), nm)
            else:
                h.remove_hyperedges(e, nm)
            m.rm(e, nm)
        elif k == "rmg":
            names = sorted(m.g)
            if not names:
                continue
            h.remove_group(names[o[1] % len(names)])
            m.rm_group(names[o[1] % len(names)])
        elif k == "vw":
            w = list(o[1])
            h.v_weight = w
            w[0] += 1.0                   # the caller goes on using its list
            m.vw = list(o[1])
        elif k == "clear":
            h.clear()
            vw = m.vw
            m.clear()
            # whether vertex weights survive is not specified; they stay well formed either way
            require(list(h.v_weight) in (list(vw), [1.0] * n), "v_weight after clear: %r", h.v_weight)
            m.vw = list(h.v_weight)
        labels.add(k)
        same(h.num_e, len(m.edges()), f"num_e after {k}")
        edits += 1
        if pend:
            between, pend = between + 1, False
    check_hyper(h, m)
    check_hyper(h, m)
    if edits >= 2 and between and rich:
        labels.add("nt")
    return labels


SUBS = [Sub("history", histories, check_history, quick=2800, shards=8),
        Sub("large", large, check_history, quick=100, shards=4)]
