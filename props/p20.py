import json
import os
import subprocess
import sys
from hypothesis import strategies as st
import random
import numpy as np
import torch
import dhg
import dhg.nn as dn
import dhg.random as dr
import dhg.utils as du
from harness import gen
from harness.core import Sub, require, VERIF
from harness.util import same

PROPERTY = "P20"
RULE = ("a case is a seed, a sequence of random library operations, and different amounts of work done with each of the "
        "three underlying generators before seeding; the recorded results must be equal when repeated after seeding again, "
        "in this process and in a fresh process with another hash seed, and differ for another seed when the "
        "sequence has at least 40 bits of randomness. Non-trivial: at least two operations.")


def edges(g):
    return [[list(x) for x in g.e[0]], [float(x) for x in g.e[1]]]


def t(x):
    return x.detach().double().to_dense().tolist() if x.is_sparse else x.detach().double().tolist()


def base_graph(k):
    n = 6 + k
    return dhg.Graph(n, [(i, j) for i in range(n) for j in range(i + 1, n) if (i * 7 + j * 3) % 3])


def base_di(k):
    n = 6 + k
    return dhg.DiGraph(n, [(i, j) for i in range(n) for j in range(n) if i != j and (i * 7 + j * 3) % 3])


def base_bi(k):
    return dhg.BiGraph(5 + k, 7, [(i, j) for i in range(5 + k) for j in range(7) if (i + j * 3) % 3])


def base_h(k):
    h = dhg.Hypergraph(7 + k, [[i, (i + 1) % 7, (i + 3) % 7] for i in range(7)])
    h.add_hyperedges([[i, i + 1] for i in range(6)], group_name="b")
    return h


def dataset(k):
    return du.UserItemDataset(5, 9, [(u, v) for u in range(5) for v in range(9) if (u + v + k) % 3 == 0], strict_link=False)


def bgnn_like(k):
    return dn.MLP([3, 4, 2])


OPS = {
    "graph_Gnp": lambda k: edges(dr.graph_Gnp(8 + k, 0.5)), "graph_Gnp_fast": lambda k: edges(dr.graph_Gnp_fast(8 + k, 0.5)),
    "graph_Gnm": lambda k: edges(dr.graph_Gnm(9 + k, 15)), "digraph_Gnp": lambda k: edges(dr.digraph_Gnp(8 + k, 0.5)),
    "digraph_Gnp_fast": lambda k: edges(dr.digraph_Gnp_fast(8 + k, 0.5)), "digraph_Gnm": lambda k: edges(dr.digraph_Gnm(8 + k, 20)),
    "bigraph_Gnp": lambda k: edges(dr.bigraph_Gnp(6, 8 + k, 0.5)), "bigraph_Gnm": lambda k: edges(dr.bigraph_Gnm(6, 8 + k, 15)),
    "uniform_hypergraph_Gnp": lambda k: edges(dr.uniform_hypergraph_Gnp(3, 7 + k % 2, 0.5)),
    "uniform_hypergraph_Gnm": lambda k: edges(dr.uniform_hypergraph_Gnm(3, 9 + k, 12)),
    "hypergraph_Gnm": lambda k: edges(dr.hypergraph_Gnm(9 + k, 12, ["uniform", "low_order_first", "high_order_first"][k % 3])),
    "graph_drop": lambda k: edges(base_graph(k).drop_edges(0.5)), "digraph_drop": lambda k: edges(base_di(k).drop_edges(0.5)),
    "bigraph_drop": lambda k: edges(base_bi(k).drop_edges(0.5)), "hyper_drop": lambda k: edges(base_h(k).drop_hyperedges(0.5)),
    "group_drop": lambda k: edges(base_h(k).drop_hyperedges_of_group("b", 0.5)),
    "sparse_dropout": lambda k: t(du.sparse_dropout(base_graph(k).A, 0.5)),
    "v2v_drop": lambda k: t(base_graph(k).v2v(torch.ones(6 + k, 2), aggr="sum", drop_rate=0.5)),
    "h_v2v_drop": lambda k: t(base_h(k).v2v(torch.arange(14.0 + 2 * k).view(-1, 2), drop_rate=0.5)),
    "split_num": lambda k: [t(m) for m in du.split_by_num(40, [i % 2 for i in range(40)], 5 + k, 5)],
    "split_ratio": lambda k: [t(m) for m in du.split_by_ratio(40, np.array([i % 3 for i in range(40)]), 0.5, 0.25)],
    "split_ui_num": lambda k: du.split_by_num_for_UI_bigraph(base_bi(k), 2),
    "split_ui_ratio": lambda k: du.split_by_ratio_for_UI_bigraph(base_bi(k), 0.5),
    "normal_features": lambda k: t(dr.normal_features([i % 3 for i in range(9)], 1.0 + k)),
    "neg_item": lambda k: [dataset(k).sample_neg_item(u) for u in range(5)],
    "triplets": lambda k: (lambda d: [list(d[i]) for i in range(len(d))])(dataset(k)),
    "hypergcn": lambda k: edges(dhg.Graph.from_hypergraph_hypergcn(base_h(k), torch.arange(5.0 * (7 + k)).remainder(7).view(7 + k, 5) - 3, k % 2 == 1)),
    "init": lambda k: [t(p) for p in dn.GCNConv(4 + k, 5).parameters()],
    "init_uni": lambda k: [t(p) for p in dn.UniGATConv(4 + k, 5).parameters()],
    "dropout": lambda k: t(dn.HGNNConv(3, 20, drop_rate=0.5).train()(torch.ones(7 + k, 3), base_h(k))),
    "shuffle": lambda k: torch.randperm(9 + k).tolist() + list(np.random.permutation(9)) + random.sample(range(30), 5),
}
RICH = {"graph_Gnm", "digraph_Gnm", "bigraph_Gnm", "uniform_hypergraph_Gnm", "hypergraph_Gnm", "split_num", "split_ratio", "normal_features", "init", "init_uni",
        "shuffle", "graph_Gnp", "digraph_Gnp", "digraph_Gnp_fast"}


# more than 45 bits of randomness in the result of a single call (one or more for each underlying generator)
WIDE = {"init", "init_uni", "normal_features", "split_num", "split_ratio", "digraph_Gnm", "digraph_Gnp"}


@st.composite
def cases(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(sorted(OPS)), st.integers(0, 3)).map(list), min_size=1, max_size=6))
    c = dict(seed=draw(st.one_of(st.integers(0, 2 ** 32 - 1), st.sampled_from([0, 1, 42, 2023]))), other=0, ops=ops,
                noise=draw(st.lists(st.tuples(st.sampled_from(["py", "np", "torch", "lib"]), st.integers(1, 5)).map(list), max_size=4)),
                pre=draw(st.one_of(st.none(), st.integers(0, 100))))
    # another seed: anything, or one that differs in a single bit
    c["other"] = draw(st.one_of(st.integers(1, 2 ** 32 - 1), st.integers(0, 31).map(lambda b: c["seed"] ^ (1 << b))))
    return c


def noise(c):
    for k, n in c["noise"]:
        for _ in range(n):
            if k == "py":
                random.gauss(0, 1)
            elif k == "np":
                np.random.randn()          # leaves a cached second normal behind
            elif k == "torch":
                torch.randn(3)
            else:
                dr.graph_Gnp(5, 0.5)


def run(seed, ops):
    dr.set_seed(seed)
    return [OPS[o](k) for o, k in ops]


def check(c):
    a = run(c["seed"], c["ops"])
    same(dr.seed(), c["seed"], "dhg.random.seed() after set_seed")
    noise(c)
    if c["pre"] is not None:
        run(c["pre"], c["ops"][:2])
        same(dr.seed(), c["pre"], "dhg.random.seed() after set_seed")
    b = run(c["seed"], c["ops"])
    same(dr.seed(), c["seed"], "dhg.random.seed() after set_seed")
    for (o, k), x, y in zip(c["ops"], a, b):
        same(y, x, f"{o}({k}) repeated with the same seed")
    names = {o for o, _ in c["ops"]}
    if names & RICH and c["other"] != c["seed"]:
        z = run(c["other"], c["ops"])
        for (o, k), x, y in zip(c["ops"], a, z):
            require(o not in WIDE or x != y, "seeds %s and %s give the same result for %s", c["seed"], c["other"], o)
        rich = [i for i, (o, _) in enumerate(c["ops"]) if o in RICH]
        if len(rich) >= 2:
            require(any(z[i] != a[i] for i in rich), "seeds %s and %s give the same results for %s", c["seed"], c["other"], sorted(names & RICH))
    return sorted(names) + (["nt"] if len(c["ops"]) >= 2 else [])


CHILD = """
import sys, json
sys.path[:0] = json.loads(sys.argv[1])
from props import p20
import dhg.random as dr, torch
c = json.load(sys.stdin)
p20.noise(c)
print("RESULT" + json.dumps([p20.run(c["seed"], c["ops"]), p20.run(c["seed"] // 2, c["ops"])], default=lambda x: x.item()))
"""


@st.composite
def proc_cases(draw):
    c = draw(cases())
    c["ops"] = [[o, draw(st.integers(0, 3))] for o in sorted(OPS)] + c["ops"]
    c["hash"] = draw(st.integers(1, 1000))
    return c


def check_process(c):
    env = dict(os.environ, PYTHONHASHSEED=str(c["hash"]), OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", CHILD, json.dumps([x for x in sys.path if x])], input=json.dumps(c), capture_output=True, text=True, env=env)
    out = [l for l in p.stdout.splitlines() if l.startswith("RESULT")]
    require(out, "the child process failed: %s", p.stderr[-2000:])
    got = json.loads(out[0][6:])
    for seed, g in zip([c["seed"], c["seed"] // 2], got):
        want = json.loads(json.dumps(run(seed, c["ops"]), default=lambda x: x.item()))
        for (o, k), x, y in zip(c["ops"], g, want):
            same(x, y, f"{o}({k}) with seed {seed} in a fresh process")
    return ["nt"]


SUBS = [Sub("sequences", cases, check, quick=1000, shards=6),
        Sub("process", proc_cases, check_process, quick=4, thorough=64, shards=4, case_timeout=300)]
