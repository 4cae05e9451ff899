"""Reference models: plain dictionaries that replay an edit history, and the views they imply."""
import numpy as np

from .core import require
from .util import near, near_items, same, dense, safe_pow


def merge(old, new, op):
    if op == "mean":
        return (old + new) / 2
    if op == "max":
        return max(old, new)
    assert op == "sum"
    return old + new


class GraphModel:
    directed = False

    def __init__(self, n, extra=False):
        self.n, self.extra, self.e = n, extra, {}

    def key(self, a, b):
        return (a, b) if self.directed else (min(a, b), max(a, b))

    def add(self, edges, ws, op):
        if ws is None:
            ws = [1.0] * len(edges)
        for (a, b), w in zip(edges, ws):
            k = self.key(a, b)
            self.e[k] = merge(self.e[k], w, op) if k in self.e else w

    def rm(self, edges):
        for a, b in edges:
            self.e.pop(self.key(a, b), None)

    def rm_selfloop(self):
        self.e = {k: w for k, w in self.e.items() if k[0] != k[1]}
        self.extra = False

    def clear(self):
        self.e, self.extra = {}, False

    def copy(self):
        m = type(self)(self.n, self.extra)
        m.e = dict(self.e)
        return m

    def items(self):
        out = [(k, w) for k, w in self.e.items()]
        if self.extra:
            out += [((i, i), 1.0) for i in range(self.n)]
        return out

    @property
    def num_e(self):
        return len(self.e) + (self.n if self.extra else 0)

    def A(self, unit=False):
        """The adjacency matrix; unit: where edges are, whatever their weights add up to."""
        M = np.zeros((self.n, self.n))
        for (a, b), w in self.items():
            w = 1 if unit else w
            M[a, b] += w
            if not self.directed and a != b:
                M[b, a] += w
        return M


class DiGraphModel(GraphModel):
    directed = True

    def reverse(self):
        self.e = {(b, a): w for (a, b), w in self.e.items()}


class BiGraphModel:
    def __init__(self, nu, nv):
        self.nu, self.nv, self.e = nu, nv, {}

    add = GraphModel.add
    rm = GraphModel.rm

    def key(self, a, b):
        return (a, b)

    def clear(self):
        self.e = {}

    def switch(self):
        m = BiGraphModel(self.nv, self.nu)
        m.e = {(b, a): w for (a, b), w in self.e.items()}
        return m

    def copy(self):
        m = BiGraphModel(self.nu, self.nv)
        m.e = dict(self.e)
        return m

    def B(self, unit=False):
        M = np.zeros((self.nu, self.nv))
        for (a, b), w in self.e.items():
            M[a, b] = 1 if unit else w
        return M

    def A(self):
        M = np.zeros((self.nu + self.nv,) * 2)
        B = self.B()
        M[:self.nu, self.nu:] = B
        M[self.nu:, :self.nu] = B.T
        return M


class HyperModel:
    def __init__(self, n, vw=None):
        self.n, self.vw = n, (list(vw) if vw is not None else [1.0] * n)
        self.g = {}

    @staticmethod
    def key(e):
        return tuple(sorted(set(e)))

    def add(self, edges, ws, op, name):
        if ws is None:
            ws = [1.0] * len(edges)
        if not edges:
            return
        d = self.g.setdefault(name, {})
        for e, w in zip(edges, ws):
            k = self.key(e)
            d[k] = merge(d[k], w, op) if k in d else w

    def rm(self, edges, name=None):
        for nm in ([name] if name is not None else list(self.g)):
            for e in edges:
                self.g[nm].pop(self.key(e), None)

    def rm_group(self, name):
        self.g.pop(name, None)

    def clear(self):
        self.g = {}
        self.vw = [1.0] * self.n

    def copy(self):
        m = HyperModel(self.n, self.vw)
        m.g = {k: dict(v) for k, v in self.g.items()}
        return m

    def edges(self, name=None):
        if name is None:
            return [(k, w) for nm in self.g for k, w in self.g[nm].items()]
        return list(self.g[name].items())


def incidence(n, e_list):
    H = np.zeros((n, len(e_list)))
    for j, e in enumerate(e_list):
        for v in e:
            H[v, j] += 1
    return H


def triples(src, dst, w):
    return [((int(a), int(b)), float(x)) for a, b, x in zip(src.tolist(), dst.tolist(), w.tolist())]


def nz(M, S):
    return [((int(i), int(j)), float(M[i, j])) for i, j in np.argwhere(S != 0)]


GRAPH_VIEWS = ["num_e", "e", "both", "A", "coo", "D_v", "deg", "nbr", "norm"]


def norm_graph(g, m):
    """Normalisers and Laplacians (positive weights only: the others have no defined value)."""
    A = m.A()
    if (A < 0).any() or any(w <= 0 for _, w in m.items()):
        return
    D = A.sum(1)
    near(g.D_v_neg_1, np.diag(safe_pow(D, -1)), "D_v_neg_1")
    near(g.D_v_neg_1_2, np.diag(safe_pow(D, -0.5)), "D_v_neg_1_2")
    if m.n > 60:
        return
    A0, h = A - np.diag(np.diag(A)), m.copy()
    h.extra = True
    D0, A1, I = A0.sum(1), h.A(), np.eye(m.n)
    h0, h1 = np.diag(safe_pow(D0, -0.5)), np.diag(safe_pow(A1.sum(1), -0.5))
    for nm, want in (("L", np.diag(D0) - A0), ("L_sym", I - h0 @ A0 @ h0), ("L_rw", I - np.diag(safe_pow(D0, -1)) @ A0), ("L_GCN", h1 @ A1 @ h1)):
        near(getattr(g, nm), want, nm)


def norm_bigraph(g, m):
    B = m.B()
    if any(w <= 0 for w in m.e.values()):
        return
    near(g.D_u_neg_1, np.diag(safe_pow(B.sum(1), -1)), "D_u_neg_1")
    near(g.D_v_neg_1, np.diag(safe_pow(B.sum(0), -1)), "D_v_neg_1")
    if m.nu + m.nv <= 60:
        A = m.A() + np.eye(m.nu + m.nv)
        h = np.diag(safe_pow(A.sum(1), -0.5))
        near(g.L_GCN, h @ A @ h, "L_GCN")


def norm_hyper(get, n, H, w, tag):
    if (w <= 0).any():
        return
    dv, de = H @ w if len(w) else np.zeros(n), H.sum(0)
    h2, h1, iDe = np.diag(safe_pow(dv, -0.5)), np.diag(safe_pow(dv, -1)), np.diag(safe_pow(de, -1)) if len(w) else np.zeros((0, 0))
    near(get("D_v_neg_1"), h1, f"D_v_neg_1{tag}")
    near(get("D_v_neg_1_2"), h2, f"D_v_neg_1_2{tag}")
    near(get("D_e_neg_1"), iDe, f"D_e_neg_1{tag}")
    if n <= 60:
        core = H @ (np.diag(w) if len(w) else iDe) @ iDe @ H.T
        for nm, want in (("L_HGNN", h2 @ core @ h2), ("L_sym", np.eye(n) - h2 @ core @ h2), ("L_rw", np.eye(n) - h1 @ core)):
            near(get(nm), want, nm + tag)


def said(g, **sizes):
    """The printed form of a structure names its sizes."""
    text = repr(g)
    for k, x in sizes.items():
        require(f"{k}={x}" in text.replace(" ", "").replace(")", ",").replace("(", ",").split(","), "%s is not %d in %s", k, x, text)


def check_graph(g, m, views=None):
    for v in views or GRAPH_VIEWS:
        if v == "num_e":
            same(g.num_v, m.n, "num_v")
            same(list(g.v), list(range(m.n)), "v")
            same(g.num_e, m.num_e, "num_e")
            said(g, num_v=m.n, num_e=m.num_e)
        elif v == "e":
            e, w = g.e
            near_items([(m.key(*p), x) for p, x in zip(e, w)], m.items(), "e")
            same(len(e), len(w), "lengths of e")
        elif v == "both":
            e, w = g.e_both_side
            want = m.items() + [((b, a), x) for (a, b), x in m.e.items() if a != b]
            near_items([(tuple(p), x) for p, x in zip(e, w)], want, "e_both_side")
        elif v == "A":
            near(g.A, m.A(), "A")
        elif v == "coo":
            near_items(triples(g.e_src, g.e_dst, g.e_weight), nz(m.A(), m.A(True)), "e_src/e_dst/e_weight")
        elif v == "D_v":
            near(g.D_v, np.diag(m.A().sum(1)), "D_v")
        elif v == "norm":
            norm_graph(g, m)
        elif v == "deg":
            near(g.deg_v, m.A().sum(1), "deg_v")
        elif v == "nbr":
            A = m.A(True)
            for i in range(m.n):
                want = np.nonzero(A[i])[0].tolist()
                same(sorted(g.nbr_v(i)), want, f"nbr_v({i})")
                same(sorted(g.N_v(i).tolist()), want, f"N_v({i})")


DIGRAPH_VIEWS = ["num_e", "e", "A", "A_T", "coo", "D_in", "D_out", "deg", "nbr", "norm"]


def check_digraph(g, m, views=None):
    for v in views or DIGRAPH_VIEWS:
        A = m.A()
        if v == "num_e":
            same(g.num_v, m.n, "num_v")
            same(list(g.v), list(range(m.n)), "v")
            same(g.num_e, m.num_e, "num_e")
            said(g, num_v=m.n, num_e=m.num_e)
        elif v == "e":
            e, w = g.e
            same(len(e), len(w), "lengths of e")
            near_items([(tuple(p), x) for p, x in zip(e, w)], m.items(), "e")
        elif v == "A":
            near(g.A, A, "A")
        elif v == "A_T":
            near(g.A_T, A.T, "A_T")
        elif v == "coo":
            near_items(triples(g.e_src, g.e_dst, g.e_weight), nz(A, m.A(True)), "e_src/e_dst/e_weight")
        elif v == "D_in":
            near(g.D_v_in, np.diag(A.sum(0)), "D_v_in")
        elif v == "D_out":
            near(g.D_v_out, np.diag(A.sum(1)), "D_v_out")
        elif v == "norm":
            if all(w > 0 for _, w in m.items()):
                near(g.D_v_in_neg_1, np.diag(safe_pow(A.sum(0), -1)), "D_v_in_neg_1")
                near(g.D_v_out_neg_1, np.diag(safe_pow(A.sum(1), -1)), "D_v_out_neg_1")
        elif v == "deg":
            near(g.deg_v_in, A.sum(0), "deg_v_in")
            near(g.deg_v_out, A.sum(1), "deg_v_out")
        elif v == "nbr":
            A = m.A(True)
            for i in range(m.n):
                out, inn = np.nonzero(A[i])[0].tolist(), np.nonzero(A[:, i])[0].tolist()
                same(sorted(g.nbr_v_out(i)), out, f"nbr_v_out({i})")
                same(sorted(g.nbr_v_in(i)), inn, f"nbr_v_in({i})")
                same(sorted(g.N_v_out(i).tolist()), out, f"N_v_out({i})")
                same(sorted(g.N_v_in(i).tolist()), inn, f"N_v_in({i})")


BIGRAPH_VIEWS = ["num_e", "e", "B", "B_T", "A", "coo", "D", "deg", "nbr", "norm"]


def check_bigraph(g, m, views=None):
    B = m.B()
    for v in views or BIGRAPH_VIEWS:
        if v == "num_e":
            same((g.num_u, g.num_v), (m.nu, m.nv), "num_u/num_v")
            same((list(g.u), list(g.v)), (list(range(m.nu)), list(range(m.nv))), "u/v")
            same(g.num_e, len(m.e), "num_e")
            said(g, num_u=m.nu, num_v=m.nv, num_e=len(m.e))
        elif v == "e":
            e, w = g.e
            same(len(e), len(w), "lengths of e")
            near_items([(tuple(p), x) for p, x in zip(e, w)], list(m.e.items()), "e")
        elif v == "B":
            near(g.B, B, "B")
        elif v == "B_T":
            near(g.B_T, B.T, "B_T")
        elif v == "A":
            near(g.A, m.A(), "A")
        elif v == "coo":
            near_items(triples(g.e_u, g.e_v, g.e_weight), nz(B, m.B(True)), "e_u/e_v/e_weight")
        elif v == "D":
            near(g.D_u, np.diag(B.sum(1)), "D_u")
            near(g.D_v, np.diag(B.sum(0)), "D_v")
        elif v == "norm":
            norm_bigraph(g, m)
        elif v == "deg":
            near(g.deg_u, B.sum(1), "deg_u")
            near(g.deg_v, B.sum(0), "deg_v")
        elif v == "nbr":
            S = m.B(True)
            for i in range(m.nu):
                want = np.nonzero(S[i])[0].tolist()
                same(sorted(g.nbr_v(i)), want, f"nbr_v({i})")
                same(sorted(g.N_v(i).tolist()), want, f"N_v({i})")
            for i in range(m.nv):
                want = np.nonzero(S[:, i])[0].tolist()
                same(sorted(g.nbr_u(i)), want, f"nbr_u({i})")
                same(sorted(g.N_u(i).tolist()), want, f"N_u({i})")


HYPER_VIEWS = ["count", "e", "H", "W", "D", "deg", "nbr", "coo", "norm"]


def check_hyper_part(h, m, name, views=None):
    """name None: the whole hypergraph; else one group.  Columns follow the order of the edge list
    the library itself reports; the edge list is compared as a multiset."""
    whole = name is None
    items = m.edges(name)
    tag = "" if whole else f"_of_group({name!r})"
    get = lambda prop: getattr(h, prop) if whole else getattr(h, prop + "_of_group")(name)
    call = lambda fn, i: getattr(h, fn)(i) if whole else getattr(h, fn + "_of_group")(i, name)
    e, w = get("e")
    e = [tuple(x) for x in e]
    same(len(e), len(w), f"lengths of e{tag}")
    near_items(list(zip([m.key(x) for x in e], w)), [(k, x) for k, x in items], f"e{tag}")
    for x in e:
        require(len(set(x)) == len(x), "hyperedge %r lists a vertex twice", x)
    w = np.array([float(x) for x in w])
    H = incidence(m.n, e)
    for v in views or HYPER_VIEWS:
        if v == "count":
            same(get("num_e"), len(items), f"num_e{tag}")
        elif v == "H":
            near(get("H"), H, f"H{tag}")
            near(get("H_T"), H.T, f"H_T{tag}")
        elif v == "W":
            near(get("W_e"), np.diag(w) if len(w) else np.zeros((0, 0)), f"W_e{tag}")
        elif v == "D":
            near(get("D_v"), np.diag(H @ w if len(w) else np.zeros(m.n)), f"D_v{tag}")
            near(get("D_e"), np.diag(H.sum(0)), f"D_e{tag}")
        elif v == "norm":
            norm_hyper(get, m.n, H, w, tag)
        elif v == "deg":
            near(get("deg_v"), H @ w if len(w) else np.zeros(m.n), f"deg_v{tag}")
            near(get("deg_e"), H.sum(0), f"deg_e{tag}")
        elif v == "nbr":
            for j in range(len(e)):
                same(sorted(call("nbr_v", j)), sorted(e[j]), f"nbr_v({j}){tag}")
                same(sorted(call("N_v", j).tolist()), sorted(e[j]), f"N_v({j}){tag}")
            for i in range(m.n):
                want = np.nonzero(H[i])[0].tolist()
                same(sorted(call("nbr_e", i)), want, f"nbr_e({i}){tag}")
                same(sorted(call("N_e", i).tolist()), want, f"N_e({i}){tag}")
        elif v == "coo":
            inc = [((int(i), int(j)), 1.0) for i, j in np.argwhere(H != 0)]
            near_items(triples(get("v2e_src"), get("v2e_dst"), get("v2e_weight")), inc, f"v2e_*{tag}")
            near_items(triples(get("e2v_src"), get("e2v_dst"), get("e2v_weight")),
                       [((j, i), x) for (i, j), x in inc], f"e2v_*{tag}")


def check_hyper(h, m, views=None, groups=True):
    same(h.num_v, m.n, "num_v")
    same(list(h.v), list(range(m.n)), "v")
    same(sorted(h.group_names), sorted(m.g), "group_names")
    same(h.num_groups, len(m.g), "num_groups")
    near(h.v_weight, m.vw, "v_weight")
    if m.n <= 200:
        near(h.W_v, np.diag(m.vw), "W_v")
    said(h, num_v=m.n, num_e=len(m.edges()))
    check_hyper_part(h, m, None, views)
    if groups:
        for nm in sorted(m.g):
            check_hyper_part(h, m, nm, views)
    # the whole hypergraph is the concatenation of its groups
    cat = []
    for nm in h.group_names:
        cat += [tuple(x) for x in h.e_of_group(nm)[0]]
    same([tuple(x) for x in h.e[0]], cat, "e (concatenation of the groups)")


def build_graph(dhg, c, extra=None, merge_op="mean"):
    g = dhg.Graph(c["n"], [list(x) for x in c["e"]], c.get("w"), extra_selfloop=bool(c.get("extra") if extra is None else extra), merge_op=merge_op)
    m = GraphModel(c["n"], bool(c.get("extra") if extra is None else extra))
    m.add(c["e"], c.get("w"), merge_op)
    return g, m


def build_digraph(dhg, c, merge_op="mean"):
    g = dhg.DiGraph(c["n"], [list(x) for x in c["e"]], c.get("w"), extra_selfloop=bool(c.get("extra")), merge_op=merge_op)
    m = DiGraphModel(c["n"], bool(c.get("extra")))
    m.add(c["e"], c.get("w"), merge_op)
    return g, m


def build_bigraph(dhg, c, merge_op="mean"):
    g = dhg.BiGraph(c["nu"], c["nv"], [list(x) for x in c["e"]], c.get("w"), merge_op=merge_op)
    m = BiGraphModel(c["nu"], c["nv"])
    m.add(c["e"], c.get("w"), merge_op)
    return g, m


def build_hyper(dhg, c, merge_op="mean"):
    h = dhg.Hypergraph(c["n"], v_weight=list(c["vw"]) if c.get("vw") is not None else None)
    m = HyperModel(c["n"], c.get("vw"))
    for nm, e, w in c["groups"]:
        h.add_hyperedges([list(x) for x in e], list(w) if w is not None else None, merge_op=merge_op, group_name=nm)
        m.add(e, w, merge_op, nm)
    return h, m


def ordered(h, name=None):
    """(edge list, weights, incidence) in the library's own order."""
    e, w = h.e if name is None else h.e_of_group(name)
    e = [tuple(x) for x in e]
    return e, np.array([float(x) for x in w]), incidence(h.num_v, e)


def model_of(obj):
    """The model of what a structure shows, for continuing its history."""
    kind = type(obj).__name__
    if kind == "Hypergraph":
        m = HyperModel(obj.num_v, obj.v_weight)
        for nm in obj.group_names:
            m.g[nm] = {}
            m.add([list(x) for x in obj.e_of_group(nm)[0]], list(obj.e_of_group(nm)[1]), "sum", nm)
        return m
    if kind == "BiGraph":
        m = BiGraphModel(obj.num_u, obj.num_v)
        m.add(obj.e[0], obj.e[1], "sum")
        return m
    m = (DiGraphModel if kind == "DiGraph" else GraphModel)(obj.num_v)
    bare = obj.clone()
    bare.remove_extra_selfloop()
    m.extra = obj.num_e != bare.num_e
    m.add(bare.e[0], bare.e[1], "sum")
    return m


def poke(obj, views=("e", "deg")):
    """A structure the library built goes on as any other: re-adding one of the edges it shows (end points or
    vertices in another order) merges with that edge, and removing it removes it.  Edits obj."""
    m = model_of(obj)
    views = list(views)
    if isinstance(m, HyperModel):
        for nm in sorted(m.g, key=str):
            keys = sorted(m.g[nm], key=lambda k: (-len(k), k))
            pick = [list(k)[::-1] for k in {keys[0], keys[len(keys) // 2], keys[-1]}] if keys else []
            if pick:
                obj.add_hyperedges([list(x) for x in pick], [2.5] * len(pick), merge_op="sum", group_name=nm)
                m.add(pick, [2.5] * len(pick), "sum", nm)
        check_hyper(obj, m, views)
        keys = sorted({k for k, _ in m.edges()}, key=lambda k: (-len(k), k))
        if keys:
            gone = [list(k)[::-1] for k in keys[:2]]
            obj.remove_hyperedges([list(x) for x in gone])
            m.rm(gone)
            check_hyper(obj, m, views)
        return
    keys = sorted(m.e)
    if not keys:
        return
    check = {GraphModel: check_graph, DiGraphModel: check_digraph, BiGraphModel: check_bigraph}[type(m)]
    pick = [list(k) for k in sorted({keys[0], keys[len(keys) // 2], keys[-1]})]
    if type(m) is GraphModel:
        pick = [p[::-1] for p in pick]
    obj.add_edges([list(p) for p in pick], [2.5] * len(pick), merge_op="sum")
    m.add(pick, [2.5] * len(pick), "sum")
    check(obj, m, views)
    obj.remove_edges([list(pick[0])])
    m.rm(pick[:1])
    check(obj, m, views)
