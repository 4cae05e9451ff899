"""P32: what a drawing shows is read back from the matplotlib artists."""
import copy
import itertools
import math
import warnings
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib import patches as mp
from matplotlib.colors import to_rgba
from scipy.spatial import ConvexHull
import dhg
import dhg.visualization as vis
import dhg.visualization.feature.utils as fu
from harness import gen
from harness.core import Sub, require, seed_all
from harness.util import near, raises, same

PROPERTY = "P32"
RULE = ("a case is a structure (graph, directed graph, bipartite graph, hypergraph; loops, isolated and high-degree vertices, nested "
        "hyperedges, one to twelve vertices) with style options (scalar or per-item sizes, colours, line widths, labels, fonts, "
        "strengths), drawn and read back from the artists; or two disjoint dense blocks laid out several times, once more with one strength option high and low; or an embedding "
        "matrix with zero, repeated, collinear, tiny and huge rows; or points of a ball of some curvature. Non-trivial: at least two "
        "vertices and one edge between different vertices, or at least two different embeddings.")
warnings.simplefilter("ignore")
plt.rcParams["figure.max_open_warning"] = 0
COLORS = ["red", "tab:blue", "g", "#10a0f0", "purple", "tab:orange", "k", "gold", [0.2, 0.4, 0.8], [0.9, 0.1, 0.3, 0.5], [0.0, 1.0, 0.5, 0.25], "#ff000080"]


def edge_color(i):
    return (round(0.02 + 0.04 * (i % 24), 3), round(0.03 + 0.2 * (i // 24 % 5), 3), round(0.11, 3))


# ---------------------------------------------------------------- drawings
@st.composite
def style_list(draw, n, vals):
    k = draw(st.sampled_from(["default", "scalar", "list", "list"]))
    if k == "default":
        return None
    if k == "scalar":
        return draw(vals)
    return draw(st.lists(vals, min_size=n, max_size=n))


sizes = st.sampled_from([0.25, 0.5, 1.0, 1.0, 1, 2, 3.0, 6.0])
widths = st.sampled_from([0.3, 0.5, 1.0, 1, 2.5, 4])
strength = st.sampled_from([None, 1.0, 1.0, 1.0, 0.5, 2.0])


@st.composite
def draw_case(draw):
    kind = draw(st.sampled_from(["graph", "graph-circle", "digraph", "bigraph", "hyper", "hyper"]))
    if kind == "bigraph":
        nu, nv = draw(st.integers(1, 5)), draw(st.integers(1, 5))
        es = draw(gen.pairs(nu, nv, max_size=8, min_size=1))
        n = nu + nv
    else:
        n, nu, again = draw(st.integers(1, 10)), None, []
        if kind == "hyper":
            es = draw(gen.hyperedges(n, max_size=7, min_size=1))
            if draw(st.integers(0, 3)) == 0:      # a hub in many hyperedges
                es = es + [[0] + [x for x in range(1, n) if (x >> i) & 1] for i in range(4)]
            es = [sorted(set(e)) for e in es]
            if n > 1 and draw(st.integers(0, 3)) == 0:      # a single vertex inside a single larger hyperedge
                x = draw(st.permutations(range(n)))
                es = [[x[0]], sorted(x[:draw(st.integers(2, min(n, 4)))])][::draw(st.sampled_from([1, -1]))]
            again = draw(st.one_of(st.just([]), st.lists(st.sampled_from(es), max_size=3)))
        else:
            es = draw(gen.pairs(n, max_size=10, min_size=1))
    c = dict(kind=kind, n=n, nu=nu, edges=es, seed=draw(st.integers(0, 10 ** 6)))
    if kind == "hyper":
        c["again"] = again                        # in a second group, some of them in the first one, too
    elif kind[:5] == "graph" and n > 1:
        c["loops"] = draw(st.integers(0, 3)) == 0
    sides = [("u", nu), ("v", n - nu)] if kind == "bigraph" else [("v", n)]
    for s, k in sides:
        c[s] = dict(size=draw(style_list(k, sizes)), lw=draw(style_list(k, widths)), color=draw(style_list(k, st.sampled_from(COLORS))),
                    label=draw(st.one_of(st.none(), st.lists(st.text("abc1 ", max_size=3), min_size=k, max_size=k))),
                    font=draw(st.sampled_from([None, 1.0, 0.5, 2.0])))
    c["e"] = dict(lw=draw(st.sampled_from(["default", "scalar", "list"])), val=draw(st.lists(widths, min_size=20, max_size=20)),
                  fill=draw(st.sampled_from([None, "white", "y", [0.1, 0.2, 0.9], [0.3, 0.6, 0.1, 0.4], "list"])),
                  fills=draw(st.lists(st.sampled_from(COLORS), min_size=20, max_size=20)))
    c["force"] = [draw(strength) for _ in range(6)]
    c["via"] = draw(st.sampled_from(["function", "method"]))
    return c


def build(c):
    es = [tuple(e) for e in c["edges"]]
    if c["kind"] == "hyper":
        h = dhg.Hypergraph(c["n"], es)
        if c.get("again"):
            h.add_hyperedges([tuple(e) for e in c["again"]], group_name="again")
        return h
    if c["kind"] == "bigraph":
        return dhg.BiGraph(c["nu"], c["n"] - c["nu"], es)
    g = (dhg.DiGraph if c["kind"] == "digraph" else dhg.Graph)(c["n"], es)
    if c.get("loops"):
        g.add_extra_selfloop()
    return g


FORCE = {"bigraph": ["push_u_strength", "push_v_strength", "push_e_strength", "pull_e_strength", "pull_u_center_strength", "pull_v_center_strength"]}


def options(c, m, scale=None):
    """The keyword arguments of a case; scale doubles one kind of option."""
    kw = {}
    for s in ("u", "v"):
        if s not in c:
            continue
        o = c[s]
        for name, key in (("size", f"{s}_size"), ("lw", f"{s}_line_width"), ("color", f"{s}_color")):
            x = o[name]
            if scale == name:
                x = [2 * i for i in x] if isinstance(x, list) else 2 * (1.0 if x is None else x)
            if x is not None:
                kw[key] = copy.deepcopy(x)
        if o["label"] is not None:
            kw[f"{s}_label"] = list(o["label"])
        f = o["font"]
        if scale == "font":
            f = 2 * (1.0 if f is None else f)
        if f is not None:
            kw["font_size" if c["kind"] != "bigraph" else f"{s}_font_size"] = f
    kw["e_color"] = [edge_color(i) for i in range(m)]
    lw = {"default": None, "scalar": c["e"]["val"][0], "list": [c["e"]["val"][i % 20] for i in range(m)]}[c["e"]["lw"]]
    if scale == "elw":
        lw = [2 * i for i in lw] if isinstance(lw, list) else 2 * (1.0 if lw is None else lw)
    if lw is not None:
        kw["e_line_width"] = lw
    if c["e"]["fill"] and c["kind"] in ("hyper", "graph-circle"):
        kw["e_fill_color"] = copy.deepcopy(fills(c, m))
    for name, x in zip(FORCE.get(c["kind"], ["push_v_strength", "push_e_strength", "pull_e_strength", "pull_center_strength"]), c["force"]):
        if x is not None:
            kw[name] = x
    if c["kind"] == "graph-circle":
        kw["e_style"] = "circle"
    return kw


DRAW = {"graph": vis.draw_graph, "graph-circle": vis.draw_graph, "digraph": vis.draw_digraph, "bigraph": vis.draw_bigraph, "hyper": vis.draw_hypergraph}



def drawn(c, g, m, scale=None):
    """Draws and reads back vertices (centre, radius, colour, width), shapes by edge, and texts."""
    kw = options(c, m, scale)
    keep = copy.deepcopy(kw)
    before = plt.get_fignums()
    seed_all(c["seed"])
    if c["via"] == "method":
        g.draw(**kw)
    else:
        DRAW[c["kind"]](g, **kw)
    same(kw, keep, "the style options passed in")
    new = [f for f in plt.get_fignums() if f not in before]
    same(len(new), 1, "new figures")
    ax = plt.figure(new[0]).axes[0]
    same(len(ax.collections), 1, "collections of vertices")
    col = ax.collections[0]
    V = []
    for p in col.get_paths():
        b = p.get_extents()
        V.append((np.array([(b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2]), (b.x1 - b.x0) / 2))
    shapes = {}
    for p in ax.patches:
        shapes.setdefault(tuple(round(float(x), 3) for x in p.get_edgecolor()[:3]), []).append(p)
    T = [(t.get_text(), t.get_position(), t.get_fontsize()) for t in ax.texts]
    out = dict(V=V, shapes=shapes, T=T, fc=col.get_facecolors(), lw=np.broadcast_to(np.resize(np.array(col.get_linewidths()), len(V)), len(V)),
               lim=(ax.get_xlim(), ax.get_ylim()))
    plt.close(new[0])
    return out


def spread(x, k, default):
    return list(x) if isinstance(x, list) else [default if x is None else x] * k


def colours(x, k, default):
    """The colour of each of k items: one colour (a name or a list of numbers) or one per item."""
    if isinstance(x, list) and not isinstance(x[0], float):
        return list(x)
    return [default if x is None else x] * k


def fills(c, m):
    return [c["e"]["fills"][i % 20] for i in range(m)] if c["e"]["fill"] == "list" else c["e"]["fill"]


def outline(ps):
    """Sample points of the shapes of one edge."""
    pts = []
    for p in ps:
        if isinstance(p, mp.Arc):
            t1, t2 = p.theta1, p.theta2
            while t2 < t1:
                t2 += 360
            for a in np.radians(np.linspace(t1, t2, 25)):
                pts.append([p.center[0] + p.width / 2 * math.cos(a), p.center[1] + p.height / 2 * math.sin(a)])
        else:
            for a, b in zip(p.get_path().vertices[::2], p.get_path().vertices[1::2]):
                pts += [a + (b - a) * t for t in np.linspace(0, 1, 9)]
    return np.array(pts)


def check_draw(c):
    g = build(c)
    es = [tuple(e) for e in g.e[0]]
    state = copy.deepcopy(g.e), g.num_v, g.num_e
    m = len(es)
    n, nu = c["n"], c["nu"]
    d = drawn(c, g, m)
    same((g.e, g.num_v, g.num_e), state, "the structure after drawing")
    V = d["V"]
    same(len(V), n, "vertices drawn")
    for i, (p, r) in enumerate(V):
        require(np.isfinite(p).all(), "vertex %s is at %s", i, p)
        require((p > 0.05).all() and (p < 0.95).all(), "vertex %s at %s is not inside the drawing", i, p)
    same(d["lim"], ((0, 1), (0, 1)), "drawing area")
    sides = [("u", nu, 0), ("v", n - nu, nu)] if nu is not None else [("v", n, 0)]
    want_text = []
    for s, k, off in sides:
        o = c[s]
        size = spread(o["size"], k, 1.0)
        lw = spread(o["lw"], k, 1.0)
        colour = colours(o["color"], k, "m" if s == "u" else "r")
        for i in range(k):
            near(V[off + i][1] / V[off][1], size[i] / size[0], f"size of vertex {s}{i} in proportion to the first", rtol=1e-4)
            near(d["lw"][off + i] / d["lw"][off], lw[i] / lw[0], f"line width of vertex {s}{i} in proportion to the first", rtol=1e-4)
            same(tuple(d["fc"][(off + i) % len(d["fc"])]), to_rgba(colour[i]), f"colour of vertex {s}{i}")
            if o["label"] is not None and o["label"][i] != "":
                want_text.append((o["label"][i], off + i))
    got = sorted((t, round(x, 6)) for t, (x, y), _ in d["T"])
    same(got, sorted((t, round(float(V[i][0][0]), 6)) for t, i in want_text), "labels and their places")
    # one shape or outline per edge
    index = (lambda e: (e[0], e[1] + nu)) if nu is not None else (lambda e: e)
    shapes = d["shapes"]
    same(sorted(shapes), sorted(edge_color(i) for i in range(m)), "colours of the shapes, one per edge")
    labels = {c["kind"]}
    elw = spread(c["e"]["val"][0] if c["e"]["lw"] == "scalar" else [c["e"]["val"][i % 20] for i in range(m)] if c["e"]["lw"] == "list" else None, m, 1.0)
    w0 = shapes[edge_color(0)][0].get_linewidth()
    for q, e in enumerate(es):
        ps = shapes[edge_color(q)]
        e = index(e)
        for p in ps:
            near(p.get_linewidth() / w0, elw[q] / elw[0], f"line width of edge {e} in proportion to the first", rtol=1e-4)
        vs = sorted(set(e))
        if c["kind"] in ("hyper", "graph-circle"):
            pts = outline(ps)
            require(len(pts) > 2 and np.isfinite(pts).all(), "edge %s has no outline", e)
            hull = ConvexHull(pts)
            for v in vs:
                inside = (hull.equations[:, :2] @ V[v][0] + hull.equations[:, 2]).max()
                require(inside < 0, "the outline of %s does not enclose vertex %s", e, v)
            if c["e"]["fill"]:
                for p in ps:
                    same(tuple(p.get_facecolor()), to_rgba(colours(fills(c, m), m, None)[q]), f"fill colour of {e}") if not isinstance(p, mp.Arc) else None
            # with equal sizes, markers are enclosed as well
            if not isinstance(c["v"]["size"], list):
                for v in vs:
                    inside = (hull.equations[:, :2] @ V[v][0] + hull.equations[:, 2]).max()
                    require(inside < -V[v][1] * 0.9, "the outline of %s cuts the marker of vertex %s", e, v)
            if len(vs) >= 3:
                labels.add("hull")
        elif len(vs) == 1:
            same(len(ps), 1, f"shapes of loop {e}")
            cx = ps[0].center
            require(np.isfinite(cx).all() and np.linalg.norm(np.array(cx) - V[vs[0]][0]) <= 3 * V[vs[0]][1] + 1e-9, "loop %s is not at its vertex", e)
            labels.add("loop")
        else:
            same(len(ps), 1, f"shapes of edge {e}")
            a, b = V[e[0]], V[e[1]]
            L = np.linalg.norm(b[0] - a[0])
            u = (b[0] - a[0]) / L
            pts = ps[0].get_path().vertices - a[0]
            require(np.isfinite(pts).all(), "edge %s is drawn at %s", e, pts)
            if L > a[1] + b[1] + 0.06:
                along, across = pts @ u, pts @ np.array([-u[1], u[0]])
                # (the head of a thick arrow may be longer than a short edge, and then begins behind its start)
                if c["kind"] != "digraph" or L - a[1] - b[1] > 4 * 0.015 * ps[0].get_linewidth():
                    near(along.min(), a[1], f"start of edge {e}", rtol=1e-3, atol=2e-3)
                near(along.max(), L - b[1], f"end of edge {e}", rtol=1e-3, atol=2e-3)
                if c["kind"] == "digraph":
                    wide = along[np.argmax(np.abs(across))]
                    w = 0.015 * ps[0].get_linewidth()
                    if L - a[1] - b[1] > 4 * w:
                        require(wide > (a[1] + L - b[1]) / 2, "the arrow head of %s is at the wrong end", e)
                        labels.add("arrow")
                else:
                    require(np.abs(across).max() < 0.01, "edge %s is not the line between its vertices", e)
            if n >= 2:
                labels.add("nt")
    if c["kind"] == "hyper" and n >= 2 and any(len(set(e)) > 1 for e in es) or c["kind"] == "graph-circle" and any(len(set(e)) > 1 for e in es):
        labels.add("nt")
    return labels


def check_scale(c):
    """Doubling an option doubles what it controls and nothing else."""
    g = build(c)
    m = len(g.e[0])
    what = ["size", "lw", "font", "elw"][c["seed"] % 4]
    a, b = drawn(c, g, m), drawn(c, g, m, what)
    for i in range(c["n"]):
        near(b["V"][i][0], a["V"][i][0], f"place of vertex {i}", rtol=1e-4, atol=1e-5)
        near(b["V"][i][1], a["V"][i][1] * (2 if what == "size" else 1), f"size of vertex {i}, {what} doubled", rtol=1e-3)
        near(b["lw"][i], a["lw"][i] * (2 if what == "lw" else 1), f"line width of vertex {i}, {what} doubled", rtol=1e-4)
    for x, y in zip(a["T"], b["T"]):
        near(y[2], x[2] * (2 if what == "font" else 1), f"font size of label {x[0]!r}, {what} doubled", rtol=1e-4)
    for k in a["shapes"]:
        near(b["shapes"][k][0].get_linewidth(), a["shapes"][k][0].get_linewidth() * (2 if what == "elw" else 1), f"line width of an edge, {what} doubled", rtol=1e-4)
    if c["kind"] == "bigraph" and a["T"]:
        # fonts of one side do not depend on those of the other
        c2 = copy.deepcopy(c)
        c2["v"]["font"] = 2 * (c["v"]["font"] or 1.0)
        t = drawn(c2, g, m)["T"]
        k = sum(1 for x in (c["u"]["label"] or []) if x)
        for i, (x, y) in enumerate(zip(a["T"], t)):
            near(y[2], x[2] * (2 if i >= k else 1), f"font size of label {x[0]!r}, v_font_size doubled", rtol=1e-4)
    return {"nt", what} if len(g.e[0]) and c["n"] > 1 else {what}


# ---------------------------------------------------------------- layout pulls connected vertices together
@st.composite
def block_case(draw):
    return dict(kind=draw(st.sampled_from(["graph", "digraph", "hyper", "hyper-many", "bigraph"])), a=draw(st.integers(3, 6)), b=draw(st.integers(3, 6)),
                p=draw(st.integers(2, 4)), q=draw(st.integers(2, 4)), perm=draw(st.permutations(range(12))), seed=draw(st.integers(0, 10 ** 6)))


def check_block(c):
    a, b = c["a"], c["b"]
    if c["kind"] == "hyper-many":
        a, b = a + 3, b + 3
    if c["kind"] == "bigraph":
        nu, nv = a + c["p"], b + c["q"]
        pu, pv = [x for x in c["perm"] if x < nu], [x for x in c["perm"] if x < nv]
        us, vs = (pu[:a], pu[a:]), (pv[:b], pv[b:])
        conn = {(u, v) for i in (0, 1) for u in us[i] for v in vs[i]}
        g = dhg.BiGraph(nu, nv, sorted(conn))
        n = nu + nv
        allp = [(u, v) for u in range(nu) for v in range(nv)]
        place = lambda e: (e[0], e[1] + nu)
    else:
        n = a + b
        p = [x for x in c["perm"] if x < n] + list(range(12, n))
        blocks = (p[:a], p[a:])
        conn = {(u, v) for B in blocks for u in B for v in B if u < v}
        allp = [(u, v) for u in range(n) for v in range(u + 1, n)]
        place = lambda e: e
        if c["kind"] == "hyper":
            g = dhg.Hypergraph(n, [tuple(B) for B in blocks])
        elif c["kind"] == "hyper-many":      # every pair or every triple of a block
            g = dhg.Hypergraph(n, [x for B in blocks for x in itertools.combinations(B, 2 + c["seed"] % 2)])
        else:
            g = (dhg.Graph if c["kind"] == "graph" else dhg.DiGraph)(n, sorted(conn))
    kw = dict(pull_e_strength=5.0) if c["kind"] == "bigraph" else {}
    ratios = []
    for t in range(3):
        seed_all(c["seed"] + t)
        DRAW[c["kind"][:5] if c["kind"][0] == "h" else c["kind"]](g, **kw)
        ax = plt.gcf().axes[0]
        pos = []
        for path in ax.collections[0].get_paths():
            x = path.get_extents()
            pos.append(np.array([(x.x0 + x.x1) / 2, (x.y0 + x.y1) / 2]))
        plt.close("all")
        dist = {e: np.linalg.norm(pos[place(e)[0]] - pos[place(e)[1]]) for e in allp}
        ratios.append(np.mean([dist[e] for e in allp if e in conn]) / np.mean([dist[e] for e in allp if e not in conn]))
        if c["kind"] == "bigraph":
            require(np.mean([x[0] for x in pos[:nu]]) > np.mean([x[0] for x in pos[nu:]]), "the two vertex sets are not on their sides")
    # seen on 600 correct layouts: at most 0.77 (mean 0.5)
    require(np.mean(ratios) < 0.93, "vertices that an edge connects are not closer to each other than others: distance ratio %s", ratios)
    return {"nt", c["kind"]}


# ---------------------------------------------------------------- strengths act in the direction they name
STRONG = {"graph": [("pull_e_strength", -1), ("pull_center_strength", 1)], "digraph": [("pull_e_strength", -1), ("pull_center_strength", 1)],
          "hyper": [("push_e_strength", -1), ("pull_e_strength", -1), ("pull_center_strength", 1)],
          "bigraph": [("push_%s_strength", 1), ("pull_%s_center_strength", -1)]}


@st.composite
def strength_case(draw):
    kind = draw(st.sampled_from(sorted(STRONG)))
    a, b = draw(st.integers(3, 6)), draw(st.integers(3, 6))
    return dict(kind=kind, a=a, b=b, opt=draw(st.integers(0, len(STRONG[kind]) - 1)), perm=draw(st.permutations(range(a + b))),
                keep=draw(st.lists(st.booleans(), min_size=36, max_size=36)), seed=draw(st.integers(0, 10 ** 6)))


def placed(kind, g, seed, kw):
    seed_all(seed)
    DRAW[kind](g, **kw)
    pos = []
    for path in plt.gcf().axes[0].collections[0].get_paths():
        x = path.get_extents()
        pos.append(((x.x0 + x.x1) / 2, (x.y0 + x.y1) / 2))
    plt.close("all")
    return np.array(pos)


def check_strength(c):
    """With the same starting positions: pulling edges draws connected vertices together, pulling to the centre and pushing
    hyperedges apart does the opposite or the same to them, and the options of one side of a bipartite drawing act on that side."""
    key, sign = STRONG[c["kind"]][c["opt"]]
    a, b = c["a"], c["b"]
    if c["kind"] == "bigraph":
        n = max(a, b)
        g = dhg.BiGraph(n, n, [(u, v) for u in range(n) for v in range(n) if c["keep"][u * n + v]] or [(0, 0)])
        hi, lo = {key % "u": 10.0, key % "v": 0.1}, {key % "u": 0.1, key % "v": 10.0}
        stat = lambda P: np.log(P[:n, 1].std() / P[n:, 1].std())
    else:
        blocks = (c["perm"][:a], c["perm"][a:])
        conn = {tuple(sorted(x)) for B in blocks for x in itertools.combinations(B, 2)}
        g = dhg.Hypergraph(a + b, [tuple(B) for B in blocks]) if c["kind"] == "hyper" else (dhg.Graph if c["kind"] == "graph" else dhg.DiGraph)(a + b, sorted(conn))
        hi, lo = {key: 20.0}, {key: 0.05}

        def stat(P):
            d = {e: np.linalg.norm(P[e[0]] - P[e[1]]) for e in itertools.combinations(range(a + b), 2)}
            return np.log(np.mean([x for e, x in d.items() if e in conn]) / np.mean([x for e, x in d.items() if e not in conn]))
    seeds = [c["seed"] + i for i in range(2 if c["kind"] == "bigraph" else 5)]
    diff = np.mean([stat(placed(c["kind"], g, s, hi)) - stat(placed(c["kind"], g, s, lo)) for s in seeds])
    require(diff * sign > 0.02, "%s has no effect, or the opposite one: log ratio of distances changes by %.3f", key, diff)
    return {"nt", c["kind"], key}


# ---------------------------------------------------------------- refusals
def check_refuse(c):
    g = build(c)
    m, f, n = len(g.e[0]), DRAW[c["kind"]], c["n"]
    before = len(plt.get_fignums())
    raises(lambda: f(g, e_style="square"), "an unknown edge style")
    other = dhg.Hypergraph(2, [(0, 1)]) if c["kind"] != "hyper" else dhg.Graph(2, [(0, 1)])
    raises(lambda: f(other), "a structure of another kind")
    empty = {"hyper": lambda: dhg.Hypergraph(n), "bigraph": lambda: dhg.BiGraph(c["nu"], n - c["nu"]), "digraph": lambda: dhg.DiGraph(n)}.get(c["kind"], lambda: dhg.Graph(n))()
    raises(lambda: f(empty), "a structure without edges")
    k = c["nu"] if c["nu"] is not None else n
    for key, size in (("v_size", n - (c["nu"] or 0)), ("v_line_width", n - (c["nu"] or 0)), ("e_line_width", m)):
        raises(lambda: f(g, **{key: [1.0] * (size + 1)}), f"{key} of the wrong length")
    plt.close("all")
    return {"nt", c["kind"]}


# ---------------------------------------------------------------- Poincare ball
@st.composite
def emb_case(draw):
    n, d = draw(st.integers(3, 12)), draw(st.integers(2, 6))
    val = st.one_of(st.integers(-3, 3).map(float), st.floats(-2, 2).map(lambda x: round(x, 3)))
    rows = []
    for i in range(n):
        k = draw(st.sampled_from(["new"] * 6 + ["zero", "repeat", "multiple", "tiny", "huge"]))
        if k == "zero":
            rows.append([0.0] * d)
        elif k in ("repeat", "multiple") and rows:
            f = 1.0 if k == "repeat" else draw(st.sampled_from([2.0, 0.5, 7.0]))
            rows.append([x * f for x in rows[draw(st.integers(0, len(rows) - 1))]])
        else:
            f = {"tiny": 1e-6, "huge": 1e6}.get(k, 1.0)
            rows.append([x * f for x in draw(st.lists(val, min_size=d, max_size=d))])
    if draw(st.integers(0, 11)) == 0:
        rows = [rows[0]] * n
    return dict(rows=rows, dim=draw(st.sampled_from([2, 2, 3])), f32=draw(st.booleans()), perm=draw(st.permutations(range(n))))


def ref_project(X, dim):
    X = np.asarray(X, float)
    nr = np.linalg.norm(X, axis=1, keepdims=True)
    X = X / np.where(nr == 0, 1, nr)
    X = np.concatenate([np.zeros((len(X), 1)), X], 1)
    Y = X - X.mean(0)
    U, S, Vt = np.linalg.svd(Y, full_matrices=False)
    P = Y @ Vt[:dim].T
    span = P.max(0) - P.min(0)
    if (span < 1e-6).any() or np.diff(np.append(S, 0)[:dim + 1]).max() > -1e-4:
        return None
    P = (P - P.min(0)) / span * 4 - 2
    r = np.linalg.norm(P, axis=1, keepdims=True)
    r = np.where(r == 0, 1, r)
    return np.tanh(math.sqrt(2) * r) * P / (math.sqrt(2) * r)


def check_emb(c):
    X = np.array(c["rows"], dtype=np.float32 if c["f32"] else np.float64)
    keep = X.copy()
    dim = min(c["dim"], X.shape[1] + 1)
    if dim < 2:
        return []
    P = vis.project_to_poincare_ball(X, dim)
    require((X == keep).all(), "the embeddings are modified")
    same(P.shape, (len(X), dim), "shape of the projection")
    require(np.isfinite(P).all(), "projection %s", P)
    r = np.linalg.norm(P, axis=1)
    require((r < 1 / math.sqrt(2)).all(), "points outside of the ball: norms %s", r)
    for i in range(len(X)):
        for j in range(i):
            if (X[i] == X[j]).all():
                near(P[i], P[j], "points of equal embeddings", rtol=1e-3, atol=1e-3)
    labels = set()
    R = ref_project(X, dim)
    if R is not None:
        for k in range(dim):
            x, y = P[:, k], R[:, k]
            tol = 2e-2 if c["f32"] else 2e-3
            require(min(np.abs(x - y).max(), np.abs(x + y).max()) < tol, "component %d of the projection is %s, not %s (up to its sign)", k, x, y)
        labels |= {"nt", f"dim {dim}"}
    if (X == 0).all(1).any():
        labels.add("zero row")
    if (X == X[0]).all():
        labels.add("all equal")
    raises(lambda: vis.project_to_poincare_ball(X, 4), "dimension 4")
    raises(lambda: vis.project_to_poincare_ball(X, 2, "umap"), "an unknown reduction")
    # drawn inside the axes
    if len(X) % 3 == 0:
        lab = np.arange(len(X)) % 2
        vis.draw_in_poincare_ball(X, lab, dim)
        ax = plt.gcf().axes[0]
        off = ax.collections[0].get_offsets() if dim == 2 else np.array(ax.collections[0]._offsets3d).T
        same(len(off), len(X), "points drawn")
        require(np.isfinite(np.asarray(off, float)).all() and not np.ma.is_masked(off), "points drawn at %s", off)
        require((np.asarray(off) > 0).all() and (np.asarray(off) < 1).all(), "points drawn outside")
        plt.close("all")
        labels.add("drawn")
    return labels


# ---------------------------------------------------------------- drawings of embeddings
@st.composite
def space_case(draw):
    a, b = draw(st.integers(45, 60)), draw(st.integers(45, 60))
    return dict(a=a, b=b, d=draw(st.integers(3, 6)), seed=draw(st.integers(0, 10 ** 6)), far=draw(st.sampled_from([30.0, 100.0])),
                what=draw(st.sampled_from(["euclid2", "euclid3", "ball2", "ball3", "ball2-tsne", "ball3-tsne", "move-euclid", "move-ball", "move-ball-tsne"])),
                label=draw(st.booleans()), cmap=draw(st.sampled_from([None, "plasma"])), perm=draw(st.booleans()), frame=draw(st.integers(0, 800)))


def check_space(c):
    """Two distant clouds of points stay apart, all points are drawn inside the axes, in the colours of their labels."""
    rng = np.random.default_rng(c["seed"])
    n = c["a"] + c["b"]
    X = rng.normal(size=(n, c["d"]))
    axis = rng.normal(size=c["d"])
    axis /= np.linalg.norm(axis)
    lab = np.array([0] * c["a"] + [1] * c["b"])
    X += np.outer(lab * 2 - 1, axis) * c["far"]
    if c["perm"]:
        q = rng.permutation(n)
        X, lab = X[q], lab[q]
    keepX, keepl = X.copy(), lab.copy()
    kw = {} if c["cmap"] is None else {"cmap": c["cmap"]}
    seed_all(c["seed"])
    before = plt.get_fignums()
    what = c["what"]
    args = (X, lab) if c["label"] else (X,)
    dim = 3 if what.startswith("move") or what[-1] == "3" or "3-" in what else 2
    ani = None
    if what.endswith("tsne"):
        kw["reduce_method"] = "tsne"
    if what.startswith("euclid"):
        vis.draw_in_euclidean_space(*args, dim=dim, **kw)
    elif what.startswith("ball"):
        vis.draw_in_poincare_ball(*args, dim=dim, **kw)
    else:
        ani = (vis.animation_of_3d_euclidean_space if "euclid" in what else vis.animation_of_3d_poincare_ball)(*args, **kw)
    same(len([f for f in plt.get_fignums() if f not in before]), 1, "new figures")
    ax = plt.gcf().axes[0]
    if ani is not None:
        ani._init_draw()
        ani._draw_frame(c["frame"])
        near(ax.azim % 360, c["frame"] % 360, "angle of the view")
    require((X == keepX).all() and (lab == keepl).all(), "the inputs are modified")
    col = ax.collections[0]
    P = np.asarray(col.get_offsets(), float) if dim == 2 else np.array(col._offsets3d, float).T
    same(P.shape, (n, dim), "points drawn")
    require(np.isfinite(P).all() and (P > 0.05).all() and (P < 0.95).all(), "points drawn outside: %s", P)
    near(P.max(0) - P.min(0), [0.8] * dim, "extent of the drawing", rtol=1e-3)
    lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if dim == 3 else [])
    if ani is None:
        for lo, hi in lims:
            require(lo <= 0.1 and hi >= 0.9, "axes from %s to %s", lo, hi)
    cen = [P[lab == k].mean(0) for k in (0, 1)]
    D = np.stack([np.linalg.norm(P - m, axis=1) for m in cen], 1)
    if "tsne" not in what and "euclid" not in what:
        require((D.argmin(1) == lab).mean() > 0.95, "distant clouds are mixed")
    else:
        # t-SNE keeps neighbourhoods, not the global shape
        N = np.linalg.norm(P[:, None] - P[None], axis=2) + np.eye(n) * 1e9
        pure = (lab[N.argmin(1)] == lab).mean()
        # seen in 240 correct drawings each: 1.0 in the plane, at least 0.876 (Euclidean) and 0.73 (ball) in space
        require(pure > (0.9 if dim == 2 else 0.7 if "euclid" in what else 0.5), "distant clouds are mixed: only %s of the points are next to one of their own", pure)
    if c["label"]:
        val = np.asarray(col.get_array())
        same(val.tolist(), lab.tolist(), "values that give the colours")
        same(col.get_cmap().name, c["cmap"] or "viridis", "colour map")
    plt.close("all")
    return {"nt", what}


@st.composite
def map_case(draw):
    d = draw(st.integers(1, 5))
    n = draw(st.integers(1, 5))
    val = st.floats(-1, 1).map(lambda x: round(x, 4))
    return dict(u=[draw(st.lists(val, min_size=d, max_size=d)) for _ in range(n)], c=draw(st.sampled_from([0.1, 0.5, 1.0, 2.0, 4.0])),
                scale=draw(st.sampled_from([1e-6, 0.01, 0.5, 1.0, 2.0, 30.0])))


def check_map(c):
    u, k = np.array(c["u"]) * c["scale"], c["c"]
    keep = u.copy()
    p = fu.expmap0(u, k)
    require((u == keep).all(), "input of expmap0")
    r = np.linalg.norm(p, axis=1)
    nu = np.linalg.norm(u, axis=1)
    near(r, np.tanh(math.sqrt(k) * nu) / math.sqrt(k), "distance of exp(u) from the origin", rtol=1e-6, atol=1e-12)
    q = fu.proj(p, k)
    require((np.linalg.norm(q, axis=1) < 1 / math.sqrt(k)).all(), "proj leaves points outside the ball")
    for i in range(len(u)):
        if math.sqrt(k) * nu[i] < 4:
            near(fu.logmap0(p, k)[i], u[i], "log(exp(u))", rtol=1e-6, atol=1e-10)
            near(q[i], p[i], "proj of an inner point", rtol=1e-12, atol=1e-15)
        # directions are kept
        near(p[i] * nu[i], u[i] * r[i], "direction of exp(u)", rtol=1e-6, atol=1e-12)
        near(np.cross(np.append(q[i], [0, 0])[:3], np.append(u[i], [0, 0])[:3]), np.zeros(3), "direction of proj", atol=1e-9)
    inner = u / (1 + nu[:, None]) / math.sqrt(k) * 0.999
    near(fu.expmap0(fu.logmap0(inner, k), k), inner, "exp(log(p))", rtol=1e-6, atol=1e-10)
    far = u / np.where(nu == 0, 1, nu)[:, None] * 10 / math.sqrt(k)
    z = np.linalg.norm(fu.proj(far, k), axis=1)
    require(((z < 1 / math.sqrt(k)) & ((z > 0.999 / math.sqrt(k)) | (nu == 0))).all(), "proj of outer points gives norms %s", z)
    return {"nt"} if nu.max() > 0 else set()


SUBS = [Sub("drawing", draw_case(), check_draw, quick=320, thorough=9000),
        Sub("scale", draw_case(), check_scale, quick=80, thorough=3000),
        Sub("layout", block_case(), check_block, quick=32, thorough=1200),
        Sub("strength", strength_case(), check_strength, quick=24, thorough=1200),
        Sub("refuse", draw_case(), check_refuse, quick=40, thorough=600),
        Sub("poincare", emb_case(), check_emb, quick=300, thorough=9000),
        Sub("space", space_case(), check_space, quick=48, thorough=600),
        Sub("maps", map_case(), check_map, quick=400, thorough=12000)]
