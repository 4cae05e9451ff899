"""Writes known_findings.jsonl: defects recorded (status known) and repaired (fixed)."""
import json, subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
h = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
FIXED = [  # property, start of the commit's message, what failed
("P02","fix: DiGraph.reverse_direction leaves","DiGraph.reverse_direction leaves cached matrices and the edge list of the old direction"),
("P04","fix: matrices and degrees of a hypergraph without","matrices and degrees of a hypergraph without any hyperedge group raise"),
("P04","fix: Hypergraph.clear leaves","Hypergraph.clear sets v_weight to None, so that later matrices raise"),
("P10","fix: saving and loading a hypergraph","save/load of a hypergraph loses its vertex weights"),
("P11","fix: Hypergraph.clone loses","clone of a hypergraph loses its vertex weights"),
("P12","fix: dropping hyperedges loses","drop_hyperedges loses the vertex weights"),
("P11","fix: hypergraph edits rewrite","hypergraph construction/edits rewrite the caller's list of hyperedges and keep a reference to its weight list"),
("P06","fix: missing comma fuses","Hypergraph.vars_for_DL names two variables fused into one, so .to() and the listing miss them"),
("P08","fix: mean aggregation with caller weights","mean aggregation with caller-given weights multiplies by the total weight instead of dividing"),
("P07","fix: Graph.v2v softmax_then_sum","Graph.v2v softmax_then_sum without edge weights raises"),
("P05","fix: integer edge weights make","integer edge weights make degree inverses and propagation raise"),
("P33","fix: graphs silently drop edges","a weight list of another length than the edge list is silently truncated"),
("P33","fix: graphs accept negative","graphs accept negative vertex indices"),
("P33","fix: Hypergraph.add_hyperedges applies half","Hypergraph.add_hyperedges half-applies an edit before refusing the merge operation"),
("P33","fix: drop_hyperedges_of_group silently","drop_hyperedges_of_group accepts an unknown group"),
("P04","fix: a hyperedge that names","a hyperedge that names a vertex twice is not treated as a set"),
("P13","fix: Graph.from_hypergraph_clique","Graph.from_hypergraph_clique ignores miu"),
("P13","fix: HyperGCN expansion with mediators","HyperGCN expansion with mediators leaves out the edge between the extreme vertices"),
("P13","fix: HyperGCN expansion of a hypergraph without","HyperGCN expansion of a hypergraph without hyperedges raises"),
("P14","fix: kNN hyperedges may miss","kNN hyperedges may miss their centre when features repeat"),
("P14","fix: DiGraph.from_feature_kNN links","DiGraph.from_feature_kNN links wrong vertices for repeated features, fails for k=1 with the centre"),
("P17","fix: attention layers raise","attention layers raise on a structure with a single connection"),
("P17","fix: UniGINConv scales","UniGINConv scales the neighbourhood instead of the vertex itself by 1 + eps"),
("P19","fix: graph_Gnm and digraph_Gnm","graph_Gnm and digraph_Gnm refuse the complete graph"),
("P19","fix: graph_Gnp_fast and digraph_Gnp_fast","graph_Gnp_fast and digraph_Gnp_fast fail for probability 0 and 1"),
("P19","fix: Gnp_fast generators fail","Gnp_fast generators fail for probabilities that vanish next to one"),
("P23","fix: binomial coefficient","binomial coefficient C is inexact for large numbers and wrong for m > n"),
("P19","fix: hypergraph Gnm generators loop","hypergraph Gnm generators loop forever on impossible requests"),
("P21","fix: vertex splits leave out","vertex splits leave out classes when labels are not contiguous"),
("P21","fix: split_by_ratio refuses ratios","split_by_ratio refuses ratios that sum to one but for rounding (0.34, 0.56, 0.1)"),
("P21","fix: splits refuse the labels of a single","splitting the labels of a single vertex raises"),
("P22","fix: negative sampling loops","negative sampling loops forever for a user that has all items"),
("P23","fix: remapping an adjacency list","remapping an adjacency list with an isolated vertex or an empty line raises"),
("P25","fix: recommender metrics raise","recommender metrics raise NameError when a ratio is given"),
("P24","fix: precision and recall refuse","precision and recall refuse a batch in which no sample has a relevant target"),
("P24","fix: reciprocal rank is NaN","reciprocal rank is NaN when no relevant target is among the top k"),
("P24","fix: average precision and PR curve","average precision and PR curve of a sample without relevant targets are NaN or raise"),
("P27","fix: test results of an epoch","test results of an epoch change with the next epoch and are empty without any batch"),
("P28","fix: BPR loss is infinite","BPR loss is infinite when the negative score is far above the positive"),
("P28","fix: embedding regularization of odd","embedding regularization with an odd power rewards negative entries"),
("P29","fix: min_max_scaler raises","min_max_scaler raises ZeroDivisionError for a constant feature matrix"),
("P30","fix: datasets with a custom data_root","datasets with a custom data_root cannot be downloaded"),
("P31","fix: experiments that minimize","experiments with direction=minimize keep no model and raise after training"),
("P31","fix: GraphVertexClassificationTask refuses","GraphVertexClassificationTask refuses its documented structure_builder"),
("P31","fix: recommender experiments without","recommender experiments of models without a structure raise after training"),
("P31","fix: experiments raise after training when","experiments raise after training when a test result is not a single number (confusion matrix)"),
("P32","fix: bipartite layout attracts","bipartite layout pulls together vertices that no edge connects (indices of V not shifted)"),
("P32","fix: layout of a single vertex","layout of a single vertex is NaN"),
("P32","fix: self-loops are drawn","self-loops are drawn at NaN coordinates"),
("P32","fix: outline of vertices whose circles","outline of vertices whose circles contain one another fails with a math domain error"),
("P32","fix: the vertex line width","v_line_width has no effect on the drawing"),
("P32","fix: the font size has no","font_size has no effect on the drawing"),
("P32","fix: labels of a bipartite drawing get","labels of a bipartite drawing get the sum of both font sizes"),
("P32","fix: labels of one side","labels of one side of a bipartite drawing are lost without those of the other"),
("P32","fix: projection of an all-zero","projection of an all-zero embedding into the Poincare ball raises"),
("P32","fix: projection into the Poincare ball is NaN","projection into the Poincare ball is NaN when the embeddings agree in a component"),
("P33","fix: Graph.add_edges cuts an edge of three","Graph.add_edges cuts an edge of three vertices to two instead of refusing it"),
("P33","fix: removing an empty list of edges","removing an empty list of edges raises IndexError"),
("P33","fix: hypergraphs accept negative vertex indices","hypergraphs accept negative vertex indices"),
("P32","fix: drawn embeddings are NaN","drawn embeddings are NaN when they agree in a component"),
("P34","fix: dropping messages loses the gradient by the edge weights","v2v/u2v/v2u/v2e/e2v with custom weights and a drop rate: the weights get no gradient"),
("P34","fix: mean aggregation gives NaN","mean aggregation with custom weights and a drop rate: the gradients by the weights are NaN when all messages to a vertex are dropped"),
("P32","fix: a hypergraph with the same hyperedge in two groups","drawing a hypergraph with the same hyperedge in two groups fails an assertion (infinite repulsion)"),
("P17","fix: UniGCNConv gives NaN","UniGCNConv gives NaN for a hyperedge all of whose vertices have degree zero (zero-weight hyperedges)"),
("P04","fix: vertex weights of a hypergraph cannot be set","hg.v_weight = [...] raises AttributeError: the class hides the setter of its base class"),
("P35","fix: Facebook states the feature dimension of another dataset","Facebook()['dim_features'] is 8189 for features of width 4714"),
]
KNOWN = [
dict(property="P24", status="known", id="ap-ignores-k", sub="metrics", case=dict(rel=[1,0,1,0,1], score=[0.2,0.8,0.5,0.4,0.3], k=2),
     what="retrieval.ap/map/pr_curve accept k and ratio but evaluate the whole ranking; the documented example values of map depend on it"),
dict(property="P33", status="known", id="hypergraph-vertex-range", sub="refuse", case=dict(kind="add", n=5, edges=[[0,10]]),
     what="Hypergraph(5).add_hyperedges([[0, 10]]) accepts a vertex beyond the last (an existing test relies on it)"),
]
try:
    from extra_findings import FIXED2, KNOWN2
    FIXED += FIXED2; KNOWN += KNOWN2
except ImportError:
    pass
used = set()
with open("/verif/known_findings.jsonl", "w") as f:
    for k in KNOWN: f.write(json.dumps(k) + "\n")
    for p, m, w in FIXED:
        c = [x for x in h if x.startswith(m)]
        assert len(c) == 1, (m, c)
        used.add(c[0])
        f.write(f"fixed: property={p} {h[c[0]]} {w}\n")
rest = [x for x in h if x.startswith("fix:") and x not in used]
print("not listed:", rest)
