import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
BASE="dhg/structure/base.py";G="dhg/structure/graphs/graph.py";D="dhg/structure/graphs/directed_graph.py";B="dhg/structure/graphs/bipartite_graph.py";H="dhg/structure/hypergraphs/hypergraph.py"
p("P01","Graph: every view agrees with the edit history",
"After any sequence of edits to an undirected graph (add edges with any merge mode, remove edges, add/remove extra self-loops, remove self-loops, clear), the edge list, edge weights, edge count, both-direction edge list, adjacency matrix, source/destination/weight vectors, degrees and one-hop neighbours all equal what that history implies. An undirected edge has one weight however its end points were ordered; a duplicate edge is merged as the mean of the stored and the new weight, as the larger of them, or as their sum. A view read between edits never makes a later view stale.",
["histories","inputs"],"All operation sequences (edits interleaved with reads, on the constructor's edge list or an adjacency list) over all vertex counts, edge lists with duplicates/reversed duplicates/self-loops, and positive weights.",
"Tests replay a handful of fixed edit sequences and read one view after each; the guarantee ranges over all interleavings of edits and cached reads.",
[BASE,G],[("edge store and merge","BaseGraph._add_edge/_remove_edge, Graph.add_edges/remove_edges"),("cache invalidation","BaseGraph._clear_cache and its call sites"),("derived views","Graph.e, e_both_side, num_e, A, e_src/e_dst/e_weight, D_v, deg_v, nbr_v")],
[("_raw_e_dict","edge -> weight","dhg/structure/base.py"),("_raw_selfloop_dict / _has_extra_selfloop","self-loops stored / added on top","dhg/structure/base.py"),("cache","memoised views","dhg/structure/base.py")],["Graph public attributes"])
p("P02","DiGraph: every view agrees with the edit history",
"After any sequence of edits to a directed graph (add, remove, merge, extra self-loops, self-loop removal, direction reversal, clear), edges, weights, the adjacency matrix and its transpose, source/destination/weight vectors, in/out degrees and in/out neighbours all equal what that history implies. Direction is significant: (a,b) and (b,a) are different edges, and reversing the direction turns every edge, and therefore every view, around. A view read between edits never makes a later view stale.",
["histories","inputs"],"All edit/read sequences over all vertex counts, directed edge lists with duplicates and self-loops, and positive weights.",
"Tests use a few fixed graphs and never read matrices both before and after reversing or editing; stale views and direction mix-ups need such histories.",
[BASE,D],[("directed edge store","DiGraph.add_edges/remove_edges/reverse_direction, BaseGraph._add_edge"),("cache invalidation","BaseGraph._clear_cache"),("views","DiGraph.e, A, A_T, D_v_in, D_v_out, N_v_in, N_v_out, e_src/e_dst/e_weight")],
[("_raw_e_dict","directed edge -> weight","dhg/structure/base.py"),("cache","memoised views","dhg/structure/base.py")])
p("P03","BiGraph: every view agrees with the edit history",
"After any sequence of edits to a bipartite graph (add, remove, merge, clear, swapping the two vertex sets), the edges, weights, bipartite adjacency matrix and its transpose, full adjacency matrix, degrees and neighbours of both sides equal what that history implies. The full adjacency matrix is the symmetric block matrix whose off-diagonal blocks are the bipartite adjacency and its transpose. Swapping the vertex sets exchanges the roles of the two sides in every view.",
["histories","inputs"],"All edit/read/swap sequences over all pairs of side sizes, edge lists with duplicates, and positive weights.",
"Tests cover a few small fixed bigraphs; combinations of swapping, merging and cached reads are not reached.",
[BASE,B],[("bipartite edge store","BiGraph.add_edges/_add_edge/remove_edges/switch_uv"),("views","BiGraph.A, B, B_T, D_u, D_v, N_u, N_v, e_u/e_v/e_weight")])
p("P04","Hypergraph: whole and per-group views agree with the edit history",
"After any sequence of edits to a hypergraph with any number of named hyperedge groups (add with a merge mode, remove from one group or all, remove a group, set the vertex weights, clear), the hyperedges, weights, vertex weights, counts, incidence matrix, hyperedge-weight matrix, degrees, neighbours and incidence index vectors, for each group and for the whole hypergraph, equal what that history implies. A hyperedge is a set of vertices: vertex order is irrelevant, a repeated hyperedge in a group is merged as mean/max/sum, and the same set may live in several groups, the whole hypergraph being the concatenation of the groups. Editing one group leaves the hyperedges of other groups unchanged.",
["histories","inputs"],"All edit/read sequences over all vertex counts, group names, hyperedge lists in any vertex order with duplicates, and positive weights.",
"Tests fix a few two-group hypergraphs; the interplay between per-group caches, whole-graph caches and edits ranges over unbounded histories.",
[BASE,H],[("hyperedge store","BaseHypergraph._add_hyperedge/_merge_hyperedges/_hyperedge_code, Hypergraph.add_hyperedges/remove_hyperedges/remove_group"),("per-group cache","BaseHypergraph._clear_cache, group_cache"),("views","Hypergraph.e/H/W_e/D_v/D_e/N_v/N_e/v2e_*/e2v_* and *_of_group")],
[("_raw_groups","group -> hyperedge -> weights","dhg/structure/base.py")])
p("P05","Graph normalisers and Laplacians equal their definitions",
"For every weighted graph, the inverse and inverse-square-root degree matrices, the Laplacians L = D - A, L_sym = I - D^-1/2 A D^-1/2 and L_rw = I - D^-1 A (with self-loops left out), the renormalised GCN matrix (with one extra self-loop per vertex), the directed in/out and bipartite degree inverses and the bipartite GCN matrix equal their textbook definitions, with zero in place of the inverse of a zero degree. Laplacian smoothing returns X + lambda*L*X and GCN smoothing returns the GCN matrix times X (with a drop rate, each entry of that matrix is left out independently). Computing any of them leaves the graph unchanged.",
["inputs","histories"],"All graphs, directed graphs and bigraphs (isolated vertices, self-loops, weights, extra self-loops switched on), all feature matrices and lambda.",
"Tests check one or two small graphs without isolated vertices or self-loops; the definition quantifies over all of them.",
[G,D,B],[("degree inverses","Graph.D_v_neg_1/D_v_neg_1_2, DiGraph.D_v_*_neg_1, BiGraph.D_*_neg_1"),("Laplacians","Graph.L/L_sym/L_rw/L_GCN, BiGraph.L_GCN"),("smoothing","BaseGraph.smoothing, smoothing_with_GCN")])
p("P06","Hypergraph matrices and Laplacians equal their definitions",
"For every weighted hypergraph, and for every group of it, the incidence matrix, vertex and hyperedge weight matrices, weighted vertex degree, hyperedge degree and their inverses, the HGNN matrix Dv^-1/2 H W De^-1 H^T Dv^-1/2, L_sym = I - that matrix, and L_rw = I - Dv^-1 H W De^-1 H^T equal their definitions, with zero in place of the inverse of a zero degree. Smoothing with a Laplacian returns X + lambda*L*X and HGNN smoothing returns the HGNN matrix times X (with a drop rate, each entry of that matrix is left out independently). Computing any of them leaves the hypergraph unchanged.",
["inputs","histories"],"All hypergraphs with one or more groups, isolated vertices, singleton hyperedges, shared vertex sets across groups, vertex and hyperedge weights, before and after edits.",
"Tests assert a few matrices on fixed hypergraphs; per-group variants and isolated vertices are sampled once or never.",
[H],[("degree matrices","Hypergraph.D_v/D_e and *_neg_1*, *_of_group"),("Laplacians","Hypergraph.L_HGNN/L_sym/L_rw and *_of_group"),("weights","Hypergraph.W_v/W_e")])
p("P07","Pairwise message passing computes the documented aggregation",
"On graphs, directed graphs and bigraphs, vertex-to-vertex propagation returns for every receiving vertex exactly the sum, the mean, or the softmax-weighted sum of the features of its neighbours, in the requested direction, with the stored edge weights or the per-edge weights the caller passes (indexed as the source/destination vectors). A mean divides the weighted sum by the total weight received, softmax weights are normalised over the messages each vertex receives, and a vertex that receives nothing gets zeros. A drop rate removes each message independently with that probability. Propagation does not modify its inputs or the graph.",
["inputs","histories"],"All graphs (isolated vertices, self-loops, extra self-loops), directions, aggregation modes, per-edge weights and feature matrices.",
"Tests compare against the same matrix expressions on fixed graphs and leave weighted mean and softmax nearly untouched.",
[G,D,B],[("v2v","Graph.v2v, DiGraph.v2v"),("u2v / v2u","BiGraph.u2v, BiGraph.v2u")])
p("P08","Hypergraph message passing computes the documented aggregation",
"On a hypergraph, and on any group of it, vertex-to-hyperedge and hyperedge-to-vertex aggregation return for every receiver exactly the sum, mean or softmax-weighted sum over its incident senders, using per-incidence weights when the caller passes them (indexed as the incidence index vectors), the hyperedge update step multiplies by hyperedge weights, and a receiver with no senders gets zeros. Without caller weights a mean over hyperedges divides by the vertex degree, a mean over vertices by the hyperedge size. A drop rate removes each message independently. Each combined operation equals the composition of its steps, including different aggregations and weights for the two stages. With one group the group operation equals the whole-hypergraph operation.",
["inputs","histories"],"All hypergraphs, groups, aggregation modes, optional weight arguments and feature matrices.",
"Tests exercise a few fixed hypergraphs; weighted means, per-group and two-stage mixed modes are not covered.",
[H],[("aggregation","Hypergraph.v2e_aggregation/e2v_aggregation and *_of_group"),("update","Hypergraph.v2e_update/e2v_update and *_of_group"),("composition","Hypergraph.v2e/e2v/v2v and *_of_group")])
p("P09","k-hop neighbourhoods are exact",
"A graph's k-hop neighbour query returns exactly the vertices reachable from the given vertex by a walk of k edges, in particular its adjacent vertices for k = 1. The k-hop hypergraph of a graph has, for each vertex, the hyperedge made of that vertex and all vertices within k hops, or, in the only-k-hop mode, that vertex and its k-hop neighbours alone, with coinciding hyperedges merged. Asking for one k never changes the answer for another k, and edits in between are honoured.",
["inputs","histories"],"All graphs and k >= 1, query orders and interleaved edits.",
"Tests query k = 1, 2 on one or two small graphs; memoised powers make the answer depend on the query order.",
[G,H],[("hop queries","Graph.N_v, Graph.nbr_v"),("k-hop hyperedges","Hypergraph._e_list_from_graph_kHop, from_graph_kHop, add_hyperedges_from_graph_kHop")])
p("P10","Saved structures load back unchanged",
"Saving any graph, directed graph, bigraph or hypergraph and loading it (through its own class or the generic loader, or through its state dictionary) yields a structure of the same class with the same vertices, edges, edge weights, groups, vertex weights and self-loop settings, hence the same views and propagation results, whatever edits and reads preceded the save. Loading through a class the file was not saved from is refused. Saving does not change the saved structure.",
["histories","inputs"],"All structures reachable by edits, cached reads before saving, and repeated save/load.",
"Tests round-trip one fixed structure per class and compare a few attributes; weights, groups and settings combine unboundedly.",
[BASE,G,D,B,H],[("state","state_dict/from_state_dict of each class"),("files","save/load of each class, load_structure")])
p("P11","Clones and inputs are isolated; structures never alias the caller",
"A clone is equal to its original in every view, and no edit to either ever shows in the other, including views read before or after cloning. Constructing, editing, sampling from or converting a structure never modifies the lists, tensors or structures passed in, and later changes to those inputs do not alter the structure.",
["histories","inputs"],"All structures and edit sequences applied to original and clone in any interleaving, and all mutations of caller-owned inputs.",
"Tests clone once and compare a few fields; aliasing only shows through later edits.",
[BASE,G,D,B,H],[("clone","clone of each class"),("input formatting","_format_edges, _format_e_list, add_hyperedges"),("converters","from_hypergraph*, from_graph*, from_bigraph, subgraph, drop_*")])
p("P12","Random edge dropping keeps a sub-structure of the right size",
"Dropping edges or hyperedges at a rate in [0,1) returns a new structure of the same class on the same vertices (with the same vertex weights and self-loop setting), containing only edges of the original with their original weights and group, and leaves the original untouched. Rate 0 keeps everything; each edge is dropped independently with the given probability, so over many draws the kept fraction matches 1 - rate. Dropping within one group leaves every other group complete.",
["inputs","configurations"],"All structures, rates and random seeds; groups of hypergraphs.",
"Tests assert only the type or a rough count on one graph; containment and weight preservation range over all structures and seeds.",
[G,D,B,H],[("edge dropping","drop_edges of Graph/DiGraph/BiGraph"),("hyperedge dropping","Hypergraph.drop_hyperedges, drop_hyperedges_of_group")])
p("P13","Hypergraph-to-graph expansions follow their definitions",
"Star expansion yields one graph vertex per vertex and per hyperedge, an edge exactly for each incidence, and a mask marking the real vertices; clique expansion weights each vertex pair in proportion to the number of shared hyperedges scaled by the given coefficient, without self-loops. The HyperGCN expansion joins, for each hyperedge, the two vertices that are farthest apart in projected feature space, and with mediators also joins every remaining vertex of that hyperedge to both; each such edge has weight 1/size, or 1/(2*size-3) with mediators, summed over the hyperedges that give the same edge.",
["inputs"],"All hypergraphs with one or more groups, features, coefficients, mediator and weight options, and seeds of the random projection.",
"Tests run the expansions on one hypergraph each, with a trivially small comparison.",
[G],[("star","Graph.from_hypergraph_star"),("clique","Graph.from_hypergraph_clique"),("HyperGCN","Graph.from_hypergraph_hypergcn")])
p("P14","Hypergraphs and graphs built from other data contain exactly what it implies",
"A hypergraph built from a graph has one hyperedge per edge; one built from a bigraph has one hyperedge per opposite-side vertex, holding its neighbours, and converting a hypergraph to a bigraph and back restores the hyperedges; adjacency-list constructors yield exactly the listed edges. A hypergraph built from features with k neighbours has, for every vertex, a hyperedge of k vertices containing it and its nearest others, even when features coincide; a k-nearest-neighbour directed graph links every vertex with its k nearest others (with k-1 of them and itself when the centre is included), weighted 1 or exp(-distance). Adding such hyperedges to an existing hypergraph as a group gives the same group and leaves the other groups alone.",
["inputs","histories"],"All graphs, bigraphs, hypergraphs, adjacency lists, feature matrices (duplicate points included) and k.",
"Tests use one fixed input per constructor, and for feature neighbours only well-separated points.",
[H,G,D,B],[("hypergraph constructors","Hypergraph.from_graph/from_bigraph/from_feature_kNN and add_hyperedges_from_*"),("graph constructors","from_adj_list of each class, BiGraph.from_hypergraph, DiGraph.from_feature_kNN")])
p("P15","A hypergraph's sub-hypergraph keeps exactly the induced hyperedges",
"The sub-hypergraph on a set of vertices keeps, group by group, the intersection of every hyperedge with the selected vertices whenever that intersection is large enough, and nothing else, renumbered by the documented order of the selection. A hyperedge that stays distinct keeps its weight, and the selected vertices keep their vertex weights. The original hypergraph is not modified.",
["inputs"],"All hypergraphs (several groups, weights), all vertex selections in any order.",
"Tests take two or three subsets of a fixed hypergraph.",
[BASE,H],[("subgraph","BaseHypergraph.subgraph"),("filter","BaseHypergraph._subgraph_filter_hyperedge")])
p("P16","Relabelling vertices relabels results, and components do not interact",
"Permuting the vertices of a graph or hypergraph together with the feature rows permutes the result of every propagation, smoothing, Laplacian and convolution in the same way. Re-ordering the edges or hyperedges supplied does not change any vertex-level result. Changing features or edges in one connected component never changes the results of vertices in another.",
["inputs"],"All structures, permutations, edge orders, features and every built-in convolution with fixed parameters in evaluation mode.",
"Metamorphic relations over all permutations; tests only check output shapes or a fixed example.",
[G,D,B,H,"dhg/nn/convs"],[("propagation","v2v/u2v/v2u/v2e/e2v, smoothing_with_*"),("convolutions","dhg/nn/convs/*")])
p("P17","Convolution layers compute their documented formulas",
"Every convolution layer (GCN, GAT, GIN, GraphSAGE, HGNN, HGNN+, HyperGCN, HNHN, UniGCN, UniGAT, UniSAGE, UniGIN, JHConv) returns, in evaluation mode, exactly its documented formula of the input features, the structure (edge and hyperedge weights included) and its own parameters: normalisation, bias, activation followed by optional batch normalisation, and the plain form of a last layer. Attention scores are clamped to [0.001, 5] and their softmax is normalised over the messages each vertex receives (UniGAT scores hyperedges by their features). In training mode dropout with the given rate leaves out or rescales each entry of its operand and nothing else (the outputs of a layer that is not the last; GAT and UniGAT drop attention scores before clamping them). A forward pass modifies neither the features nor the structure.",
["inputs","configurations"],"All structures, features, layer sizes, random parameters and every constructor option.",
"Tests check that a layer runs and compare one output; every option combination and isolated vertices range far wider.",
["dhg/nn/convs/graphs","dhg/nn/convs/hypergraphs"],[("graph layers","dhg/nn/convs/graphs/*.py"),("hypergraph layers","dhg/nn/convs/hypergraphs/*.py")])
p("P18","Models compose their layers as documented",
"Each model in evaluation mode equals the composition of its layers as documented: two stacked convolutions with activation (and batch norm if asked) after the first only; concatenated attention heads before an activated output attention layer; GIN's sum of predictions over the input and every layer; layer-averaged user/item embeddings for LightGCN, NGCF and DHCF; BGNN's alternating layers, whose cascaded training fits each layer in turn, with the given epochs, learning rate and weight decay, to the embeddings of the layers before it (adversarially or by reconstruction) and returns the same embedding as the trained model; HyperGCN's reuse of the graph converted at its first call exactly when fast mode is on. Multi-head wrappers read out by concatenation, mean, max or sum. Outputs have one row per input vertex of the requested width, evaluation is repeatable (HyperGCN up to its random projection) and dropout acts only in training mode, at the rate the model was constructed with, on the operand documented (NGCF drops before its row normalisation, LightGCN drops entries of the propagation matrix).",
["inputs","configurations"],"All structures, features, model hyper-parameters and train/eval switches.",
"Tests only assert output shapes on a fixed input.",
["dhg/models/graphs","dhg/models/hypergraphs","dhg/nn/convs/common.py"],[("graph models","dhg/models/graphs/*.py"),("hypergraph models","dhg/models/hypergraphs/*.py"),("wrappers","MLP, MultiHeadWrapper, Discriminator")])
p("P19","Random structure generators return valid structures of the asked shape",
"Every random generator returns a structure with the requested vertex count and only valid, distinct edges (no self-loops; hyperedges of the requested uniform size), with exactly the requested number of edges, all such structures being equally likely, in the fixed-count models of graphs, directed graphs, bipartite graphs and uniform hypergraphs, and every possible edge present or absent independently in the probability models (probability 0 gives none, 1 gives all, and the mean count matches). All edge counts up to the maximum possible are served, and impossible requests are refused rather than looping. The general hypergraph generator draws hyperedge sizes by its size-distribution method. Random label features are the one-hot class of each vertex plus independent normal noise of the given deviation.",
["inputs","configurations"],"All vertex counts, edge counts, probabilities, uniform sizes, methods and seeds.",
"Tests generate a couple of large random structures and check counts only.",
["dhg/random/graphs","dhg/random/hypergraphs"],[("graph generators","graph_Gnp/_fast/Gnm, digraph_*, bigraph_*"),("hypergraph generators","uniform_hypergraph_Gnp/Gnm, hypergraph_Gnm")])
p("P20","A fixed seed reproduces every random choice",
"After setting the library's seed, any sequence of the library's random operations (generators, edge and hyperedge dropping, sparse dropout, data splits, random features, negative sampling, random projections) produces the same results when the seed is set again and the sequence repeated, and different seeds produce different results. The seed in force can be read back. Reproduction does not depend on work done before the seed was set.",
["histories","configurations"],"All seeds and sequences of random operations, with arbitrary random draws before seeding.",
"Tests check two generators with one seed.",
["dhg/random/_seed.py","dhg/random","dhg/utils"],[("seeding","dhg.random.set_seed, dhg.random.seed"),("consumers","generators, drop_*, split_*, sparse_dropout, normal_features, sample_neg_item")])
p("P21","Vertex splits are disjoint masks with exact per-class counts",
"Splitting labelled vertices by number puts exactly the requested number of vertices of every class into the training, then the validation, then the test set, or all a smaller class has left; by ratio it puts the requested fraction of each class, rounded down. Without a test number or ratio everything left is for testing. The returned masks have one entry per vertex, are pairwise disjoint, and do not favour any vertex of a class. Ratios that sum to more than one are refused, and the labels passed in are not modified.",
["inputs","configurations"],"All label vectors (list, array or tensor; any integer classes), class imbalances, counts, ratios and seeds.",
"Tests split one fixed balanced label vector.",
["dhg/utils/dataset_split.py"],[("by number","split_by_num"),("by ratio","split_by_ratio"),("masks","_idx2mask")])
p("P22","User-item splits and sampling respect the interactions",
"Splitting a user-item bigraph partitions its edges into training and test adjacency lists: each user with interactions gets exactly the requested number of them (or all, if there are fewer), or the requested fraction rounded down, for training and the rest for testing, chosen without favouring any item, and the bigraph is unchanged. The user-item dataset enumerates exactly the given interactions in training; each training item pairs a user and an item that user interacted with against an item the user never interacted with; each test item yields the user, minus infinity on exactly that user's training items and zero elsewhere, and a row marking exactly the user's test items. Every user is visited once in testing.",
["inputs","configurations"],"All bigraphs, train numbers/ratios, interaction lists and seeds.",
"Tests use one fixed bigraph and check counts.",
["dhg/utils/dataset_split.py","dhg/utils/dataset_wrapers.py"],[("bigraph splits","split_by_num_for_UI_bigraph, split_by_ratio_for_UI_bigraph"),("dataset","UserItemDataset")])
p("P23","Edge-list/adjacency-list conversions and remapping lose nothing",
"Converting an edge list to an adjacency list or dictionary and back keeps exactly the same multiset of directed edges. Remapping edge lists or adjacency lists relabels vertices through a bijection onto 0..n-1, consistent over all the lists given, with separate consecutive ranges for the two sides when a bipartite remapping is asked for, so that applying the returned inverse restores the input. The binomial helper equals the exact binomial coefficient.",
["inputs"],"All edge lists, adjacency lists (empty lines, isolated heads, labels of any type whose text differs) and n, m.",
"Tests convert one or two fixed lists.",
["dhg/utils/structure.py","dhg/utils/math.py"],[("conversion","edge_list_to_adj_list, edge_list_to_adj_dict, adj_list_to_edge_list"),("remap","remap_edge_list(s), remap_adj_list(s)"),("binomial","C")])
p("P24","Retrieval metrics equal their definitions",
"Precision, recall, average precision, MAP, NDCG, reciprocal rank (as documented, the mean over the relevant targets retrieved), MRR and the precision-recall curve, plain (legacy) or interpolated (pascal_voc), equal their definitions evaluated on the ranking by descending score, for any cut-off or ratio (a ratio is rounded up to whole targets), and the per-sample results average to the batch result. Every value lies in [0,1] and is never NaN; a perfect ranking scores 1 where the definition says so, and a sample with nothing relevant scores 0. Reordering samples or applying an increasing transform to the scores changes nothing, and the inputs are not modified.",
["inputs"],"All relevance/score matrices without score ties, samples without relevant targets, cut-offs and ratios.",
"Tests check two or three hand-computed rows.",
["dhg/metrics/retrieval.py"],[("metrics","precision, recall, ap, map, ndcg, rr, mrr, pr_curve")])
p("P25","Recommender metrics equal their definitions",
"Recommender precision@k, recall@k and NDCG@k equal their definitions on the ranking of items by descending score for any k or ratio (rounded up to whole items), per user and averaged over users. Items a caller masks with minus infinity rank below all real candidates. Every value lies in [0,1] and is never NaN, a perfect ranking has NDCG 1, and a user with nothing relevant scores 0. The inputs are not modified.",
["inputs"],"All relevance/score matrices without score ties (but masked items), users without relevant items, cut-offs and ratios.",
"Tests check a couple of hand-computed rows.",
["dhg/metrics/recommender.py"],[("metrics","precision, recall, ndcg")])
p("P26","Classification metrics equal their definitions",
"Accuracy is the fraction of vertices whose predicted class (the arg-max of a score matrix, or the given class) equals the label, the confusion matrix counts each (true, predicted) pair, and the F1 score equals the macro, micro or weighted F1 derived from it. The score-matrix and class-vector forms agree. Permuting the vertices changes nothing.",
["inputs"],"All label vectors, score matrices and class predictions.",
"Tests check one or two fixed vectors.",
["dhg/metrics/classification.py"],[("metrics","accuracy, f1_score, confusion_matrix")])
p("P27","Evaluators: batched evaluation equals one pass and epochs do not mix",
"An evaluator returns, under the configured names, exactly what the corresponding metric functions return; for retrieval and recommendation, feeding the same samples in any batches and closing the epoch gives the same result as evaluating them at once, closing it again repeats that result, and no epoch changes the results of another, those already returned included. Closing an epoch before any batch was ever added is refused. The validation result is the value of the configured validation metric, and test results cover every configured metric with its parameters. Validation and test streams do not disturb each other.",
["histories","inputs","configurations"],"All metric configurations, sample batches, batch sizes and interleavings of validation and test epochs.",
"Tests run one fixed batch sequence per evaluator.",
["dhg/metrics/base.py","dhg/metrics/__init__.py","dhg/metrics/retrieval.py","dhg/metrics/recommender.py"],[("batched state","BaseEvaluator.validate_add_batch/validate_epoch_res/test_add_batch/test_epoch_res"),("configuration","format_metric_configs, build_evaluator")])
p("P28","Losses, embedding regularisation and sparse dropout equal their definitions",
"The BPR loss is the mean of the negative log-sigmoid (or softplus) of scaled score differences, finite for ordinary score magnitudes, decreasing as the positive score grows, with the documented roles of its coefficients; embedding regularisation of order p is the weight decay times the sum over embeddings of (1/p) times the row average of the summed |x|^p, hence never negative. Sparse dropout keeps every entry's position, sets each value to the fill value with the given probability independently, leaves the other values and the input unchanged, and is the identity at probability 0.",
["inputs","configurations"],"All score vectors, coefficients, embeddings, sparse matrices, probabilities and seeds.",
"Tests check one value each or only shapes.",
["dhg/nn/loss.py","dhg/nn/regularization.py","dhg/utils/sparse.py"],[("loss","BPRLoss"),("regularisation","EmbeddingRegularization"),("dropout","sparse_dropout")])
p("P29","Data pipes convert, normalise and load without losing content",
"Conversion pipes turn lists, arrays, sparse matrices and tensors into tensors of the documented type with the same values; row normalisation scales each non-zero row to unit norm of the chosen order and min-max scaling maps the data affinely onto the requested range (constant data stays finite and inside it); composed pipes equal applying them in order. The file loaders return exactly the content of pickle, JSON and delimited text files with the requested keys, types and separators (blank space around a line of a text file is not content). No pipe modifies its input.",
["inputs"],"All numeric inputs and container types, norms, ranges, file contents and loader options.",
"Tests feed one array per pipe.",
["dhg/datapipe"],[("conversion","to_tensor, to_bool_tensor, to_long_tensor, compose_pipes"),("normalisation","norm_ft, min_max_scaler"),("loaders","load_from_pickle, load_from_json, load_from_txt")])
p("P30","Downloads are accepted only with the right checksum, whatever fails",
"A dataset file is accepted only when its MD5 matches: whatever mixture of missing, truncated, corrupted or pre-existing files, HTTP errors and retries occurs, success implies that the final file has the expected checksum, and a corrupt file is never left behind as the accepted one. A valid cached file is used without any network request. Dataset items are loaded lazily, from the declared files through the declared pipeline, once, with raw access bypassing preprocessing.",
["fault_sequences","inputs","histories"],"All sequences of server replies (good, truncated, corrupted, HTTP error), pre-existing file states and legacy caches, and all item access orders.",
"Tests need the network and only see the good path; the guarantee is about the fault sequences.",
["dhg/utils/download.py","dhg/data/base.py"],[("download and verify","download_file, check_file, download_and_check, _retry"),("lazy items","BaseData.__getitem__, raw, fetch_files, needs_to_load")])
p("P31","The experiment runner keeps and reports the best model",
"Whatever sequence of trials and validation scores occurs, the runner selects the trial with the best score in the requested direction, within a trial keeps the parameters from the best epoch, and the model it finally tests and saves is the one that produced that score. Temporary trial files are removed at the end and the saved best model and structure survive. The study's log names every trial and the best trial's value, parameters and test results. A missing work root is created in an existing directory and refused otherwise. Vertices or interactions outside the corresponding mask never influence training, validation or test results.",
["histories","configurations"],"All score sequences over trials and epochs, search directions, and tasks.",
"Tests run one short training per task and only check that it finishes.",
["dhg/experiments"],[("trial selection","BaseTask.experiment, BaseTask.run"),("training, validation, test","VertexClassificationTask, UserItemRecommenderTask, HypergraphVertexClassificationTask, GraphVertexClassificationTask")])
p("P32","Layouts and projections are finite, in range and geometrically right",
"Layouts place every vertex (and both bipartite sides) at finite coordinates inside the drawing area and put vertices that edges connect closer together than others; raising a strength option acts in the direction it names (pulling connected vertices together, pulling to the centre, pushing hyperedges apart; in bipartite drawings on the named side); drawing any structure with any documented style options draws one marker per vertex and one shape per edge or hyperedge, from the right vertex to the right vertex, in the sizes, widths, colours, labels and fonts asked for, without error and without modifying the structure, whether through the drawing function or the structure's own draw method. Drawings and animations of embeddings (Euclidean and Poincare, two and three dimensions) place one point per embedding inside the axes, in its label's colour, and keep well separated groups apart. Projection into the Poincare ball gives points strictly inside the ball, one per embedding, and the exponential and logarithmic maps at the origin invert one another. A hyperedge's drawn outline encloses the vertices of that hyperedge.",
["inputs","configurations"],"All structures, style options and embeddings.",
"Tests render a fixed example and assert nothing about the geometry.",
["dhg/visualization"],[("layout","force_layout, bipartite_force_layout, Simulator"),("drawing","draw_graph/draw_digraph/draw_bigraph/draw_hypergraph, hull_layout, geometry"),("projection","project_to_poincare_ball, expmap0, logmap0")])
p("P33","Invalid requests are refused and leave the structure unchanged",
"An edit with a negative or out-of-range vertex index, an edge of a wrong arity or with a non-integer entry, an edge group that does not exist, an unknown merge mode or aggregation name, a weight list of the wrong length, a feature with the wrong number of rows, a query for an unknown edge or vertex is refused with an exception, never silently accepted. After a refused edit the structure's edges, weights, groups and views are exactly as before, as if the call had not been made. Removing edges that are not present, an empty list of edges, or dropping a whole hyperedge group that does not exist (remove_group) is a no-op that leaves the rest intact.",
["inputs","histories"],"All structures and all malformed requests at any point of an edit history.",
"Tests try two or three wrong indices; atomicity after refusal is never looked at.",
[BASE,G,D,B,H],[("validation","_format_edges, _format_e_list_and_w_on_them, add_edges, add_hyperedges, remove_*"),("group checks","*_of_group assertions")])
p("P34","Gradients are the derivative of what the forward pass computes",
"Back-propagating through any message propagation or smoothing call (graph, directed graph, bigraph, hypergraph, whole or one group), any convolution layer, any model or wrapper gives the derivative of the value it computed: with respect to the features, to custom edge/incidence/hyperedge weights handed in, and to every trainable parameter. With a drop rate the gradient flows exactly through the messages that were delivered, including to the custom weights. Nothing differentiable is silently cut off, a second forward and backward pass on the same structure gives the same gradients (caches hold no graph), and a result computed from inputs that need no gradient needs none.",
["inputs","histories"],"All structures, features, custom weights, aggregation modes, layer options, parameters and directions.",
"Tests only look at forward values; training correctness for arbitrary weights and structures is never compared with a derivative.",
[G,D,B,H,"dhg/nn/convs","dhg/models","dhg/utils/sparse.py"],[("propagation","v2v, u2v, v2u, v2e_aggregation, e2v_aggregation, v2e_update, smoothing_with_*"),("message dropping","sparse_dropout"),("layers and models","forward of dhg.nn convs and dhg.models")])
p("P35","Datasets give their documented items, from their own files, in the right form",
"Every built-in dataset class offers exactly its documented items. Scalar items are the documented numbers and need no file. Every file item is read from that dataset's own file in the given data root (or the cache), downloaded from that dataset's own address if it is absent, accepted only with the released checksum, and converted as documented: features to float tensors (row-normalised for the sets that say so), labels and other per-vertex codes to integer tensors, masks to boolean tensors, edge lists and dictionaries as stored, training/test adjacency lists to lists of integers, one line each. raw() gives the unprocessed content. The value of an item does not depend on which items, instances or other datasets were read before.",
["inputs","histories"],"All dataset classes, file contents and container types, data roots, present and absent files, and sequences of accesses over several instances.",
"Tests of the real datasets need the network and read each item once; order, roots, instances and content types are not varied.",
["dhg/data","dhg/data/base.py"],[("item tables","_content of every class in dhg/data"),("lazy loading","BaseData.__getitem__, raw, fetch_files")])
p("P36","Layers, metrics, generators, splits and loaders refuse bad requests",
"A layer, loss, model, metric, evaluator, random generator, split, dataset wrapper, loader or scaler asked for an option it does not know (activation, aggregation, readout, metric or task name, average-precision method, sampling method, phase, text type), for sizes that do not fit (predictions and labels of different lengths or too many axes, features of the wrong width, a distribution of the wrong length), for probabilities, drop rates or ratios out of range, for more edges or hyperedges than exist, for graded relevance where it must be binary, for a missing file or an absent key, refuses with an exception instead of returning a number or an object. The same request made right is answered, before and after the refused one.",
["inputs","configurations"],"All entry points with checked arguments outside the structures (those are P33), all unknown names, sizes and ranges, hidden among good ones.",
"Tests call these with valid arguments; the refusals are hardly ever exercised, and silently accepting a wrong option gives plausible but wrong results.",
["dhg/nn","dhg/metrics","dhg/random","dhg/utils/dataset_split.py","dhg/utils/dataset_wrapers.py","dhg/datapipe"],[("metrics","_format_inputs, format_metric_configs, BaseEvaluator"),("generators","assertions of dhg.random"),("loaders","load_from_*, ret_cast_fun"),("layers","BPRLoss, GraphSAGEConv, MultiHeadWrapper, MLP, GIN")])
p("P37","Console output redirected to a file reaches both places in full",
"After simple_stdout2file(path) everything printed or written to standard output reaches the previous standard output and is appended to the file, in order, in full and at once (the file on disk is current after every write), without touching what the file held before. Redirections nest: each file gets everything written after its own redirection. A file whose directory is missing is refused, standard output stays as it was and nothing is created. The default log format names the level, the time and the message.",
["histories"],"All histories of redirections (text or Path, absolute or relative, new or existing files, directory changes, replaced streams), prints and writes.",
"There is no test of it; nesting, buffering and existing content are never exercised.",
["dhg/utils/logging.py"],[("redirection","simple_stdout2file, SimpleLogger"),("format","default_log_formatter")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['id']
print(len(P))
