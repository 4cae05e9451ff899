"""Writes DESIGN.md: prose here, per-property generators and sizes from the property modules, findings and seeded bugs from their files."""
import importlib, json, os, sys, re
V = "/verif"
sys.path[:0] = [V, V + "/.deps", "/repo"]
import tempfile; os.environ["HOME"] = os.environ["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="verif-")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTES = {
"P01": ("a dictionary model {unordered pair: weight} with the three merge rules and the extra-self-loop flag (`harness/refmodel.py`)", "The read operations inside a history make each cached view (edge lists, A, e_src/e_dst/e_weight, degrees, N_v) exist before the next edit, so a cache that an edit forgets to clear shows. Weights up to 2^k multiples so that float32 merges stay comparable."),
"P02": ("the same model over ordered pairs, with in/out views derived from it", "Reversal is a model operation; opposite edges with different weights are generated on purpose."),
"P03": ("a dictionary model over (u, v), with the sides' sizes swapped by switch_uv", "Both A and the bipartite matrix B, degrees and neighbours of both sides are compared."),
"P04": ("a model {group: {vertex set: weight}}", "Vertex order within a hyperedge, single-hyperedge forms, tuple/list forms, the same vertex set in several groups."),
"P05": ("dense float64 matrices written from the documented formulas (`harness/refmodel.py`)", "Read order is generated, because one normaliser may fill or spoil the cache of another; read again after an edit."),
"P06": ("dense float64 matrices for the whole hypergraph and every group", "Zero-degree vertices and hyperedge-free groups are included; inverse of 0 is 0 as documented."),
"P07": ("a dense message-by-message reference; on identity features the result is the operator itself", "Custom weights are indexed in the order of e_src/e_dst of the structure under test, which P01-P03 tie to the edges. With drop_rate: each entry is 0 or kept, at the asked rate (binomial tails)."),
"P08": ("a dense reference over the incidences, whole and per group", "Weights passed by the caller are indexed by v2e_src/v2e_dst (e2v_src/e2v_dst)."),
"P09": ("breadth-first walks over edge sets of a pure-Python model", "k up to 12 asked in any order, because a per-hop cache is shared between queries and k-hop hypergraphs."),
"P10": ("equality with the reference model and view-by-view equality with the original; then edits to both show independence", "Order of edges, weights, groups, vertex weights, extra self-loops, both loaders, a second generation of save/load."),
"P11": ("two reference models, one for each of original and clone; deep copies of all inputs", "Includes mutation by the caller of lists/tensors previously handed in or handed out by constructors, samplers and converters."),
"P12": ("subset/weight/group equality against the model; independence by binomial bounds", "'Right size' is statistical: kept counts, per-edge counts and pairwise joint counts within 8 standard deviations, i.e. below 1e-14 chance per comparison; seeds are generated, so that a run is reproducible."),
"P13": ("incidence and co-membership counts; for HyperGCN the finite set of extreme pairs over all projection directions", "The HyperGCN expansion is random; its result must be one of the possible ones. Rank-one features make it unique."),
"P14": ("incidence models; brute-force float64 distances for kNN", "kNN ties are accepted in any order: a returned neighbour may not be farther than the k-th distance (with a relative rounding margin)."),
"P15": ("a model that intersects and renumbers", "Two hyperedges that become equal by the cut are one hyperedge whose weight is one of theirs, and it stays in its group."),
"P16": ("metamorphic: permutation equivariance, order invariance and restriction from a disjoint union", "Needs no formula; covers all operations of P05-P08, P13 and all convolutions."),
"P17": ("dense float64 formulas of every layer (`harness/refconv.py`), written from the documentation", "Evaluation mode is exact; training mode is compared with batch statistics and drop rate 0, then with dropout entry by entry."),
"P18": ("compositions of the P17 reference formulas with the module's own parameters", "Two calls, an edited structure in between, and train/eval switching, because models keep caches."),
"P19": ("validity predicates; exact binomial tails at 1e-11 over repeated draws of small structures", "The distribution sub-check enumerates every possible edge and pair of edges."),
"P20": ("equality of two executions, in the same process and in fresh processes with another hash seed", "Different amounts of work are done with Python's, NumPy's and torch's generators before seeding."),
"P21": ("per-class counts and disjointness; fairness by binomial tails", "Labels of any integers and containers; ratios compared with floor(n*r) with one-ulp tolerance on the product."),
"P22": ("the set of interactions; the masks and ratings of every user", "Users without items, items interacted with by everyone (negative sampling must refuse rather than loop)."),
"P23": ("multisets of edges; inversion of the returned maps", "Labels whose text order differs from numeric order are included."),
"P24": ("plain-Python definitions on the ranking (`harness/refmetric.py`)", "Scores are distinct, so that the ranking is unique. Known finding: see below."),
"P25": ("plain-Python definitions", "Minus infinity masks only irrelevant items, as the trainer does; users without relevant items score 0."),
"P26": ("counting", "Includes predicted classes that never occur as labels and vice versa."),
"P27": ("the metric functions applied to the concatenation of the epoch's batches", "History of interleaved validation and test batches, repeated closing, mutation of earlier results."),
"P28": ("float64 formulas, gradients by the analytic derivative, binomial tails for dropout", ""),
"P29": ("NumPy/SciPy conversions and formulas; contents written by the harness", "Sparse matrices with duplicate and explicit-zero entries, non-canonical CSR, Fortran order, views."),
"P30": ("a model of the file system and of a scripted fake network (`harness/fakenet.py`)", "Faults: HTTP errors, connection errors before or in the middle of the body, truncation, corruption, existing good/bad files, files in the legacy cache; all paths are inside a scratch home directory, and `requests.get` is replaced, so nothing can leave the sandbox."),
"P31": ("a scripted task: the validation score is a function of the epoch and of the trial's parameters, so the best (trial, epoch) and its parameters are known", "Scores may tie, repeat, be NaN-free and run in either direction; the saved model, the reported best value, the structure and the test results are compared."),
"P32": ("geometry: positions, counts, colours, sizes, widths and texts of the matplotlib artists; inverse maps for the projection", "Layout statements are about averages over edges and non-edges of well-separated components; drawing is checked on the Agg backend."),
"P33": ("a reference model that sees only the valid requests", "Each bad item is hidden among good ones at a random place, so that a non-atomic edit shows. Known finding: see below."),
"P34": ("central differences of the float64 reference along random directions; with a drop rate, the delivered matrix itself (identity features)", "Cases on a kink of an activation (within 2e-5, or where the two one-sided derivatives differ) are skipped and labelled. Loss gradients are compared in closed form by P28."),
"P35": ("a fixed table (harness/datasets.json) of items, numbers, file names and checksums; the generated file contents", "The table was made once from the reviewed release by tools/mkdatasets.py, it is never regenerated by a check. The check puts the checksum of its generated file into the documented `_content` table of the instance after comparing the declared one. Where a class and its docstring disagree and the class is right (BlogCatalog and Flickr num_edges count undirected edges, Github num_classes, CocitationCiteseer num_vertices, News20 dim_features, TencentBiGraph num_edges) the table holds the class's number; Facebook's was wrong in the class and is repaired."),
"P36": ("a table of 98 pairs of requests, each a wrong one and the same one made right", "The right request is asked before and after, so a function that refuses everything is seen too. Wrong names are hidden among right ones."),
"P37": ("the text each stream and file must hold, kept by the harness", "Standard output is replaced by a string stream during a case. Redirecting twice to the same file is not generated (what the file should then hold is not documented)."),
}
out = []
w = out.append
w("""# Design

Everything here is property-based testing and fuzzing: each of the 37 properties is an executable check over generated
inputs, histories, fault scripts or configurations, driven by Hypothesis (structured generators, shrinking), against an
explicit oracle: a reference model, a dense float64 definition, a round trip, a metamorphic relation, or an exact
statistical bound. No property is listed as not applicable.

## How a check works

* `check.sh PID quick|thorough` runs `run.py`, which imports `dhg` from `/repo`'s working tree (pure Python; nothing to
  build; bytecode caches are disabled so that no stale code can be used), imports `props/pNN.py` and hands it to
  `harness/core.py`.
* A property module has a list of `Sub`s: a Hypothesis strategy producing JSON-able cases and a check function that raises
  on a violation and returns labels; the label "nt" marks a case that is non-trivial by the module's stated rule.
* Cases run in forked workers (8 at most); each worker runs a shard with its own derandomised seed (from VERIF_SEED).
  Every case passes through JSON, so that what is checked is what the replay file holds.
* Each case has a time limit: a call that does not return counts as a violation (a hanging generator is a defect a user
  meets). A failing case is shrunk by Hypothesis within a time budget and the smallest failing case is written to
  `replays/` (git-ignored content); `python run.py PID --replay FILE` runs it again.
* Exit 0: held on everything explored (known findings print KNOWN-FINDING lines). Exit 1: a VIOLATION line. Exit 2: the
  harness itself is broken, which is never reported as a violation.
* `evidence/PID.json` is rewritten by each run: evaluations, distinct non-trivial cases, the label histogram, samples.
* Random behaviour of the library is decided in three ways: (a) containment facts that hold for every draw, (b)
  replays of a fixed seed, (c) frequencies over repeated draws with exact binomial tails at 1e-11 (or 8 standard
  deviations), which bounds the chance of a false alarm per comparison. All draws are seeded from the generated case, so a
  given VERIF_SEED always gives the same verdict.
* Floating-point comparisons use float64 references and tolerances relative to the magnitude of the terms summed;
  weights are generated as short binary fractions, so that merges and sums are exact in float32 where equality is asked.
* Judging behaviour, not text: no check reads the source; private attributes are not touched, apart from what the
  harness needs to observe (e.g. `evaluator` results through the public API only). Edits that keep behaviour stay quiet.

Why this reaches what the tests cannot: the tests sample a handful of fixed inputs, nearly always freshly built
structures with unit weights; the defects found (below) needed histories (edit after read, edit after clone), isolated
vertices, self-loops, several groups, weights, masked items, dtype or container variations, or several epochs.

Tiers: quick runs 1000-7000 cases in 4-30 s; thorough multiplies by 15 or more with 8 shards (2-10 minutes).

## Properties
""")
for p in props:
    i = p["id"]
    m = importlib.import_module("props." + i.lower())
    orc, note = NOTES[i]
    w(f"### {i} {p['title']}\n")
    w(f"*Stated:* {p['statement']}\n")
    w(f"*Generated:* {m.RULE}\n")
    w(f"*Oracle:* {orc}. {note}\n")
    w("*Size (quick / thorough cases):* " + ", ".join(f"{s.name} {s.quick} / {s.n_cases('thorough')}" for s in m.SUBS) + ".\n")
w("## Findings\n")
w("`known_findings.jsonl` lists everything. Recorded, not repaired (each is replayed on every run and printed as KNOWN-FINDING):\n")
fixed = []
for l in open(V + "/known_findings.jsonl"):
    if l.startswith("{"):
        k = json.loads(l); w(f"* {k['property']} `{k['id']}`: {k['what']}.")
    elif l.startswith("fixed:"):
        fixed.append(l.strip())
w(f"\nRepaired by {len(fixed)} `fix:` commits in /repo (each check was confirmed to report the defect on the original tree):\n")
for l in fixed:
    mm = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    w(f"* {mm.group(1)} {mm.group(2)[:10]} {mm.group(3)}")
w("""
### Looked at and deliberately not claimed

* Why the two known findings are not repaired: `retrieval.ap`/`map`/`pr_curve` accept `k` and ignore it, and the documented
  example values depend on that; `Hypergraph(5).add_hyperedges([[0, 10]])` is relied on by an existing test.
* `add_hyperedges_from_bigraph` has the default `U_as_vertex=False` where the text says True (tests use the default).
* A corrupt download raises ValueError, and only HTTP errors are retried, although the message announces another attempt;
  the oracle of P30 accepts either.
* `load_from_txt` strips blank space around lines; arrays with negative strides and `csr_array` are refused by torch.
* UniGAT's unused `atten_dst` and the clamp of scores are taken as they are documented by the code.
* Evaluator markers collide for ratios equal to four decimals; `sample_triplet` needs users with items; generators of
  hypergraphs require at least one hyperedge; float vertex indices and non-positive `num_u` are accepted; `e2v_update`
  takes any number of rows; optuna's log handlers accumulate across tasks; TSNE needs more samples than its perplexity;
  colour lists of a wrong length are not refused; `push_e_strength` has no effect on graphs.
* Two experiment tasks in one process share optuna's global logger; an evaluator tells runs apart by parameters rounded to four
  decimals; `experiment()` with NaN validation scores in every epoch has no best model and raises.
* `ceil(k * ratio)` in metrics and `int(n * ratio)` in splits may be off by one through floating-point rounding (tolerated).
* Devices other than the CPU are not available here; `device=` arguments are only exercised with the CPU.
* The remote contents of the datasets (`dhg/data`) cannot be fetched; what is checked is the download/verification path
  (P30) and the loaders (P29).

### False alarms met while building, and what was done

* P14 kNN: equal distances made the expected set ambiguous; the oracle accepts any neighbour within the k-th distance.
* P20: sequences with little entropy can coincide for two seeds; a difference is only required from 40 bits on.
* P24/P25: tied scores rank in an unspecified order; scores are distinct.
* P32: layouts of components that touch were compared pair by pair; replaced by averages over separated components.
* P33: removing a group or edges that do not exist, and empty lists, are no-ops by documentation and not refusals.

## Seeded changes

Kept in `seeded/`; each passes the repository's 166 tests, and its demonstration fails only with the change. "caught by"
is the property's quick check at seed 1.

| change | property | caught | needs |
|---|---|---|---|""")
res = json.load(open(V + "/tools/seeded_results.json")) if os.path.exists(V + "/tools/seeded_results.json") else {}
for d in sorted(os.listdir(V + "/seeded")):
    mp = f"{V}/seeded/{d}/meta.json"
    if os.path.exists(mp):
        m = json.load(open(mp))
        w(f"| {d} | {m['property']} | {res.get(d, '?')} | {m['needs'].replace('|', '/')} |")
extra = V + "/tools/design_extra.md"
if os.path.exists(extra):
    w("\n" + open(extra).read())
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
