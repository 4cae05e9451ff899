"""P31: the experiment runner keeps, tests and saves the best (trial, epoch).

The objective is scripted: the only trainable number of the model counts the optimiser steps, so
the parameters that survive tell from which trial and epoch they are."""
import copy
import logging
import os
import shutil
import tempfile
import warnings
from pathlib import Path
import optuna
import numpy as np
import torch
import torch.nn as nn
from hypothesis import strategies as st
import dhg
import dhg.experiments as ex
import dhg.metrics as dm
from dhg.structure.base import load_structure
from dhg.utils import UserItemDataset
from harness import gen
from harness.core import HarnessError, Sub, require
from harness.util import near, raises, same

PROPERTY = "P31"
RULE = ("a case is a table of predictions per trial and epoch (1 to 24 trials, 1 to 60 epochs), labels, masks, direction, kind of task, "
        "metric and validation index, with or without a structure built per trial, one or two runs on the same task; or user-item "
        "interactions with per-epoch embeddings and batch sizes; or a real model trained on twin data that differ outside the mask. "
        "Non-trivial: at least two (trial, epoch) pairs with different scores, or twins that differ.")
SCRATCH = os.environ.get("VERIF_SCRATCH")
if not SCRATCH or not os.path.isdir(SCRATCH):
    raise HarnessError("no scratch directory")
optuna.logging.disable_default_handler()
warnings.simplefilter("ignore")
CPU = torch.device("cpu")


class Work:
    """A scratch work root; on leaving, the handlers that the tasks added to the optuna logger are closed."""
    def __enter__(self):
        self.log = optuna.logging.get_logger("optuna")
        self.before = list(self.log.handlers)
        self.dir = tempfile.mkdtemp(prefix="exp-", dir=SCRATCH)
        return self.dir

    def __exit__(self, *a):
        for h in list(self.log.handlers):
            if h not in self.before:
                self.log.removeHandler(h)
                h.close()
        shutil.rmtree(self.dir)


class Steps:
    """A scheduler that only counts."""
    def __init__(self):
        self.n = 0

    def step(self):
        self.n += 1


class Scripted(nn.Module):
    """Predicts class table[trial][epoch][v] + (number of edges of the structure)."""
    def __init__(self, c, trial, width, rec):
        super().__init__()
        self.c, self.rec = c, rec
        self.p = nn.Parameter(torch.zeros(1))
        self.pad = nn.Parameter(torch.zeros(width))
        self.register_buffer("trial", torch.tensor(trial))
        self.register_buffer("calls", torch.tensor(0))

    def __deepcopy__(self, memo):
        new = Scripted(self.c, int(self.trial), len(self.pad), self.rec)
        new.load_state_dict(copy.deepcopy(self.state_dict()))
        new.train(self.training)
        return new

    def epoch(self):
        return round(float(self.p)) - 1

    def forward(self, X, S):
        self.rec.append((self.training, torch.is_grad_enabled(), int(self.trial), self.epoch()))
        row = pred(self.c, int(self.trial), max(self.epoch(), 0), S.num_e)
        out = nn.functional.one_hot(torch.tensor(row), self.c["classes"]).float()
        return out + (self.p - self.p.detach())


def pred(c, t, e, ne):
    return [(x + ne) % c["classes"] for x in c["table"][t][e]]


def accuracy(y, p):
    return sum(a == b for a, b in zip(y, p)) / len(y)


def macro_f1(y, p):
    cs = sorted(set(y) | set(p))
    tot = 0
    for k in cs:
        tp = sum(a == k == b for a, b in zip(y, p))
        n = sum(a == k for a in y) + sum(b == k for b in p)
        tot += 2 * tp / n if n else 0
    return tot / len(cs)


@st.composite
def select_case(draw, length=0.1):
    n = draw(st.integers(2, 6))
    k = draw(st.integers(2, 3))
    E = draw(st.integers(1, 5))
    T = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 7, 9, 12]))
    long = False
    if length == 1 or length and draw(st.integers(0, 9)) == 0:    # a long run
        T, E, long = draw(st.integers(1, 3)), draw(st.integers(6, 60)), True
    masks = []
    for _ in range(3):
        m = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        if not any(m):
            m[draw(st.integers(0, n - 1))] = True
        masks.append(m)
    cls = st.integers(0, k - 1)
    builder = draw(st.booleans())
    kind = draw(st.sampled_from(["graph", "hypergraph", "base"]))
    stru = [draw(gen.simple_pairs(n, max_size=4, min_size=1)) for _ in range(T if builder else 1)]
    labels = draw(st.lists(cls, min_size=n, max_size=n))
    if long:                                            # on many vertices: scores that differ little from epoch to epoch
        rng = np.random.default_rng(draw(st.integers(0, 1 << 30)))
        n = draw(st.sampled_from([n, 60, 400]))
        labels = rng.integers(0, k, n).tolist()
        masks = [(rng.random(n) < 0.5).tolist() for _ in range(3)]
        for m in masks:
            m[0] = True
        base = draw(st.sampled_from([0.5, 0.9]))
        table = [[np.where(rng.random(n) < base, labels, rng.integers(0, k, n)).tolist() for _ in range(E)] for _ in range(T)]
    else:
        table = [[draw(st.lists(cls, min_size=n, max_size=n)) for _ in range(E)] for _ in range(T)]
    return dict(n=n, classes=k, table=table, labels=labels, dir2=draw(st.sampled_from([None, "maximize", "minimize"])), masks=masks, builder=builder, kind=kind, stru=stru,
                dir=draw(st.sampled_from(["maximize", "minimize"])), metric=draw(st.sampled_from(["accuracy", "f1_score"])),
                pos=draw(st.integers(0, 1)), sched=draw(st.booleans()), again=draw(st.sampled_from([0, 0, 1, 2, 3])),
                seed=draw(st.integers(0, 99)), shift=draw(st.sampled_from([0, 0, 0, 0.5, 1.0, 2.5, 1 / 3])), cm=draw(st.integers(0, 3)) == 0,
                root=draw(st.sampled_from(["there", "there", "new", "str", "unnamed"])))


TASKS = {"graph": ex.GraphVertexClassificationTask, "hypergraph": ex.HypergraphVertexClassificationTask, "base": ex.VertexClassificationTask}


def structure(c, t):
    es = [tuple(e) for e in c["stru"][t if c["builder"] else 0]]
    return dhg.Graph(c["n"], es) if c["kind"] != "hypergraph" else dhg.Hypergraph(c["n"], es)


class Watch:
    """Wraps an evaluator and records what it is given; validation scores may be lowered, below zero as well."""
    def __init__(self, ev, shift=0):
        self.ev, self.seen, self.shift = ev, [], shift

    def __getattr__(self, name):
        f = getattr(self.ev, name)

        def call(*a):
            self.seen.append((name, [x.clone() for x in a]))
            return f(*a) - self.shift if name == "validate" else f(*a)
        return call


def check_select(c):
    n, E = c["n"], len(c["table"][0])
    rec, scheds, widths = [], {}, {}
    other = "f1_score" if c["metric"] == "accuracy" else "accuracy"
    full = lambda m: {"f1_score": {"average": "macro"}} if m == "f1_score" else m
    cfg = [full(c["metric"]), full(other)]
    cfg = (cfg if c["pos"] == 0 else cfg[::-1]) + (["confusion_matrix"] if c["cm"] else [])
    ev = Watch(dm.VertexClassificationEvaluator(cfg, c["pos"]), c["shift"])
    y = torch.tensor(c["labels"])
    tm, vm, sm = (torch.tensor(m) for m in c["masks"])
    data = dict(features=torch.arange(n * 2.).view(n, 2), labels=y, train_mask=tm, val_mask=vm, test_mask=sm)
    if not c["builder"]:
        data["structure"] = structure(c, 0)
    keep = {k: v.clone() for k, v in data.items() if k != "structure"}

    def model_builder(trial):
        w = trial.suggest_int("width", 1, 40)
        widths.setdefault(trial.number, []).append(w)
        return Scripted(c, trial.number, w, rec)

    def criterion(out, target):
        same(target.tolist(), [c["labels"][i] for i in range(n) if c["masks"][0][i]], "labels given to the loss")
        same(len(out), sum(c["masks"][0]), "rows given to the loss")
        return -out.mean()

    def train_builder(trial, model):
        r = dict(optimizer=torch.optim.SGD(model.parameters(), lr=1.0), criterion=criterion)
        if c["sched"]:
            r["scheduler"] = scheds[trial.number] = Steps()
        return r

    sb = (lambda trial: structure(c, trial.number)) if c["builder"] else None
    metric = accuracy if c["metric"] == "accuracy" else macro_f1
    pick = lambda m, seq: [x for x, b in zip(seq, m) if b]
    labels = set()
    with Work() as root:
        dhg.random.set_seed(c["seed"])
        kw = dict(structure_builder=sb) if c["builder"] else {}
        if c["root"] == "new":
            root = os.path.join(root, "new")
        elif c["root"] == "there":
            root = Path(root)
        if c["root"] != "unnamed":
            kw["study_name"] = "s"
        task = TASKS[c["kind"]](root, data, model_builder, train_builder, ev, CPU, **kw)
        same(len(os.listdir(root)), 1, "studies in the work root")
        study = os.listdir(root)[0] if c["root"] == "unnamed" else "s"
        rounds = [len(c["table"])] + ([min(c["again"], len(c["table"]))] if c["again"] else [])
        for r, T in enumerate(rounds):
            rec.clear(), scheds.clear(), widths.clear(), ev.seen.clear()
            goal = c["dir2"] if r and c["dir2"] else c["dir"]            # a second run may look the other way
            better = max if goal == "maximize" else min
            task.run(E, T, goal)
            trials = task.study.trials
            same([t.number for t in trials], list(range(T)), "trials run")
            score = [[metric(pick(c["masks"][1], c["labels"]), pick(c["masks"][1], pred(c, t, e, structure(c, t).num_e))) - c["shift"]
                      for e in range(E)] for t in range(T)]
            done = [t for t in trials if t.state == optuna.trial.TrialState.COMPLETE]
            require(done and len(done) >= min(T, 5), "only %d of %d trials completed", len(done), T)
            for t in done:
                near(t.value, better(score[t.number]), f"value of trial {t.number} with validation scores {score[t.number]}")
                same(sorted(t.intermediate_values), list(range(E)), "epochs reported")
            for t in trials:
                for e, v in t.intermediate_values.items():
                    near(v, score[t.number][e], f"score reported for trial {t.number}, epoch {e}")
                if t.state == optuna.trial.TrialState.COMPLETE and c["sched"]:
                    same(scheds[t.number].n, E, "scheduler steps")
            top = better(better(score[t.number]) for t in done)
            near(task.best_trial.value, top, "value of the best trial")
            b = task.best_trial.number
            state = task.best_model.state_dict()
            same(int(state["trial"]), b, "trial of the best model")
            e = task.best_model.epoch()
            require(0 <= e < E, "the best model is from epoch %s of %d", e, E)
            near(score[b][e], top, f"score of the kept parameters (trial {b}, epoch {e}; scores {score})")
            same(len(task.best_model.pad), task.best_trial.params["width"], "hyper-parameter of the best model")
            G = structure(c, b)
            same(task.best_structure.e, G.e, "best structure")
            # files
            cache = Path(root) / study / "cache"
            same(sorted(p.name for p in cache.iterdir()), [f"{b}_model.pth", f"{b}_structure.dhg"], "files kept")
            saved = torch.load(cache / f"{b}_model.pth")
            same({k: v.tolist() for k, v in saved.items()}, {k: v.tolist() for k, v in state.items()}, "saved model")
            same(load_structure(cache / f"{b}_structure.dhg").e, G.e, "saved structure")
            # the test inside run() is that of the best model
            final = pred(c, b, e, G.num_e)
            require(ev.seen and ev.seen[-1][0] == "test", "run() does not end with a test")
            for name, (a, p) in ev.seen:
                m = c["masks"][1] if name == "validate" else c["masks"][2]
                same(a.tolist(), pick(m, c["labels"]), f"labels given to {name}()")
            same(ev.seen[-1][1][1].argmax(1).tolist(), pick(c["masks"][2], final), "predictions tested")
            want = {"accuracy": accuracy(pick(c["masks"][2], c["labels"]), pick(c["masks"][2], final)),
                    "f1_score -> average@macro": macro_f1(pick(c["masks"][2], c["labels"]), pick(c["masks"][2], final))}
            text = (Path(root) / study / "log.txt").read_text()
            tail = text.split("Best trial:")[-1]
            require("%.3f" % task.best_trial.value in tail, "the best value is not in the log")
            said = lambda key, x: any(key in line and x in line.split(key)[1] for line in tail.splitlines())
            require(said("width", str(task.best_trial.params["width"])), "the parameter of the best trial is not in the log")
            for k in ("accuracy", "f1_score -> average@macro"):
                require(said(k, "%.3f" % want[k]), "the test result of %s is not in the log: %s", k, tail)
            for t in trials:
                require(f"Trial {t.number} " in text, "trial %d is not in the log", t.number)
            res = task.test()
            if c["cm"]:
                a, p = pick(c["masks"][2], c["labels"]), pick(c["masks"][2], final)
                ks = sorted(set(a) | set(p))
                near(res.pop("confusion_matrix"), [[sum(x == i and y == j for x, y in zip(a, p)) for j in ks] for i in ks], "confusion matrix")
                require("confusion_matrix" in tail, "the confusion matrix is not in the log")
                labels.add("confusion matrix")
            same(sorted(res), sorted(want), "names of the test results")
            for k in want:
                near(res[k], want[k], f"test result {k}")
            # a test of given data and model uses them
            d2 = dict(features=data["features"], structure=structure(c, 0), labels=(y + 1) % c["classes"], test_mask=vm)
            m2 = Scripted(c, 0, 1, rec)
            with torch.no_grad():
                m2.p += E
            res = task.test(d2, m2)
            near(res["accuracy"], accuracy([(a + 1) % c["classes"] for a in pick(c["masks"][1], c["labels"])],
                 pick(c["masks"][1], pred(c, 0, E - 1, structure(c, 0).num_e))), "test of given data and model")
            for tr, gr, t, ep in rec:
                same(tr, gr, "training mode only while training, gradients only then")
            same({k: v.tolist() for k, v in data.items() if k in keep}, {k: v.tolist() for k, v in keep.items()}, "input data after the run")
            flat = {s for r in score for s in r}
            if len(flat) > 1:
                labels |= {"nt", c["dir"], c["kind"]}
            if score[b][E - 1] != top:
                labels.add("best is not the last epoch")
            if b != T - 1:
                labels.add("best is not the last trial")
            if len(done) < T:
                labels.add("pruned")
        if len(rounds) > 1:
            labels.add("second run")
        if c["builder"]:
            labels.add("structure per trial")
    return labels


# ---------------------------------------------------------------- many trials
@st.composite
def many_case(draw):
    """10 to 24 trials of one epoch; an early trial is the only perfect one, so its number is a prefix of others."""
    c = draw(select_case(0))
    T, n = draw(st.integers(10, 24)), c["n"]
    best = draw(st.integers(0, 3))
    cls = st.integers(0, c["classes"] - 1)
    c["stru"] = c["stru"][:1]
    c["builder"], c["again"] = False, 0
    ne = structure(c, 0).num_e
    good = [(x - ne) % c["classes"] for x in c["labels"]]
    off = draw(st.lists(st.integers(1, c["classes"] - 1), min_size=n, max_size=n))
    c["table"] = [[good] if t == best else [[(x + d) % c["classes"] for x, d in zip(good, off)] if t % 2 else draw(st.lists(cls, min_size=n, max_size=n))] for t in range(T)]
    if c["dir"] == "minimize":
        c["table"][best] = [[(x + 1) % c["classes"] for x in good]]
    return c


# ---------------------------------------------------------------- recommender
@st.composite
def rec_case(draw):
    nu, ni = draw(st.integers(1, 4)), draw(st.integers(2, 6))
    T, E = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    train, test = [], []
    for u in range(nu):
        items = draw(st.permutations(range(ni)))
        a = draw(st.integers(1, ni - 1))
        b = draw(st.integers(1, ni - a))
        train += [[u, i] for i in items[:a]]
        test += [[u, i] for i in items[a:a + b]]
    # the rating of (u, i) in (trial, epoch): a permutation of the items, so that there are no ties
    table = [[[draw(st.permutations(range(ni))) for _ in range(nu)] for _ in range(E)] for _ in range(T)]
    return dict(nu=nu, ni=ni, train=train, test=test, table=table, bs=draw(st.integers(1, 5)), tbs=draw(st.integers(1, 5)),
                stru=draw(st.sampled_from(["none", "fixed", "built"])), dir=draw(st.sampled_from(["maximize", "maximize", "minimize"])),
                metric=draw(st.sampled_from(["recall", "ndcg", "precision"])), k=draw(st.integers(1, 4)), drop=draw(st.booleans()), given=draw(st.booleans()))


class ScriptedRec(nn.Module):
    def __init__(self, c, trial, rec):
        super().__init__()
        self.c, self.rec = c, rec
        self.p = nn.Parameter(torch.zeros(1))
        self.register_buffer("trial", torch.tensor(trial))

    def __deepcopy__(self, memo):
        new = ScriptedRec(self.c, int(self.trial), self.rec)
        new.load_state_dict(copy.deepcopy(self.state_dict()))
        return new

    def epoch(self):
        nb = -(-len(self.c["train"]) // self.c["bs"])
        return round(float(self.p)) // nb - 1

    def forward(self, *S):
        e = max(self.epoch(), 0)
        self.rec.append((self.training, torch.is_grad_enabled(), S[0].num_e if S else None))
        # ratings = U I^T with I the identity
        return torch.tensor(self.c["table"][int(self.trial)][e]).float(), torch.eye(self.c["ni"]) + (self.p - self.p.detach())


def check_rec(c):
    nu, ni, T, E = c["nu"], c["ni"], len(c["table"]), len(c["table"][0])
    rec, triplets = [], []
    pairs = lambda es: [tuple(e) for e in es]
    tr = UserItemDataset(nu, ni, pairs(c["train"]))
    te = UserItemDataset(nu, ni, pairs(c["test"]), train_user_item_list=pairs(c["train"]), phase="test")
    data = dict(train_loader=torch.utils.data.DataLoader(tr, c["bs"], shuffle=True),
                test_loader=torch.utils.data.DataLoader(te, c["tbs"], shuffle=False))

    def stru(t):
        return dhg.BiGraph(nu, ni, pairs(c["train"][:t + 1]))
    if c["stru"] == "fixed":
        data["structure"] = stru(0)
    model_builder = lambda trial: ScriptedRec(c, trial.number, rec)

    class Loss(nn.Module):
        def forward(self, eu, ei, users, pos, neg, model):
            require(isinstance(model, ScriptedRec), "the model is not given to the loss")
            triplets.extend(zip(users.tolist(), pos.tolist(), neg.tolist()))
            return -ei.mean()

    train_builder = lambda trial, model: dict(optimizer=torch.optim.SGD(model.parameters(), lr=1.0), criterion=Loss())
    ev = Watch(dm.UserItemRecommenderEvaluator([{c["metric"]: {"k": c["k"]}}, {"recall": {"k": 1}}] if (c["metric"], c["k"]) != ("recall", 1)
                                               else [{"recall": {"k": 1}}]))
    testitems = [{i for a, i in c["test"] if a == u} for u in range(nu)]
    trainitems = [{i for a, i in c["train"] if a == u} for u in range(nu)]

    def ref(t, e):
        yt = torch.zeros(nu, ni)
        yp = torch.tensor(c["table"][t][e]).float()
        for u in range(nu):
            yt[u, list(testitems[u])] = 1
            yp[u, list(trainitems[u])] = -1e6
        f = {"recall": dm.recommender.recall, "ndcg": dm.recommender.ndcg, "precision": dm.recommender.precision}
        # what a user sees is the mean over batches of users, weighted by their size: the mean over users
        return f[c["metric"]](yt, yp, k=c["k"]), f["recall"](yt, yp, k=1)

    with Work() as root:
        kw = dict(structure_builder=lambda trial: stru(trial.number)) if c["stru"] == "built" else {}
        task = ex.UserItemRecommenderTask(root, data, model_builder, train_builder, ev, CPU, study_name="r", **kw)
        task.run(E, T, c["dir"])
        score = [[ref(t, e)[0] for e in range(E)] for t in range(T)]
        better = max if c["dir"] == "maximize" else min
        for t in task.study.trials:
            for e, v in t.intermediate_values.items():
                near(v, score[t.number][e], f"validation of trial {t.number}, epoch {e}", rtol=1e-4, atol=1e-4)
            near(t.value, better(score[t.number]), f"value of trial {t.number}", rtol=1e-4, atol=1e-4)
        b, e = task.best_trial.number, task.best_model.epoch()
        same(int(task.best_model.trial), b, "trial of the best model")
        require(0 <= e < E, "the best model is from epoch %s of %d", e, E)
        top = better(x for r in score for x in r)
        near(score[b][e], top, f"score of the kept parameters (trial {b}, epoch {e}; scores {score})", rtol=1e-4, atol=1e-4)
        # every interaction trained once per epoch with an item of the user's and one that is not
        same(sorted((u, i) for u, i, _ in triplets), sorted(pairs(c["train"]) * (T * E)), "interactions trained")
        for u, i, j in triplets:
            require(j not in trainitems[u], "negative item %s of user %s is one of the user's", j, u)
        res = task.test()
        names = list(res)
        near(res[names[0]], ref(b, e)[0], "test result", rtol=1e-4, atol=1e-4)
        near(res[names[-1]], ref(b, e)[1], "test result of the second metric", rtol=1e-4, atol=1e-4)
        # a test of given data and model uses them
        if c["given"]:
            n0, nr = len(ev.seen), len(rec)
            m2 = ScriptedRec(c, 0, rec)
            d2 = dict(test_loader=torch.utils.data.DataLoader(te, c["tbs"], shuffle=False))
            if c["stru"] != "none":
                d2["structure"] = stru(T - 1)
            res = task.test(d2, m2)
            near(res[names[0]], ref(0, 0)[0], "test of given data and model", rtol=1e-4, atol=1e-4)
            require(all(x == ((d2["structure"].num_e) if c["stru"] != "none" else None) for _, _, x in rec[nr:]) and len(rec) > nr, "structure given to the test")
            del ev.seen[n0:], rec[nr:]
        # all users once, in every evaluation
        for kind in ("validate", "test"):
            rows = [r for nme, a in ev.seen if nme == f"{kind}_add_batch" for r in zip(*[x.tolist() for x in a])]
            times = T * E if kind == "validate" else 2
            same(len(rows), nu * times, f"rows given to {kind}")
            for q, (yt, yp) in enumerate(rows):
                u = q % nu
                same({i for i in range(ni) if yt[i]}, testitems[u], f"relevant items of user {u}")
                same({i for i in range(ni) if yp[i] == -float("inf")}, trainitems[u], f"masked items of user {u}")
        for a, g, ne in rec:
            same(a, g, "training mode only while training")
            same(ne is None, c["stru"] == "none", "structure given to the model")
        files = sorted(p.name for p in (Path(root) / "r" / "cache").iterdir())
        if c["stru"] == "none":
            same(files, [f"{b}_model.pth"], "files kept")
            require(task.best_structure is None, "a structure out of nowhere")
        else:
            same(files, [f"{b}_model.pth", f"{b}_structure.dhg"], "files kept")
            same(sorted(task.best_structure.e[0]), sorted(stru(b if c["stru"] == "built" else 0).e[0]), "best structure")
            same(rec[-1][2], task.best_structure.num_e, "structure tested")
    out = {c["dir"], "structure " + c["stru"]}
    if len({x for r in score for x in r}) > 1:
        out.add("nt")
    if c["tbs"] < nu:
        out.add("several batches")
    return out


# ---------------------------------------------------------------- isolation
@st.composite
def iso_case(draw):
    n = draw(st.integers(3, 8))
    m = draw(st.lists(st.sampled_from("tvs-"), min_size=n, max_size=n))
    m[0], m[1], m[2] = "t", "v", "s"
    m = draw(st.permutations(m))
    cls = st.integers(0, 2)
    return dict(n=n, mask=m, labels=draw(st.lists(cls, min_size=n, max_size=n)), other=draw(st.lists(cls, min_size=n, max_size=n)),
                edges=draw(gen.simple_pairs(n, max_size=8, min_size=1)), epochs=draw(st.integers(1, 4)), seed=draw(st.integers(0, 999)),
                model=draw(st.sampled_from(["mlp", "gcn", "hgnn"])), lr=draw(st.sampled_from([0.01, 0.1, 0.5])))


class MLP(nn.Module):
    def __init__(self):
        super().__init__()
        self.f = nn.Sequential(nn.Linear(4, 5), nn.ReLU(), nn.Linear(5, 3))

    def forward(self, X, S):
        return self.f(X)


def check_iso(c):
    n = c["n"]
    mask = {k: torch.tensor([x == k for x in c["mask"]]) for k in "tvs"}
    hg = c["model"] == "hgnn"
    es = [tuple(e) for e in c["edges"]]
    S = dhg.Hypergraph(n, es) if hg else dhg.Graph(n, es)
    X = torch.randn(n, 4, generator=torch.Generator().manual_seed(c["seed"]))
    X2 = torch.randn(n, 4, generator=torch.Generator().manual_seed(c["seed"] + 1))

    def build():
        torch.manual_seed(c["seed"])
        if c["model"] == "mlp":
            return MLP()
        return dhg.models.GCN(4, 5, 3, drop_rate=0) if c["model"] == "gcn" else dhg.models.HGNN(4, 5, 3, drop_rate=0)

    def go(root, X, y):
        data = dict(features=X, structure=S, labels=y, train_mask=mask["t"], val_mask=mask["v"], test_mask=mask["s"])
        cls = ex.HypergraphVertexClassificationTask if hg else ex.GraphVertexClassificationTask
        task = cls(root, data, None, None, dm.VertexClassificationEvaluator(["accuracy"]), CPU, study_name="i")
        model = build()
        opt = torch.optim.Adam(model.parameters(), lr=c["lr"])
        for _ in range(c["epochs"]):
            torch.manual_seed(c["seed"])
            task.train(data, model, opt, nn.CrossEntropyLoss())
        params = {k: v.clone() for k, v in model.state_dict().items()}
        return params, task.validate(data, model), task.test(data, model), model

    y = torch.tensor(c["labels"])
    o = torch.tensor(c["other"])
    with Work() as root:
        params, val, test, model = go(root, X, y)
        # labels outside the training mask do not matter for training
        P, v, t, _ = go(root, X, torch.where(mask["t"], y, o))
        for k in params:
            near(P[k], params[k], f"{k}, trained with other labels outside the training mask", rtol=0, atol=0)
        _, v, _, _ = go(root, X, torch.where(mask["t"] | mask["v"], y, o))
        near(v, val, "validation with other labels outside the masks", atol=0)
        _, _, t, _ = go(root, X, torch.where(mask["t"] | mask["s"], y, o))
        near(t["accuracy"], test["accuracy"], "test with other labels outside the masks", atol=0)
        if c["model"] == "mlp":
            P, v, t, _ = go(root, torch.where(mask["t"][:, None], X, X2), y)
            for k in params:
                near(P[k], params[k], f"{k}, trained with other features outside the training mask", rtol=1e-5, atol=1e-6)
        # training takes place: plain steps by hand give the same parameters
        ref = build()
        opt = torch.optim.Adam(ref.parameters(), lr=c["lr"])
        for _ in range(c["epochs"]):
            ref.train()
            torch.manual_seed(c["seed"])
            opt.zero_grad()
            out = ref(X, S)
            idx = [i for i in range(n) if c["mask"][i] == "t"]
            nn.functional.cross_entropy(out[idx], y[idx]).backward()
            opt.step()
        for k, v in ref.state_dict().items():
            near(params[k], v, f"{k} after {c['epochs']} epochs", rtol=1e-5, atol=1e-6)
        ref.eval()
        with torch.no_grad():
            out = ref(X, S).argmax(1).tolist()
        for k, got in (("v", val), ("s", test["accuracy"])):
            near(got, accuracy([c["labels"][i] for i in range(n) if c["mask"][i] == k], [out[i] for i in range(n) if c["mask"][i] == k]),
                 "accuracy on the mask")
    outside = [i for i in range(n) if c["mask"][i] != "t"]
    return {c["model"]} | ({"nt"} if any(c["labels"][i] != c["other"][i] for i in outside) else set())


# ---------------------------------------------------------------- work roots that cannot be made
@st.composite
def root_case(draw):
    return dict(depth=draw(st.integers(0, 3)), name=draw(st.sampled_from(["a", "b c", "x.y"])), as_str=draw(st.booleans()), kind=draw(st.sampled_from(["graph", "rec"])))


def check_root(c):
    with Work() as root:
        p = Path(root)
        for i in range(c["depth"]):
            p = p / c["name"]
        arg = str(p) if c["as_str"] else p
        data = dict(structure=dhg.Graph(2, [(0, 1)]))
        make = lambda: ex.UserItemRecommenderTask(arg, data, None, None, None, CPU, study_name="s") if c["kind"] == "rec" else \
            ex.GraphVertexClassificationTask(arg, data, None, None, None, CPU, study_name="s")
        if c["depth"] > 1:
            raises(make, "a work root without a parent directory")
            same(os.listdir(root), [], "files left behind")
            return {"nt", "refused"}
        make()
        same(sorted(x.name for x in (p / "s").iterdir()), ["cache", "log.txt"], "files of a new study")
    return {"nt"}


# ---------------------------------------------------------------- reproducible search
@st.composite
def repro_case(draw):
    return dict(seed=draw(st.integers(0, 10 ** 6)), trials=draw(st.integers(2, 6)), dir=draw(st.sampled_from(["maximize", "minimize"])),
                overwrite=draw(st.booleans()))


def check_repro(c):
    def go(root, seed, name):
        dhg.random.set_seed(seed)
        seen = []

        class M(nn.Module):
            def __init__(self, x, t):
                super().__init__()
                self.w = nn.Parameter(torch.tensor(float(x)))

            def forward(self, X, S):
                return torch.cat([X * 0 + self.w, X * 0 + 0.5], 1)

        def mb(trial):
            x, k = trial.suggest_float("x", 0, 1), trial.suggest_categorical("k", ["a", "b", "c"])
            seen.append((trial.number, x, k))
            return M(x, trial.number)
        tb = lambda trial, model: dict(optimizer=torch.optim.SGD(model.parameters(), lr=0.0), criterion=nn.CrossEntropyLoss())
        y = torch.tensor([0, 0, 1])
        on = torch.ones(3, dtype=torch.bool)
        data = dict(features=torch.zeros(3, 1), structure=dhg.Graph(3, [(0, 1)]), labels=y, train_mask=on, val_mask=on, test_mask=on)
        task = ex.GraphVertexClassificationTask(root, data, mb, tb, dm.VertexClassificationEvaluator(["accuracy"]), CPU, study_name=name, overwrite=c["overwrite"])
        task.run(1, c["trials"], c["dir"])
        b = task.best_trial
        near(float(task.best_model.w), b.params["x"], "parameter of the best model")
        same(len({s[0] for s in seen}), c["trials"], "trials")
        best = [(2 if s[1] > 0.5 else 1) / 3 for s in seen[:c["trials"]]]
        near(b.value, (max if c["dir"] == "maximize" else min)(best), "best value")
        return seen[:c["trials"]], float(task.best_model.w)

    with Work() as root:
        root = Path(root)
        keep = root / "b" / "kept.txt"
        a = go(root, c["seed"], "a")
        keep.parent.mkdir()
        keep.write_text("x")
        (root / "other").mkdir()
        (root / "other" / "f").write_text("y")
        b = go(root, c["seed"], "b")
        same(b, a, "trials of two studies under the same seed")
        same(keep.exists(), not c["overwrite"], "file of an existing study of that name")
        same((root / "other" / "f").read_text(), "y", "file of another study")
        require((root / "a" / "log.txt").exists() and any((root / "a" / "cache").iterdir()), "another study is overwritten")
        d = go(root, c["seed"] + 1, "d")
    return {"nt"} | ({"seeds differ"} if d != a else set())


SUBS = [Sub("select", select_case(), check_select, quick=260, thorough=6000), Sub("long", select_case(1), check_select, quick=48, thorough=1200),
        Sub("many", many_case(), check_select, quick=30, thorough=600),
        Sub("recommend", rec_case(), check_rec, quick=160, thorough=4000),
        Sub("isolation", iso_case(), check_iso, quick=160, thorough=4000),
        Sub("roots", root_case(), check_root, quick=30, thorough=200),
        Sub("repeat", repro_case(), check_repro, quick=40, thorough=800)]
