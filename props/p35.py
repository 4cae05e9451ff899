import fcntl
import hashlib
import json
import os
import pickle
import shutil
import tempfile
import warnings
from pathlib import Path
from hypothesis import strategies as st
import numpy as np
import scipy.sparse as sp
import torch
import dhg._global as G
import dhg.data as D
from harness import gen
from harness.core import HarnessError, Sub, require, VERIF
from harness.fakenet import Net
from harness.util import same, raises

PROPERTY = "P35"
RULE = ("a case picks one to three dataset instances (of the same or of different classes, with the default or an own "
        "data root), generated contents for their files, which files are on disk already and which come from the "
        "(stand-in) server, and a sequence of item reads, raw reads and re-creations. Expected items, counts, file names "
        "and checksums come from a fixed table, expected values from the generated contents. Non-trivial: at least two "
        "file items are read.")
TABLE = json.load(open(os.path.join(VERIF, "harness", "datasets.json")))
NAMES = sorted(TABLE)
SCRATCH = os.environ.get("VERIF_SCRATCH")
if not SCRATCH or not str(G.CACHE_ROOT).startswith(SCRATCH):
    raise HarnessError("the cache root is not in the scratch directory")
warnings.simplefilter("ignore")
FORMS = ["list", "array", "csr", "coo", "tensor"]


@st.composite
def cases(draw):
    inst = [dict(cls=draw(st.sampled_from(NAMES)), root=draw(st.sampled_from(["default", "path", "path", "str"])), seed=draw(gen.seeds),
                 form=draw(st.sampled_from(FORMS)), local=draw(st.integers(0, 3))) for _ in range(draw(st.integers(1, 3)))]
    if len(inst) > 1 and draw(st.booleans()):
        inst[1]["cls"] = inst[0]["cls"]
    op = st.tuples(st.sampled_from(["get", "get", "get", "raw", "content", "again", "unknown"]), st.integers(0, len(inst) - 1), st.integers(0, 12)).map(list)
    return dict(inst=inst, ops=draw(st.lists(op, min_size=2, max_size=14)), all=draw(st.booleans()))


def make(kind, name, seed, form):
    """(object stored in the file, raw value, processed value) for an item."""
    rng = np.random.RandomState((seed + sum(map(ord, name)) * 131) % 2 ** 32)
    n, k = rng.randint(2, 6), rng.randint(1, 5)
    if kind in ("float", "norm"):
        M = (rng.randint(0, 4, size=(n, k)) * rng.choice([1, 1, 0.5])).astype(np.float32)
        if rng.uniform() < 0.5:
            M[rng.randint(n)] = 0
        if kind == "float" and rng.uniform() < 0.5:
            M = -M
        stored = {"list": M.tolist(), "array": M.astype(np.float64) if n % 2 else M, "csr": sp.csr_matrix(M), "coo": sp.coo_matrix(M), "tensor": torch.tensor(M)}[form]
        if kind == "norm":
            s = np.abs(M).sum(1, keepdims=True)
            M = np.divide(M, s, out=np.zeros_like(M), where=s != 0)
        return stored, torch.tensor(M)
    if kind in ("long", "bool"):
        v = rng.randint(0, 5 if kind == "long" else 2, size=n + 2)
        stored = v.tolist() if form in ("list", "csr") else v.astype(np.int32) if form == "array" else torch.tensor(v) if form == "tensor" else v
        return stored, torch.tensor(v.astype(np.int64 if kind == "long" else bool))
    if kind == "txt":
        rows = [[i] + rng.randint(0, 900, size=rng.randint(1, 5)).tolist() for i in range(n)]
        return rows, rows
    if name.endswith("dict"):
        obj = {int(i): rng.randint(0, 50, size=rng.randint(1, 4)).tolist() for i in range(n)}
    else:
        obj = [tuple(rng.randint(0, 50, size=rng.randint(1, 4)).tolist()) for _ in range(n)]
    return obj, obj


def blob(kind, stored):
    return "".join(" ".join(map(str, r)) + "\n" for r in stored).encode() if kind == "txt" else pickle.dumps(stored)


def eq(a, b):
    if isinstance(b, torch.Tensor):
        return isinstance(a, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and torch.allclose(a.float(), b.float(), rtol=1e-5, atol=1e-6)
    if sp.issparse(b):
        return sp.issparse(a) and a.format == b.format and (a.toarray() == b.toarray()).all()
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) == type(b) and a == b


class Inst:
    def __init__(self, i, c, box, shared):
        self.c, self.t, self.shared = c, TABLE[c["cls"]], shared
        self.root = None if c["root"] == "default" else Path(box) / ("r%d" % i)
        base = G.DATASETS_ROOT if self.root is None else self.root
        self.dir = base / self.t["dir"]
        # instances on the same directory see the same files
        seed = c["seed"] if self.root is not None else shared.setdefault("seed " + self.t["dir"], c["seed"])
        self.files = {}
        for k, v in self.t["items"].items():
            if isinstance(v, dict):
                stored, val = make(v["kind"], k, seed, c["form"] if self.root is not None else shared.setdefault("form " + self.t["dir"], c["form"]))
                self.files[k] = (blob(v["kind"], stored), stored, val)
        self.fresh()

    def fresh(self):
        C = getattr(D, self.c["cls"])
        self.d = C() if self.root is None else C(self.root if self.c["root"] == "path" else str(self.root))
        for k, v in self.t["items"].items():
            if isinstance(v, dict):
                up = self.d._content[k]["upon"]
                require(len(up) == 1, "%s[%s] is made of %d files", self.c["cls"], k, len(up))
                mine = self.shared.setdefault("md5 %s %s" % (self.c["cls"], k), {v["md5"]})
                require(up[0]["md5"] in mine, "%s[%s] accepts a file with checksum %s, released is %s", self.c["cls"], k, up[0]["md5"], v["md5"])
                up[0]["md5"] = hashlib.md5(self.files[k][0]).hexdigest()
                mine.add(up[0]["md5"])
        self.read = set()


def check(c):
    """Sessions in the common cache root take turns (several worker processes share the scratch home)."""
    if all(i["root"] != "default" for i in c["inst"]):
        return session(c)
    with open(os.path.join(SCRATCH, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return session(c)


def session(c):
    box = tempfile.mkdtemp(dir=SCRATCH)
    shared, labels, nfile = {}, set(), set()
    try:
        with Net() as net:
            insts = [Inst(i, x, box, shared) for i, x in enumerate(c["inst"])]
            for s in insts:
                # several instances without a directory of their own share server files: serve what this instance holds
                for j, (k, v) in enumerate((k, v) for k, v in s.t["items"].items() if isinstance(v, dict)):
                    if s.c["local"] and j % 4 < s.c["local"]:
                        s.dir.mkdir(parents=True, exist_ok=True)
                        (s.dir / v["file"]).write_bytes(s.files[k][0])
            same(net.log, [], "requests made at construction")
            ops = [o for o in c["ops"]]
            if c["all"]:
                ops += [["get", 0, j] for j in range(len(insts[0].t["items"]))]
            for op, i, j in ops:
                s = insts[i]
                cls, keys = s.c["cls"], list(s.t["items"])
                key = keys[j % len(keys)]
                v = s.t["items"][key]
                if op == "content":
                    same(list(s.d.content), keys, f"items of {cls}")
                    continue
                if op == "unknown":
                    raises(lambda: s.d["no such item"], f"an unknown item of {cls}")
                    continue
                if op == "again":
                    s.fresh()
                    continue
                nlog = len(net.log)
                same(bool(s.d.needs_to_load(key)), isinstance(v, dict), f"needs_to_load({key}) of {cls}")
                if isinstance(v, dict):
                    url = G.REMOTE_DATASETS_ROOT + s.t["dir"] + "/" + v["file"]
                    net.script.clear()
                    net.serve(url, ["ok", s.files[key][0]])
                    was = (s.dir / v["file"]).exists()
                got = s.d[key] if op == "get" else s.d.raw(key)
                if not isinstance(v, dict):
                    require(type(got) is int and got == v, "%s[%s] is %r, documented is %r", cls, key, got, v)
                    same(len(net.log), nlog, "requests for a number")
                    continue
                want = s.files[key][2] if op == "get" else s.files[key][1]
                require(eq(got, want), "%s%s[%s] is %r, expected %r", "raw " if op == "raw" else "", cls, key, got, want)
                same(net.log[nlog:], [] if was else [url], f"requests for {cls}[{key}] ({'present' if was else 'absent'} on disk)")
                require((s.dir / v["file"]).read_bytes() == s.files[key][0], "the file of %s[%s] is not in %s", cls, key, s.dir)
                nfile.add((i, key))
                labels.add(v["kind"])
        return labels | ({"nt"} if len(nfile) >= 2 else set())
    finally:
        shutil.rmtree(box, ignore_errors=True)
        if str(G.DATASETS_ROOT).startswith(SCRATCH) and any(i["root"] == "default" for i in c["inst"]):
            shutil.rmtree(G.DATASETS_ROOT, ignore_errors=True)


def icases():
    return st.sampled_from(NAMES).map(lambda n: dict(cls=n))


def check_table(c):
    """Every class, with all its items."""
    check(dict(inst=[dict(cls=c["cls"], root="path", seed=5, form="csr", local=0)], ops=[["content", 0, 0]], all=True))
    r = repr(getattr(D, c["cls"])())
    for k in TABLE[c["cls"]]["items"]:
        require(k in r, "the summary of %s does not list %s: %s", c["cls"], k, r)
    return ["nt"]


SUBS = [Sub("sessions", cases, check, quick=900, shards=6),
        Sub("classes", icases, check_table, quick=40, shards=1, examples=[dict(cls=n) for n in NAMES])]
