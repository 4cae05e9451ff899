import json
import os
import pickle
import re
import tempfile
from pathlib import Path
from hypothesis import strategies as st
import numpy as np
import scipy.sparse as sp
import torch
import dhg.datapipe as dd
from harness import gen
from harness.core import Sub, require
from harness.util import near, raises, same

PROPERTY = "P29"
RULE = ("a case is an array (0-2 dimensions, empty, integer/float/bool, several dtypes and memory orders) in one of the "
        "accepted containers (nested list, ndarray, CSR/COO matrix with or without duplicate entries, tensor) for the conversions; a feature vector or "
        "matrix with zero rows and a norm order, or one with a target range, for the normalisers; a list of pipes to "
        "compose; and generated contents written to scratch pickle, JSON and text files and read back with generated "
        "keys, types, separators and header lines. Non-trivial: at least two elements (rows, records) of which two differ.")

SCRATCH = os.environ.get("VERIF_SCRATCH") or None
SPARSE = ("csr", "coo", "csrdup", "coodup")
DTYPES = ["int8", "uint8", "int16", "int32", "int64", "float16", "float32", "float64", "bool"]


@st.composite
def conv_cases(draw):
    dt = draw(st.sampled_from(DTYPES))
    kind = draw(st.sampled_from(["list", "array", "fortran", "strided", "tensor", "ttensor", "csr", "coo", "coodup", "csrdup"]))
    nd = 2 if kind in SPARSE + ("ttensor", "fortran") else draw(st.sampled_from([0, 1, 2, 2, 3])) if kind in ("array", "tensor") else draw(st.sampled_from([1, 2]))
    shape = [draw(st.integers(1 if kind in SPARSE + ("list",) else 0, 4)) for _ in range(nd)]
    n = int(np.prod(shape)) if shape else 1
    lo, hi = (0, 1) if dt == "bool" else (0, 200) if dt == "uint8" else (-100, 100)
    v = st.integers(lo, hi)
    if dt.startswith("float"):
        v = st.integers(-400, 400).map(lambda i: i / 16)
    if dt == "int64":
        v = st.one_of(v, st.integers(-2 ** 40, 2 ** 40))
    v = st.one_of(st.just(0), v)
    return dict(dt=dt, kind=kind, shape=shape, vals=draw(st.lists(v, min_size=n, max_size=n)),
                to=draw(st.sampled_from(["float"] if kind in SPARSE else ["float", "bool", "long"])))


@st.composite
def big_conv_cases(draw):
    """The same with hundreds of elements, from a generated seed."""
    c = draw(conv_cases())
    rng = np.random.default_rng(draw(st.integers(0, 1 << 30)))
    c["shape"] = [draw(st.integers(1, 70)) for _ in (c["shape"] or [1])][:2] + c["shape"][2:]
    n, dt = int(np.prod(c["shape"])), c["dt"]
    v = rng.integers(0, 2, n) if dt == "bool" else rng.integers(0, 200, n) if dt == "uint8" else rng.integers(-100, 101, n)
    v = (v * (rng.random(n) < draw(st.sampled_from([0.02, 0.3, 1.0]))))
    c["vals"] = (v / 16 if dt.startswith("float") else v).tolist()
    return c


def container(c):
    a = np.array(c["vals"], dtype=c["dt"]).reshape(c["shape"])
    k = c["kind"]
    if k == "list":
        return a, a.tolist()
    if k == "array":
        return a, a.copy()
    if k == "fortran":
        return a, np.asfortranarray(a)
    if k == "strided":
        big = np.zeros([2 * s for s in c["shape"]], dtype=c["dt"])
        big[tuple(slice(None, None, 2) for _ in c["shape"])] = a
        return a, big[tuple(slice(None, None, 2) for _ in c["shape"])]
    if k == "tensor":
        return a, torch.tensor(a.copy())
    if k == "ttensor":
        return a, torch.tensor(a.T.copy()).t()
    if c["dt"] == "float16":
        a = a.astype("float32")
    if k.endswith("dup"):
        # every entry in two parts, in reversed order, explicit zeros included; the parts add up by definition
        i, j = [x.ravel()[::-1] for x in np.indices(a.shape)]
        v = a[i, j]
        half = np.zeros_like(v) if v.dtype == bool else v // 2 if v.dtype.kind in "iu" else v / 2
        rest = v if v.dtype == bool else v - half
        data, i, j = np.concatenate([half, rest]).astype(a.dtype), np.concatenate([i, i]), np.concatenate([j, j])
        if k == "coodup":
            return a, sp.coo_matrix((data, (i, j)), shape=a.shape)
        o = np.argsort(i, kind="stable")
        return a, sp.csr_matrix((data[o], j[o], np.concatenate([[0], np.cumsum(np.bincount(i, minlength=a.shape[0]))])), shape=a.shape)
    return a, (sp.csr_matrix(a) if k == "csr" else sp.coo_matrix(a))


def snap(x):
    if isinstance(x, torch.Tensor):
        return x.clone()
    if sp.issparse(x):
        return x.copy()
    return json.loads(json.dumps(x)) if isinstance(x, list) else x.copy()


def unchanged(x, s):
    if isinstance(x, torch.Tensor):
        ok = x.dtype == s.dtype and torch.equal(x, s)
    elif sp.issparse(x):
        ok = x.dtype == s.dtype and (x.toarray() == s.toarray()).all()
    elif isinstance(x, list):
        ok = x == s
    else:
        ok = x.dtype == s.dtype and x.shape == s.shape and (x == s).all()
    require(ok, "the input was modified: %s", x)


def check_conv(c):
    a, x = container(c)
    s = snap(x)
    fn = dict(float=dd.to_tensor, bool=dd.to_bool_tensor, long=dd.to_long_tensor)[c["to"]]
    t = fn(x)
    require(isinstance(t, torch.Tensor) and not t.is_sparse, "result is %s", type(t))
    want = dict(float=torch.float32, bool=torch.bool, long=torch.int64)[c["to"]]
    same(t.dtype, want, "dtype of the result")
    ref = a.astype(dict(float=np.float32, bool=bool, long=np.int64)[c["to"]])
    same(tuple(t.shape), ref.shape, "shape of the result")
    require((t.numpy() == ref).all(), "values %s, expected %s", t.tolist(), ref.tolist())
    unchanged(x, s)
    return [c["to"], c["kind"]] + (["nt"] if len(set(c["vals"])) > 1 else [])


num = st.one_of(st.just(0.0), st.integers(-64, 64).map(lambda i: i / 8), st.integers(-2000, 2000).map(float))


@st.composite
def norm_cases(draw):
    r, k = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    rows = [draw(st.one_of(st.just([0.0] * k), st.lists(num, min_size=k, max_size=k), st.lists(num, min_size=k, max_size=k))) for _ in range(r)]
    return dict(x=rows, vec=draw(st.sampled_from([False, False, True])), ord=draw(st.sampled_from([None, "default", 1, 2, 3, 0.5, 1.5, "inf", 4, "-inf", -1, -2, 0])),
                dt=draw(st.sampled_from(["float32", "float32", "float64"])), scale=draw(st.sampled_from([1.0, 1e-6, 1e4])))


@st.composite
def big_matrix(draw, c):
    """Many rows or many columns, some of them zero, from a generated seed."""
    rng = np.random.default_rng(draw(st.integers(0, 1 << 30)))
    r, k = draw(st.sampled_from([(1, 300), (200, 3), (60, 40), (20, 500), (5, 1433)]))
    x = rng.integers(-64, 65, (r, k)) / 8 * (rng.random((r, k)) < draw(st.sampled_from([0.01, 0.3, 1.0])))
    if draw(st.booleans()):
        x = x * rng.random((r, k))
    x[rng.random(r) < 0.1] = 0
    c["x"] = x.tolist()
    return c


def check_norm(c):
    o = {"inf": float("inf"), "-inf": -float("inf")}.get(c["ord"], c["ord"])
    x = torch.tensor(c["x"][0] if c["vec"] else c["x"], dtype=getattr(torch, c["dt"])) * c["scale"]
    s = x.clone()
    y = dd.norm_ft(x) if o == "default" else dd.norm_ft(x, ord=o)
    p = 2 if o in (None, "default") else o
    same(tuple(y.shape), tuple(x.shape), "shape")
    same(y.dtype, x.dtype, "dtype")
    A, Y = np.atleast_2d(x.double().numpy()), np.atleast_2d(y.double().numpy())
    for a, b in zip(A, Y):
        if p == 0:
            nrm = (a != 0).sum()
        elif p < 0 and not a.all():
            nrm = 0.0
        elif p == -float("inf"):
            nrm = np.abs(a).min()
        else:
            nrm = np.abs(a).max() if p == float("inf") else (np.abs(a / max(np.abs(a).max(), 1e-300)) ** p).sum() ** (1 / p) * np.abs(a).max()
        near(b, a / nrm if nrm > 0 else a * 0, f"row {a.tolist()} normalised with ord={o}", rtol=1e-4, atol=1e-6)
    unchanged(x, s)
    raises(lambda: dd.norm_ft(torch.ones(2, 2, 2)), "norm_ft of a 3-D tensor")
    return ["nt"] if len({tuple(r) for r in A.tolist()}) > 1 or c["vec"] else []


@st.composite
def mm_cases(draw):
    r, k = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    const = draw(st.sampled_from([False] * 7 + [True]))
    x = [[draw(num)] * k] * r if const else draw(st.lists(st.lists(num, min_size=k, max_size=k), min_size=r, max_size=r))
    lo = draw(st.integers(-40, 40))
    return dict(x=x, lo=lo / 8, hi=(lo + draw(st.integers(1, 80))) / 8, vec=draw(st.booleans()), dt=draw(st.sampled_from(["float32", "float32", "float64", "int64"])))


def check_mm(c):
    x = torch.tensor(c["x"][0] if c["vec"] else c["x"]).to(getattr(torch, c["dt"]))
    s = x.clone()
    y = dd.min_max_scaler(x, c["lo"], c["hi"])
    same(tuple(y.shape), tuple(x.shape), "shape")
    A = x.double().numpy()
    rng = A.max() - A.min()
    unchanged(x, s)
    raises(lambda: dd.min_max_scaler(x, c["hi"], c["lo"]), "a range whose minimum is above its maximum")
    raises(lambda: dd.min_max_scaler(x, c["lo"], c["lo"]), "an empty range")
    Y = y.double().numpy()
    if rng == 0:
        require(np.isfinite(Y).all() and (Y >= c["lo"] - 1e-6).all() and (Y <= c["hi"] + 1e-6).all() and np.ptp(Y) < 1e-6, "constant features become %s", Y.tolist())
        return ["const"]
    scale = (c["hi"] - c["lo"]) / rng
    tol = 2e-6 * (np.abs(A).max() * scale + abs(c["lo"]) + abs(c["hi"])) + 1e-9
    near(y, c["lo"] + (A - A.min()) * scale, "scaled features", rtol=0, atol=tol)
    return ["nt"]


def pipe(name):
    return {"neg": lambda X: -X, "dbl": lambda X: X * 2, "inc": lambda X: X + 1, "tensor": dd.to_tensor, "norm": dd.norm_ft,
            "mm": lambda X: dd.min_max_scaler(X, -1, 2), "row": lambda X: X[:1] if X.shape[0] > 1 else X, "sq": lambda X: X * X}[name]


@st.composite
def comp_cases(draw):
    r, k = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    x = draw(st.lists(st.lists(num, min_size=k, max_size=k), min_size=r, max_size=r))
    return dict(x=x, pipes=draw(st.lists(st.sampled_from(["neg", "dbl", "inc", "tensor", "norm", "mm", "row", "sq"]), max_size=6)), cut=draw(st.integers(0, 6)))


def check_comp(c):
    calls, fs = [], []
    for i, n in enumerate(c["pipes"]):
        fs.append((lambda i, f: lambda X: (calls.append(i), f(X))[1])(i, pipe(n)))
    x = torch.tensor(c["x"])
    s = x.clone()
    f = dd.compose_pipes(*fs)
    same(calls, [], "pipes run before the composition is called")
    want = x
    for n in c["pipes"]:
        want = pipe(n)(want)
    for _ in range(2):
        calls.clear()
        y = f(x)
        require(torch.equal(y, want) or (y != y).any(), "composition of %s gives %s, in order it is %s", c["pipes"], y.tolist(), want.tolist())
        same(calls, list(range(len(fs))), "order of the pipes")
    unchanged(x, s)
    k = min(c["cut"], len(fs))
    y = dd.compose_pipes(dd.compose_pipes(*fs[:k]), dd.compose_pipes(*fs[k:]))(x)
    require(torch.equal(y, want) or (y != y).any(), "nested composition of %s differs", c["pipes"])
    return ["nt"] if len(set(c["pipes"])) >= 2 else []


text = st.text(alphabet=st.characters(codec="utf-8", exclude_categories=("Cs", "Cc", "Z")), max_size=6)
jsonv = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10 ** 12, 10 ** 12), st.floats(allow_nan=False, allow_infinity=False), text),
                     lambda s: st.one_of(st.lists(s, max_size=4), st.dictionaries(text, s, max_size=4)), max_leaves=10)


@st.composite
def file_cases(draw):
    fmt = draw(st.sampled_from(["pickle", "json"]))
    data = draw(st.one_of(st.dictionaries(text, jsonv, min_size=1, max_size=5), jsonv))
    keys = None
    if fmt == "pickle" and isinstance(data, dict) and data:
        keys = draw(st.one_of(st.none(), st.sampled_from(sorted(data)), st.lists(st.sampled_from(sorted(data)), max_size=4)))
    return dict(fmt=fmt, data=data, keys=keys, arr=draw(st.booleans()), as_str=draw(st.booleans()), indent=draw(st.sampled_from([None, 2])), ascii=draw(st.booleans()))


def deep(o):
    """A pickle-only payload: arrays, tuples and sparse matrices next to the JSON-able one."""
    return {"d": o, "a": np.arange(6).reshape(2, 3), "t": (1, "x"), "s": {3, 4}}


def check_file(c):
    with tempfile.TemporaryDirectory(dir=SCRATCH) as td:
        f = Path(td) / "data.bin"
        arg = str(f) if c["as_str"] else f
        if c["fmt"] == "json":
            f.write_text(json.dumps(c["data"], indent=c["indent"], ensure_ascii=c["ascii"]), encoding="utf-8")
            before = f.read_bytes()
            same(dd.load_from_json(arg), c["data"], "JSON content")
            if isinstance(c["data"], dict):
                got = dd.load_from_json(arg, object_pairs_hook=lambda ps: ("pairs", [k for k, _ in ps]))
                require(isinstance(got, tuple), "the keyword argument object_pairs_hook had no effect: %s", got)
                same(sorted(got[1]), sorted(c["data"]), "JSON content through a keyword argument")
            as_text = lambda o: {k: as_text(v) for k, v in o.items()} if isinstance(o, dict) else [as_text(v) for v in o] if isinstance(o, list) else (
                "int" if type(o) is int else "float" if type(o) is float else o)
            same(dd.load_from_json(arg, parse_int=lambda s: "int", parse_float=lambda s: "float"), as_text(c["data"]), "JSON content with parse_int and parse_float")
        else:
            d = c["data"]
            if c["arr"] and c["keys"] is None:
                with open(f, "wb") as fp:
                    pickle.dump(deep(d), fp)
                got = dd.load_from_pickle(arg)
                same((got["d"], got["a"].tolist(), got["t"], got["s"], list(got)), (d, [[0, 1, 2], [3, 4, 5]], (1, "x"), {3, 4}, ["d", "a", "t", "s"]), "pickled content")
                same(sorted(dd.load_from_pickle(arg, keys=["s", "d"])), ["d", "s"], "requested keys")
                raises(lambda: dd.load_from_pickle(arg, keys="absent"), "an absent key")
                raises(lambda: dd.load_from_pickle(arg, keys=["d", "absent"]), "an absent key")
            else:
                with open(f, "wb") as fp:
                    pickle.dump(d, fp)
                got = dd.load_from_pickle(arg, keys=c["keys"]) if c["keys"] is not None else dd.load_from_pickle(arg)
                want = d if c["keys"] is None else d[c["keys"]] if isinstance(c["keys"], str) else {k: d[k] for k in c["keys"]}
                same(got, want, f"pickled content for keys {c['keys']!r}")
            before = f.read_bytes()
            raises(lambda: dd.load_from_pickle([arg]), "a list of files")
        same(f.read_bytes(), before, "the file's content")
    return [c["fmt"]] + (["nt"] if isinstance(c["data"], (dict, list)) and len(c["data"]) > 1 else [])


SEPS = [(None, [",", " ", "\t"]), (",", [","]), ("\t", ["\t"]), (r"\|", ["|"]), ("::", ["::"]), (r"\s+", [" ", "  ", "\t", " \t"]), (";|,", [";", ","]), (" ", [" "])]


@st.composite
def txt_cases(draw):
    dt = draw(st.sampled_from(["int", "float", "str", "callable", "callable2"]))
    sep, js = draw(st.sampled_from(SEPS))
    if dt in ("int", "callable2"):
        v = st.integers(-10 ** 9, 10 ** 9).map(str)
    elif dt == "float":
        v = st.one_of(st.integers(-999, 999).map(lambda i: str(i / 8)), st.integers(-50, 50).map(str), st.sampled_from(["1e-3", "2E5", "-0.0"]))
    else:
        w = st.text(alphabet=st.characters(codec="utf-8", exclude_categories=("Cs", "Cc", "Z"), exclude_characters=",|:;"), min_size=1, max_size=5)
        w = st.one_of(w, w, w, st.sampled_from(["#", "#a", "//", "%b", "nan", "None", "'x", '"', "\\n", "0", "a#b"]))
        v = st.one_of(w, w, st.just("")) if sep is not None and sep != r"\s+" and not sep.isspace() else w
    rows = []
    for _ in range(draw(st.integers(0, 6))):
        row = draw(st.lists(v, min_size=1, max_size=5))
        rows.append(row)
    n = sum(max(len(r) - 1, 0) for r in rows)
    return dict(dt=dt, sep=sep, rows=rows, js=draw(st.lists(st.sampled_from(js), min_size=n, max_size=n)),
                head=draw(st.lists(st.text(alphabet="ab ,0#", max_size=6), max_size=3)), pad=draw(st.booleans()),
                nl=draw(st.sampled_from(["\n", "\n", "\r\n"])), last=draw(st.booleans()), as_str=draw(st.booleans()))


def check_txt(c):
    cast = {"int": int, "float": float, "str": str, "callable": lambda s: s[::-1] + "!", "callable2": lambda s: int(s) + 1}[c["dt"]]
    dt = c["dt"] if c["dt"] in ("int", "float", "str") else cast
    js, lines = iter(c["js"]), list(c["head"])
    for r in c["rows"]:
        line = r[0]
        for x in r[1:]:
            line += next(js) + x
        lines.append(("  " + line + " ") if c["pad"] else line)
    want = [[cast(x) for x in r] for r in c["rows"]]
    body = c["nl"].join(lines)
    if lines and (c["last"] or lines[-1] == ""):
        body += c["nl"]
    with tempfile.TemporaryDirectory(dir=SCRATCH) as td:
        f = Path(td) / "data.txt"
        with open(f, "w", encoding="utf-8", newline="") as fp:
            fp.write(body)
        arg = str(f) if c["as_str"] else f
        kw = {} if c["sep"] is None else {"sep": c["sep"]}
        if c["head"] or c["last"]:
            kw["ignore_header"] = len(c["head"])
        got = dd.load_from_txt(arg, dt, **kw)
        same(got, want, f"content of {body!r} with {kw}")
        same([[type(x) for x in r] for r in got], [[type(x) for x in r] for r in want], "types")
        raises(lambda: dd.load_from_txt(Path(td) / "absent.txt", dt), "an absent file")
        raises(lambda: dd.load_from_txt(arg, "double"), "an unknown type name")
    return [c["dt"]] + (["nt"] if len(c["rows"]) > 1 and len({tuple(r) for r in c["rows"]}) > 1 else [])


SUBS = [Sub("convert", conv_cases, check_conv, quick=1600), Sub("norm", norm_cases, check_norm, quick=1000),
        Sub("big_convert", big_conv_cases, check_conv, quick=150), Sub("big_norm", lambda: norm_cases().flatmap(big_matrix), check_norm, quick=160),
        Sub("big_minmax", lambda: mm_cases().flatmap(big_matrix), check_mm, quick=60), Sub("minmax", mm_cases, check_mm, quick=1000), Sub("compose", comp_cases, check_comp, quick=600, shards=2),
        Sub("files", file_cases, check_file, quick=600), Sub("text", txt_cases, check_txt, quick=1600)]
