import hashlib
import os
import random
import shutil
import tempfile
import warnings
from pathlib import Path
from hypothesis import strategies as st
import requests
import dhg._global as G
from dhg.data import BaseData
from dhg.utils import check_file, download_and_check
from harness import gen
from harness.core import HarnessError, Sub, require
from harness.fakenet import Crash, Net
from harness.util import raises, same

PROPERTY = "P30"
RULE = ("a case is a file (0 B to 128 KiB around chunk boundaries), its place inside or outside the cache root, its initial state "
        "and that of the legacy cache (absent, valid, truncated, corrupted, empty), and up to four calls, each with scripted "
        "replies of the primary and the backup server (good, truncated, corrupted, empty, HTTP errors, refused connection, "
        "time-out, broken off midway by network error, disk error or crash) and damage to the file in between; or a dataset "
        "of generated items, files, loaders and pipes with a sequence of accesses. Every HTTP request is answered by a "
        "stand-in inside the process, every file is in a scratch home. Non-trivial: a fault occurs before the last call, or "
        "at least two items are accessed.")
SCRATCH = os.environ.get("VERIF_SCRATCH")
if not SCRATCH or not str(G.CACHE_ROOT).startswith(SCRATCH) or Path.home() != Path(SCRATCH):
    raise HarnessError("the cache root is not in the scratch directory")
warnings.simplefilter("ignore")
STATUS = [404, 500, 503, 403, 206, 301]


def content(seed, size):
    return random.Random(seed).randbytes(size)


def bad(data, kind):
    if kind == "empty":
        return b"" if data else b"x"
    if kind == "trunc":
        return data[:-1] if data else b"x"
    if kind == "half":
        return data[:len(data) // 2] if data else b"x"
    if kind == "more":
        return data + b"\0"
    i = len(data) // 2
    return data[:i] + bytes([data[i] ^ 1]) + data[i + 1:] if data else b"x"


bads = st.sampled_from(["empty", "trunc", "half", "more", "flip"])
reply = st.one_of(
    st.just(["good"]), st.just(["good"]), st.tuples(st.just("bad"), bads).map(list),
    st.tuples(st.just("status"), st.sampled_from(STATUS), st.booleans()).map(list),
    st.tuples(st.just("status"), st.sampled_from(STATUS), st.booleans()).map(list),
    st.just(["conn"]), st.just(["timeout"]),
    st.tuples(st.just("break"), st.integers(0, 4), st.sampled_from(["chunk", "conn", "os", "crash"])).map(list))
state = st.one_of(st.just("absent"), st.just("absent"), st.just("good"), bads)


@st.composite
def fetch_cases(draw):
    calls = draw(st.lists(st.fixed_dictionaries(dict(
        main=st.lists(reply, min_size=1, max_size=4), bk=st.lists(reply, min_size=1, max_size=4),
        damage=st.one_of(st.none(), st.none(), state))), min_size=1, max_size=4))
    return dict(seed=draw(gen.seeds), size=draw(st.sampled_from([0, 1, 100, 1023, 1024, 1025, 2048, 3000, 6000, 4096, 65536, 66560, 1 << 17, (1 << 17) + 7])),
                place=draw(st.sampled_from(["cache", "cache", "deep", "outside"])), init=draw(state), legacy=draw(st.one_of(st.just("absent"), state)),
                url=draw(st.sampled_from(["remote", "remote", "remote", "other"])), calls=calls)


def put(path, data, st_):
    if st_ == "absent":
        if path.exists():
            path.unlink()
        return
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_bytes(data if st_ == "good" else bad(data, st_))


def wire(r, data):
    if r[0] == "good":
        return ["ok", data]
    if r[0] == "bad":
        return ["ok", bad(data, r[1])]
    if r[0] == "status":
        return ["status", r[1], data if r[2] else b"error page"]
    if r[0] == "break":
        return ["break", data, len(data) * r[1] // 4, r[2]]
    return r


def must_succeed(main, bk, has_bk):
    """Whether the replies oblige the call on an absent file to succeed."""
    main, bk = list(main), list(bk)
    take = lambda q: q.pop(0) if len(q) > 1 else q[0]
    for _ in range(3):
        r = take(main)
        if r[0] == "good":
            return True
        if r[0] == "bad" or (r[0] == "break" and r[2] in ("os", "crash")):
            return False
        if has_bk:
            b = take(bk)
            if b[0] == "good":
                return True
            if b[0] != "status" or r[0] == "break":
                return False
        elif r[0] != "status":
            return False
    return False


def check_fetch(c):
    data = content(c["seed"], c["size"])
    md5 = hashlib.md5(data).hexdigest()
    box = tempfile.mkdtemp(dir=SCRATCH)
    uid = os.path.basename(box)
    base = Path(box) if c["place"] == "outside" else G.CACHE_ROOT / "datasets" / uid
    path = base / ("sub/dir/f.bin" if c["place"] == "deep" else "f.bin")
    legacy = None if c["place"] == "outside" else Path.home() / ".dhg" / path.relative_to(G.CACHE_ROOT)
    main = (G.REMOTE_DATASETS_ROOT if c["url"] == "remote" else "https://example.org/data/") + uid + "/f.bin"
    bk = G.BACKUP_REMOTE_DATASETS_ROOT + uid + "/f.bin"
    base.mkdir(parents=True, exist_ok=True)
    witness = [base / "other.bin"]
    put(path, data, c["init"])
    if legacy:
        put(legacy, data, c["legacy"])
        if c["legacy"] != "absent":
            witness.append(legacy.parent / "other.bin")
    for w in witness:
        w.write_bytes(b"other")
    labels = set()
    try:
        for n, call in enumerate(c["calls"]):
            if n and call["damage"] is not None:
                put(path, data, call["damage"])
                labels.add("damaged")
            valid = path.exists() and path.read_bytes() == data
            existed = path.exists()
            leg = legacy is not None and legacy.exists()
            leg_valid = leg and legacy.read_bytes() == data
            with Net() as net:
                net.serve(main, *[wire(r, data) for r in call["main"]])
                net.serve(bk, *[wire(r, data) for r in call["bk"]])
                err = None
                try:
                    res = download_and_check(main, path, md5)
                except Crash:
                    err = "crash"
                except Exception as e:
                    err = e
            where = f"call {n + 1}"
            require(set(net.log) <= ({main, bk} if c["url"] == "remote" else {main}), "%s: requests to %s", where, net.log)
            require(len(net.log) <= 12, "%s: %d requests", where, len(net.log))
            now = path.read_bytes() if path.exists() else None
            if err is None:
                require(bool(res), "%s returned %r", where, res)
                require(now == data, "%s succeeded but the file %s", where, "is missing" if now is None else "has the wrong checksum")
            if valid or (not existed and leg_valid):
                require(err is None, "%s: a valid %s file was refused: %r", where, "cached" if valid else "legacy", err)
                require(net.log == [], "%s: requests %s although a valid file is there", where, net.log)
            elif not existed and not leg and must_succeed(call["main"], call["bk"], c["url"] == "remote"):
                require(err is None, "%s: failed with %r although a server delivers the file within the retries (%s)", where, err, net.log)
            if err is not None:
                labels.add("fault")
                broke = any(r[0] == "break" for r in call["main"] + call["bk"]) and net.log
                require(now is None or now == data or broke, "%s failed with %r and leaves a corrupt file in place", where, err)
            elif n and "fault" in labels:
                labels.add("recovered")
            for w in witness:
                require(w.exists() and w.read_bytes() == b"other", "%s touched %s", where, w)
        if labels & {"fault", "damaged"} and len(c["calls"]) > 1:
            labels.add("nt")
        return labels
    finally:
        for d in (box, base, legacy.parent if legacy else None):
            if d and str(d).startswith(SCRATCH):
                shutil.rmtree(d, ignore_errors=True)


@st.composite
def md5_cases(draw):
    return dict(seed=draw(gen.seeds), size=draw(st.one_of(st.integers(0, 5000), st.sampled_from([8192, 65536, 65537, 1 << 20, (1 << 20) + 1, 3 << 20]))),
                kind=draw(st.sampled_from(["good", "good", "empty", "trunc", "half", "more", "flip", "first", "last"])))


def check_md5(c):
    data = content(c["seed"], c["size"])
    with tempfile.TemporaryDirectory(dir=SCRATCH) as td:
        f = Path(td) / "f"
        cur = data
        if c["kind"] in ("first", "last"):
            i = 0 if c["kind"] == "first" else len(data) - 1
            cur = data[:i] + bytes([data[i] ^ 0x80]) + data[i + 1:] if data else b"x"
        elif c["kind"] != "good":
            cur = bad(data, c["kind"])
        raises(lambda: check_file(f, hashlib.md5(data).hexdigest()), "a missing file")
        f.write_bytes(cur)
        for _ in range(2):
            r = check_file(f, hashlib.md5(data).hexdigest())
            require(bool(r) == (cur == data), "check_file says %r for a file that is %s", r, c["kind"])
        require(f.read_bytes() == cur, "check_file changed the file")
    return ["nt"] if c["kind"] != "good" else []


PIPES = {"rev": lambda b: b[::-1], "dbl": lambda b: b + b, "tail": lambda b: b[1:], "up": lambda b: b.upper() if isinstance(b, bytes) else [x + 1 for x in b]}


@st.composite
def data_cases(draw):
    nf = draw(st.integers(1, 5))
    items = []
    for i in range(draw(st.integers(1, 5))):
        if draw(st.sampled_from([0, 0, 0, 1])):
            items.append(dict(const=draw(st.sampled_from([7, "x", [1, 2], None, {"a": 1}, {"upon": 3}]))))
        else:
            items.append(dict(form=draw(st.sampled_from(["bytes", "bytes", "list"])), files=draw(st.lists(st.integers(0, nf - 1), min_size=1, max_size=3, unique=True)),
                              pipes=draw(st.one_of(st.none(), st.lists(st.sampled_from(sorted(PIPES)), max_size=3)))))
    n = len(items)
    op = st.one_of(st.tuples(st.sampled_from(["get", "get", "get", "raw"]), st.integers(0, n - 1), st.booleans()),
                   st.tuples(st.sampled_from(["needs", "content", "absent", "new", "bad"]), st.integers(0, n - 1), st.booleans()))
    return dict(seed=draw(gen.seeds), sizes=draw(st.lists(st.integers(1, 2500), min_size=nf, max_size=nf)), bkurl=draw(st.lists(st.sampled_from([None, None, "url", "absent"]), min_size=nf, max_size=nf)),
                items=items, ops=[list(o) for o in draw(st.lists(op, min_size=1, max_size=10))], root=draw(st.sampled_from(["default", "custom", "str"])))


def shape(it, b):
    return list(b) if it["form"] == "list" else b


def check_data(c):
    box = tempfile.mkdtemp(dir=SCRATCH)
    name = "ds" + os.path.basename(box)
    datas = [content(c["seed"] + i, s) for i, s in enumerate(c["sizes"])]
    root = {"default": None, "custom": Path(box), "str": box}[c["root"]]
    dirp = (G.DATASETS_ROOT if root is None else Path(box)) / name
    calls = []

    def loader(i):
        def load(p):
            calls.append(("load", i))
            want = [dirp / f"f{j}.bin" for j in c["items"][i]["files"]]
            got = p if isinstance(p, list) else [p]
            require(isinstance(p, list) == (len(want) > 1), "the loader of %d files got %r", len(want), p)
            same([Path(q) for q in got], want, "paths given to the loader")
            blobs = [Path(q).read_bytes() for q in got]
            for j, b in zip(c["items"][i]["files"], blobs):
                require(b == datas[j], "the loader was given a file with a wrong checksum")
            return shape(c["items"][i], b"|".join(blobs))
        return load

    def piped(i, n):
        def f(x):
            calls.append(("pipe", i, n))
            return PIPES[n](x)
        return f

    urls = []
    for j, b in enumerate(c["bkurl"]):
        urls.append("https://example.org/%s/%d" % (name, j) if b == "url" else G.REMOTE_DATASETS_ROOT + name + "/f%d.bin" % j)

    class DS(BaseData):
        def __init__(self, data_root=None):
            super().__init__(name, data_root)
            self._content = {}
            for i, it in enumerate(c["items"]):
                if "const" in it:
                    self._content["i%d" % i] = it["const"]
                    continue
                up = []
                for j in it["files"]:
                    u = dict(filename="f%d.bin" % j, md5=hashlib.md5(datas[j]).hexdigest())
                    if c["bkurl"][j] != "absent":
                        u["bk_url"] = urls[j] if c["bkurl"][j] == "url" else None
                    up.append(u)
                self._content["i%d" % i] = dict(upon=up, loader=loader(i))
                if it["pipes"] is not None:
                    self._content["i%d" % i]["preprocess"] = [piped(i, n) for n in it["pipes"]]

    labels, used = set(), set()
    try:
        with Net() as net:
            for u, d in zip(urls, datas):
                net.serve(u, ["ok", d])
            d, raw_done, got_done = DS(root) if root is not None else DS(), set(), set()
            same(calls, [], "loads at construction")
            same(net.log, [], "requests at construction")
            for k, i, flag in c["ops"]:
                it, key = c["items"][i], "i%d" % i
                before, nlog = list(calls), len(net.log)
                if k == "needs":
                    same(bool(d.needs_to_load(key)), "files" in it, "needs_to_load")
                elif k == "content":
                    same(list(d.content), ["i%d" % j for j in range(len(c["items"]))], "content")
                    require(all("i%d" % j in repr(d) for j in range(len(c["items"]))), "repr misses an item: %r", d)
                elif k == "absent":
                    raises(lambda: d["nope"], "an unknown item")
                    raises(lambda: d.raw("nope"), "an unknown item")
                elif k == "new":
                    d, raw_done, got_done = DS(root) if root is not None else DS(), set(), set()
                elif k == "bad":
                    # damage a file on disk; the next load of it must not accept the damage
                    if "files" in it:
                        f = dirp / ("f%d.bin" % it["files"][0])
                        if f.exists():
                            f.write_bytes(bad(f.read_bytes(), "flip" if flag else "trunc"))
                            labels.add("damaged")
                else:
                    if "const" in it:
                        same(d[key] if k == "get" else d.raw(key), it["const"], "constant item")
                        require(calls == before and len(net.log) == nlog, "a constant item loads something")
                        continue
                    used.add(i)
                    val = None
                    for _ in range(1 + len(it["files"])):     # damaged files are refused and fetched again by the next access
                        try:
                            val = d[key] if k == "get" else d.raw(key)
                            break
                        except ValueError:
                            require("damaged" in labels, "access to %s failed without damage", key)
                    require(val is not None, "item %s cannot be loaded although the server is fine", key)
                    want = shape(it, b"|".join(datas[j] for j in it["files"]))
                    if k == "get":
                        for n in it["pipes"] or []:
                            want = PIPES[n](want)
                    require(val == want, "%s of %s is wrong", k, key)
                    new = calls[len(before):]
                    exp = ([] if i in raw_done else [("load", i)]) + ([("pipe", i, n) for n in it["pipes"] or []] if k == "get" and i not in got_done else [])
                    same(new, exp, f"loads and pipes run by this {k} of item {i}")
                    require(set(net.log[nlog:]) <= {urls[j] for j in it["files"]}, "access to %s requests %s", key, net.log[nlog:])
                    if i in raw_done:
                        same(net.log[nlog:], [], "requests for an item that is loaded")
                    raw_done.add(i)
                    if k == "get":
                        got_done.add(i)
                    continue
                same(calls, before, f"loads caused by {k}")
                same(len(net.log), nlog, f"requests caused by {k}")
            if "damaged" not in labels:
                require(len(net.log) == len(set(net.log)), "a file was fetched twice: %s", net.log)
        if len(used) >= 2:
            labels.add("nt")
        return labels
    finally:
        for p in (Path(box), G.DATASETS_ROOT / name):
            if str(p).startswith(SCRATCH):
                shutil.rmtree(p, ignore_errors=True)


SUBS = [Sub("fetch", fetch_cases, check_fetch, quick=2400, shards=8), Sub("checksum", md5_cases, check_md5, quick=300, shards=2),
        Sub("dataset", data_cases, check_data, quick=1200)]
