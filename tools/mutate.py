"""Mutation survey: which small changes to dhg that pass the repository's tests do the checks miss?

python tools/mutate.py gen OUT.jsonl [N] [seed]      choose N mutants
python tools/mutate.py run IN.jsonl OUT.jsonl [J]    tests, then checks, J at a time; works in copies under /tmp/w/mut
Not part of any check; used to find gaps.
"""
import ast, json, os, random, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO = "/repo"
SKIP = ("dhg/data/", "dhg/_global", "__init__", "dhg/visualization/structure/defaults")
MAP = [("structure/graphs/graph.py", "P01 P05 P07 P09 P11 P10 P12 P13 P14 P33 P20 P16"),
       ("structure/graphs/directed_graph.py", "P02 P05 P07 P14 P11 P10 P12 P33 P20 P16"),
       ("structure/graphs/bipartite_graph.py", "P03 P07 P05 P14 P10 P11 P12 P33 P20 P16"),
       ("structure/hypergraphs/hypergraph.py", "P04 P06 P08 P33 P14 P09 P10 P11 P12 P16 P15 P20"),
       ("structure/base.py", "P01 P02 P03 P04 P15 P33 P10 P11 P12 P06"),
       ("nn/convs", "P17 P18 P16"), ("models/", "P18 P16 P17"), ("random/", "P19 P20 P33"),
       ("utils/dataset_split", "P21 P22 P20"), ("utils/dataset_wrapers", "P22 P20"), ("utils/structure", "P23"),
       ("metrics/retrieval", "P24 P27"), ("metrics/recommender", "P25 P27"), ("metrics/classification", "P26 P27"),
       ("metrics/", "P27 P31 P24 P25"), ("nn/loss", "P28"), ("nn/regular", "P28"), ("utils/sparse", "P28 P20"),
       ("datapipe", "P29"), ("utils/download", "P30"), ("experiments", "P31"), ("visualization", "P32"), ("utils/", "P29 P23 P19 P31")]
ALL = [f"P{i:02d}" for i in range(1, 34)]


def checks_for(f):
    for k, v in MAP:
        if k in f:
            return v.split()
    return []


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "+", ast.Pow: "*"}


class V(ast.NodeVisitor):
    def __init__(self, src, path):
        self.src, self.path, self.out = src, path, []
        self.lines = src.split("\n")
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def txt(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, kind, a, b, new):
        old = self.b[a:b].decode()
        if old != new:
            self.out.append(dict(file=self.path, kind=kind, a=a, b=b, old=old, new=new, line=self.b[:a].count(b"\n") + 1))

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__",):
            return
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
        for s in body:
            self.visit(s)

    def visit_ClassDef(self, n):
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)

    def visit_Import(self, n): pass
    visit_ImportFrom = visit_Import
    def visit_Raise(self, n): pass
    def visit_AnnAssign(self, n):
        if n.value: self.visit(n.value)

    def visit_Assert(self, n):
        a, b = self.pos(n)
        self.add("del-assert", a, b, "pass")
        self.visit(n.test)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        a, b = self.pos(n)
        self.add("del-stmt", a, b, "pass")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        a, b = self.pos(n)
        self.add("del-stmt", a, b, "pass")
        self.generic_visit(n)

    def visit_Assign(self, n):
        a, b = self.pos(n)
        if isinstance(n.targets[0], ast.Subscript):
            self.add("del-stmt", a, b, "pass")
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                self.visit(t)
        self.visit(n.value)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            _, a = self.pos(n.left); b, _ = self.pos(n.comparators[0])
            mid = self.b[a:b].decode()
            for t in ("<=", ">=", "==", "!=", "is not", "not in", "<", ">", "is", "in"):
                if t in mid:
                    self.add("cmp", a, b, mid.replace(t, CMP[type(n.ops[0])])); break
        self.generic_visit(n)

    def visit_BinOp(self, n):
        _, a = self.pos(n.left); b, _ = self.pos(n.right)
        mid = self.b[a:b].decode()
        if type(n.op) in BIN and "\n" not in mid:
            for t in ("**", "//", "+", "-", "*", "/", "%"):
                if t in mid:
                    self.add("bin", a, b, mid.replace(t, BIN[type(n.op)])); break
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for x, y in zip(n.values, n.values[1:]):
            _, a = self.pos(x); b, _ = self.pos(y)
            mid = self.b[a:b].decode()
            self.add("bool", a, b, mid.replace(" and ", " or ") if " and " in mid else mid.replace(" or ", " and "))
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        a, b = self.pos(n)
        self.add("unary", a, b, self.txt(n.operand))
        self.generic_visit(n)

    def cond(self, n):
        a, b = self.pos(n.test)
        self.add("cond-true", a, b, "True"); self.add("cond-false", a, b, "False")
        self.generic_visit(n)
    visit_If = cond
    visit_IfExp = cond
    def visit_While(self, n): self.generic_visit(n)

    def visit_Constant(self, n):
        a, b = self.pos(n); v = n.value
        if v is True or v is False:
            self.add("const", a, b, str(not v))
        elif isinstance(v, int):
            self.add("const", a, b, str(v + 1))
            if v > 0: self.add("const", a, b, str(v - 1))
        elif isinstance(v, float):
            self.add("const", a, b, repr(v * 2 if v else 1.0))

    def visit_JoinedStr(self, n): pass

    def visit_Call(self, n):
        a, b = self.pos(n)
        args = [x for x in n.args]
        if isinstance(n.func, ast.Attribute):
            # drop the call: x.m(...) -> x
            root = n.func.value
            if not (isinstance(root, ast.Name) and root.id in ("torch", "np", "F", "nn", "random", "math", "optuna", "plt", "itertools")) and not isinstance(root, ast.Call) or isinstance(root, ast.Call) and not (isinstance(root.func, ast.Name) and root.func.id == "super"):
                self.add("unwrap", a, b, self.txt(root))
        if len(args) == 1 and not n.keywords and not isinstance(args[0], ast.Starred):
            self.add("unwrap", a, b, self.txt(args[0]))
        if len(args) >= 2 and not any(isinstance(x, ast.Starred) for x in args):
            for i in range(len(args) - 1):
                p, q = self.pos(args[i])[0], self.pos(args[i + 1])[1]
                mid = self.b[self.pos(args[i])[1]:self.pos(args[i + 1])[0]].decode()
                self.add("swap-args", p, q, self.txt(args[i + 1]) + mid + self.txt(args[i]))
        if n.keywords and n.keywords[-1].arg and len(n.keywords) + len(args) > 1:
            k = n.keywords
            for i, kw in enumerate(k):
                ka, kb = self.pos(kw)
                prev = self.pos(k[i - 1])[1] if i else self.pos(args[-1])[1] if args else None
                if prev is not None:
                    self.add("del-kw", prev, kb, "")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            a, b = self.pos(n)
            self.add("unslice", a, b, self.txt(n.value))
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value: self.visit(n.value)

    def visit_Continue(self, n):
        self.add("continue", *self.pos(n), "break")

    def visit_Break(self, n):
        self.add("break", *self.pos(n), "continue")


def gen(out, N, seed):
    ms = []
    for d, _, fs in os.walk(REPO + "/dhg"):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), REPO)
            if not f.endswith(".py") or any(s in p for s in SKIP) or not checks_for(p):
                continue
            src = open(os.path.join(REPO, p)).read()
            v = V(src, p); v.visit(ast.parse(src))
            ms += v.out
    good = []
    for m in ms:
        b = open(os.path.join(REPO, m["file"]), "rb").read()
        try:
            compile(b[:m["a"]] + m["new"].encode() + b[m["b"]:], m["file"], "exec"); good.append(m)
        except SyntaxError:
            pass
    r = random.Random(seed)
    print(len(good), "mutants in all")
    r.shuffle(good)
    with open(out, "w") as f:
        for i, m in enumerate(good[:N]):
            m["id"] = i
            f.write(json.dumps(m) + "\n")


def run(inp, out, J):
    base = "/tmp/w/mut"
    done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
    ms = [m for m in map(json.loads, open(inp)) if m["id"] not in done]
    q = Queue()
    for i in range(J):
        d = f"{base}/w{i}"
        subprocess.run(f"rm -rf {d}; mkdir -p {d}/repo {d}/verif; cd /repo && git archive HEAD | tar x -C {d}/repo; cd /verif && git archive HEAD | tar x -C {d}/verif; cp -a /verif/.deps {d}/verif/", shell=True, check=True)
        q.put(d)

    def one(m):
        d = q.get()
        try:
            p = f"{d}/repo/{m['file']}"
            orig = open(p, "rb").read()
            assert orig[m["a"]:m["b"]].decode() == m["old"], m
            open(p, "wb").write(orig[:m["a"]] + m["new"].encode() + orig[m["b"]:])
            env = dict(os.environ, PYTHONPATH=d + "/repo", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", TMPDIR=d, HOME=d)
            try:
                def sh(c, t):
                    try:
                        return subprocess.run(["timeout", "-k", "5", str(t), "bash", "-c", c], capture_output=True, text=True, env=env, cwd=d + "/repo").returncode
                    except Exception:
                        return 99
                if m.get("skip_tests"):
                    t = 0
                else:
                    t = sh("/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -x --timeout=60 --ignore=tests/data", 240)
                m["tests"] = t
                if t == 0:
                    m["caught"] = None
                    m["checks"] = {}
                    for pid in m.get("props") or checks_for(m["file"]):
                        env["VERIF_REPO"] = d + "/repo"; env["VERIF_SEED"] = "1"; env["VERIF_SCALE"] = os.environ.get("VERIF_SCALE", "0.3")
                        rc = sh(f"cd {d}/verif && ./check.sh {pid} quick", 600)
                        m["checks"][pid] = rc
                        if rc == 1:
                            m["caught"] = pid; break
            finally:
                open(p, "wb").write(orig)
            with open(out, "a") as f:
                f.write(json.dumps(m) + "\n")
        finally:
            q.put(d)
    with ThreadPoolExecutor(J) as ex:
        list(ex.map(one, ms))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9, int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 6)
