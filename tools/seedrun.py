"""Runs, for every planted change, the check of its property and of every other one given (default: only its own)
on a worktree with the change, and writes tools/seeded_results.json for DESIGN.md."""
import json, os, subprocess, sys
V = "/verif"
ROOT = "/tmp/w/pl"
sh = lambda c: subprocess.run(c, shell=True, capture_output=True, text=True)
if not os.path.exists(ROOT):
    sh(f"git -C /repo worktree add --detach {ROOT} HEAD")
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
res = json.load(open(V + "/tools/seeded_results.json")) if os.path.exists(V + "/tools/seeded_results.json") else {}
for d in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    pid = json.load(open(f"{V}/seeded/{d}/meta.json"))["property"]
    sh(f"git -C {ROOT} checkout -q --force {head}; git -C {ROOT} checkout -q -- .")
    r = sh(f"git -C {ROOT} apply {V}/seeded/{d}/patch.diff")
    if r.returncode:
        print(d, "does not apply", r.stderr)
        continue
    c = sh(f"cd {V} && VERIF_SEED=1 VERIF_REPO={ROOT} ./check.sh {pid} quick")
    res[d] = "yes" if c.returncode == 1 else f"NO (exit {c.returncode})"
    print(d, pid, res[d], flush=True)
    json.dump(res, open(V + "/tools/seeded_results.json", "w"), indent=1, sort_keys=True)
sh(f"git -C {ROOT} checkout -q -- .")
