"""python run.py P01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = tempfile.mkdtemp(prefix="verif-")
    os.environ.update(HOME=scratch, MPLBACKEND="Agg", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
                      VERIF_SCRATCH=scratch,
                      HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"))
    os.environ.setdefault("MPLCONFIGDIR", "/root/.cache/matplotlib" if os.access("/root/.cache/matplotlib", os.W_OK) else scratch)
    for v in ("CI", "HYPOTHESIS_PROFILE"):
        os.environ.pop(v, None)
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    deps = os.path.join(VERIF, ".deps")
    if os.path.isdir(os.path.join(deps, "hypothesis")):
        sys.path.append(deps)
    else:
        # only the pure-python pieces Hypothesis needs, never the other venv's numpy/torch
        vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        link = os.path.join(scratch, "deps")
        os.makedirs(link)
        for n in ("hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_pytestplugin.py"):
            if os.path.exists(os.path.join(vt, n)):
                os.symlink(os.path.join(vt, n), os.path.join(link, n))
        sys.path.append(link)
    sys.path.insert(0, REPO)
    try:
        import warnings
        warnings.filterwarnings("ignore")
        import hypothesis  # noqa
        import torch
        torch.set_num_threads(1)
        import dhg
        assert os.path.realpath(dhg.__file__).startswith(os.path.realpath(REPO) + "/"), dhg.__file__
        import importlib
        from harness import core
        mod = importlib.import_module("props." + a.property.lower())
        if a.replay:
            rc = core.replay_file(mod, a.replay)
        else:
            rc = core.run_property(mod, a.tier, seed, scratch)
        sys.stdout.flush()
    finally:
        if scratch.startswith(tempfile.gettempdir() + "/verif-"):
            shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
