"""Writes harness/datasets.json, the reference table of the built-in datasets (made once, from the reviewed release)."""
import json, sys
sys.path.insert(0, "/repo")
import dhg.data as D
out = {}
for n in D.__all__:
    if n == "BaseData":
        continue
    d = getattr(D, n)()
    t = out[n] = dict(dir=d.name, items={})
    for k, v in d._content.items():
        if not isinstance(v, dict):
            t["items"][k] = v
            continue
        (u,) = v["upon"]
        pipes = [getattr(p, "func", p).__name__ for p in v.get("preprocess", [])]
        kind = "txt" if u["filename"].endswith(".txt") else {(): "raw", ("to_tensor",): "float", ("to_tensor", "norm_ft"): "norm", ("to_long_tensor",): "long", ("to_bool_tensor",): "bool"}[tuple(pipes)]
        t["items"][k] = dict(file=u["filename"], md5=u["md5"], kind=kind)
json.dump(out, open("/verif/harness/datasets.json", "w"), indent=0)
print(len(out))
