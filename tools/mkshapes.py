#!/usr/bin/env python3
"""Write contracts/shapes.json: the loops and closures of every function of /repo/src, as the contracts expect them.
Run by hand, on the unchanged tree, when a contract is written for changed code; no check runs it."""
import glob, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from snapver import extract, paths

extract.SHAPES = {}  # nothing is put in place of its calls here
out = {}
for p in sorted(glob.glob(os.path.join(paths.REPO, "src", "**", "*.rs"), recursive=True)):
    s = extract.load(p)
    for q, f in sorted(s.fns.items()):
        if f.get("body"):
            out[os.path.relpath(p, paths.REPO) + ":" + q] = extract.shape(f)
with open(os.path.join(paths.VERIF, "contracts", "shapes.json"), "w") as fh:
    json.dump(out, fh, indent=0, sort_keys=True)
    fh.write("\n")
print(len(out))
