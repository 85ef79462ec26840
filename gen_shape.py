#!/usr/bin/env python3
"""specs/shape.json: for each function under contract, the number of loops its annotations were written for,
the helpers inlined into it and the proof hints that find no anchor. Regenerate (on the tree the contracts were written for) after a change in specs/."""
import json, os, subprocess, sys, glob
H = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
out = {}
for f in sorted(glob.glob(f"{H}/specs/*.vrs")):
    u = os.path.basename(f)[:-4]
    if subprocess.run([f"{H}/vx/target/debug/vx", R, f"{H}/specs", u, "/tmp/shape.rs", "/tmp/shape.json", ""], capture_output=True).returncode:
        continue
    for x in json.load(open("/tmp/shape.json"))["fns"]:
        if x["unit"] == u and (x["loops"] or x["lost"] or x["inlined"]):
            out.setdefault(u, {})[x["name"]] = {"inlined": sorted(set(x["inlined"])), "loops": x["loops"], "lost": sorted(x["lost"])}
json.dump(out, open(f"{H}/specs/shape.json", "w"), indent=0, sort_keys=True)
open(f"{H}/specs/shape.json", "a").write("\n")
