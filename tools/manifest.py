#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check is claimed, the others are listed."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {}
BFS = "explicit-state breadth-first search over operation histories on the real objects, compared with a reference model after every operation"
DFS = "exhaustive enumeration of all choice sequences (inputs, configurations) on the real code within stated bounds, compared with a reference model"
RNG = "exhaustive exploration of all random-draw sequences over a finite alphabet (controlled generator) on the real code, compared with a reference model"
FLT = "exhaustive exploration of histories and write-fault points on the real code, compared with a reference model"
TECH.update({
    "C01": DFS, "C02": RNG, "C03": DFS, "C04": BFS, "C05": BFS, "C06": BFS, "C07": BFS, "C08": BFS, "C09": RNG,
    "C10": DFS, "C11": DFS, "C12": DFS, "C13": DFS, "C14": DFS, "C15": DFS, "C16": BFS, "C17": FLT, "C18": FLT,
    "C19": DFS, "C20": BFS, "C21": RNG, "C22": DFS, "C23": DFS, "C24": DFS})
NOTE = ("The deciding step enumerates every choice sequence of the families listed in the evidence file and runs each one on the code of "
        "/repo itself; the oracle is an independent model in the check, so there is no separate model to bind. The verdict holds within the "
        "finite alphabets and depths listed there; it trusts rustc, the standard library and the check's own model.")
have = {os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(root, "harness/src/bin/c*.rs"))}
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": "model checking: " + TECH[p["id"]],
                 "level": "model_checking", "level_note": NOTE} for p in props if p["id"] in have],
     "not_applicable": [{"property": p["id"], "reason": "no check yet: under construction"} for p in props if p["id"] not in have],
     "notes": "No hooks in /repo: the checks use the public API only. Known findings and repairs: known_findings.txt. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
